// emplacement_array under throwing constructors and failing allocations: E01.
#include "../sim/rt.h"
#include <muu/emplacement_array.h>
#include <cstring>
#include <exception>
#include <memory>
#include <new>
#include <string>
#include <unordered_map>

enum Op
{
	OP_NEW,		// a: slot, b: capacity (negative: huge, see huge()), c: allocations may fail
	OP_EMPLACE, // a: slot, b: how many, c: constructors may throw, d: form
	OP_WITH,	// a: slot, b: how many, c: constructors may throw, d: form
	OP_CLEAR,	// a: slot
	OP_MOVE,	// a: from, b: to (which is destroyed first)
	OP_ASSIGN,	// a: from, b: to (may be the same)
	OP_DESTROY, // a: slot
	OP_FILL,	// a: slot: to its capacity
	OP_COUNT
};
static const char* const op_names[] = { "construct", "emplace_back", "emplace_back_with", "clear", "move_construct", "move_assign", "destroy", "fill" };
static constexpr int SLOTS = 4, TYPES = 8, MAX_ELEMS = 200000;
static int64_t clampi(int64_t v, int64_t lo, int64_t hi)
{
	return v < lo ? lo : v > hi ? hi : v;
}

static void gen(Rng& r, Scenario& sc)
{
	auto& c		   = sc.cfg;
	c["type"]	   = r.range(0, TYPES - 1);
	c["budget1"]   = 200000;
	c["budget2"]   = 400000;
	static const int64_t th[] = { 0, 20000, 100000, 300000, 1000000 };
	c["f_callback_throws"]	  = r.pick(th);
	c["f_alloc_fails"]		  = r.pick(th);
	const int n				  = (int)r.range(1, r.chance(0.3) ? 40 : 12);
	static const int64_t caps[] = { 0, 1, 1, 2, 3, 4, 5, 7, 8, 16, 17, 33, 64, 100 };
	static const int64_t many[] = { 127, 128, 254, 255, 256, 257, 300, 511, 513, 1000 };
	const bool large			= r.chance(0.02);
	const bool huge				= r.chance(0.0005);
	if (large || huge)
	{
		c["budget1"] *= huge ? 500 : 20;
		c["budget2"] *= huge ? 500 : 20;
		sc.ops.push_back({ OP_NEW, 0, 0, huge ? r.range(65530, 66000) : r.pick(many), 0, 0 });
		sc.ops.push_back({ OP_FILL, 0, 0, 0, 0, 0 });
	}
	for (int i = 0; i < (huge ? std::min(n, 3) : large ? std::min(n, 8) : n); i++)
	{
		const int64_t s = r.range(0, r.chance(0.5) ? 1 : SLOTS - 1), t = r.range(0, r.chance(0.5) ? 1 : SLOTS - 1);
		switch (r.below(12))
		{
			case 0:
			case 1: sc.ops.push_back({ OP_NEW, 0, s, r.chance(0.08) ? -r.range(1, 6) : large && r.chance(0.7) ? r.pick(many) : r.pick(caps), r.chance(0.4), 0 }); break;
			case 2:
			case 3:
			case 4: sc.ops.push_back({ OP_EMPLACE, 0, s, r.range(1, 6), r.chance(0.6), r.range(0, 3) }); break;
			case 5:
			case 6: sc.ops.push_back({ OP_WITH, 0, s, r.range(1, 4), r.chance(0.6), r.range(0, 3) }); break;
			case 7: sc.ops.push_back({ OP_CLEAR, 0, s, 0, 0, 0 }); break;
			case 8: sc.ops.push_back({ OP_MOVE, 0, s, t, 0, 0 }); break;
			case 9: sc.ops.push_back({ OP_ASSIGN, 0, s, t, 0, 0 }); break;
			case 10: sc.ops.push_back({ OP_DESTROY, 0, s, 0, 0, 0 }); break;
			default: sc.ops.push_back({ OP_FILL, 0, s, 0, 0, 0 }); break;
		}
	}
}

// ------------------------------------------------------------------ model
struct Slot
{
	bool exists	   = false;
	size_t cap	   = 0;
	uintptr_t base = 0; // where the first element went
	std::vector<int> ids;
	std::vector<uintptr_t> at;
};
struct State
{
	Scenario sc;
	Slot s[SLOTS];
	std::unordered_map<uintptr_t, int> live; // element by address
	std::vector<int> ctors, dtors;
	bool throwing = false;
	int next	  = 0;
};
static State* X;

struct Failed : std::exception
{};
static void maybe_throw()
{
	bool t;
	{
		Quiet q;
		t = X->throwing;
	}
	if (t && sim_fault(FK_THROW, 1))
		throw Failed{};
}
static void element_made(void* at, int id, size_t align)
{
	void* volatile addr = at; // (the compiler takes the alignment of objects for granted)
	void* const p		= addr;
	Quiet q;
	if (id < 0 || id >= (int)X->ctors.size())
		sim_violation("value", "an element was constructed with corrupted arguments");
	if ((uintptr_t)p % align)
		sim_violation("alignment", "element %d was constructed at %p, which is not aligned to %zu", id, p, align);
	auto [it, fresh] = X->live.emplace((uintptr_t)p, id);
	if (!fresh)
		sim_violation("overlap", "element %d was constructed where element %d still lives", id, it->second);
	X->ctors[(size_t)id]++;
	sim_event(0x31, (uint64_t)id);
}
static void element_gone(void* p, int id)
{
	Quiet q;
	auto it = X->live.find((uintptr_t)p);
	if (it == X->live.end())
		sim_violation("lifetime", "an element was destroyed at %p, where none lives", p);
	if (it->second != id)
		sim_violation("value", "element %d contains the value of element %d when it is destroyed", it->second, id);
	X->live.erase(it);
	if (++X->dtors[(size_t)id] > 1)
		sim_violation("lifetime", "element %d was destroyed %d times", id, X->dtors[(size_t)id]);
	sim_event(0x32, (uint64_t)id);
}

// ------------------------------------------------------------------ element types
template <typename T>
struct no_move
{
	no_move()						   = default;
	no_move(const no_move&)			   = delete;
	no_move& operator=(const no_move&) = delete;
};
struct Base
{
	static constexpr bool tracked = true, may_throw = true;
};
struct Plain : Base, no_move<Plain> // throws before anything else
{
	int id;
	int64_t pad = 5;
	explicit Plain(int i) : id{ (maybe_throw(), i) }
	{
		element_made(this, id, alignof(Plain));
	}
	~Plain()
	{
		element_gone(this, id);
		id = -1;
	}
};
struct Member
{
	std::string text;
};
struct Owner : Base, no_move<Owner> // owns memory; throws after a member has been made
{
	Member m;
	int id;
	Owner(int i, const char* t) : m{ std::string(60, t[0]) }, id{ i }
	{
		maybe_throw();
		element_made(this, id, alignof(Owner));
	}
	explicit Owner(int i) : Owner(i, "x") // (an exception after the delegated constructor would run the destructor)
	{}
	~Owner()
	{
		element_gone(this, id);
		id = -1;
	}
};
struct alignas(64) Wide : Base, no_move<Wide>
{
	int id;
	char fill[90];
	explicit Wide(int i) : id{ i }
	{
		maybe_throw();
		memset(fill, 7, sizeof fill);
		element_made(this, id, alignof(Wide));
	}
	~Wide()
	{
		element_gone(this, id);
		id = -1;
	}
};
struct alignas(512) Page : Base, no_move<Page>
{
	int id;
	explicit Page(int i) noexcept(false) : id{ i }
	{
		maybe_throw();
		element_made(this, id, alignof(Page));
	}
	~Page()
	{
		element_gone(this, id);
		id = -1;
	}
};
struct Safe : no_move<Safe> // cannot throw
{
	static constexpr bool tracked = true, may_throw = false;
	int id;
	explicit Safe(int i) noexcept : id{ i }
	{
		element_made(this, id, alignof(Safe));
	}
	~Safe()
	{
		element_gone(this, id);
		id = -1;
	}
};
struct MoveOnly : Base
{
	std::unique_ptr<int> v;
	int id;
	explicit MoveOnly(int i) : v{ std::make_unique<int>(i) }, id{ i }
	{
		maybe_throw();
		element_made(this, id, alignof(MoveOnly));
	}
	MoveOnly(MoveOnly&& o) : v{ std::move(o.v) }, id{ o.id }
	{
		// nothing ever moves elements
		Quiet q;
		sim_violation("moved", "element %d was moved", id);
	}
	~MoveOnly()
	{
		const int was = v ? *v : -1;
		element_gone(this, was);
		id = -1;
	}
};
struct Trivial
{
	static constexpr bool tracked = false, may_throw = false;
	int id;
	short more;
	explicit Trivial(int i) noexcept : id{ i }, more{ 3 }
	{}
};
struct Odd : Base, no_move<Odd> // 3 bytes, no alignment
{
	unsigned char b[3];
	struct Id
	{
		operator int() const
		{
			return p[0] | p[1] << 8 | p[2] << 16;
		}
		const unsigned char* p;
	};
	explicit Odd(int i)
	{
		b[0] = (unsigned char)i;
		b[1] = (unsigned char)(i >> 8);
		b[2] = (unsigned char)(i >> 16);
		maybe_throw();
		element_made(this, i, 1);
	}
	~Odd()
	{
		element_gone(this, b[0] | b[1] << 8 | b[2] << 16);
		b[0] = b[1] = b[2] = 0xFF;
	}
};
template <typename T>
static int id_of(const T& t)
{
	if constexpr (std::is_same_v<T, Odd>)
		return t.b[0] | t.b[1] << 8 | t.b[2] << 16;
	else
		return t.id;
}

// ------------------------------------------------------------------ driving one array type
template <typename T>
struct Driver
{
	using A		= muu::emplacement_array<T>;
	A* slot[SLOTS] = {};

	static int fresh()
	{
		Quiet q;
		X->ctors.push_back(0);
		X->dtors.push_back(0);
		return X->next++;
	}
	static bool room()
	{
		Quiet q;
		return X->next < MAX_ELEMS;
	}
	static void arm(bool throwing, bool alloc)
	{
		{
			Quiet q;
			X->throwing = throwing;
		}
		sim_arm(FK_ALLOC, alloc);
	}
	void check(int s, const char* when)
	{
		if (!slot[s])
			return;
		A& a		 = *slot[s];
		const A& ca	 = a;
		const size_t n = ca.size(), cap = ca.capacity();
		size_t want, wcap;
		{
			Quiet q;
			want = X->s[s].ids.size();
			wcap = X->s[s].cap;
			if (n != want)
				sim_violation("size", "an array that should hold %zu elements holds %zu (%s)", want, n, when);
			if (ca.empty() != !want)
				sim_violation("size", "empty() is wrong for an array of %zu elements (%s)", want, when);
			if (cap < wcap)
				sim_violation("capacity", "an array made for %zu elements reports a capacity of %zu (%s)", wcap, cap, when);
		}
		if (n)
		{
			if (&a.front() != &a[0] || &a.back() != &a[n - 1] || &ca.front() != &ca[0] || &ca.back() != &ca[n - 1])
				sim_violation("access", "front() or back() do not refer to the first and last element (%s)", when);
			if (a.data() != &a[0] || ca.data() != a.data() || a.begin() != a.data() || ca.begin() != a.data() || ca.cbegin() != a.data() || begin(a) != a.begin() || begin(ca) != ca.begin())
				sim_violation("access", "data() and begin() disagree (%s)", when);
		}
		if ((size_t)(a.end() - a.begin()) != n || (size_t)(ca.end() - ca.begin()) != n || (size_t)(ca.cend() - ca.cbegin()) != n || (size_t)(end(a) - begin(a)) != n)
			sim_violation("access", "the iterators do not span %zu elements (%s)", n, when);
		for (size_t i = 0; i < n; i++)
		{
			const int id	  = id_of(a[i]);
			const uintptr_t p = (uintptr_t)&a[i];
			Quiet q;
			const Slot& m = X->s[s];
			if (id != m.ids[i])
				sim_violation("value", "element %zu has the value %d instead of %d (%s)", i, id, m.ids[i], when);
			if (p != m.at[i])
				sim_violation("address", "element %d moved from %#zx to %#zx (%s)", id, (size_t)m.at[i], (size_t)p, when);
			if (i && p != m.at[0] + i * sizeof(T))
				sim_violation("address", "the elements are not contiguous (%s)", when);
			if (T::tracked)
			{
				auto it = X->live.find(p);
				if (it == X->live.end() || it->second != id)
					sim_violation("lifetime", "element %d is in the array but not alive (%s)", id, when);
			}
		}
	}
	void check_all(const char* when)
	{
		size_t in_arrays = 0;
		for (int s = 0; s < SLOTS; s++)
		{
			check(s, when);
			Quiet q;
			in_arrays += slot[s] ? X->s[s].ids.size() : 0;
		}
		Quiet q;
		if (T::tracked && X->live.size() != in_arrays)
			sim_violation("lifetime", "%zu elements are alive although the arrays hold %zu (%s)", X->live.size(), in_arrays, when);
	}
	static size_t huge(int64_t k)
	{
		switch (k)
		{
			case -1: return ~size_t{};
			case -2: return ~size_t{} / sizeof(T) + 1;
			case -3: return ~size_t{} / sizeof(T) + 2;
			case -4: return ~size_t{} / sizeof(T);
			case -5: return (size_t{ 1 } << 63) + 1;
			default: return (~size_t{} >> 1) / sizeof(T) + 1;
		}
	}
	void make(int s, int64_t c, bool fail)
	{
		drop(s);
		const size_t cap	= c < 0 ? huge(c) : (size_t)clampi(c, 0, 70000);
		const size_t before = sim_live_allocs();
		bool thrown = false, standard = true;
		void* raw = ::operator new(sizeof(A));
		A* a	  = nullptr;
		arm(false, fail);
		try
		{
			a = ::new (raw) A(cap);
		}
		catch (const std::exception&)
		{
			thrown = true;
		}
		catch (...)
		{
			thrown	 = true;
			standard = false;
		}
		arm(false, false);
		if (thrown)
		{
			::operator delete(raw);
			Quiet q;
			sim_event(0x33, 1);
			if (!standard)
				sim_violation("exception", "the constructor threw something that is not derived from std::exception");
			if (!fail && c >= 0)
				sim_violation("spurious", "the constructor threw although memory was not short");
			if (sim_live_allocs() != before)
				sim_report_leaks("leak", before);
			sim_probe(c < 0 ? "impossible capacity refused" : "constructor threw");
			return;
		}
		slot[s] = a;
		Quiet q;
		if (c < 0)
			sim_violation("capacity", "an array of %zu elements of %zu bytes was constructed, which cannot be stored", cap, sizeof(T));
		X->s[s]		   = Slot{};
		X->s[s].exists = true;
		X->s[s].cap	   = cap;
		sim_event(0x33, 0);
	}
	void drop(int s)
	{
		if (!slot[s])
			return;
		A* a	= slot[s];
		slot[s] = nullptr;
		a->~A();
		::operator delete((void*)a);
		Quiet q;
		X->s[s] = Slot{};
	}
	template <typename F>
	void emplace(int s, bool throwing, F&& f)
	{
		if (!slot[s])
			return;
		A& a = *slot[s];
		size_t want, wcap;
		{
			Quiet q;
			want = X->s[s].ids.size();
			wcap = X->s[s].cap;
		}
		if (want >= wcap || !room())
			return;
		const int id  = fresh();
		bool ok		  = false;
		const T* made = nullptr;
		arm(throwing, throwing);
		try
		{
			made = f(a, id);
			ok	 = true;
		}
		catch (const Failed&)
		{
		}
		catch (const std::bad_alloc&)
		{
		}
		arm(false, false);
		if (!ok)
		{
			Quiet q;
			sim_event(0x34, (uint64_t)id);
			sim_probe(want ? "construction of a later element threw" : "construction of the first element threw");
			if (X->ctors[(size_t)id] != X->dtors[(size_t)id])
				sim_violation("lifetime", "an element whose construction failed is still alive");
			return;
		}
		{
			Quiet q;
			Slot& m = X->s[s];
			if (T::tracked && X->ctors[(size_t)id] != 1)
				sim_violation("lifetime", "element %d was constructed %d times", id, X->ctors[(size_t)id]);
			m.ids.push_back(id);
			const volatile uintptr_t addr = (uintptr_t)made;
			const uintptr_t p			  = addr;
			if (p % alignof(T))
				sim_violation("alignment", "element %d is at %p, which is not aligned to %zu", id, (const void*)made, alignof(T));
			if (m.at.empty())
				m.base = m.base ? m.base : p;
			m.at.push_back(m.base + (m.ids.size() - 1) * sizeof(T));
			if (p != m.at.back())
				sim_violation("address", "element %d was put at %#zx instead of %#zx", id, (size_t)p, (size_t)m.at.back());
		}
	}
	void emplace_form(int s, bool throwing, int64_t form)
	{
		emplace(s, throwing,
				[&](A& a, int id) -> const T*
				{
					if constexpr (std::is_same_v<T, Owner>)
						if (form & 1)
							return &a.emplace_back(id, "abc");
					if (form & 2)
					{
						const int& r = id;
						return &a.emplace_back(r);
					}
					return &a.emplace_back(static_cast<int&&>(id));
				});
	}
	void with_form(int s, bool throwing, int64_t form)
	{
		emplace(s, throwing,
				[&](A& a, int id) -> const T*
				{
					int calls	  = 0;
					const auto fn = [&](void* p) -> T*
					{
						calls++;
						if ((form & 1) && T::may_throw)
							maybe_throw();
						T* t = ::new (p) T(id);
						if ((form & 2) && T::may_throw)
						{
							try
							{
								maybe_throw();
							}
							catch (...)
							{
								t->~T();
								throw;
							}
						}
						return t;
					};
					const T* t = &a.emplace_back_with(fn);
					if (calls != 1)
						sim_violation("calls", "the construction functor was called %d times", calls);
					return t;
				});
	}
	void run()
	{
		size_t n;
		{
			Quiet q;
			n = X->sc.ops.size();
		}
		for (size_t i = 0; i < n; i++)
		{
			SimOp o;
			{
				Quiet q;
				o = X->sc.ops[i];
			}
			const int s = (int)(((o.a % SLOTS) + SLOTS) % SLOTS), t = (int)(((o.b % SLOTS) + SLOTS) % SLOTS);
			switch (o.kind)
			{
				case OP_NEW: make(s, clampi(o.b, -6, 70000), o.c & 1); break;
				case OP_EMPLACE:
					for (int64_t k = 0; k < clampi(o.b, 0, 50); k++)
					{
						emplace_form(s, (o.c & 1) && T::may_throw, o.d);
						check(s, "after emplace_back");
					}
					break;
				case OP_WITH:
					for (int64_t k = 0; k < clampi(o.b, 0, 50); k++)
					{
						with_form(s, (o.c & 1) && T::may_throw, o.d);
						check(s, "after emplace_back_with");
					}
					break;
				case OP_FILL:
					if (slot[s])
					{
						size_t left;
						{
							Quiet q;
							left = X->s[s].cap - X->s[s].ids.size();
						}
						for (size_t k = 0; k < left; k++)
							emplace_form(s, false, (int64_t)k);
					}
					break;
				case OP_CLEAR:
					if (slot[s])
					{
						slot[s]->clear();
						Quiet q;
						X->s[s].ids.clear();
						X->s[s].at.clear();
					}
					break;
				case OP_MOVE:
				{
					if (s == t || !slot[s])
						break;
					drop(t);
					void* raw = ::operator new(sizeof(A));
					slot[t]	  = ::new (raw) A(static_cast<A&&>(*slot[s]));
					Quiet q;
					X->s[t] = std::move(X->s[s]);
					X->s[s] = Slot{};
					X->s[s].exists = true;
					break;
				}
				case OP_ASSIGN:
				{
					if (!slot[s] || !slot[t])
						break;
					A& from = *slot[s];
					A& ret	= (*slot[t] = static_cast<A&&>(from));
					if (&ret != slot[t])
						sim_violation("access", "assignment does not return its left-hand side");
					Quiet q;
					if (s != t)
					{
						X->s[t]		   = std::move(X->s[s]);
						X->s[s]		   = Slot{};
						X->s[s].exists = true;
					}
					break;
				}
				case OP_DESTROY: drop(s); break;
			}
			check_all(o.kind >= 0 && o.kind < OP_COUNT ? op_names[o.kind] : "?");
			Quiet q;
			sim_event(0x35, i);
		}
		for (int s = 0; s < SLOTS; s++)
			drop(s);
		Quiet q;
		if (!X->live.empty())
			sim_violation("lifetime", "%zu elements outlive their arrays", X->live.size());
		for (size_t i = 0; i < X->ctors.size(); i++)
			if (X->ctors[i] != X->dtors[i])
				sim_violation("lifetime", "element %zu was constructed %d times and destroyed %d times", i, X->ctors[i], X->dtors[i]);
	}
};

static void begin(const Scenario& sc)
{
	X	  = new State;
	X->sc = sc;
	sim_race_mode(0);
}
template <typename T>
static void drive()
{
	auto* d = new Driver<T>;
	d->run();
	delete d;
}
static void body()
{
	const size_t base = sim_live_allocs();
	int64_t type;
	{
		Quiet q;
		type = X->sc.get("type", 0);
	}
	switch (((type % TYPES) + TYPES) % TYPES)
	{
		case 0: drive<Plain>(); break;
		case 1: drive<Owner>(); break;
		case 2: drive<Wide>(); break;
		case 3: drive<Page>(); break;
		case 4: drive<Safe>(); break;
		case 5: drive<MoveOnly>(); break;
		case 6: drive<Trivial>(); break;
		default: drive<Odd>(); break;
	}
	Quiet q;
	sim_report_leaks("leak", base);
}
static void end(int)
{
	delete X;
	X = nullptr;
}
static int stuck(std::string& why)
{
	why = "an operation on an array never returns";
	return 1;
}

static const Workload wl = { SIM_WL_NAME, gen, begin, body, end, stuck, op_names, OP_COUNT };
extern "C" __attribute__((visibility("default"))) const Workload* sim_workload()
{
	return &wl;
}

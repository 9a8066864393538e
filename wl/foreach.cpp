// for_each over integer ranges and collections, many client threads: T05 T06 T07.
#include "pool_common.h"
#include <muu/span.h>
#include <muu/emplacement_array.h>
#include <algorithm>
#include <array>
#include <forward_list>
#include <list>
#include <map>
#include <set>

enum Op
{
	OP_RANGE, // a: value type, b: number of values, c: where the range lies, d: flags
	OP_COLL,  // a: container, b: number of elements, c: form of the call, d: flags
	OP_ENQ,	  // a: behaviour argument
	OP_WAIT,
	OP_SLEEP,
	OP_COUNT
};
static const char* const op_names[] = { "for_each_range", "for_each_collection", "enqueue", "wait", "sleep" };

// flags
static constexpr int64_t FL_BACKWARDS = 1;
static int fl_arity(int64_t d)
{
	return (int)((d >> 1) & 3) % 3;
}
static int fl_kind(int64_t d)
{
	return (int)((d >> 3) & 7);
}
static int fl_beh(int64_t d)
{
	return (int)((d >> 6) & 3);
}
static constexpr int64_t FL_OVERLOAD = 1 << 8;
static constexpr int64_t FL_HUGE	 = 1 << 9; // far more values than can be visited: 'b' says how many
static int64_t mk(Rng& r, bool quick)
{
	int64_t d = 0;
	if (r.chance(0.3))
		d |= FL_BACKWARDS;
	static const int64_t ar[] = { 2, 2, 2, 1, 1, 0 };
	d |= r.pick(ar) << 1;
	d |= r.range(0, 7) << 3;
	static const int64_t bh[] = { 0, 0, 1, 1, 2, 3 };
	d |= (quick ? 0 : r.pick(bh)) << 6;
	if (r.chance(0.2))
		d |= FL_OVERLOAD;
	return d;
}

typedef unsigned __int128 u128;
typedef __int128 i128;

enum class E8 : unsigned char
{
};
enum class E32 : int
{
};
enum class E64 : long long
{
};
enum EPlain
{
	e0,
	e_max = 0x7fffffff
};

struct Call
{
	int op		   = -1;
	bool coll	   = false;
	bool backwards = false;
	int arity	   = 0, beh = 0;
	u128 first	   = 0;
	int64_t n	   = 0; // values to visit
	u128 huge	   = 0; // not 0: so many that each batch is stopped after a few
	int stop	   = 0;
	struct Huge
	{
		u128 first = 0, last = 0;
		int size = 0, dir = 0;
		bool parked = false;
	};
	std::map<size_t, Huge> hb;
	std::set<u128> hseen;
	bool called = false, returned = false;
	std::vector<unsigned char> visits;
	int64_t count = 0, done = 0;
	struct Batch
	{
		int64_t last = -1, size = 0, fiber = -1;
		int dir		 = 0;
		bool running = false;
	};
	std::map<size_t, Batch> batches;
};
struct EachState
{
	std::vector<Call> c;
	std::vector<std::vector<int>> client_ops;
	std::vector<int> op_call;
	int64_t plain_done = 0, plain = 0;
	size_t workers = 0;
	int huge	   = -1;
	int man_call[32], coll_man[8];
};
static EachState* E;
struct Mem
{
	int64_t scratch[64][64];
};
static Mem* M;
static muu::thread_pool* pool;

static const char* prop_of(const Call& c)
{
	return c.coll ? "T06" : "T05";
}
static bool mine(const Call& c)
{
	return S->prop == prop_of(c);
}

static bool is_huge(int k)
{
	Quiet q;
	return k >= 0 && k < (int)E->c.size() && E->c[(size_t)k].huge;
}
static int hold;
// the same of a call too long to finish: the first few visits of each batch are looked at, then it is held for good
static void on_huge(int k, u128 off, size_t batch) noexcept
{
	bool park = false;
	{
		Quiet q;
		sim_event(0x85, ((uint64_t)(unsigned)k << 32) ^ (uint64_t)off);
		Call& c = E->c[(size_t)k];
		c.count++;
		if (mine(c))
		{
			if (!c.called)
				sim_violation("value", "the task of for_each call %d was invoked before the call", k);
			if (c.arity)
			{
				if (off >= c.huge)
					sim_violation("value", "for_each call %d visited something outside its range", k);
				if (!c.hseen.insert(off).second)
					sim_violation("twice", "for_each call %d visited value %llu twice", k, (unsigned long long)off);
			}
		}
		if (c.arity == 2 && is("T07") && batch >= E->workers)
			sim_violation("batch_index", "for_each call %d passed batch index %zu in a pool of %zu workers", k, batch, E->workers);
		auto& b = c.hb[c.arity == 2 ? batch : (size_t)sim_fiber()];
		if (c.arity == 2 && is("T07") && b.size)
		{
			const int step = off - b.last == 1 ? 1 : b.last - off == 1 ? -1 : 0;
			if (!step || (step < 0 && !c.backwards) || (b.dir && b.dir != step))
				sim_violation("order", "batch %zu of for_each call %d visited value %llu right after %llu", batch, k, (unsigned long long)off, (unsigned long long)b.last);
			b.dir = step;
		}
		if (!b.size++)
			b.first = off;
		b.last = off;
		park = b.parked = b.size >= c.stop;
	}
	while (park)
		sim_block(&hold);
	sim_yield();
}
// after a call over a huge range: all its batches must turn up
static void see_huge(int k)
{
	const uint64_t t0 = sim_now();
	for (;;)
	{
		{
			Quiet q;
			Call& c		  = E->c[(size_t)k];
			size_t parked = 0;
			for (auto& [i, b] : c.hb)
				parked += b.parked;
			const bool over = sim_now() > std::max(t0, sim_last_fault_time()) + 5000000000ull;
			if (over && !parked && mine(c))
				sim_violation("lost", "for_each call %d over more than %lld values invoked its task only %lld times", k, (long long)0xffff, (long long)c.count);
			if (parked == E->workers && is("T07") && c.arity == 2)
			{
				// where each batch starts tells how long they are
				std::vector<u128> at;
				for (auto& [i, b] : c.hb)
					at.push_back(b.dir < 0 ? c.huge - 1 - b.first : b.first);
				std::sort(at.begin(), at.end());
				at.push_back(c.huge);
				u128 mn = ~(u128)0, mx = 0;
				for (size_t i = 1; i < at.size(); i++)
				{
					mn = std::min(mn, at[i] - at[i - 1]);
					mx = std::max(mx, at[i] - at[i - 1]);
				}
				if (at[0] != 0 || mx - mn > 1)
					sim_violation("balance", "for_each call %d over a huge range made batches of very different sizes", k);
			}
			if (parked == E->workers)
				sim_probe("huge_range_split");
			if (over || parked >= E->workers)
				sim_stop();
		}
		sim_sleep(20000000);
	}
}

// one invocation of the task of call 'k' for the idx-th value (-1: unknown)
static void on_visit(int k, int64_t idx, size_t batch) noexcept
{
	if (is_huge(k))
	{
		on_huge(k, (u128)(i128)idx, batch);
		return;
	}
	int beh;
	{
		Quiet q;
		sim_event(0x81, ((uint64_t)(unsigned)k << 32) ^ (uint64_t)idx);
		if (k < 0 || k >= (int)E->c.size())
		{
			if (is("T05") || is("T06"))
				sim_violation("value", "a for_each task was invoked with a corrupted capture (%d)", k);
			return;
		}
		Call& c = E->c[(size_t)k];
		beh		= c.beh;
		if (mine(c) && !c.called)
			sim_violation("value", "the task of for_each call %d was invoked before the call", k);
		c.count++;
		if (mine(c))
		{
			if (c.count > c.n)
				sim_violation("extra", "for_each call %d over %lld values invoked its task %lld times", k, (long long)c.n, (long long)c.count);
			if (c.arity)
			{
				if (idx < 0 || idx >= c.n)
					sim_violation("value", "for_each call %d visited something outside its range (%lld of %lld)", k, (long long)idx, (long long)c.n);
				if (++c.visits[(size_t)idx] > 1)
					sim_violation("twice", "for_each call %d visited value %lld twice", k, (long long)idx);
			}
		}
		if (c.arity == 2 && is("T07"))
		{
			if (batch >= E->workers)
				sim_violation("batch_index", "for_each call %d passed batch index %zu in a pool of %zu workers", k, batch, E->workers);
			auto& b = c.batches[batch];
			if (b.running)
				sim_violation("overlap", "two invocations of for_each call %d with batch index %zu run at the same time", k, batch);
			if (b.size)
			{
				const int64_t step = idx - b.last;
				const bool ok	   = c.backwards ? (step == 1 || step == -1) && (!b.dir || b.dir == step) : step == 1;
				if (!ok)
					sim_violation("order", "batch %zu of for_each call %d visited value %lld right after %lld", batch, k, (long long)idx, (long long)b.last);
				b.dir = (int)step;
			}
			b.running = true;
			b.last	  = idx;
			b.size++;
		}
	}
	const bool scratch = k < 64 && batch < 64;
	int64_t before	   = 0;
	if (scratch)
		before = M->scratch[k][batch];
	switch (beh)
	{
		case 1: sim_yield(); break;
		case 2:
			for (int i = 0; i < 6; i++)
				sim_yield();
			break;
		case 3: sim_sleep(20000); break;
		default: break;
	}
	if (scratch)
		M->scratch[k][batch] = before + 1;
	{
		Quiet q;
		Call& c = E->c[(size_t)k];
		c.done++;
		if (c.arity == 2 && is("T07"))
			c.batches[batch].running = false;
		sim_event(0x82, (uint64_t)k);
	}
}

template <typename T>
static void visit_value(int k, T v, size_t batch) noexcept
{
	u128 first;
	{
		Quiet q;
		first = k >= 0 && k < (int)E->c.size() ? E->c[(size_t)k].first : 0;
	}
	const u128 off = (u128)(i128)v - first;
	if (is_huge(k))
		on_huge(k, off, batch);
	else
		on_visit(k, off > 1000000 ? -1 : (int64_t)off, batch);
}

// ------------------------------------------------------------------ callables
struct Guarded // knows whether it is alive and where it lives
{
	int call;
	bool moved = false;
	const volatile void* volatile self;
	explicit Guarded(int k) noexcept : call(k), self(this)
	{}
	Guarded(const Guarded& o) noexcept : call(o.call), self(this)
	{
		o.alive("copied");
		o.whole("copied");
	}
	Guarded(Guarded&& o) noexcept : call(o.call), moved(o.moved), self(this)
	{
		o.alive("moved");
		o.moved = true;
	}
	void whole(const char* what) const noexcept
	{
		if (moved && (is("T05") || is("T06")))
			sim_violation("moved_from", "the task of for_each call %d was %s although it had been moved from", call, what);
	}
	~Guarded()
	{
		alive("destroyed");
		self = nullptr;
	}
	void alive(const char* what) const noexcept
	{
		if (self != this && (is("T05") || is("T06")))
			sim_violation("lifetime", "a for_each task was %s outside its lifetime", what);
	}
};
template <typename T, int Arity>
struct Stored : Guarded
{
	using Guarded::Guarded;
	void operator()(T v, size_t b) noexcept
		requires(Arity == 2)
	{
		alive("invoked");
		whole("invoked");
		visit_value(call, v, b);
	}
	void operator()(T v) noexcept
		requires(Arity == 1)
	{
		alive("invoked");
		whole("invoked");
		visit_value(call, v, NO_WORKER);
	}
	void operator()() noexcept
		requires(Arity == 0)
	{
		alive("invoked");
		whole("invoked");
		on_visit(call, -1, NO_WORKER);
	}
};
template <typename T, int Arity>
struct Big : Stored<T, Arity>
{
	char pad[96];
	using Stored<T, Arity>::Stored;
	Big(const Big&) = delete;
};
template <typename T>
static int type_slot();
template <typename T>
struct Manifest
{
	void operator()(T v, size_t b) const noexcept
	{
		int k;
		{
			Quiet q;
			k = E->man_call[type_slot<T>()];
		}
		visit_value(k, v, b);
	}
};
template <typename T>
static void free_fn(T v, size_t b) noexcept
{
	Manifest<T>{}(v, b);
}

template <typename T>
static int type_slot()
{
#define SLOT(n, ...)                                                                                                   \
	if constexpr (std::is_same_v<T, __VA_ARGS__>)                                                                      \
		return n;                                                                                                      \
	else
	SLOT(0, int)
	SLOT(1, unsigned char)
	SLOT(2, signed char)
	SLOT(3, long long)
	SLOT(4, unsigned long)
	SLOT(5, E8)
	SLOT(6, unsigned)
	SLOT(7, short)
	return 31;
#undef SLOT
}

static void note_call(int k)
{
	Quiet q;
	E->c[(size_t)k].called = true;
	S->in_enqueue++;
	sim_event(0x83, (uint64_t)k);
}
static void note_back(int k)
{
	Quiet q;
	E->c[(size_t)k].returned = true;
	S->in_enqueue--;
	sim_event(0x84, (uint64_t)k);
}
struct KeepBase
{
	virtual ~KeepBase()
	{}
};
template <typename T>
struct KeepObj : KeepBase
{
	T v;
	template <typename... A>
	explicit KeepObj(A&&... a) : v(static_cast<A&&>(a)...)
	{}
};
static std::vector<KeepBase*>* keeps; // guarded by Quiet
template <typename T, typename... A>
static T& keep(A&&... a)
{
	auto* k = new KeepObj<T>(static_cast<A&&>(a)...);
	Quiet q;
	keeps->push_back(k);
	return k->v;
}

template <typename T>
static void range_call(int k, T start, T end, int64_t flags)
{
	int arity, kind = fl_kind(flags);
	bool overload;
	{
		Quiet q;
		arity	 = E->c[(size_t)k].arity;
		overload = (flags & FL_OVERLOAD) && start == T{} && !E->c[(size_t)k].backwards;
		if (kind == 4 || kind == 5)
		{
			int& slot = E->man_call[type_slot<T>()];
			if (arity != 2 || slot >= 0 || type_slot<T>() > 7)
				kind = 0;
			else
				slot = k;
		}
	}
	note_call(k);
	auto call = [&](auto&& task)
	{
		using X = decltype(task);
		if (overload)
			pool->for_each(end, static_cast<X&&>(task));
		else if (kind == 7)
			pool->for_range(start, end, static_cast<X&&>(task));
		else
			pool->for_each(start, end, static_cast<X&&>(task));
	};
	if constexpr (sizeof(T) > 8) // leaves room for a small task only
	{
		call([k](T v) noexcept { visit_value(k, v, NO_WORKER); });
	}
	else
	{
		constexpr bool full = std::is_same_v<T, int> || std::is_same_v<T, unsigned char> || std::is_same_v<T, long long> || std::is_same_v<T, E8> || std::is_same_v<T, unsigned long>;
		bool done			= false;
		if constexpr (full)
		{
			done = true;
			if (kind == 1 && arity == 2)
				call(Stored<T, 2>{ k });
			else if (kind == 1 && arity == 1)
				call(Stored<T, 1>{ k });
			else if (kind == 1)
				call(Stored<T, 0>{ k });
			else if (kind == 2 && arity == 2)
			{
				Stored<T, 2> t{ k };
				call(t);
				t.whole("handed back");
			}
			else if (kind == 2 && arity == 1)
			{
				Stored<T, 1> t{ k };
				call(t);
				t.whole("handed back");
			}
			else if (kind == 3 && arity == 2)
				call(keep<Big<T, 2>>(k));
			else if (kind == 3 && arity == 1)
				call(keep<Big<T, 1>>(k));
			else if (kind == 4)
				call(Manifest<T>{});
			else if (kind == 5)
				call(&free_fn<T>);
			else
				done = false;
		}
		if (!done)
		{
			if (arity == 2)
				call([k](T v, size_t b) noexcept { visit_value(k, v, b); });
			else if (arity == 1)
				call([k](T v) noexcept { visit_value(k, v, NO_WORKER); });
			else
				call([k]() noexcept { on_visit(k, -1, NO_WORKER); });
		}
	}
	note_back(k);
}

template <typename U, typename T>
static void range_of(int k, const SimOp& o)
{
	// n values starting at 'lo' and, for a backwards range, one more below
	const i128 mn = std::is_signed_v<U> ? (i128)1 << (sizeof(U) * 8 - 1) : 0;
	u128 span	  = sizeof(U) < 16 ? ((u128)1 << (sizeof(U) * 8)) - 1 : ~(u128)0; // max - min
	i128 min	  = std::is_signed_v<U> ? -mn : 0;
	if (std::is_same_v<U, bool>)
		span = 1;
	if (std::is_same_v<T, EPlain>)
		span = 0x7fffffff; // representable values only
	if (sizeof(U) >= 16)
	{
		min	 = std::is_signed_v<U> ? -((i128)1 << 100) : 0;
		span = (u128)1 << 101;
	}
	u128 n			= (u128)(o.b < 0 ? 0 : o.b > 100000 ? 100000 : o.b);
	const bool huge = (o.d & FL_HUGE) && span > 100000;
	if (huge)
	{
		const u128 r = (u128)((o.c >> 3) & 31);
		switch (o.b & 7)
		{
			case 0: n = span; break;
			case 1: n = ((u128)1 << 32) + r; break;
			case 2: n = ((u128)1 << 31) + r; break;
			case 3: n = ((u128)1 << 16) + r; break;
			case 4: n = ((u128)1 << 33) - 1 - r; break;
			case 5: n = ((u128)1 << 63) + r; break;
			case 6: n = ((u128)1 << 64) + r; break;
			default: n = ((u128)1 << (17 + o.c % 47)) + (u128)((uint64_t)o.c * 0x9E3779B97F4A7C15ull >> 47); break;
		}
	}
	if (n > span)
		n = span;
	u128 off; // of the lower end within the type
	switch (o.c & 7)
	{
		case 0: off = (u128)(0 - min); break; // from zero
		case 1: off = 0; break;				  // the lower limit
		case 2: off = span - n; break;		  // the upper limit
		case 3: off = (u128)(0 - min) - n / 2; break; // across zero
		default: off = (u128)((uint64_t)o.c * 0x9E3779B97F4A7C15ull); break;
	}
	if (off > span - n)
		off = std::is_signed_v<U> && (o.c & 7) == 3 ? 0 : (span - n) - (off % (span - n + 1));
	const bool back = o.d & FL_BACKWARDS;
	const i128 lo = min + (i128)off, hi = lo + (i128)n;
	{
		Quiet q;
		Call& c		= E->c[(size_t)k];
		c.n			= huge ? INT64_MAX : (int64_t)n;
		c.huge		= huge ? n : 0;
		c.stop		= 2 + (int)(o.c & 3);
		c.backwards = back;
		c.first		= (u128)(back ? lo + 1 : lo);
		c.arity		= sizeof(T) > 8 ? 1 : fl_arity(o.d);
		c.beh		= fl_beh(o.d);
		c.visits.assign(huge ? 0 : (size_t)n, 0);
		if (huge)
			E->huge = k;
	}
	if (back)
		range_call<T>(k, (T)(U)hi, (T)(U)lo, o.d);
	else
		range_call<T>(k, (T)(U)lo, (T)(U)hi, o.d);
	if (huge)
		see_huge(k);
}

static constexpr int N_TYPES = 21;
static void do_range(int k, const SimOp& o)
{
	switch ((int)(o.a % N_TYPES))
	{
		default:
		case 0: range_of<int, int>(k, o); break;
		case 4: range_of<unsigned long, unsigned long>(k, o); break;
		case 17: range_of<long, long>(k, o); break;
#ifndef SIM_REDUCED // the build falls back to this when the full set does not compile
		case 1: range_of<unsigned char, unsigned char>(k, o); break;
		case 2: range_of<signed char, signed char>(k, o); break;
		case 3: range_of<long long, long long>(k, o); break;
		case 5: range_of<unsigned char, E8>(k, o); break;
		case 6: range_of<unsigned, unsigned>(k, o); break;
		case 7: range_of<short, short>(k, o); break;
		case 8: range_of<unsigned short, unsigned short>(k, o); break;
		case 9: range_of<int, E32>(k, o); break;
		case 10: range_of<long long, E64>(k, o); break;
		case 11: range_of<unsigned, EPlain>(k, o); break;
		case 12: range_of<char, char>(k, o); break;
		case 13: range_of<wchar_t, wchar_t>(k, o); break;
		case 14: range_of<char16_t, char16_t>(k, o); break;
		case 15: range_of<char32_t, char32_t>(k, o); break;
		case 16: range_of<bool, bool>(k, o); break;
		case 18: range_of<unsigned long long, unsigned long long>(k, o); break;
		case 19: range_of<__int128, __int128>(k, o); break;
		case 20: range_of<unsigned __int128, unsigned __int128>(k, o); break;
#endif
	}
}

// ------------------------------------------------------------------ collections
struct Elem
{
	const Elem* self;
	int call, idx;
	Elem(int c, int i) noexcept : self(this), call(c), idx(i)
	{}
	Elem(const Elem& o) noexcept : self(nullptr), call(o.call), idx(o.idx)
	{
		if (is("T06"))
			sim_violation("copied", "for_each call %d copied element %d", call, idx);
	}
	Elem& operator=(const Elem&) = delete;
	~Elem()
	{
		*(const Elem* volatile*)&self = nullptr;
	}
	bool operator<(const Elem& o) const noexcept
	{
		return idx < o.idx;
	}
};
static void visit_elem(int k, const Elem& e, size_t batch) noexcept
{
	if (is("T06"))
	{
		if (e.self != &e)
			sim_violation("element", "the task of for_each call %d was not given one of the elements", k);
		if (e.call != k)
			sim_violation("element", "the task of for_each call %d was given an element of another collection", k);
	}
	on_visit(k, e.idx, batch);
}
template <typename R>
static const Elem& elem_of(R& r)
{
	if constexpr (std::is_same_v<std::remove_cv_t<R>, Elem>)
		return r;
	else
		return r.second;
}

// random access, but can only be compared for equality
template <typename E_>
struct PlainIter
{
	using iterator_category = std::random_access_iterator_tag;
	using value_type		= Elem;
	using difference_type	= ptrdiff_t;
	using pointer			= E_*;
	using reference			= E_&;
	E_* p					= nullptr;
	reference operator*() const noexcept
	{
		return *p;
	}
	PlainIter& operator++() noexcept
	{
		++p;
		return *this;
	}
	PlainIter operator++(int) noexcept
	{
		return { p++ };
	}
	PlainIter& operator--() noexcept
	{
		--p;
		return *this;
	}
	PlainIter& operator+=(ptrdiff_t n) noexcept
	{
		p += n;
		return *this;
	}
	PlainIter operator+(ptrdiff_t n) const noexcept
	{
		return { p + n };
	}
	ptrdiff_t operator-(const PlainIter& o) const noexcept
	{
		return p - o.p;
	}
	bool operator==(const PlainIter& o) const noexcept
	{
		return p == o.p;
	}
	bool operator!=(const PlainIter& o) const noexcept
	{
		return p != o.p;
	}
};
// bigger than a pointer; ordered
template <typename E_>
struct FatIter
{
	using iterator_category = std::random_access_iterator_tag;
	using value_type		= Elem;
	using difference_type	= ptrdiff_t;
	using pointer			= E_*;
	using reference			= E_&;
	E_* base				= nullptr;
	ptrdiff_t i				= 0;
	reference operator*() const noexcept
	{
		return base[i];
	}
	FatIter& operator++() noexcept
	{
		++i;
		return *this;
	}
	FatIter operator++(int) noexcept
	{
		return { base, i++ };
	}
	FatIter& operator--() noexcept
	{
		--i;
		return *this;
	}
	FatIter& operator+=(ptrdiff_t n) noexcept
	{
		i += n;
		return *this;
	}
	FatIter operator+(ptrdiff_t n) const noexcept
	{
		return { base, i + n };
	}
	ptrdiff_t operator-(const FatIter& o) const noexcept
	{
		return i - o.i;
	}
	bool operator==(const FatIter& o) const noexcept
	{
		return i == o.i;
	}
	bool operator!=(const FatIter& o) const noexcept
	{
		return i != o.i;
	}
	bool operator<(const FatIter& o) const noexcept
	{
		return i < o.i;
	}
};
template <typename V>
struct FatView // has data() and size(), and iterators bigger than a pointer
{
	V* v;
	FatIter<Elem> begin() const noexcept
	{
		return { v->data(), 0 };
	}
	FatIter<Elem> end() const noexcept
	{
		return { v->data(), (ptrdiff_t)v->size() };
	}
	Elem* data() const noexcept
	{
		return v->data();
	}
	size_t size() const noexcept
	{
		return v->size();
	}
};
template <typename V>
struct OddView // data() is not what the iterators refer to
{
	V* v;
	FatIter<Elem> begin() const noexcept
	{
		return { v->data(), 0 };
	}
	FatIter<Elem> end() const noexcept
	{
		return { v->data(), (ptrdiff_t)v->size() };
	}
	char* data() const noexcept
	{
		return reinterpret_cast<char*>(v->data());
	}
	size_t size() const noexcept
	{
		return v->size();
	}
};

template <typename Ref, int Arity>
struct StoredE : Guarded
{
	using Guarded::Guarded;
	void operator()(Ref& v, size_t b) noexcept
		requires(Arity == 2)
	{
		alive("invoked");
		whole("invoked");
		visit_elem(call, elem_of(v), b);
	}
	void operator()(Ref& v) noexcept
		requires(Arity == 1)
	{
		alive("invoked");
		whole("invoked");
		visit_elem(call, elem_of(v), NO_WORKER);
	}
	void operator()() noexcept
		requires(Arity == 0)
	{
		alive("invoked");
		whole("invoked");
		on_visit(call, -1, NO_WORKER);
	}
};
template <typename Ref, int Arity>
struct BigE : StoredE<Ref, Arity>
{
	char pad[96];
	using StoredE<Ref, Arity>::StoredE;
	BigE(const BigE&) = delete;
};

// 'Ref': what the iterators refer to; 'room': the iterators leave room for more than one word
template <typename Ref, bool Room, typename F>
static void coll_tasks(int k, int64_t flags, F&& call)
{
	int arity, kind = fl_kind(flags);
	{
		Quiet q;
		arity = E->c[(size_t)k].arity;
	}
	note_call(k);
	bool done = false;
	if constexpr (Room)
	{
		done = true;
		if (kind == 1 && arity == 2)
			call(StoredE<Ref, 2>{ k });
		else if (kind == 1 && arity == 1)
			call(StoredE<Ref, 1>{ k });
		else if (kind == 1)
			call(StoredE<Ref, 0>{ k });
		else if (kind == 2 && arity == 2)
		{
			StoredE<Ref, 2> t{ k };
			call(t);
			t.whole("handed back");
		}
		else if (kind == 2 && arity == 1)
		{
			const StoredE<Ref, 1> tc{ k };
			StoredE<Ref, 1> t{ tc };
			call(t);
			t.whole("handed back");
		}
		else
			done = false;
	}
	if (!done)
	{
		if (kind == 3 && arity == 2)
			call(keep<BigE<Ref, 2>>(k));
		else if (kind == 3 && arity == 1)
			call(keep<BigE<Ref, 1>>(k));
		else if (arity == 2)
			call([k](Ref& v, size_t b) noexcept { visit_elem(k, elem_of(v), b); });
		else if (arity == 1)
			call([k](Ref& v) noexcept { visit_elem(k, elem_of(v), NO_WORKER); });
		else
			call([k]() noexcept { on_visit(k, -1, NO_WORKER); });
	}
	note_back(k);
}

static void set_call(int k, const SimOp& o, int64_t first, int64_t n)
{
	Quiet q;
	Call& c = E->c[(size_t)k];
	c.coll	= true;
	c.n		= n;
	c.first = (u128)first; // elements are numbered from 'first'
	c.arity = fl_arity(o.d);
	c.beh	= fl_beh(o.d);
	c.visits.assign((size_t)n, 0);
}

static constexpr int N_COLL = 12;
// elements [lo, hi) of a container of n; numbered so that the visited ones are 0 ... hi-lo-1
static void do_coll(int k, const SimOp& o)
{
	const int64_t n	   = std::min<int64_t>(std::max<int64_t>(o.b, 0), 100000);
	const int form	   = (int)(o.c & 3); // 0: whole by iterators, 1: the collection, 2: sub-range, 3: inverted
	const uint64_t cut = (uint64_t)o.c >> 2;
	int64_t lo = 0, hi = n;
	if (form >= 2 && n && o.a % N_COLL != 9)
	{
		lo = (int64_t)(cut % (uint64_t)n);
		hi = lo + (int64_t)((cut >> 8) % (uint64_t)(n - lo + 1));
	}
	const bool inv = form == 3;
	using Vec = std::vector<Elem>;
	auto fill = [&](auto& v)
	{
		v.reserve((size_t)n);
		for (int64_t i = 0; i < n; i++)
			v.emplace_back(k, (int)(i - lo));
	};
	auto by_iter = [&]<typename Ref, bool Room>(auto base)
	{
		auto b = base + lo, e = base + hi;
		set_call(k, o, 0, inv ? 0 : hi - lo);
		if (inv)
		{
			if (b == e && n)
			{
				// make it really inverted
				if (hi < n)
					e = base + hi + 1;
				else
					b = base + (lo - 1);
			}
			coll_tasks<Ref, Room>(k, o.d, [&](auto&& t) { pool->for_each(e, b, static_cast<decltype(t)&&>(t)); });
		}
		else
			coll_tasks<Ref, Room>(k, o.d, [&](auto&& t) { pool->for_each(b, e, static_cast<decltype(t)&&>(t)); });
	};
	auto whole = [&]<typename Ref, bool Room>(auto&& coll)
	{
		set_call(k, o, 0, n);
		coll_tasks<Ref, Room>(k, o.d, [&](auto&& t) { pool->for_each(coll, static_cast<decltype(t)&&>(t)); });
	};
	auto nodes = [&]<typename Ref>(auto& coll)
	{
		if (form == 1)
		{
			whole.template operator()<Ref, true>(coll);
			return;
		}
		auto b = coll.begin();
		std::advance(b, (ptrdiff_t)lo);
		auto e = b;
		std::advance(e, (ptrdiff_t)(hi - lo));
		set_call(k, o, 0, hi - lo);
		coll_tasks<Ref, true>(k, o.d, [&](auto&& t) { pool->for_each(b, e, static_cast<decltype(t)&&>(t)); });
	};
	switch ((int)(o.a % N_COLL))
	{
		default:
		case 0:
		{
			auto& v = keep<Vec>();
			fill(v);
			if (form == 1)
				whole.template operator()<Elem, true>(v);
			else
				by_iter.template operator()<Elem, true>(v.begin());
			break;
		}
		case 1:
		{
			auto& v = keep<Vec>();
			fill(v);
			const Vec& cv = v;
			if (form == 1)
				whole.template operator()<const Elem, true>(cv);
			else
				by_iter.template operator()<const Elem, true>(cv.begin());
			break;
		}
		case 2:
		{
			auto& v = keep<Vec>();
			fill(v);
			if (form == 1)
			{
				set_call(k, o, 0, n);
				coll_tasks<Elem, true>(k, o.d, [&](auto&& t) { pool->for_each(muu::span<Elem>{ v.data(), v.size() }, static_cast<decltype(t)&&>(t)); });
			}
			else
				by_iter.template operator()<Elem, true>(v.data());
			break;
		}
		case 3:
		{
			auto& l = keep<std::list<Elem>>();
			for (int64_t i = 0; i < n; i++)
				l.emplace_back(k, (int)(i - lo));
			nodes.template operator()<Elem>(l);
			break;
		}
		case 4:
		{
			auto& l = keep<std::forward_list<Elem>>();
			for (int64_t i = n; i-- > 0;)
				l.emplace_front(k, (int)(i - lo));
			nodes.template operator()<Elem>(l);
			break;
		}
		case 5:
		{
			auto& l = keep<std::set<Elem>>();
			for (int64_t i = 0; i < n; i++)
				l.emplace(k, (int)(i - lo));
			nodes.template operator()<const Elem>(l);
			break;
		}
		case 6:
		{
			auto& l = keep<std::map<int, Elem>>();
			for (int64_t i = 0; i < n; i++)
				l.emplace(std::piecewise_construct, std::forward_as_tuple((int)i), std::forward_as_tuple(k, (int)(i - lo)));
			nodes.template operator()<std::pair<const int, Elem>>(l);
			break;
		}
		case 7:
		{
			auto& v = keep<Vec>();
			fill(v);
			by_iter.template operator()<Elem, true>(PlainIter<Elem>{ v.data() });
			break;
		}
		case 8:
		{
			auto& v = keep<Vec>();
			fill(v);
			if (form == 1)
				{
				FatView<Vec> view{ &v };
				whole.template operator()<Elem, true>(view);
			}
			else
				by_iter.template operator()<Elem, false>(FatIter<Elem>{ v.data(), 0 });
			break;
		}
		case 9:
		{
			auto& v = keep<Vec>();
			fill(v);
			OddView<Vec> view{ &v };
			whole.template operator()<Elem, false>(view);
			break;
		}
		case 10:
		{
			auto& v = keep<muu::emplacement_array<Elem>>((size_t)std::max<int64_t>(n, 1));
			for (int64_t i = 0; i < n; i++)
				v.emplace_back(k, (int)(i - lo));
			if (form == 1)
				whole.template operator()<Elem, true>(v);
			else
				by_iter.template operator()<Elem, true>(v.begin());
			break;
		}
		case 11:
		{
			struct Arr
			{
				Elem a[5];
				explicit Arr(int c) : a{ Elem{ c, 0 }, Elem{ c, 1 }, Elem{ c, 2 }, Elem{ c, 3 }, Elem{ c, 4 } }
				{}
			};
			auto& v = keep<Arr>(k);
			set_call(k, o, 0, 5);
			coll_tasks<Elem, true>(k, o.d, [&](auto&& t) { pool->for_each(v.a, static_cast<decltype(t)&&>(t)); });
			break;
		}
	}
}

// ------------------------------------------------------------------ generation
static int64_t pick_n(Rng& r, int64_t workers)
{
	switch (r.below(8))
	{
		case 0: return r.range(0, 2);
		case 1: return workers + r.range(-1, 1);
		case 2: return workers * r.range(1, 4) + r.range(-1, 1);
		case 3: return r.range(0, 60);
		case 4: return r.chance(0.2) ? r.range(60, 120) : r.range(0, 20);
		default: return r.range(0, 14);
	}
}
static double coll_of(const std::string& p)
{
	return p == "T05" ? 0.05 : p == "T06" ? 0.95 : 0.5;
}
static void gen(Rng& r, Scenario& sc)
{
	auto& c = sc.cfg;
	rates(r, sc);
	c["budget1"]				 = 800000;
	c["budget2"]				 = 3000000;
	static const int64_t steps[] = { 20, 100, 200, 200, 500, 1000, 2000 };
	c["step_ns"]				 = r.pick(steps);
	static const int64_t ws[] = { 1, 2, 2, 2, 3, 3, 4, 5, 7 };
	c["workers"]			  = r.pick(ws);
	static const int64_t qs[] = { 1, 1, 2, 3, 4, 6, 8, 12, 16, 32, 64 };
	c["queue"]				  = r.pick(qs);
	c["clients"]			  = r.range(1, 4);
	const int64_t clients	  = c["clients"];
	const int64_t n			  = r.range(1, r.chance(0.2) ? 16 : 7);
	const bool quick		  = r.chance(0.3);
	if (sc.prop != "T06" && r.chance(0.02)) // a range far too long to be visited
	{
		c["clients"]				  = 1;
		static const int64_t wide[] = { 0, 3, 4, 6, 9, 10, 11, 13, 15, 17, 18, 19, 20 };
		if (r.chance(0.5))
			sc.ops.push_back({ OP_ENQ, 0, r.range(0, 12), 0, 0, 0 });
		sc.ops.push_back({ OP_RANGE, 0, r.pick(wide), r.range(0, 7), (int64_t)r.below(1 << 16), (mk(r, true) | (sc.prop == "T07" ? 4 : 0)) | FL_HUGE });
		return;
	}
#ifdef MUU_SIM_SPIN_ITERATIONS
	const int64_t largest = 300;
#else
	const int64_t largest = 50;
#endif
	if (r.chance(0.0015))
	{
		// more batches than are usual
		for (int k = 0; k < FK_COUNT; k++)
			c.erase(std::string("f_") + sim_fault_names[k]);
		c["hwc"]	 = 5;
		c["large"]	 = 1;
		c["workers"] = r.chance(0.5) ? r.range(largest - 40, largest) : r.range(10, largest);
		c["queue"]	 = r.chance(0.5) ? r.range(1, 600) : c["workers"] * c["workers"];
		c["step_ns"] = 20;
		c["clients"] = 1;
		c["budget1"] = 8000000;
		c["budget2"] = 60000000;
		const int64_t many = c["workers"] * r.range(1, 3) + r.range(-3, 3), d = mk(r, true) | (sc.prop == "T07" ? 4 : 0);
		if (r.chance(coll_of(sc.prop)))
			sc.ops.push_back({ OP_COLL, 0, r.range(0, N_COLL - 2), many, (int64_t)r.below(1 << 20), d });
		else
			sc.ops.push_back({ OP_RANGE, 0, r.range(0, N_TYPES - 1), many, (int64_t)r.below(1 << 16), d });
		return;
	}
	const bool enormous = r.chance(0.0003);
	if (enormous || r.chance(0.006)) // long enough for sizes kept in 8 or 16 bits to overflow
	{
		c["workers"] = enormous ? r.range(1, 2) : r.range(1, 4);
		c["clients"] = 1;
		c["budget1"] = 40000000;
		c["budget2"] = 80000000;
		if (enormous)
			for (int k = 0; k < FK_COUNT; k++)
				c.erase(std::string("f_") + sim_fault_names[k]);
		const int64_t n = enormous ? c["workers"] * 66000 - r.range(0, 2000) : r.chance(0.5) ? c["workers"] * 256 + r.range(-3, 40) : r.range(200, 2000);
		const int64_t d = mk(r, true) | (sc.prop == "T07" ? 4 : 0);
		if (r.chance(coll_of(sc.prop)))
			sc.ops.push_back({ OP_COLL, 0, r.range(0, N_COLL - 2), n, (int64_t)r.below(1 << 20), d });
		else
			sc.ops.push_back({ OP_RANGE, 0, r.range(0, N_TYPES - 1), n, (int64_t)r.below(1 << 16), d });
		return;
	}
	const double coll		  = coll_of(sc.prop);
	for (int64_t i = 0; i < n; i++)
	{
		const int thr  = (int)r.below((uint64_t)clients);
		const double x = (double)r.below(1000) / 1000.0;
		if (x < 0.1)
			sc.ops.push_back({ OP_WAIT, thr, 0, 0, 0, 0 });
		else if (x < 0.15)
			sc.ops.push_back({ OP_SLEEP, thr, r.range(0, r.chance(0.3) ? 150000000 : 20000), 0, 0, 0 });
		else if (x < 0.35)
		{
			const int64_t m = r.range(1, 5);
			for (int64_t k = 0; k < m; k++)
				sc.ops.push_back({ OP_ENQ, thr, r.range(0, 12), 0, 0, 0 });
		}
		else if (r.chance(coll))
			sc.ops.push_back({ OP_COLL, thr, r.range(0, N_COLL - 1), pick_n(r, c["workers"]), (int64_t)r.below(1 << 20), mk(r, quick) });
		else
			sc.ops.push_back({ OP_RANGE, thr, r.range(0, N_TYPES - 1), pick_n(r, c["workers"]), (int64_t)r.below(r.chance(0.5) ? 4 : 1 << 16), mk(r, quick) | (sc.prop == "T07" ? 4 : 0) });
	}
	if (sc.prop == "T07") // the batch index is what matters
		for (auto& o : sc.ops)
			if (o.kind <= OP_COLL && r.chance(0.9))
				o.d = (o.d & ~(int64_t)6) | 4;
}

// ------------------------------------------------------------------ execution
static void begin(const Scenario& sc)
{
	S		= new PoolOracle;
	S->sc	= sc;
	S->prop = sc.prop;
	E		= new EachState;
	keeps	= new std::vector<KeepBase*>;
	pool	= nullptr;
	for (auto& m : E->man_call)
		m = -1;
	E->client_ops.resize(8);
	for (size_t i = 0; i < S->sc.ops.size(); i++)
	{
		auto& o = S->sc.ops[i];
		int64_t nc = sc.get("clients", 1);
		nc		   = nc < 1 ? 1 : nc > 8 ? 8 : nc;
		o.thr	   = o.thr < 0 ? 0 : o.thr >= nc ? (int)nc - 1 : o.thr;
		int call   = -1;
		if (o.kind == OP_RANGE || o.kind == OP_COLL)
		{
			o.a	 = o.a < 0 ? 0 : o.a;
			o.c	 = o.c < 0 ? 0 : o.c;
			call = (int)E->c.size();
			Call c;
			c.op   = (int)i;
			c.coll = o.kind == OP_COLL;
			E->c.push_back(c);
		}
		E->op_call.push_back(call);
		E->client_ops[(size_t)o.thr].push_back((int)i);
	}
	sim_race_mode(sc.prop == "T07" ? 2 : 0);
}

static void run_client(int id)
{
	size_t n;
	{
		Quiet q;
		n = E->client_ops[(size_t)id].size();
	}
	for (size_t i = 0; i < n; i++)
	{
		SimOp o;
		int call;
		{
			Quiet q;
			const int j = E->client_ops[(size_t)id][i];
			o			= S->sc.ops[(size_t)j];
			call		= E->op_call[(size_t)j];
		}
		switch (o.kind)
		{
			case OP_RANGE: do_range(call, o); break;
			case OP_COLL: do_coll(call, o); break;
			case OP_ENQ:
			{
				{
					Quiet q;
					E->plain++;
				}
				const int64_t y = o.a;
				pool->enqueue(
					[y]() noexcept
					{
						for (int64_t k = 0; k < y && k < 50; k++)
							sim_yield();
						Quiet q;
						E->plain_done++;
					});
				break;
			}
			case OP_WAIT: pool->wait(); break;
			case OP_SLEEP: sim_sleep((uint64_t)(o.a < 0 ? 0 : o.a > 1000000000 ? 1000000000 : o.a)); break;
		}
	}
}

static int incomplete()
{
	for (size_t i = 0; i < E->c.size(); i++)
		if (E->c[i].done < E->c[i].n)
			return (int)i;
	return -1;
}

static void body()
{
	M = new Mem;
	memset((void*)M, 0, sizeof *M);
	if (is("T07"))
		sim_watch(M, sizeof *M);
	pool = new muu::thread_pool(static_cast<size_t>(S->sc.get("workers", 1)), static_cast<size_t>(S->sc.get("queue", 1)));
	E->workers = pool->workers();
	{
		const int nc = (int)std::min<int64_t>(std::max<int64_t>(S->sc.get("clients", 1), 1), 8);
		std::vector<std::thread> th;
		for (int k = 1; k < nc; k++)
			th.emplace_back([k] { run_client(k); });
		run_client(0);
		for (auto& t : th)
			t.join();
	}
	pool->wait();
	// whatever wait() is worth, give everything time to run
	const uint64_t t0 = sim_now();
	for (;;)
	{
		{
			Quiet q;
			const int i = incomplete();
			if (i < 0 && E->plain_done >= E->plain)
				break;
			const uint64_t from = std::max(t0, sim_last_fault_time());
			if (sim_now() > from + 5000000000ull)
			{
				if (i >= 0 && mine(E->c[(size_t)i]))
					sim_violation("lost", "for_each call %d over %lld values invoked its task only %lld times", i, (long long)E->c[(size_t)i].n, (long long)E->c[(size_t)i].count);
				break;
			}
		}
		sim_sleep(20000000);
	}
	// anything still to come would be too much
	const bool large = S->sc.get("large", 0) != 0; // joining very many workers that all look through all queues takes too many steps
	if (!large)
	{
		delete pool;
		pool = nullptr;
	}
	{
		Quiet q;
		for (size_t i = 0; i < E->c.size(); i++)
		{
			const Call& c = E->c[i];
			if (mine(c) && c.count != c.n)
				sim_violation(c.count < c.n ? "lost" : "extra", "for_each call %zu over %lld values invoked its task %lld times", i, (long long)c.n, (long long)c.count);
			if (is("T07") && c.arity == 2 && c.count == c.n && c.n)
			{
				int64_t mn = INT64_MAX, mx = 0, sum = 0;
				for (auto& [b, x] : c.batches)
				{
					mn = std::min(mn, x.size);
					mx = std::max(mx, x.size);
					sum += x.size;
				}
				if (c.batches.size() > E->workers)
					sim_violation("batches", "for_each call %zu used %zu batches in a pool of %zu workers", i, c.batches.size(), E->workers);
				if (mx - mn > 1)
					sim_violation("balance", "for_each call %zu over %lld values made batches of %lld and of %lld", i, (long long)c.n, (long long)mn, (long long)mx);
			}
		}
	}
	// T07: scratch data needs no locking
	for (size_t k = 0; k < E->c.size() && k < 64; k++)
	{
		int64_t sum = 0;
		for (int b = 0; b < 64; b++)
			sum += M->scratch[k][b];
		Quiet q;
		const Call& c = E->c[k];
		if (is("T07") && c.arity == 2 && sum != c.count && E->workers <= 64)
			sim_violation("scratch", "updates of per-batch data of for_each call %zu were lost (%lld of %lld)", k, (long long)sum, (long long)c.count);
	}
	if (large)
		sim_stop();
	for (auto* k : *keeps)
		delete k;
	delete M;
	M = nullptr;
}

static void end(int)
{
	delete E;
	delete keeps;
	E = nullptr;
	free_oracle();
}

static int stuck(std::string& why)
{
	if (E->huge >= 0)
		for (auto& [i, b] : E->c[(size_t)E->huge].hb)
			if (b.parked)
				return 0;
	for (size_t i = 0; i < E->c.size(); i++)
	{
		const Call& c = E->c[i];
		if (!c.called || !mine(c))
			continue;
		if (!c.returned)
		{
			why = "for_each() never returns";
			return 1;
		}
		if (c.count < c.n)
		{
			why = "for_each never visits some of its values";
			return 1;
		}
	}
	return 0;
}

static const Workload wl = { SIM_WL_NAME, gen, begin, body, end, stuck, op_names, OP_COUNT };
extern "C" __attribute__((visibility("default"))) const Workload* sim_workload()
{
	return &wl;
}

// Pointers and tags in one word, on their own and shared by threads: L01.
#include "../sim/rt.h"
#include <muu/core.h>
#include <muu/tagged_ptr.h>
#include <atomic>
#include <cstring>
#include <memory>
#include <thread>

enum Op
{
	OP_HISTORY, // a: type, b: length, d: seed (a private tagged pointer against a model)
	OP_STACK,	// a: rounds, b: nodes held at once, d: seed (a shared lock-free stack)
	OP_BITS,	// a: how many, d: seed (single bits of a shared one are claimed, given back, its pointer replaced)
	OP_SLEEP,	// a: ns
	OP_COUNT
};
static const char* const op_names[] = { "history", "stack", "bits", "sleep" };
static constexpr int NODES			= 6;

static int64_t clampi(int64_t v, int64_t lo, int64_t hi)
{
	return v < lo ? lo : v > hi ? hi : v;
}
static void gen(Rng& r, Scenario& sc)
{
	auto& c						 = sc.cfg;
	c["budget1"]				 = 200000;
	c["budget2"]				 = 600000;
	static const int64_t steps[] = { 20, 100, 500 };
	c["step_ns"]				 = r.pick(steps);
	static const int64_t few[]	 = { 0, 0, 1000, 10000, 50000 };
	c["f_thread_stall"]				 = r.pick(few);
	c["f_try_lock_fails"]					 = r.pick(few);
	c["clients"]				 = r.range(1, 5);
	c["nodes"]					 = r.range(1, NODES);
	const int what				 = (int)r.below(4);
	for (int64_t n = r.range(1, 12); n-- > 0;)
	{
		const int thr	   = (int)r.below((uint64_t)c["clients"]);
		const int64_t seed = (int64_t)(r.next() >> 1);
		switch (what < 3 ? what : (int)r.below(3))
		{
			case 0: sc.ops.push_back({ OP_HISTORY, thr, r.range(0, 8), r.range(1, r.chance(0.2) ? 60 : 12), 0, seed }); break;
			case 1: sc.ops.push_back({ OP_STACK, thr, r.range(1, 12), r.range(1, 3), 0, seed }); break;
			default: sc.ops.push_back({ OP_BITS, thr, r.range(1, 12), 0, 0, seed }); break;
		}
		if (r.chance(0.05))
			sc.ops.push_back({ OP_SLEEP, thr, (int64_t)r.range(0, 300000), 0, 0, 0 });
	}
}

struct State
{
	Scenario sc;
	std::vector<std::vector<int>> client_ops;
	int owner[NODES];
	int claimed[64];
};
static State* X;
static bool mine()
{
	return X->sc.prop == "L01";
}

// ------------------------------------------------------------------ a private one
enum class Small : uint8_t
{
	zero,
	one,
	top = 255
};
enum class Wide : int32_t
{
};
struct Pod2
{
	uint8_t a, b;
};
struct Pod1
{
	uint8_t a;
};
struct alignas(64) Line
{
	uint32_t v[16];
};
struct alignas(4096) Page
{
	std::atomic<Page*> next;
	uint64_t payload;
};
__attribute__((aligned(64), noinline)) static int twice(int v)
{
	return 2 * v;
}
__attribute__((aligned(64), noinline)) static int thrice(int v)
{
	return 3 * v;
}

template <typename T, size_t Align>
static T* some_pointer(Rng& r)
{
	if constexpr (std::is_function_v<T>)
		return r.chance(0.2) ? nullptr : r.chance(0.5) ? &twice : &thrice;
	else
	{
		if (r.chance(0.15))
			return nullptr;
		uint64_t v = r.next();
		switch (r.below(4))
		{
			case 0: v >>= 17; break;							// anywhere in user space
			case 1: v = (v >> 17) | 0xFFFF800000000000ull; break; // or above it
			case 2: v = 0x00007FFFFFFFFFFFull - (v & 0xFFFF); break;
			default: v = (uint64_t)Align << r.below(47 - muu::bit_width(Align)); break;
		}
		return reinterpret_cast<T*>(v & ~(uint64_t)(Align - 1));
	}
}
template <typename T, size_t Align>
struct History
{
	using TP				   = muu::tagged_ptr<T, Align>;
	using P					   = T*;
	static constexpr int bits  = (int)TP::tag_bit_count;
	static constexpr uint64_t mask = bits >= 64 ? ~0ull : (1ull << bits) - 1;

	static void expect(const TP& t, P p, uint64_t tag, const char* after)
	{
		const bool ok = t.ptr() == p && t.get() == p && static_cast<P>(t) == p && t.tag() == (typename TP::tag_type)tag && (uint64_t)t.template tag<uint64_t>() == tag && !!t == !!p
			&& t == static_cast<typename TP::const_pointer>(p) && !(t != static_cast<typename TP::const_pointer>(p)) && static_cast<typename TP::const_pointer>(p) == t;
		uint64_t seen = 0;
		for (int i = 0; i < bits; i++)
			seen |= (uint64_t)t.tag_bit((size_t)i) << i;
		Quiet q;
		sim_event((uint64_t)t.ptr(), tag);
		if (!mine())
			return;
		if (!ok || seen != tag)
			sim_violation("torn", "a tagged_ptr aligned to %zu holds %p and tag %llx instead of %p and %llx after %s", Align, (void*)t.ptr(), (unsigned long long)(uint64_t)t.template tag<uint64_t>(), (void*)p,
						  (unsigned long long)tag, after);
	}
	// stores a tag with one of the types a tag can have; returns whether there was one for it
	template <typename F>
	static bool with_tag(Rng& r, uint64_t& tag, F&& f)
	{
		const uint64_t v = r.chance(0.3) ? mask : r.chance(0.3) ? 0 : r.chance(0.15) ? r.next() >> r.below(64) : r.next() & mask;
		auto give		 = [&](auto t, uint64_t stored) -> bool
		{
			constexpr bool fits_always = (int)sizeof(t) * 8 <= bits;
			const uint64_t own		   = sizeof(t) == 8 ? stored : stored & ((1ull << (sizeof(t) * 8 % 64)) - 1);
			if (!TP::can_store_tag(t))
			{
				if (mine() && (fits_always || own <= mask))
					sim_violation("refused", "a tag of %zu bytes, %llx, cannot be stored in %d bits", sizeof(t), (unsigned long long)own, bits);
				return false;
			}
			if (mine() && !fits_always && own > mask)
				sim_violation("accepted", "a tag of %zu bytes, %llx, can be stored in %d bits", sizeof(t), (unsigned long long)own, bits);
			f(t);
			tag = stored & mask;
			return true;
		};
		switch (r.below(10))
		{
			case 0: return give((typename TP::tag_type)v, v);
			case 1: return give((unsigned)v, (unsigned)v);
			case 2: return give((unsigned long long)v, v);
			case 3: return give((int)v, (uint64_t)(int64_t)(int)v);
			case 4: return give((Small)v, (uint8_t)v);
			case 5: return give((Wide)v, (uint32_t)v);
			case 6:
				if constexpr (bits >= 8)
					return give(Pod1{ (uint8_t)v }, (uint8_t)v);
				if (TP::can_store_tag(Pod1{}) && mine())
					sim_violation("accepted", "an object of 8 bits can be stored in %d bits", bits);
				return false;
			case 7:
				if constexpr (bits >= 16)
					return give(Pod2{ (uint8_t)v, (uint8_t)(v >> 8) }, (uint16_t)v);
				if (TP::can_store_tag(Pod2{}) && mine())
					sim_violation("accepted", "an object of 16 bits can be stored in %d bits", bits);
				return false;
			case 8: return give((unsigned char)v, (uint8_t)v);
			default:
				if (r.chance(0.5)) // a negative number is extended to the width of the tag
					return give((short)v, (uint64_t)(int64_t)(short)v);
				return give((signed char)v, (uint64_t)(int64_t)(signed char)v);
		}
	}
	static void run(Rng& r, int n)
	{
		TP t;
		P p			 = nullptr;
		uint64_t tag = 0;
		expect(t, p, tag, "default construction");
		for (int i = 0; i < n; i++)
		{
			const P np	   = some_pointer<T, Align>(r);
			const char* op = "";
			if (!TP::can_store_ptr(np) && mine())
				sim_violation("refused", "a pointer aligned to %zu cannot be stored: %p", Align, (void*)np);
			switch (r.below(15))
			{
				case 0:
					t	= TP{ np };
					p	= np;
					tag = 0;
					op	= "construction from a pointer";
					break;
				case 1:
					if (with_tag(r, tag, [&](auto g) { t = TP{ np, g }; }))
						p = np;
					op = "construction from both";
					break;
				case 2:
					t.reset();
					p	= nullptr;
					tag = 0;
					op	= "reset()";
					break;
				case 3:
					t.reset(np);
					p	= np;
					tag = 0;
					op	= "reset(ptr)";
					break;
				case 4:
					if (with_tag(r, tag, [&](auto g) { t.reset(np, g); }))
						p = np;
					op = "reset(ptr, tag)";
					break;
				case 5:
				case 6:
					t.ptr(np);
					p  = np;
					op = "ptr(p)";
					break;
				case 7:
					t  = np;
					p  = np;
					op = "assignment of a pointer";
					break;
				case 8:
					t.clear_ptr();
					p  = nullptr;
					op = "clear_ptr()";
					break;
				case 9:
				case 10:
					with_tag(r, tag, [&](auto g) { t.tag(g); });
					op = "tag(t)";
					break;
				case 11:
				case 12:
				{
					const int b	  = (int)r.below((uint64_t)bits);
					const bool on = r.chance(0.5);
					t.tag_bit((size_t)b, on);
					tag = on ? tag | 1ull << b : tag & ~(1ull << b);
					op	= "tag_bit(i, b)";
					break;
				}
				case 13:
					t.clear_tag();
					tag = 0;
					op	= "clear_tag()";
					break;
				default:
				{
					TP other{ t };
					const TP copy = other;
					other.reset(np);
					t			  = copy;
					const bool eq = t == copy, ne = t != copy, oe = other == t;
					if (mine() && (!eq || ne || oe != (np == p && tag == 0)))
						sim_violation("compare", "tagged_ptrs compare wrongly");
					op = "copying";
				}
			}
			expect(t, p, tag, op);
			if constexpr (bits >= 8)
				if (t.template tag<Pod1>().a != (uint8_t)tag && mine())
					sim_violation("torn", "the tag read as an object is wrong after %s", op);
			if constexpr (std::is_function_v<T>)
				if (p && t(7) != p(7) && mine())
					sim_violation("torn", "a function called through a tagged_ptr is another one");
			if (r.chance(0.1))
				sim_yield();
		}
	}
};
// dereferencing
static void live_objects(Rng& r)
{
	auto* a = new Line[3]();
	for (int i = 0; i < 8; i++)
	{
		const size_t k = r.below(3);
		muu::tagged_ptr<Line> t{ a + k, (unsigned)r.below(64) };
		t->v[0]++;
		(*t).v[1] = (uint32_t)k;
		const bool ok = std::addressof(*t) == a + k && t.operator->() == a + k && std::pointer_traits<muu::tagged_ptr<Line>>::pointer_to(a[k]) == static_cast<const Line*>(a + k)
			&& std::pointer_traits<muu::tagged_ptr<Line>>::to_address(t) == a + k;
		if (!ok && mine())
			sim_violation("torn", "dereferencing a tagged_ptr leads elsewhere");
	}
	delete[] a;
}

// ------------------------------------------------------------------ shared ones
using Head = muu::tagged_ptr<Page, 4096>;
static std::atomic<Head>* head;
using Flags = muu::tagged_ptr<Line, 64>;
static std::atomic<Flags>* flags;
static Page* pages;
static Line* lines;

static Head bumped(Head h)
{
	h.tag((h.tag() + 1u) & Head::max_tag);
	return h;
}
static Page* pop()
{
	Head h = head->load(std::memory_order_acquire);
	for (;;)
	{
		Page* const p = h.ptr();
		if (!p)
			return nullptr;
		Head n = bumped(h);
		n.ptr(p->next.load(std::memory_order_relaxed));
		if (head->compare_exchange_weak(h, n, std::memory_order_acquire, std::memory_order_acquire))
			return p;
	}
}
static void push(Page* p)
{
	Head h = head->load(std::memory_order_relaxed);
	for (;;)
	{
		p->next.store(h.ptr(), std::memory_order_relaxed);
		Head n = bumped(h);
		n	   = p; // keeps the tag
		if (head->compare_exchange_weak(h, n, std::memory_order_release, std::memory_order_relaxed))
			return;
	}
}
static void use_stack(int client, const SimOp& o)
{
	Rng r((uint64_t)o.d);
	Page* held[4];
	int n			= 0;
	const int limit = (int)clampi(o.b, 1, 3);
	auto give_back	= [&](int i)
	{
		Page* p = held[i];
		held[i] = held[--n];
		p->payload++; // nobody else has it
		{
			Quiet q;
			X->owner[p - pages] = -1;
		}
		push(p);
	};
	for (int i = (int)clampi(o.a, 1, 50); i-- > 0;)
	{
		if (n < limit && r.chance(0.6))
		{
			Page* p = pop();
			if (!p)
				continue;
			{
				Quiet q;
				const ptrdiff_t k = p - pages;
				sim_event(0x71, (uint64_t)k);
				if (k < 0 || k >= NODES || p != pages + k)
				{
					if (mine())
						sim_violation("stack", "a lock-free stack headed by a tagged_ptr yields a node that was never there");
				}
				else
				{
					if (X->owner[k] >= 0 && mine())
						sim_violation("stack", "a lock-free stack headed by a tagged_ptr yields a node twice");
					X->owner[k] = client;
				}
			}
			p->payload++;
			held[n++] = p;
		}
		else if (n)
			give_back((int)r.below((uint64_t)n));
	}
	while (n)
		give_back(0);
}
static void use_bits(int client, const SimOp& o)
{
	Rng r((uint64_t)o.d);
	std::vector<size_t> have;
	for (int i = (int)clampi(o.a, 1, 50); i-- > 0;)
	{
		Flags f = flags->load(std::memory_order_acquire);
		switch (r.below(4))
		{
			case 0:
			case 1: // claim a bit nobody has
			{
				const size_t b = r.below(Flags::tag_bit_count);
				bool won	   = false;
				while (!f.tag_bit(b))
				{
					Flags n = f;
					n.tag_bit(b, true);
					if ((won = flags->compare_exchange_weak(f, n, std::memory_order_acq_rel, std::memory_order_acquire)))
						break;
				}
				if (!won)
					break;
				have.push_back(b);
				Quiet q;
				sim_event(0x72, b);
				if (X->claimed[b] >= 0 && mine())
					sim_violation("bits", "tag bit %zu was claimed while another thread had it", b);
				X->claimed[b] = client;
				break;
			}
			case 2: // give one back
				if (!have.empty())
				{
					const size_t b = have.back();
					have.pop_back();
					{
						Quiet q;
						X->claimed[b] = -1;
					}
					Flags n;
					do
					{
						n = f;
						n.tag_bit(b, false);
					} while (!flags->compare_exchange_weak(f, n, std::memory_order_acq_rel, std::memory_order_acquire));
					if (!f.tag_bit(b) && mine())
						sim_violation("bits", "tag bit %zu was lost", b);
				}
				break;
			default: // replace the pointer, keeping the bits
			{
				Flags n;
				Line* const l = r.chance(0.2) ? nullptr : lines + r.below(3);
				do
				{
					n = f;
					if (l)
						n = l;
					else
						n.clear_ptr();
				} while (!flags->compare_exchange_weak(f, n, std::memory_order_acq_rel, std::memory_order_acquire));
				Line* const was = f.ptr();
				if (mine() && was && was != lines && was != lines + 1 && was != lines + 2)
					sim_violation("bits", "a shared tagged_ptr held a pointer that was never stored");
			}
		}
	}
	while (!have.empty())
	{
		const size_t b = have.back();
		have.pop_back();
		{
			Quiet q;
			X->claimed[b] = -1;
		}
		Flags f = flags->load(std::memory_order_acquire), n;
		do
		{
			n = f;
			n.tag_bit(b, false);
		} while (!flags->compare_exchange_weak(f, n, std::memory_order_acq_rel, std::memory_order_acquire));
		if (!f.tag_bit(b) && mine())
			sim_violation("bits", "tag bit %zu was lost", b);
	}
}

static void run_client(int id)
{
	size_t n;
	{
		Quiet q;
		n = X->client_ops[(size_t)id].size();
	}
	for (size_t i = 0; i < n; i++)
	{
		SimOp o;
		{
			Quiet q;
			o = X->sc.ops[(size_t)X->client_ops[(size_t)id][i]];
			sim_probe(op_names[o.kind]);
		}
		switch (o.kind)
		{
			case OP_HISTORY:
			{
				Rng r((uint64_t)o.d);
				const int len = (int)clampi(o.b, 1, 100);
				switch (clampi(o.a, 0, 8))
				{
					case 0: History<char, 2>::run(r, len); break;
					case 1: History<const uint32_t, 4>::run(r, len); break;
					case 2: History<double, 8>::run(r, len); break;
					case 3: History<Line, 64>::run(r, len); break;
					case 4: History<void, 256>::run(r, len); break;
					case 5: History<Page, 4096>::run(r, len); break;
					case 6: History<uint8_t, 65536>::run(r, len); break;
					case 7: History<int(int), 64>::run(r, len); break;
					default: live_objects(r); break;
				}
				break;
			}
			case OP_STACK: use_stack(id, o); break;
			case OP_BITS: use_bits(id, o); break;
			default: sim_sleep((uint64_t)clampi(o.a, 0, 1000000000)); break;
		}
	}
}

static void begin(const Scenario& sc)
{
	X				= new State;
	X->sc			= sc;
	const int64_t n = clampi(sc.get("clients", 1), 1, 8);
	X->client_ops.resize((size_t)n);
	for (size_t i = 0; i < sc.ops.size(); i++)
		if (sc.ops[i].kind >= 0 && sc.ops[i].kind < OP_COUNT)
			X->client_ops[(size_t)clampi(sc.ops[i].thr, 0, n - 1)].push_back((int)i);
	for (int& v : X->owner)
		v = -1;
	for (int& v : X->claimed)
		v = -1;
	sim_race_mode(1);
}
static void body()
{
	const size_t base = sim_live_allocs();
	int nc, nodes;
	{
		Quiet q;
		nc	  = (int)X->client_ops.size();
		nodes = (int)clampi(X->sc.get("nodes", 2), 1, NODES);
	}
	head  = new std::atomic<Head>{};
	flags = new std::atomic<Flags>{};
	pages = new Page[NODES]();
	lines = new Line[3]();
	for (int i = 0; i < nodes; i++)
		push(pages + i);
	{
		std::vector<std::thread> th;
		for (int k = 1; k < nc; k++)
			th.emplace_back([k] { run_client(k); });
		run_client(0);
		for (auto& t : th)
			t.join();
	}
	int left = 0;
	while (Page* p = pop())
	{
		left++;
		Quiet q;
		const ptrdiff_t k = p - pages;
		if (k < 0 || k >= nodes || p != pages + k || X->owner[k] == 99)
		{
			if (mine())
				sim_violation("stack", "a lock-free stack headed by a tagged_ptr holds a node twice, or one that was never there");
			break;
		}
		X->owner[k] = 99;
	}
	if (mine() && left != nodes)
		sim_violation("stack", "%d of %d nodes are left in a lock-free stack headed by a tagged_ptr", left, nodes);
	if (mine() && flags->load().tag())
		sim_violation("bits", "tag bits are set that every thread has given back");
	delete head;
	delete flags;
	delete[] pages;
	delete[] lines;
	Quiet q;
	sim_report_leaks("leak", base);
}
static void end(int)
{
	delete X;
	X = nullptr;
}
static int stuck(std::string& why)
{
	why = "a lock-free structure makes no progress";
	return 1;
}

static const Workload wl = { SIM_WL_NAME, gen, begin, body, end, stuck, op_names, OP_COUNT };
extern "C" __attribute__((visibility("default"))) const Workload* sim_workload()
{
	return &wl;
}

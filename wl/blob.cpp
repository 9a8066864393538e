// blob against a byte-vector model, with failing allocations: B01.
#include "../sim/rt.h"
#include <muu/core.h>
#include <muu/blob.h>
#include <cstring>
#include <exception>
#include <new>

enum Op
{
	OP_MAKE,   // a: slot, b: size, c: source (see source()), d: alignment | allocations may fail << 20
	OP_COPY,   // a: to (constructed anew), b: from, c: alignment (-1: plain copy constructor), d: fail
	OP_MOVE,   // a: to (constructed anew), b: from
	OP_ASSIGN, // a: slot, b: size, c: source, d: alignment | fail << 20
	OP_COPY_ASSIGN, // a: to, b: from (may be the same), d: fail
	OP_MOVE_ASSIGN, // a: to, b: from (may be the same)
	OP_RESIZE, // a: slot, b: size, d: fail
	OP_WRITE,  // a: slot, b: seed: overwrites the contents
	OP_DESTROY, // a: slot
	OP_DEFAULT, // a: slot
	OP_COUNT
};
static const char* const op_names[] = { "construct", "copy_construct", "move_construct", "assign", "copy_assign", "move_assign", "resize", "write", "destroy", "default_construct" };
static constexpr int SLOTS = 4;
enum Src
{
	SRC_NULL,
	SRC_FRESH, // bytes from elsewhere
	SRC_SELF,  // the blob's own data (or part of it)
	SRC_OTHER, // another blob's data
	SRC_COUNT
};
static int64_t clampi(int64_t v, int64_t lo, int64_t hi)
{
	return v < lo ? lo : v > hi ? hi : v;
}

static constexpr int64_t LARGEST = 1100000;
static int64_t a_size(Rng& r, bool large)
{
	static const int64_t l[] = { 8191, 8193, 20000, 32768, 65535, 65536, 65537, 70000, 131072, 262145, 300000, 1048576, 1048577 };
	if (large && r.chance(0.6))
		return r.chance(0.2) ? r.range(0, LARGEST) : r.pick(l);
	static const int64_t s[] = { 0, 0, 1, 2, 3, 8, 15, 16, 17, 31, 33, 63, 64, 65, 100, 1000, 2047, 2048, 2049, 2050, 4095, 4096, 5000 };
	if (r.chance(0.03))
		return -r.range(1, 5);
	return r.chance(0.2) ? r.range(0, 3000) : r.pick(s);
}
static int64_t an_align(Rng& r)
{
	static const int64_t a[] = { 0, 0, 0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 1024, 4096 };
	if (r.chance(0.02))
		return int64_t{ 8192 } << r.below(4);
	return r.pick(a);
}
static void gen(Rng& r, Scenario& sc)
{
	auto& c					  = sc.cfg;
	c["budget1"]			  = 200000;
	c["budget2"]			  = 400000;
	static const int64_t th[] = { 0, 50000, 200000, 500000, 1000000 };
	c["f_alloc_fails"]		  = r.pick(th);
	const bool large		  = r.chance(0.01);
	const int n				  = (int)r.range(1, large ? 8 : r.chance(0.3) ? 40 : 12);
	const int slots			  = (int)r.range(1, large ? 2 : SLOTS);
	c["large"]				  = large;
	for (int i = 0; i < n; i++)
	{
		const int64_t s = r.range(0, slots - 1), t = r.range(0, slots - 1), f = r.chance(0.5);
		switch (r.below(16))
		{
			case 0:
			case 1:
			case 2: sc.ops.push_back({ OP_MAKE, 0, s, a_size(r, large), r.range(0, 1), an_align(r) | f << 20 }); break;
			case 3: sc.ops.push_back({ OP_COPY, 0, s, t, r.chance(0.5) ? -1 : an_align(r), f }); break;
			case 4: sc.ops.push_back({ OP_MOVE, 0, s, t, 0, 0 }); break;
			case 5:
			case 6:
			case 7: sc.ops.push_back({ OP_ASSIGN, 0, s, a_size(r, large), r.range(0, SRC_COUNT - 1), an_align(r) | f << 20 }); break;
			case 8:
			case 9: sc.ops.push_back({ OP_COPY_ASSIGN, 0, s, t, 0, f }); break;
			case 10: sc.ops.push_back({ OP_MOVE_ASSIGN, 0, s, t, 0, 0 }); break;
			case 11:
			case 12: sc.ops.push_back({ OP_RESIZE, 0, s, a_size(r, large), 0, f }); break;
			case 13: sc.ops.push_back({ OP_WRITE, 0, s, r.range(1, 1000), 0, 0 }); break;
			case 14: sc.ops.push_back({ OP_DEFAULT, 0, s, 0, 0, 0 }); break;
			default: sc.ops.push_back({ OP_DESTROY, 0, s, 0, 0, 0 }); break;
		}
	}
}

// ------------------------------------------------------------------ model
struct Model
{
	bool exists = false;
	std::vector<int> bytes; // -1: unspecified (never written)
	size_t align = 1;		// at least
};
struct State
{
	Scenario sc;
	Model m[SLOTS];
	int next = 1;
};
static State* X;
static muu::blob** slot;
static unsigned char* fresh_bytes;
static size_t fresh_size;

static size_t real_size(int64_t b)
{
	Quiet q;
	switch (b)
	{
		case -1: return ~size_t{};
		case -2: return ~size_t{} - 15;
		case -3: return ~size_t{} - 4095;
		case -4: return size_t{ 1 } << 63;
		case -5: return (size_t{ 1 } << 62) + 1;
		default: return (size_t)clampi(b, 0, X->sc.get("large", 0) ? LARGEST : 6000);
	}
}
static size_t real_align(int64_t d)
{
	const size_t a = (size_t)(d & 0xFFFFF);
	return a && (a & (a - 1)) ? 16 : a > 65536 ? 65536 : a;
}
static void new_bytes()
{
	int s;
	{
		Quiet q;
		s = X->next++;
	}
	Quiet q;
	for (size_t i = 0; i < fresh_size; i++)
		fresh_bytes[i] = (unsigned char)((i * 7 + (i >> 8) * 13 + (size_t)s * 31 + 1));
}

static void check(int s, const char* when)
{
	if (!slot[s])
		return;
	muu::blob& b		= *slot[s];
	const muu::blob& cb = b;
	const size_t n		= cb.size(), al = cb.alignment();
	const bool truth	= (bool)cb;
	const unsigned char* p = (const unsigned char*)cb.data();
	if ((const unsigned char*)b.data() != p)
		sim_violation("access", "data() differs between const and non-const (%s)", when);
	size_t want, wal;
	const volatile uintptr_t at = (uintptr_t)p; // (the compiler takes the alignment for granted)
	{
		Quiet q;
		want = X->m[s].bytes.size();
		wal	 = X->m[s].align;
		if (n != want)
			sim_violation("size", "a blob that should hold %zu bytes reports %zu (%s)", want, n, when);
		if (truth != (want != 0) || (p != nullptr) != (want != 0))
			sim_violation("size", "a blob of %zu bytes %s data (%s)", want, p ? "has" : "has no", when);
		if (want && (al < wal || al < 16 || (al & (al - 1)) || at % al || at % wal))
			sim_violation("alignment", "a blob that was asked to be aligned to %zu reports alignment %zu and is at %p (%s)", wal, al, (const void*)p, when);
	}
	for (size_t i = 0; i < n; i++)
	{
		int w;
		{
			Quiet q;
			w = X->m[s].bytes[i];
		}
		unsigned char v;
		if (i < 4096 || i % 509 == 0 || i + 64 > n)
			v = p[i]; // (also: may be accessed)
		else
		{
			Quiet q;
			v = p[i];
		}
		if (w >= 0 && v != w)
		{
			Quiet q;
			sim_violation("bytes", "byte %zu of %zu is %02x instead of %02x (%s)", i, n, v, w, when);
		}
	}
	if (n)
	{
		// the bytes are ours to write
		unsigned char* wr = (unsigned char*)b.data();
		const unsigned char first = wr[0], last = wr[n - 1];
		wr[0]	  = first;
		wr[n - 1] = last;
	}
}
static void set_model(int s, size_t n, const unsigned char* src, size_t align)
{
	Quiet q;
	Model& m = X->m[s];
	m.exists = true;
	m.align	 = align ? align : 1;
	m.bytes.assign(n, -1);
	if (src)
		for (size_t i = 0; i < n; i++)
			m.bytes[i] = src[i];
}
static void drop(int s)
{
	if (!slot[s])
		return;
	delete slot[s];
	slot[s] = nullptr;
	Quiet q;
	X->m[s] = Model{};
}
// runs an operation during which allocations may fail. Returns whether it succeeded.
template <typename F>
static bool attempt(bool fail, bool impossible, const char* what, F&& f)
{
	bool thrown = false, standard = true;
	const size_t live = sim_live_allocs();
	if (fail)
		sim_arm(FK_ALLOC, 1);
	try
	{
		f();
	}
	catch (const std::exception&)
	{
		thrown = true;
	}
	catch (...)
	{
		thrown	 = true;
		standard = false;
	}
	sim_arm(FK_ALLOC, 0);
	Quiet q;
	sim_event(0x41, thrown);
	if (thrown)
	{
		if (!standard)
			sim_violation("exception", "%s threw something that is not derived from std::exception", what);
		if (!fail && !impossible)
			sim_violation("spurious", "%s threw although memory was not short", what);
		if (sim_live_allocs() != live)
			sim_report_leaks("leak", live);
		sim_probe(what);
	}
	else if (impossible)
		sim_violation("size", "%s claims to hold more bytes than there can be", what);
	return !thrown;
}

static void run_op(const SimOp& o)
{
	const int s = (int)(((o.a % SLOTS) + SLOTS) % SLOTS), t = (int)(((o.b % SLOTS) + SLOTS) % SLOTS);
	const char* name = op_names[o.kind];
	switch (o.kind)
	{
		case OP_DEFAULT:
			drop(s);
			slot[s] = new muu::blob;
			set_model(s, 0, nullptr, 0);
			break;
		case OP_MAKE:
		{
			drop(s);
			const size_t n = real_size(o.b), al = real_align(o.d);
			new_bytes();
			const unsigned char* src = (o.c & 1) && o.b >= 0 ? fresh_bytes : nullptr;
			void* raw				 = ::operator new(sizeof(muu::blob));
			muu::blob* b			 = nullptr;
			if (attempt((o.d >> 20) & 1, o.b < 0, name, [&] { b = ::new (raw) muu::blob(n, src, al); }))
			{
				slot[s] = b;
				set_model(s, n, src, al);
			}
			else
				::operator delete(raw);
			break;
		}
		case OP_COPY:
		{
			if (s == t || !slot[t])
				break;
			drop(s);
			const size_t al = o.c < 0 ? 0 : real_align(o.c);
			void* raw		= ::operator new(sizeof(muu::blob));
			muu::blob* b	= nullptr;
			const muu::blob& from = *slot[t];
			if (attempt(o.d & 1, false, name,
						[&]
						{
							if (o.c < 0)
								b = ::new (raw) muu::blob(from);
							else
								b = ::new (raw) muu::blob(from, al);
						}))
			{
				slot[s] = b;
				Quiet q;
				X->m[s] = X->m[t];
				if (al)
					X->m[s].align = al;
				if (b->size() && b->data() == from.data())
					sim_violation("shared", "a copy shares its data with the original");
			}
			else
				::operator delete(raw);
			check(t, "source of a copy");
			break;
		}
		case OP_MOVE:
		{
			if (s == t || !slot[t])
				break;
			drop(s);
			slot[s] = new muu::blob(static_cast<muu::blob&&>(*slot[t]));
			Quiet q;
			X->m[s] = X->m[t];
			X->m[t] = Model{};
			X->m[t].exists = true;
			break;
		}
		case OP_ASSIGN:
		{
			if (!slot[s])
				break;
			size_t n		= real_size(o.b);
			const size_t al = real_align(o.d);
			const unsigned char* src = nullptr;
			muu::blob& b			 = *slot[s];
			const int other			 = (s + 1) % SLOTS;
			const size_t had		 = b.size();
			switch (((o.c % SRC_COUNT) + SRC_COUNT) % SRC_COUNT)
			{
				case SRC_NULL: break;
				case SRC_FRESH:
					new_bytes();
					src = fresh_bytes;
					break;
				case SRC_SELF:
					// all of its own data, or fewer bytes of it
					if (o.b >= 0 && had)
					{
						n	= n % (had + 1);
						src = (const unsigned char*)b.data();
					}
					break;
				case SRC_OTHER:
					if (o.b >= 0 && slot[other] && slot[other]->size())
					{
						n	= n % (slot[other]->size() + 1);
						src = (const unsigned char*)slot[other]->data();
					}
					break;
			}
			if (o.b < 0)
				src = nullptr;
			// what the result must be
			std::vector<int> want;
			{
				Quiet q;
				const Model& m = X->m[s];
				if (o.b >= 0)
				{
					want.assign(n, -1);
					if (src && src == fresh_bytes)
						for (size_t i = 0; i < n; i++)
							want[i] = src[i];
					else if (src)
					{
						const Model& from = src == (const unsigned char*)b.data() ? m : X->m[other];
						for (size_t i = 0; i < n; i++)
							want[i] = from.bytes[i];
					}
				}
			}
			muu::blob* ret = &b;
			if (attempt((o.d >> 20) & 1, o.b < 0, name, [&] { ret = &b.assign(n, src, al); }))
			{
				Quiet q;
				if (ret != &b)
					sim_violation("access", "assign() does not return the blob");
				// (without a source the contents are unspecified, unless it is a resize)
				Model& m = X->m[s];
				m.bytes	 = want;
				if (m.align < al)
					m.align = al;
				else
					m.align = al ? al : 1;
			}
			{
				Quiet q;
				std::vector<int>().swap(want);
			}
			break;
		}
		case OP_COPY_ASSIGN:
		{
			if (!slot[s] || !slot[t])
				break;
			muu::blob& b		  = *slot[s];
			const muu::blob& from = *slot[t];
			muu::blob* ret		  = &b;
			if (attempt(o.d & 1, false, name, [&] { ret = &(b = from); }))
			{
				Quiet q;
				if (ret != &b)
					sim_violation("access", "assignment does not return the blob");
				if (s != t)
					X->m[s] = X->m[t];
				if (s != t && b.size() && b.data() == from.data())
					sim_violation("shared", "a copy shares its data with the original");
			}
			check(t, "source of a copy assignment");
			break;
		}
		case OP_MOVE_ASSIGN:
		{
			if (!slot[s] || !slot[t])
				break;
			muu::blob& from = *slot[t];
			muu::blob* ret	= &(*slot[s] = static_cast<muu::blob&&>(from));
			if (ret != slot[s])
				sim_violation("access", "assignment does not return the blob");
			Quiet q;
			if (s != t)
			{
				X->m[s]		   = X->m[t];
				X->m[t]		   = Model{};
				X->m[t].exists = true;
			}
			break;
		}
		case OP_RESIZE:
		{
			if (!slot[s])
				break;
			muu::blob& b   = *slot[s];
			const size_t n = real_size(o.b);
			muu::blob* ret = &b;
			if (attempt(o.d & 1, o.b < 0, name, [&] { ret = &b.resize(n); }))
			{
				Quiet q;
				if (ret != &b)
					sim_violation("access", "resize() does not return the blob");
				X->m[s].bytes.resize(n, -1);
			}
			break;
		}
		case OP_WRITE:
		{
			if (!slot[s])
				break;
			muu::blob& b = *slot[s];
			const size_t n = b.size();
			unsigned char* p = (unsigned char*)b.data();
			for (size_t i = 0; i < n && i < 4096; i++)
				p[i] = (unsigned char)(i * 11 + (size_t)o.b);
			Quiet q;
			for (size_t i = 0; i < n; i++)
				p[i] = (unsigned char)(i * 11 + (size_t)o.b);
			for (size_t i = 0; i < n && i < X->m[s].bytes.size(); i++)
				X->m[s].bytes[i] = (unsigned char)(i * 11 + (size_t)o.b);
			break;
		}
		case OP_DESTROY: drop(s); break;
	}
	for (int k = 0; k < SLOTS; k++)
		check(k, name);
}

static void begin(const Scenario& sc)
{
	X	  = new State;
	X->sc = sc;
	sim_race_mode(0);
}
static void body()
{
	const size_t base = sim_live_allocs();
	slot			  = new muu::blob*[SLOTS]();
	{
		Quiet q;
		fresh_size = X->sc.get("large", 0) ? LARGEST : 8192;
	}
	fresh_bytes = new unsigned char[fresh_size];
	size_t n;
	{
		Quiet q;
		n = X->sc.ops.size();
	}
	for (size_t i = 0; i < n; i++)
	{
		SimOp o;
		{
			Quiet q;
			o = X->sc.ops[i];
			sim_event(0x42, i);
		}
		if (o.kind >= 0 && o.kind < OP_COUNT)
			run_op(o);
	}
	for (int s = 0; s < SLOTS; s++)
		drop(s);
	delete[] slot;
	delete[] fresh_bytes;
	Quiet q;
	sim_report_leaks("leak", base);
}
static void end(int)
{
	delete X;
	X = nullptr;
}
static int stuck(std::string& why)
{
	why = "an operation on a blob never returns";
	return 1;
}

static const Workload wl = { SIM_WL_NAME, gen, begin, body, end, stuck, op_names, OP_COUNT };
extern "C" __attribute__((visibility("default"))) const Workload* sim_workload()
{
	return &wl;
}

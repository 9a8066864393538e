// spin_mutex: S01 (mutual exclusion, publication), S02 (progress, truthful and non-blocking try_lock).
#include "../sim/rt.h"
#include <muu/pause.h>
// the back-off must be bounded: count it (a pause is neither memory access nor system call, so nothing else would)
static void spin_pause() noexcept;
#undef MUU_PAUSE
#define MUU_PAUSE() spin_pause()
#include <muu/spin_mutex.h>
#include <cstring>
#include <mutex>
#include <new>
#include <thread>

enum Op
{
	OP_SECTION, // a: mutex, b: How, c: scheduling points inside, d: ns inside
	OP_TRY,		// a: mutex, b: number of attempts, c: whether to keep it for c scheduling points when taken
	OP_HOLD,	// a: mutex, b: How, c: attempts of others that must return before it is released
	OP_BOTH,	// a: which first (only matters for locking one by one), c: scheduling points inside
	OP_REST,	// a: ns
	OP_CHURN,	// a: mutex, b: how many times it is locked and unlocked in a row
	OP_COUNT
};
static const char* const op_names[] = { "section", "try", "hold", "both", "rest", "churn" };
enum How
{
	H_LOCK,
	H_GUARD,
	H_UNIQUE,
	H_DEFER,
	H_SCOPED,
	H_COUNT
};
static constexpr int MUTEXES = 3, MAXF = 16;
static constexpr uint64_t PAUSE_LIMIT = 65536;

static int64_t clampi(int64_t v, int64_t lo, int64_t hi)
{
	return v < lo ? lo : v > hi ? hi : v;
}

static void gen(Rng& r, Scenario& sc)
{
	auto& c		= sc.cfg;
	c["clients"] = r.range(2, r.chance(0.2) ? 8 : 4);
	c["mutexes"] = r.chance(0.7) ? 1 : r.range(2, MUTEXES);
	c["budget1"] = 150000;
	c["budget2"] = 1500000;
	static const int64_t steps[] = { 20, 100, 500, 2000 };
	c["step_ns"]				 = r.pick(steps);
	static const int64_t st[]	 = { 0, 0, 300, 3000, 20000 };
	c["f_thread_stall"]			 = r.pick(st);
	c["dirty"]					 = r.range(0, 1);
	const int n					 = (int)r.range(2, r.chance(0.2) ? 60 : 16);
	const bool s02				 = sc.prop == "S02";
	static const int64_t ns[]	 = { 0, 0, 0, 1000, 20000, 200000, 2000000 };
	for (int i = 0; i < n; i++)
	{
		const int thr	= (int)r.below((uint64_t)c["clients"]);
		const int64_t m = r.range(0, c["mutexes"] - 1);
		const int64_t k = (int64_t)r.below(10);
		if (k < (s02 ? 3 : 5))
			sc.ops.push_back({ OP_SECTION, thr, m, r.range(0, H_COUNT - 1), r.range(0, 6), r.pick(ns) });
		else if (k < (s02 ? 6 : 7))
			sc.ops.push_back({ OP_TRY, thr, m, r.range(1, 5), r.range(0, 5), 0 });
		else if (k < (s02 ? 8 : 7))
			sc.ops.push_back({ OP_HOLD, thr, m, r.range(0, H_COUNT - 1), r.range(1, 6), 0 });
		else if (k < 9 && c["mutexes"] > 1)
			sc.ops.push_back({ OP_BOTH, thr, r.range(0, 5), 0, r.range(0, 4), 0 });
		else
			sc.ops.push_back({ OP_REST, thr, r.pick(ns), 0, 0, 0 });
	}
	// many turns, as of a mutex that has been in use for long
	if (r.chance(0.01))
	{
		const bool lots = r.chance(0.03);
		sc.ops.insert(sc.ops.begin() + (long)r.below(sc.ops.size() + 1), SimOp{ OP_CHURN, (int)r.below((uint64_t)c["clients"]), r.range(0, c["mutexes"] - 1), lots ? r.range(65520, 65560) : r.range(240, 270), 0, 0 });
		c["budget1"] *= lots ? 60 : 3;
		c["budget2"] *= lots ? 20 : 2;
	}
}

// ------------------------------------------------------------------ state
enum Doing
{
	D_NOTHING,
	D_LOCK,
	D_TRY,
	D_UNLOCK,
	D_HOLDING, // in OP_HOLD, waiting for others' attempts
	D_DONE
};
struct Mut
{
	int holder		   = -1;	// client between a successful acquisition and its unlock()
	int releasing	   = 0;
	bool failed_since  = false; // an attempt failed since the holder acquired it
	int64_t stamp	   = 0;		// what the last critical section wrote
	int64_t tries_done = 0;
};
struct Cl
{
	Doing doing = D_NOTHING;
	int mutex	= -1;
	bool overlapped = false; // somebody else used the mutex during the attempt
	std::vector<SimOp> ops;
};
struct State
{
	Scenario sc;
	std::string prop;
	Mut m[MUTEXES];
	Cl c[MAXF];
	int clients = 0, nm = 1;
	int64_t next_stamp = 0;
	int64_t acquired   = 0;
};
static State* X;
static bool is(const char* p)
{
	return X->prop == p;
}
// of the back-off, by simulated thread; not part of the simulated memory
static uint64_t pauses[256], pause_mark[256], pause_seen[64][64];
static int fiber_client[256];

struct Guarded // plain memory
{
	int64_t word[8];
};
static Guarded* G;
static muu::spin_mutex* M[MUTEXES];

__attribute__((disable_sanitizer_instrumentation, noinline)) static void spin_pause() noexcept
{
	const int f = sim_fiber() & 255;
	const uint64_t n = ++pauses[f];
	if (n % 32)
		return;
	sim_yield();
	const int k = fiber_client[f];
	if (k < 0 || !X || X->prop != "S02")
		return;
	const Cl& c	   = X->c[k];
	bool all_spin = true; // whoever else is in lock() is spinning too: it has not got the mutex without having returned yet
	if (n % 2048 == 0)
		for (int o = 0; o < 64; o++)
		{
			const int ok = fiber_client[o];
			if (o != f && ok >= 0 && X->c[ok].mutex == c.mutex && (X->c[ok].doing == D_TRY || (X->c[ok].doing == D_LOCK && pauses[o] == pause_seen[f & 63][o])))
				all_spin = false;
			pause_seen[f & 63][o] = pauses[o];
		}
	if (n - pause_mark[f] <= PAUSE_LIMIT)
		return;
	Quiet q;
	if (c.doing == D_LOCK && X->m[c.mutex].holder < 0 && !X->m[c.mutex].releasing && n % 2048 == 0 && all_spin)
		sim_violation("backoff", "lock() has been backing off for %llu pauses since the mutex became free", (unsigned long long)(n - pause_mark[f]));
	if (c.doing == D_TRY)
		sim_violation("waits", "try_lock() waits");
}
// (host) the mutex changed hands: whoever waits starts waiting anew
static void remark()
{
	memcpy(pause_mark, pauses, sizeof pauses);
}
static void disturb(int k, int m)
{
	for (int i = 0; i < MAXF; i++)
		if (i != k && X->c[i].doing == D_TRY && X->c[i].mutex == m)
			X->c[i].overlapped = true;
}
static void wake_holders()
{
	sim_wake((const void*)0x3000);
}

// ------------------------------------------------------------------ the calls, recorded
static void before_lock(int k, int m)
{
	Quiet q;
	disturb(k, m);
	X->c[k].doing = D_LOCK;
	X->c[k].mutex = m;
	sim_event(0x11, (uint64_t)(k * 8 + m));
	wake_holders();
}
static void acquired(int k, int m, bool by_try)
{
	Mut& u = X->m[m];
	if (u.holder >= 0)
	{
		if (is("S01") || (is("S02") && (by_try || u.failed_since)))
			sim_violation("exclusion", "thread %d acquired the mutex (%s) while thread %d holds it", k, by_try ? "try_lock" : "lock", u.holder);
	}
	u.holder		= k;
	u.failed_since	= false;
	X->c[k].doing	= D_NOTHING;
	X->acquired++;
	remark();
	sim_event(0x12, (uint64_t)(k * 8 + m));
}
static void after_lock(int k, int m)
{
	Quiet q;
	acquired(k, m, false);
}
static void before_try(int k, int m)
{
	Quiet q;
	disturb(k, m);
	Cl& c		 = X->c[k];
	c.doing		 = D_TRY;
	c.mutex		 = m;
	c.overlapped = X->m[m].holder >= 0 || X->m[m].releasing;
	for (int i = 0; i < MAXF && !c.overlapped; i++)
		c.overlapped = i != k && X->c[i].mutex == m && (X->c[i].doing == D_LOCK || X->c[i].doing == D_TRY);
	sim_event(0x13, (uint64_t)(k * 8 + m));
}
static void after_try(int k, int m, bool ok)
{
	Quiet q;
	Cl& c = X->c[k];
	sim_event(0x14, (uint64_t)(k * 8 + m) * 2 + ok);
	X->m[m].tries_done++;
	if (ok)
		acquired(k, m, true);
	else
	{
		X->m[m].failed_since = true;
		if (is("S02") && !c.overlapped)
			sim_violation("untrue", "try_lock() failed although nobody held or was taking the mutex");
		if (X->m[m].holder >= 0)
			sim_probe("try_lock failed while the mutex was held");
		else
			sim_probe("try_lock failed while the mutex was being taken or released");
	}
	c.doing = D_NOTHING;
	wake_holders();
}
static void before_unlock(int k, int m)
{
	Quiet q;
	disturb(k, m);
	Mut& u = X->m[m];
	if (u.holder != k && is("S01"))
		sim_violation("exclusion", "the mutex held by thread %d was taken by thread %d", k, u.holder);
	u.holder = -1;
	u.releasing++;
	X->c[k].doing = D_UNLOCK;
	sim_event(0x15, (uint64_t)(k * 8 + m));
}
static void after_unlock(int k, int m)
{
	Quiet q;
	X->m[m].releasing--;
	X->c[k].doing = D_NOTHING;
	remark();
	wake_holders();
}

// the mutex as the standard wrappers see it
struct Lockable
{
	int m, k;
	void lock()
	{
		before_lock(k, m);
		M[m]->lock();
		after_lock(k, m);
	}
	bool try_lock()
	{
		before_try(k, m);
		const bool ok = M[m]->try_lock();
		after_try(k, m, ok);
		return ok;
	}
	void unlock()
	{
		before_unlock(k, m);
		M[m]->unlock();
		after_unlock(k, m);
	}
};

// ------------------------------------------------------------------ critical sections
static void section(int k, int m, int64_t points, int64_t ns)
{
	int64_t expect, mine;
	{
		Quiet q;
		expect = X->m[m].stamp;
		mine   = ++X->next_stamp;
	}
	Guarded& g = G[m];
	for (int i = 0; i < 4; i++)
		if (g.word[i] != expect)
		{
			Quiet q;
			if (is("S01"))
				sim_violation("publish", "after acquiring the mutex thread %d reads %lld instead of %lld, written by the critical section before", k, (long long)g.word[i],
							  (long long)expect);
		}
	g.word[0] = mine;
	for (int64_t i = 0; i < points; i++)
		sim_yield();
	g.word[1] = mine;
	if (ns)
		sim_sleep((uint64_t)ns);
	g.word[2] = g.word[0];
	for (int64_t i = 0; i < points; i++)
		sim_yield();
	g.word[3] = g.word[1];
	for (int i = 0; i < 4; i++)
		if (g.word[i] != mine)
		{
			Quiet q;
			if (is("S01"))
				sim_violation("exclusion", "what thread %d wrote inside its critical section was overwritten there", k);
		}
	Quiet q;
	X->m[m].stamp = mine;
}
template <typename F>
static void with(int k, int m, int64_t how, F&& f)
{
	Lockable l{ m, k };
	switch (how)
	{
		default:
		case H_LOCK:
			l.lock();
			f();
			l.unlock();
			break;
		case H_GUARD:
		{
			std::lock_guard<Lockable> g(l);
			f();
			break;
		}
		case H_UNIQUE:
		{
			std::unique_lock<Lockable> g(l);
			f();
			if (m & 1)
			{
				g.unlock();
				g.lock();
				f();
			}
			break;
		}
		case H_DEFER:
		{
			std::unique_lock<Lockable> g(l, std::defer_lock);
			if (!g.try_lock())
				g.lock();
			f();
			g.unlock();
			break;
		}
		case H_SCOPED:
		{
			std::scoped_lock<Lockable> g(l);
			f();
			break;
		}
	}
}
static void client(int k)
{
	int f = sim_fiber() & 255;
	size_t n;
	{
		Quiet q;
		fiber_client[f] = k;
		n				= X->c[k].ops.size();
	}
	for (size_t i = 0; i < n; i++)
	{
		SimOp o;
		int nm;
		{
			Quiet q;
			o  = X->c[k].ops[i];
			nm = X->nm;
		}
		const int m = (int)(((o.a % nm) + nm) % nm);
		switch (o.kind)
		{
			case OP_SECTION: with(k, m, o.b, [&] { section(k, m, clampi(o.c, 0, 50), clampi(o.d, 0, 10000000)); }); break;
			case OP_TRY:
			{
				Lockable l{ m, k };
				for (int64_t t = 0; t < clampi(o.b, 0, 50); t++)
				{
					if (t & 1)
					{
						std::unique_lock<Lockable> g(l, std::try_to_lock);
						if (g)
							section(k, m, clampi(o.c, 0, 50), 0);
					}
					else if (l.try_lock())
					{
						section(k, m, clampi(o.c, 0, 50), 0);
						l.unlock();
					}
				}
				break;
			}
			case OP_CHURN:
			{
				Lockable l{ m, k };
				for (int64_t t = 0; t < clampi(o.b, 0, 70000); t++)
				{
					l.lock();
					if (t % 64 == 0)
						section(k, m, 0, 0);
					l.unlock();
				}
				break;
			}
			case OP_HOLD:
				with(k, m, o.b,
					 [&]
					 {
						 section(k, m, 1, 0);
						 int64_t target;
						 {
							 Quiet q;
							 target		   = X->m[m].tries_done + clampi(o.c, 0, 20);
							 X->c[k].doing = D_HOLDING;
							 wake_holders();
						 }
						 for (;;)
						 {
							 bool go;
							 {
								 Quiet q;
								 go = X->m[m].tries_done >= target;
								 if (!go)
								 {
									 // nobody is left who could try
									 bool waits[MAXF] = {};
									 for (bool more = true; more;)
									 {
										 more = false;
										 for (int j = 0; j < X->clients; j++)
										 {
											 const Cl& c = X->c[j];
											 const int h = c.doing == D_LOCK ? X->m[c.mutex].holder : -1;
											 if (!waits[j] && (c.doing == D_DONE || c.doing == D_HOLDING || (h >= 0 && waits[h])))
												 waits[j] = more = true;
										 }
									 }
									 go = true;
									 for (int j = 0; j < X->clients; j++)
										 go = go && waits[j];
								 }
								 else
									 sim_probe("attempts returned while the mutex was held");
								 if (go)
								 {
									 X->c[k].doing = D_NOTHING;
									 wake_holders();
								 }
							 }
							 if (go)
								 break;
							 sim_block((const void*)0x3000); // (no memory access between the decision and this)
						 }
					 });
				break;
			case OP_BOTH:
			{
				if (nm < 2)
					break;
				const int p = (int)(((o.a % nm) + nm) % nm), s = (p + 1) % nm;
				Lockable a{ p, k }, b{ s, k };
				std::scoped_lock<Lockable, Lockable> g(a, b);
				section(k, p, clampi(o.c, 0, 50), 0);
				section(k, s, clampi(o.c, 0, 50), 0);
				break;
			}
			case OP_REST: sim_sleep((uint64_t)clampi(o.a, 0, 10000000)); break;
		}
	}
	Quiet q;
	X->c[k].doing = D_DONE;
	wake_holders();
}

static void begin(const Scenario& sc)
{
	X		   = new State;
	X->sc	   = sc;
	X->prop	   = sc.prop;
	X->clients = (int)clampi(sc.get("clients", 2), 1, MAXF - 1);
	X->nm	   = (int)clampi(sc.get("mutexes", 1), 1, MUTEXES);
	for (auto& o : X->sc.ops)
	{
		o.thr = (int)clampi(o.thr, 0, X->clients - 1);
		X->c[o.thr].ops.push_back(o);
	}
	memset(pauses, 0, sizeof pauses);
	memset(pause_seen, 0, sizeof pause_seen);
	memset(pause_mark, 0, sizeof pause_mark);
	for (auto& f : fiber_client)
		f = -1;
	sim_race_mode(sc.prop == "S01" ? 2 : 0);
}
static void body()
{
	const int nm = X->nm, n = X->clients;
	G			 = new Guarded[MUTEXES];
	for (int m = 0; m < MUTEXES; m++)
		memset((void*)&G[m], 0, sizeof(Guarded));
	unsigned char* raw = new unsigned char[MUTEXES * 64];
	memset(raw, X->sc.get("dirty", 0) ? 0xFF : 0, MUTEXES * 64);
	for (int m = 0; m < nm; m++)
		M[m] = ::new ((void*)(raw + m * 64)) muu::spin_mutex;
	sim_watch(G, sizeof(Guarded) * MUTEXES);
	{
		std::vector<std::thread> th;
		for (int k = 1; k < n; k++)
			th.emplace_back([k] { client(k); });
		client(0);
		for (auto& t : th)
			t.join();
	}
	// nobody is left: both kinds of acquisition succeed at once
	for (int m = 0; m < nm; m++)
	{
		Lockable l{ m, 0 };
		if (l.try_lock())
		{
			section(0, m, 0, 0);
			l.unlock();
		}
		l.lock();
		section(0, m, 0, 0);
		l.unlock();
		M[m]->~spin_mutex();
	}
	delete[] raw;
	delete[] G;
}
static void end(int)
{
	delete X;
	X = nullptr;
}
static int stuck(std::string& why)
{
	if (!is("S02"))
		return 0;
	for (int k = 0; k < MAXF; k++)
		if (X->c[k].doing == D_TRY)
		{
			why = "try_lock() never returns";
			return 1;
		}
	for (int k = 0; k < MAXF; k++)
		if (X->c[k].doing == D_LOCK && X->m[X->c[k].mutex].holder < 0)
		{
			why = "lock() never returns although nobody holds the mutex";
			return 1;
		}
	for (int k = 0; k < MAXF; k++)
		if (X->c[k].doing == D_UNLOCK)
		{
			why = "unlock() never returns";
			return 1;
		}
	return 0;
}

static const Workload wl = { SIM_WL_NAME, gen, begin, body, end, stuck, op_names, OP_COUNT };
extern "C" __attribute__((visibility("default"))) const Workload* sim_workload()
{
	return &wl;
}

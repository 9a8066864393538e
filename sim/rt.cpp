// Deterministic runtime: fibers, scheduler, simulated clock, POSIX/libstdc++ interposition, simulated heap,
// and the __tsan_* instrumentation entry points (scheduling points + vector-clock race detector).
#ifndef _GNU_SOURCE
	#define _GNU_SOURCE
#endif
#include "rt_int.h"
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <csignal>
#include <cxxabi.h>
#include <exception>
#include <typeinfo>
#include <mutex>
#include <new>
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <linux/futex.h>

#define EXPORT extern "C" __attribute__((visibility("default"), used))

extern "C" char __libc_single_threaded;
extern "C"
{
	void* __libc_malloc(size_t);
	void __libc_free(void*);
	void* __libc_calloc(size_t, size_t);
	void* __libc_realloc(void*, size_t);
	void* __libc_memalign(size_t, size_t);
}

extern "C" const char* const sim_fault_names[FK_COUNT] = { "spurious_wakeup", "try_lock_fails", "late_timer",	 "thread_create_fails",
												"alloc_fails",	   "entropy_repeat", "wake_other",	 "callback_throws",
												"device_fault",	   "thread_stall",	 "clock_jump" };

void (*rt_on_violation)(const Violation&) = nullptr;

// ------------------------------------------------------------------ raw syscalls
static long raw_syscall(long n, long a, long b, long c, long d, long e, long f)
{
	long ret;
	register long r10 __asm__("r10") = d;
	register long r8 __asm__("r8")	 = e;
	register long r9 __asm__("r9")	 = f;
	__asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return ret;
}

// ------------------------------------------------------------------ memory layout
static constexpr uintptr_t REG_BASE	  = 0x100000000000ull;
static constexpr size_t ARENA_SIZE	  = 512ull << 20;
static constexpr size_t STACK_SIZE	  = 256ull << 10; // including one guard page
static constexpr size_t REG_SIZE	  = ARENA_SIZE + MAXF * STACK_SIZE;

struct Cell
{
	uint32_t epoch;
	uint16_t fid;  // fiber id + 1; 0 = empty
	uint8_t mask;  // bytes of the granule
	uint8_t flags; // 1 write, 2 atomic
	uint32_t pc;
	uint32_t op;
};
static constexpr int CELLS = 4;
static Cell* g_shadow;	   // for [REG_BASE, REG_BASE+REG_SIZE)
static uint8_t* g_state;   // per arena granule: 0 not allocated, 1..8 addressable bytes, 0xFD freed
static Cell* g_dshadow;	   // for the library's writable data
static uintptr_t g_dlo, g_dhi;
static std::vector<char> g_dsnap;
static uintptr_t g_text_base;

static size_t g_bump;	   // arena offset
static size_t g_bump_max;  // since last clear
struct Block
{
	uint32_t off; // in granules
	uint32_t fiber;
	size_t size;
	uint32_t pc[3];
	uint8_t live;
	uint8_t tls;
};
static Block* g_blocks;
static size_t g_nblocks;
static constexpr size_t MAX_BLOCKS = 1u << 20;
static size_t g_live_blocks, g_alloc_calls;

// ------------------------------------------------------------------ fibers
enum State : uint8_t
{
	ST_FREE,
	ST_RUN,
	ST_BLOCKED,
	ST_STALLED,
	ST_DONE
};
enum WaitKind : uint8_t
{
	WK_NONE,
	WK_MUTEX,
	WK_COND,
	WK_SLEEP,
	WK_JOIN,
	WK_GUARD,
	WK_FUTEX,
	WK_RW,
	WK_SEM,
	WK_ONCE,
	WK_HARNESS
};
static const char* const wk_names[] = { "none", "mutex", "cond", "sleep", "join", "guard", "futex", "rwlock", "sem", "once", "harness" };
enum SpKind
{
	SP_LOCK,
	SP_UNLOCK,
	SP_COND,
	SP_ATOMIC,
	SP_THREAD,
	SP_TIME,
	SP_PLAIN,
	SP_OTHER
};

struct TlsVar
{
	const void* ctl;
	void* ptr;
};
struct TlsDtor
{
	void (*fn)(void*);
	void* obj;
};

struct Fiber
{
	int id;
	State st;
	WaitKind wk;
	bool timed_out, rt_deadline, joined, detached, has_rel, joining, long_sleep;
	const void* wkey;
	uint64_t deadline;
	uint64_t ready_since; // when it last became runnable or was descheduled while it could run
	uint64_t wseq;
	void* sp;
	char* stk; // usable low address
	uintptr_t minsp;
	uint64_t opno;
	uint64_t fcount[FK_COUNT];
	int64_t prio;
	int err;
	int s_rt, s_quiet, s_norace;
	uint64_t eh[2];
	void* once[2];
	void* (*fn)(void*);
	void* arg;
	void* ret;
	uint32_t armed;
	uint32_t vc[MAXF], acq[MAXF], rel[MAXF];
	TlsVar tls[32];
	int ntls;
	TlsDtor dtors[64];
	int ndtors;
	void* specific[32];
	uint32_t cs[48];
	int csn;
	int nwords, wfaults;
	size_t sched_cur; // replay cursor
};

static Fiber g_f[MAXF];
static constexpr int NWORDS = 2048;
static uint32_t g_words[MAXF][NWORDS]; // entropy handed to each thread
static int g_entropy_from;			   // the source repeats nothing before a thread's n-th word
static int g_nf;
static Fiber* cur;
static bool g_insim;	   // executing on a fiber
static int g_quiet;		   // harness section: no scheduling, no checks, real heap
static int g_norace;
static int g_rt;		   // inside the runtime
static bool g_running;	   // a run is in progress (possibly host side)
struct Mask // a set of fibers
{
	static constexpr int W = (MAXF + 63) / 64;
	uint64_t w[W];
	explicit operator bool() const
	{
		uint64_t any = 0;
		for (int i = 0; i < W; i++)
			any |= w[i];
		return any != 0;
	}
	bool has(int i) const
	{
		return w[i >> 6] >> (i & 63) & 1;
	}
	void add(int i)
	{
		w[i >> 6] |= 1ull << (i & 63);
	}
	void remove(int i)
	{
		w[i >> 6] &= ~(1ull << (i & 63));
	}
	int count() const
	{
		int n = 0;
		for (int i = 0; i < W; i++)
			n += __builtin_popcountll(w[i]);
		return n;
	}
	bool others(int i) const // is there a member other than i?
	{
		Mask m = *this;
		m.remove(i);
		return (bool)m;
	}
	int next(int from) const // the first member at or after from, or -1
	{
		int k = from >> 6;
		if (k >= W)
			return -1;
		uint64_t v = w[k] & (~0ull << (from & 63));
		while (!v)
		{
			if (++k >= W)
				return -1;
			v = w[k];
		}
		return k * 64 + __builtin_ctzll(v);
	}
	int nth(int n) const
	{
		int k = 0;
		for (int c; k < W && n >= (c = __builtin_popcountll(w[k])); k++)
			n -= c;
		uint64_t v = w[k];
		while (n--)
			v &= v - 1;
		return k * 64 + __builtin_ctzll(v);
	}
};
static Mask g_runmask; // runnable fibers
static volatile uint64_t g_watched_step; // when the watchdog looked last
static int g_race_mode = 1;
struct Watch
{
	uintptr_t lo, hi;
};
static Watch g_watch[64];
static int g_nwatch;
static uint64_t g_now, g_next_deadline, g_step, g_consec, g_wseq;
static int64_t g_rt_offset;
static uint64_t g_last_fault;
static bool g_drain;
static bool g_inviolation;
static void* g_host_sp;
static uint64_t g_host_eh[2];
static const Workload* g_wl;
static RunParams* g_rp;
static RunStats g_st;
static Rng g_rng{ 1 }, g_env{ 1 };
static uint64_t g_change[16];
static int g_nchange;
static int64_t g_low_prio;
static std::map<std::string, uint64_t> g_probes;
static FILE* g_trace;
static Workload const* g_the_wl;
static bool g_yieldmask_dummy;

struct PerFiberDev
{
	std::vector<SchedDev> v;
};
static std::vector<SchedDev> g_dev[MAXF];
struct FKey
{
	int kind, fiber;
	uint64_t idx;
	bool operator<(const FKey& o) const
	{
		if (kind != o.kind)
			return kind < o.kind;
		if (fiber != o.fiber)
			return fiber < o.fiber;
		return idx < o.idx;
	}
};
static std::map<FKey, int64_t> g_fdev;
static bool g_fdev_any[FK_COUNT];

struct Rt
{
	Rt()
	{
		g_rt++;
	}
	~Rt()
	{
		g_rt--;
	}
};
static inline bool active() // user-level simulated execution
{
	return g_insim && !g_quiet && !g_rt;
}

// ------------------------------------------------------------------ hashing
static inline void mix(uint64_t v)
{
	uint64_t h = g_st.hash ^ v;
	h *= 0x9E3779B97F4A7C15ull;
	h ^= h >> 29;
	g_st.hash = h;
}

// ------------------------------------------------------------------ violations
static void append_stack(std::string& s)
{
	if (!cur || !g_insim)
		return;
	char b[64];
	snprintf(b, sizeof b, " [thread %d, op %llu, t=%llu ns; stack", cur->id, (unsigned long long)cur->opno, (unsigned long long)g_now);
	s += b;
	int n = cur->csn < 48 ? cur->csn : 48;
	for (int i = n, k = 0; i-- > 0 && k < 6; k++)
	{
		snprintf(b, sizeof b, " +0x%x", cur->cs[i]);
		s += b;
	}
	s += "]";
}

static void violate(const char* cls, const std::string& msg)
{
	if (g_inviolation)
		_exit(99);
	g_inviolation = true;
	g_rt++;
	g_quiet++;
	Violation v{ cls, msg };
	append_stack(v.msg);
	g_insim	   = false;
	if (rt_on_violation)
		rt_on_violation(v);
	fprintf(stderr, "violation %s: %s\n", v.cls.c_str(), v.msg.c_str());
	_exit(98);
}

EXPORT void sim_violation(const char* cls, const char* fmt, ...)
{
	g_rt++;
	char buf[2048];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	violate(cls, buf);
	abort();
}

__attribute__((format(printf, 2, 3))) [[noreturn]] static void vio(const char* cls, const char* fmt, ...)
{
	g_rt++;
	char buf[1024];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf, sizeof buf, fmt, ap);
	va_end(ap);
	violate(cls, buf);
	_exit(97);
}

static std::string waiters_text()
{
	std::string s;
	for (int i = 0; i < g_nf; i++)
	{
		if (g_f[i].st == ST_DONE)
			continue;
		char b[96];
		snprintf(b, sizeof b, " T%d:%s", i,
				 g_f[i].st == ST_RUN ? "runnable" : g_f[i].st == ST_STALLED ? "stalled" : wk_names[g_f[i].wk]);
		s += b;
	}
	return s;
}

// ------------------------------------------------------------------ context switch
extern "C" void sim_swap(void** save, void* to);
extern "C" void sim_tramp();
__asm__(R"(
	.text
	.globl sim_swap
	.type sim_swap,@function
sim_swap:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	subq $8, %rsp
	stmxcsr (%rsp)
	fnstcw 4(%rsp)
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	ldmxcsr (%rsp)
	fldcw 4(%rsp)
	addq $8, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
	.size sim_swap,.-sim_swap
	.globl sim_tramp
	.type sim_tramp,@function
sim_tramp:
	.cfi_startproc
	.cfi_undefined rip
	xorl %ebp, %ebp
	call sim_fiber_main
	ud2
	.cfi_endproc
	.size sim_tramp,.-sim_tramp
)");

// once callables of libstdc++
namespace std
{
	extern __thread void* __once_callable;
	extern __thread void (*__once_call)();
}

static void save_tls(Fiber* f)
{
	f->err = errno;
	memcpy(f->eh, abi::__cxa_get_globals(), 16);
	f->once[0] = std::__once_callable;
	f->once[1] = (void*)std::__once_call;
}
static void load_tls(Fiber* f)
{
	errno = f->err;
	memcpy(abi::__cxa_get_globals(), f->eh, 16);
	std::__once_callable = f->once[0];
	std::__once_call	 = (void (*)())f->once[1];
}

// an unfair scheduler has kept this one from running for long
static bool starving(const Fiber* f)
{
	return !g_drain && f != cur && f->st == ST_RUN && g_now > f->ready_since + 100000000;
}
static void note_fault_until(uint64_t t);
static void switch_to(int t)
{
	Fiber* from = cur;
	Fiber* to	= &g_f[t];
	if (from == to)
		return;
	g_st.switches++;
	if (g_trace)
	{
		const int q = g_rt++;
		fprintf(g_trace, "  %10llu t=%-12llu T%d (op %llu, %s) -> T%d", (unsigned long long)g_step, (unsigned long long)g_now, from->id, (unsigned long long)from->opno,
				from->st == ST_RUN ? "preempted" : from->st == ST_DONE ? "finished" : from->st == ST_STALLED ? "stalled" : wk_names[from->wk], t);
		for (int i = from->csn < 48 ? from->csn : 48, k = 0; i-- > 0 && k < 3; k++)
			fprintf(g_trace, " +0x%x", from->cs[i]);
		fputc('\n', g_trace);
		g_rt = q;
	}
	mix(((uint64_t)from->id << 56) ^ ((uint64_t)t << 48) ^ from->opno);
	save_tls(from);
	from->s_rt	   = g_rt;
	from->s_quiet  = g_quiet;
	from->s_norace = g_norace;
	uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
	if (sp < from->minsp)
		from->minsp = sp;
	from->ready_since = g_now;
	if (starving(to)) // as good as a stall
		note_fault_until(g_now);
	cur		 = to;
	g_consec = 0;
	load_tls(to);
	g_rt	 = to->s_rt;
	g_quiet	 = to->s_quiet;
	g_norace = to->s_norace;
	sim_swap(&from->sp, to->sp);
}

// ------------------------------------------------------------------ time
static void wake_fiber(Fiber* f)
{
	f->st		= ST_RUN;
	f->wk		= WK_NONE;
	f->long_sleep = false;
	f->deadline = UINT64_MAX;
	f->ready_since = g_now;
	g_runmask.add(f->id);
}
static void recompute_deadline()
{
	uint64_t m = UINT64_MAX;
	for (int i = 0; i < g_nf; i++)
		if ((g_f[i].st == ST_BLOCKED || g_f[i].st == ST_STALLED) && g_f[i].deadline < m)
			m = g_f[i].deadline;
	g_next_deadline = m;
}
static void fire_timers()
{
	for (int i = 0; i < g_nf; i++)
	{
		Fiber* f = &g_f[i];
		if ((f->st == ST_BLOCKED || f->st == ST_STALLED) && f->deadline <= g_now)
		{
			f->timed_out = true;
			wake_fiber(f);
		}
	}
	recompute_deadline();
}

static inline int next_cyclic(int id, const Mask& mask)
{
	const int n = mask.next(id + 1);
	return n >= 0 ? n : mask.next(0);
}
static int best_prio(const Mask& mask)
{
	int best = -1;
	for (int i = mask.next(0); i >= 0; i = mask.next(i + 1))
		if (best < 0 || g_f[i].prio > g_f[best].prio)
			best = i;
	return best;
}

static bool faults_on()
{
	return !g_drain;
}

static void trace_fault(int kind, int64_t v)
{
	if (!g_trace)
		return;
	const int q = g_rt++;
	fprintf(g_trace, "  %10llu t=%-12llu T%d FAULT %s %lld\n", (unsigned long long)g_step, (unsigned long long)g_now, cur->id, sim_fault_names[kind], (long long)v);
	g_rt = q;
}

// step- and count-indexed fault decisions
static int64_t fault_decide(int kind, uint64_t idx, double prob, Rng& r, int64_t lo, int64_t hi)
{
	if (!faults_on())
		return 0;
	if (g_rp->replay)
	{
		if (!g_fdev_any[kind])
			return 0;
		auto it = g_fdev.find(FKey{ kind, cur->id, idx });
		if (it == g_fdev.end())
			return 0;
		g_st.fired[kind]++;
		trace_fault(kind, it->second);
		mix(0xF0000000ull ^ ((uint64_t)kind << 20) ^ (uint64_t)it->second);
		return it->second;
	}
	if (prob <= 0 || !r.chance(prob))
		return 0;
	Rt rt;
	int64_t v;
	if (kind == FK_STALL || kind == FK_LATE || kind == FK_SPURIOUS) // log-uniform durations
	{
		const double x = (double)(r.next() >> 11) * 0x1.0p-53;
		double a = 1, b = (double)hi / (double)lo;
		(void)a;
		v = (int64_t)((double)lo * __builtin_pow(b, x));
	}
	else
		v = r.range(lo, hi);
	if (!v)
		v = 1;
	g_rp->faults.push_back(FaultDev{ kind, cur->id, idx, v });
	g_st.fired[kind]++;
	mix(0xF0000000ull ^ ((uint64_t)kind << 20) ^ (uint64_t)v);
	return v;
}
static int64_t fault_count_point(int kind, int64_t lo, int64_t hi)
{
	const uint64_t idx = cur->fcount[kind]++;
	return fault_decide(kind, idx, g_rp->fprob[kind], g_rng, lo, hi);
}
static void note_fault_until(uint64_t t)
{
	if (t > g_last_fault)
		g_last_fault = t;
}

static int choose_next(int kind, bool blocked) // picks among g_runmask (non-empty)
{
	const Mask& mask = g_runmask;
	Fiber* f			= cur;
	int def;
	if (blocked)
		def = next_cyclic(f->id, mask);
	else
	{
		def					 = f->id;
		const uint64_t limit = g_drain ? 64 + ((g_step * 0x9E3779B97F4A7C15ull) >> 56) : g_rp->spin_limit;
		if (g_consec > limit && mask.others(f->id))
			def = next_cyclic(f->id, mask);
	}
	if (g_drain)
		return def;
	if (g_rp->replay)
	{
		auto& dv = g_dev[f->id];
		size_t& c = f->sched_cur;
		while (c < dv.size() && dv[c].opno < f->opno)
			c++;
		if (c < dv.size() && dv[c].opno == f->opno)
		{
			const int t = dv[c].target;
			if (t < g_nf && mask.has(t))
				return t;
		}
		return def;
	}
	int t	  = def;
	Rng& r	  = g_rng;
	const int n = mask.count();
	switch (g_rp->strategy)
	{
		case 0: // random walk
			if (blocked || r.chance(g_rp->p))
				t = mask.nth((int)r.below(n));
			break;
		case 1: // probabilistic concurrency testing, spin loops demoted
			while (g_nchange && g_step >= g_change[g_nchange - 1])
			{
				g_nchange--;
				f->prio = --g_low_prio;
			}
			if (!blocked && g_consec > g_rp->quantum * 50 + 100)
			{
				f->prio	 = --g_low_prio;
				g_consec = 0;
			}
			t = best_prio(mask);
			break;
		case 2: // round robin
			if (blocked || g_consec >= g_rp->quantum)
				t = next_cyclic(f->id, mask);
			break;
		case 3: // switch mostly around synchronisation
			if (blocked)
				t = mask.nth((int)r.below(n));
			else if (r.chance((kind == SP_UNLOCK || kind == SP_COND || kind == SP_THREAD || kind == SP_LOCK || kind == SP_PLAIN) ? g_rp->p : g_rp->p * 0.02))
				t = mask.nth((int)r.below(n));
			break;
		default: // run until blocked, then anybody; a victim thread is held back
			if (blocked || r.chance(0.0005))
				t = mask.nth((int)r.below(n));
			break;
	}
	if (t != def)
	{
		Rt rt;
		g_rp->sched.push_back(SchedDev{ f->id, f->opno, t });
	}
	return t;
}

static void enter_drain()
{
	g_drain		= true;
	g_st.drained = true;
	note_fault_until(g_now);
}

[[noreturn]] static void leave_world()
{
	g_insim = false;
	g_rt = g_quiet = g_norace = 0;
	memcpy(abi::__cxa_get_globals(), g_host_eh, 16);
	static void* dummy;
	sim_swap(&dummy, g_host_sp);
	__builtin_trap();
}
// nobody can make progress any more; unless that is a violation, give the run up
static void give_up_or(const char* cls, const std::string& msg)
{
	std::string why;
	g_quiet++;
	bool matters = !g_wl->stuck || g_wl->stuck(why);
	// while a part of the workload itself sleeps for long, others polling meanwhile are no livelock
	if (!strcmp(cls, "livelock"))
		for (int i = 0; i < g_nf; i++)
			matters = matters && !(g_f[i].wk == WK_SLEEP && g_f[i].long_sleep);
	g_quiet--;
	if (matters)
		vio(cls, "%s%s%s", why.c_str(), why.empty() ? "" : ": ", msg.c_str());
	g_st.abandoned = true;
	leave_world();
}

[[noreturn]] static void out_of_budget()
{
	char b[256];
	snprintf(b, sizeof b, "no progress: %llu steps (%.3f simulated s) without finishing, %llu of them after all faults stopped and scheduling became fair;",
			 (unsigned long long)g_step, (double)g_now * 1e-9, (unsigned long long)(g_step - g_rp->budget1));
	give_up_or("livelock", b + waiters_text());
	__builtin_trap();
}

// give up the processor because the current fiber cannot run
static void block_current()
{
	Fiber* f = cur;
	f->opno++;
	g_step++;
	if (!g_drain && g_step > g_rp->budget1)
		enter_drain();
	if (g_step > g_rp->budget2)
		out_of_budget();
	if (f->deadline < g_next_deadline)
		g_next_deadline = f->deadline;
	if (g_now >= g_next_deadline)
		fire_timers();
	while (!g_runmask)
	{
		if (g_next_deadline == UINT64_MAX)
		{
			give_up_or("deadlock", "every thread is blocked forever:" + waiters_text());
		}
		if (g_next_deadline > 86400ull * 1000000000ull * 400)
			give_up_or("deadlock", "nothing can run before a timer more than a year away:" + waiters_text());
		if (g_next_deadline > g_now)
			g_now = g_next_deadline;
		fire_timers();
	}
	const int t = choose_next(SP_OTHER, true);
	switch_to(t);
}

static void block_on(WaitKind wk, const void* key, uint64_t deadline)
{
	Fiber* f	 = cur;
	f->st		 = ST_BLOCKED;
	f->wk		 = wk;
	f->wkey		 = key;
	f->deadline	 = deadline;
	f->timed_out = false;
	f->wseq		 = ++g_wseq;
	g_runmask.remove(f->id);
	block_current();
}

static int wake_all(WaitKind wk, const void* key)
{
	int n = 0;
	for (int i = 0; i < g_nf; i++)
		if (g_f[i].st == ST_BLOCKED && g_f[i].wk == wk && g_f[i].wkey == key)
		{
			wake_fiber(&g_f[i]);
			n++;
		}
	if (n)
		recompute_deadline();
	return n;
}

static void clock_jump(int64_t delta)
{
	g_rt_offset += delta;
	for (int i = 0; i < g_nf; i++)
		if (g_f[i].st == ST_BLOCKED && g_f[i].rt_deadline && g_f[i].deadline != UINT64_MAX)
		{
			const __int128 d = (__int128)g_f[i].deadline - delta;
			g_f[i].deadline	 = d < 0 ? 0 : (uint64_t)d;
		}
	recompute_deadline();
}

static void sched_point(int kind)
{
	Fiber* f = cur;
	g_step++;
	g_consec++;
	f->opno++;
	g_now += g_drain && g_rp->step_ns < 2000 ? 2000 : g_rp->step_ns;
	g_st.kinds[kind]++;
	if (__builtin_expect(g_now >= g_next_deadline, 0))
		fire_timers();
	if (__builtin_expect(g_step > g_rp->budget1, 0))
	{
		if (!g_drain)
			enter_drain();
		if (g_step > g_rp->budget2)
			out_of_budget();
	}
	if (!g_drain)
	{
		if (g_rp->fprob[FK_STALL] > 0 || (g_rp->replay && g_fdev_any[FK_STALL]))
		{
			const int64_t d = fault_decide(FK_STALL, f->opno, g_rp->fprob[FK_STALL], g_rng, 1000, 500000000);
			if (d)
			{
				note_fault_until(g_now + (uint64_t)d);
				f->st		= ST_STALLED;
				f->deadline = g_now + (uint64_t)d;
				g_runmask.remove(f->id);
				block_current();
				return;
			}
		}
		if (g_rp->fprob[FK_CLOCK] > 0 || (g_rp->replay && g_fdev_any[FK_CLOCK]))
		{
			const int64_t d = fault_decide(FK_CLOCK, f->opno, g_rp->fprob[FK_CLOCK], g_rng, -3600000000000ll, 3600000000000ll);
			if (d)
				clock_jump(d);
		}
	}
	const int t = choose_next(kind, false);
	if (t != f->id)
	{
		g_st.preemptions++;
		switch_to(t);
	}
}

// ------------------------------------------------------------------ vector clocks
static inline void vc_join(uint32_t* a, const uint32_t* b)
{
	for (int i = 0; i < g_nf; i++)
		if (b[i] > a[i])
			a[i] = b[i];
}
struct SyncVar
{
	uintptr_t key;
	uint32_t vc[MAXF];
};
static constexpr size_t SV_TAB = 1u << 17, SV_MAX = 1u << 16;
static uint32_t* g_svtab;	// index+1
static SyncVar* g_sv;
static uint32_t* g_svslot; // slot used by each var
static size_t g_nsv;

static SyncVar* sync_var(const void* p)
{
	const uintptr_t k = (uintptr_t)p;
	size_t h		  = (size_t)((k * 0x9E3779B97F4A7C15ull) >> 40) & (SV_TAB - 1);
	while (g_svtab[h])
	{
		if (g_sv[g_svtab[h] - 1].key == k)
			return &g_sv[g_svtab[h] - 1];
		h = (h + 1) & (SV_TAB - 1);
	}
	if (g_nsv >= SV_MAX - 1)
	{
		static SyncVar overflow;
		return &overflow;
	}
	SyncVar* v = &g_sv[g_nsv];
	v->key	   = k;
	memset(v->vc, 0, sizeof v->vc);
	g_svslot[g_nsv] = (uint32_t)h;
	g_svtab[h]		= (uint32_t)(++g_nsv);
	return v;
}
static inline void tick()
{
	cur->vc[cur->id]++;
}
static void sync_acquire(const void* p)
{
	vc_join(cur->vc, sync_var(p)->vc);
}
static void sync_release(const void* p)
{
	vc_join(sync_var(p)->vc, cur->vc);
	tick();
}

// ------------------------------------------------------------------ memory checks
static inline Cell* cells_for(uintptr_t a)
{
	const uintptr_t off = a - REG_BASE;
	if (off < REG_SIZE)
		return g_shadow + (off >> 3) * CELLS;
	if (a - g_dlo < g_dhi - g_dlo)
		return g_dshadow + ((a - g_dlo) >> 3) * CELLS;
	return nullptr;
}

[[noreturn]] static void bad_memory(uintptr_t a, size_t size, bool w, const char* what)
{
	Rt rt;
	const size_t g = (a - REG_BASE) >> 3;
	// find the nearest block for the message
	std::string d;
	for (size_t i = g_nblocks; i-- > 0;)
	{
		const Block& b = g_blocks[i];
		if (b.off <= g + 4)
		{
			char buf[160];
			snprintf(buf, sizeof buf, "; block #%zu of %zu bytes allocated by thread %u (at +0x%x) %s, offset %lld", i, b.size, b.fiber, b.pc[0],
					 b.live ? "live" : "freed", (long long)(a - (REG_BASE + (uintptr_t)b.off * 8)));
			d = buf;
			break;
		}
	}
	vio("memory", "%s of %zu bytes%s at 0x%llx: %s%s", w ? "write" : "read", size, what, (unsigned long long)a,
		g_state[g] == 0xFD ? "use after free" : "out of bounds of any live allocation", d.c_str());
}

static inline void check_addr(uintptr_t a, size_t size, bool w, const char* what)
{
	const uintptr_t off = a - REG_BASE;
	if (off >= ARENA_SIZE)
		return;
	const uintptr_t last = off + size - 1;
	for (uintptr_t g = off >> 3; g <= last >> 3; g++)
	{
		const uint8_t k	   = g_state[g];
		const unsigned end = (last >> 3) == g ? (unsigned)(last & 7) + 1 : 8;
		if (__builtin_expect(k > 8 || k < end, 0))
			bad_memory(a, size, w, what);
	}
}

[[noreturn]] static void race(uintptr_t a, const Cell& c, bool w, bool at, uint32_t pc, const char* what)
{
	vio("race", "data race on 0x%llx: %s%s%s by thread %d at +0x%x is unordered with %s%s by thread %d at +0x%x", (unsigned long long)a, at ? "atomic " : "",
		w ? "write" : "read", what, cur->id, pc, (c.flags & 2) ? "atomic " : "", (c.flags & 1) ? "write" : "read", c.fid - 1, c.pc);
}

static bool race_matters(uintptr_t a)
{
	if (g_norace || !g_race_mode)
		return false;
	if (g_race_mode == 1)
		return true;
	for (int i = 0; i < g_nwatch; i++)
		if (a - g_watch[i].lo < g_watch[i].hi - g_watch[i].lo)
			return true;
	return false;
}

static inline void granule(Cell* cs, uintptr_t a, uint8_t mask, bool w, bool at, uint32_t pc, const char* what)
{
	Fiber* f		 = cur;
	const uint16_t me = (uint16_t)(f->id + 1);
	const uint32_t e = f->vc[f->id];
	int slot		 = -1;
	for (int i = 0; i < CELLS; i++)
	{
		Cell& c = cs[i];
		if (!c.fid)
		{
			if (slot < 0)
				slot = i;
			continue;
		}
		if (c.fid == me)
		{
			if (c.mask == mask && ((c.flags & 1) || !w || true))
			{
				// same bytes by the same thread: keep the strongest information of the newest epoch
				if (c.epoch == e && (c.flags & 1) >= (int)w && ((c.flags & 2) == 0 || at))
				{
					if ((c.flags & 1) == (int)w)
						return;
				}
				if ((c.flags & 1) == (int)w && ((c.flags & 2) != 0) == at)
					slot = i;
			}
			continue;
		}
		const bool hb = c.epoch <= f->vc[c.fid - 1];
		if (!hb && (c.mask & mask) && (w || (c.flags & 1)) && !(at && (c.flags & 2)))
		{
			if (race_matters(a))
				race(a, c, w, at, pc, what);
		}
		if (hb && slot < 0 && (c.mask & ~mask) == 0 && (w || !(c.flags & 1)))
			slot = i;
	}
	if (slot < 0)
		slot = (int)(f->opno & (CELLS - 1));
	cs[slot] = Cell{ e, me, mask, (uint8_t)((w ? 1 : 0) | (at ? 2 : 0)), pc, (uint32_t)f->opno };
}

static inline bool shared_by_others(const Cell* cs)
{
	const uint16_t me = (uint16_t)(cur->id + 1);
	for (int i = 0; i < CELLS; i++)
		if (cs[i].fid && cs[i].fid != me)
			return true;
	return false;
}

static void on_access(uintptr_t a, size_t size, bool w, bool at, uintptr_t pc, const char* what = "")
{
	Cell* c0 = cells_for(a);
	if (!c0 || !size)
		return;
	check_addr(a, size, w, what);
	const uint32_t p = (uint32_t)(pc - g_text_base);
	if (__builtin_expect(g_rp->preempt_plain && !at && shared_by_others(c0), 0))
		sched_point(SP_PLAIN);
	uintptr_t end = a + size, x = a;
	while (x < end)
	{
		const uintptr_t ge	= (x & ~7ull) + 8;
		const uintptr_t lim = ge < end ? ge : end;
		const unsigned lo = (unsigned)(x & 7), n = (unsigned)(lim - x);
		Cell* c = cells_for(x);
		if (!c)
			return;
		granule(c, x, (uint8_t)(((1u << n) - 1) << lo), w, at, p, what);
		x = lim;
	}
}

static inline void check_object(const void* p, const char* what) // a synchronisation object is being used
{
	check_addr((uintptr_t)p, 1, false, what);
	Cell* c = cells_for((uintptr_t)p);
	if (c)
		granule(c, (uintptr_t)p, (uint8_t)(1u << ((uintptr_t)p & 7)), false, true, 0, what);
}

// ------------------------------------------------------------------ simulated heap
static void set_state(size_t off, size_t size)
{
	size_t g = off >> 3;
	memset(g_state + g, 8, size >> 3);
	if (size & 7)
		g_state[g + (size >> 3)] = (uint8_t)(size & 7);
}
static void* arena_alloc(size_t size, size_t align, bool tls = false)
{
	Rt rt;
	if (align < 16)
		align = 16;
	const size_t real = size ? size : 1;
	size_t off		  = (g_bump + 32 + align - 1) & ~(align - 1);
	if (!(off & align) && align <= 65536) // never better aligned than asked for
		off += align;
	if (real > ARENA_SIZE || off + real + 32 > ARENA_SIZE || g_nblocks >= MAX_BLOCKS)
		return nullptr;
	g_bump = (off + real + 15) & ~size_t{ 15 };
	if (g_bump > g_bump_max)
		g_bump_max = g_bump;
	set_state(off, real);
	Block& b = g_blocks[g_nblocks];
	b		 = Block{ (uint32_t)(off >> 3), (uint32_t)cur->id, size, { 0, 0, 0 }, 1, (uint8_t)tls };
	for (int i = cur->csn < 48 ? cur->csn : 48, k = 0; i-- > 0 && k < 3; k++)
		b.pc[k] = cur->cs[i];
	// index of the block in the redzone before it
	*(uint32_t*)(REG_BASE + off - 8) = (uint32_t)g_nblocks;
	g_nblocks++;
	if (!tls)
		g_live_blocks++;
	void* p = (void*)(REG_BASE + off);
	if (real <= (1u << 20))
		memset(p, 0xA5, real);
	return p;
}
static bool in_arena(const void* p)
{
	return (uintptr_t)p - REG_BASE < ARENA_SIZE;
}
static void arena_free(void* p)
{
	Rt rt;
	const size_t off = (uintptr_t)p - REG_BASE;
	const size_t g	 = off >> 3;
	const uint32_t i = *(uint32_t*)(REG_BASE + off - 8);
	if ((off & 15) || i >= g_nblocks || g_blocks[i].off != g)
		vio("memory", "free of a pointer that is not the start of an allocation");
	Block& b = g_blocks[i];
	if (!b.live)
		vio("memory", "double free of a %zu byte block", b.size);
	// somebody waiting on an object inside?
	const uintptr_t lo = (uintptr_t)p, hi = lo + b.size;
	for (int k = 0; k < g_nf; k++)
	{
		const Fiber& f = g_f[k];
		if (f.st == ST_BLOCKED && f.wk != WK_HARNESS && (uintptr_t)f.wkey >= lo && (uintptr_t)f.wkey < hi)
			vio("memory", "memory freed while thread %d is still waiting on a %s inside it", k, wk_names[f.wk]);
	}
	// unordered with an earlier access by another thread?
	if (g_insim && !g_quiet && b.size && g_race_mode == 1)
	{
		const size_t n = (b.size + 7) >> 3;
		for (size_t j = 0; j < n; j++)
		{
			Cell* cs = g_shadow + (g + j) * CELLS;
			for (int c = 0; c < CELLS; c++)
				if (cs[c].fid && cs[c].fid != cur->id + 1 && cs[c].epoch > cur->vc[cs[c].fid - 1] && !g_norace)
					race(lo + j * 8, cs[c], true, false, cur->csn ? cur->cs[(cur->csn < 48 ? cur->csn : 48) - 1] : 0, " (free)");
		}
	}
	b.live = 0;
	if (!b.tls)
		g_live_blocks--;
	memset(g_state + g, 0xFD, (b.size + 7) >> 3 ? (b.size + 7) >> 3 : 1);
	if (b.size <= (1u << 20))
		memset(p, 0xDD, b.size);
}
static size_t arena_size(const void* p)
{
	const uint32_t i = *(uint32_t*)((uintptr_t)p - 8);
	return g_blocks[i].size;
}
static bool alloc_fault()
{
	g_alloc_calls++;
	if (!(cur->armed & (1u << FK_ALLOC)))
		return false;
	Rt rt;
	return fault_count_point(FK_ALLOC, 1, 1) != 0;
}

static inline bool sim_heap()
{
	return g_insim && !g_quiet && !g_rt;
}

EXPORT void* malloc(size_t n)
{
	if (!sim_heap())
		return __libc_malloc(n);
	if (alloc_fault())
	{
		errno = ENOMEM;
		return nullptr;
	}
	void* p = arena_alloc(n, 16);
	if (!p)
		errno = ENOMEM;
	return p;
}
EXPORT void free(void* p)
{
	if (!p)
		return;
	if (in_arena(p))
	{
		if (!g_running)
			return;
		arena_free(p);
		return;
	}
	__libc_free(p);
}
EXPORT void* calloc(size_t a, size_t b)
{
	if (!sim_heap())
		return __libc_calloc(a, b);
	size_t n;
	if (__builtin_mul_overflow(a, b, &n) || alloc_fault())
	{
		errno = ENOMEM;
		return nullptr;
	}
	void* p = arena_alloc(n, 16);
	if (p)
		memset(p, 0, n);
	return p;
}
EXPORT void* realloc(void* p, size_t n)
{
	if (!p)
		return malloc(n);
	if (!in_arena(p))
		return __libc_realloc(p, n);
	void* q = malloc(n);
	if (!q)
		return nullptr;
	const size_t o = arena_size(p);
	memcpy(q, p, o < n ? o : n);
	free(p);
	return q;
}
EXPORT void* aligned_alloc(size_t al, size_t n)
{
	if (!sim_heap())
		return __libc_memalign(al, n);
	if (!al || (al & (al - 1)))
	{
		errno = EINVAL;
		return nullptr;
	}
	if (alloc_fault())
	{
		errno = ENOMEM;
		return nullptr;
	}
	void* p = arena_alloc(n, al);
	if (!p)
		errno = ENOMEM;
	return p;
}
EXPORT void* memalign(size_t al, size_t n)
{
	return aligned_alloc(al, n);
}
EXPORT int posix_memalign(void** out, size_t al, size_t n)
{
	void* p = aligned_alloc(al, n);
	if (!p)
		return ENOMEM;
	*out = p;
	return 0;
}
EXPORT size_t malloc_usable_size(void* p)
{
	if (!p)
		return 0;
	if (in_arena(p))
		return arena_size(p);
	static size_t (*real)(void*) = (size_t(*)(void*))dlsym(RTLD_NEXT, "malloc_usable_size");
	return real(p);
}

// ------------------------------------------------------------------ pthread: threads
EXPORT void sim_fiber_main()
{
	Fiber* f = cur;
	f->ret	 = f->fn(f->arg);
	// thread-local destructors
	while (f->ndtors)
	{
		f->ndtors--;
		f->dtors[f->ndtors].fn(f->dtors[f->ndtors].obj);
	}
	g_rt++;
	for (int i = 0; i < f->ntls; i++)
		if (in_arena(f->tls[i].ptr))
		{
			g_quiet++;
			arena_free(f->tls[i].ptr);
			g_quiet--;
		}
	tick();
	f->st = ST_DONE;
	g_runmask.remove(f->id);
	mix(0xD0E0000ull + (uint64_t)f->id);
	wake_all(WK_JOIN, f);
	g_rt--;
	uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
	if (sp < f->minsp)
		f->minsp = sp;
	bool any = false;
	for (int i = 0; i < g_nf; i++)
		any = any || g_f[i].st != ST_DONE;
	if (!any)
	{
		g_insim = false;
		g_rt	= 0;
		g_quiet = 0;
		memcpy(abi::__cxa_get_globals(), g_host_eh, 16);
		void* dummy;
		sim_swap(&dummy, g_host_sp);
		__builtin_trap();
	}
	block_current();
	__builtin_trap();
}

static Fiber* new_fiber(void* (*fn)(void*), void* arg)
{
	if (g_nf >= MAXF)
		return nullptr;
	Fiber* f = &g_f[g_nf];
	memset((void*)f, 0, sizeof *f);
	f->id		= g_nf++;
	f->st		= ST_RUN;
	f->deadline = UINT64_MAX;
	f->stk		= (char*)(REG_BASE + ARENA_SIZE + (size_t)f->id * STACK_SIZE + 4096);
	uintptr_t top = REG_BASE + ARENA_SIZE + (size_t)(f->id + 1) * STACK_SIZE - 64;
	f->minsp	= top;
	f->fn		= fn;
	f->arg		= arg;
	f->vc[f->id] = 1;
	f->prio		= g_rp && !g_rp->replay ? (int64_t)g_rng.below(1u << 20) : 0;
	// stacks guarantee 16 byte alignment, and nothing more
	const uint64_t h = ((g_rp ? g_rp->env_seed : 0) + (uint64_t)f->id + 1) * 0x9E3779B97F4A7C15ull;
	uintptr_t* sp	 = (uintptr_t*)((top & ~15ull) - (h >> 61) * 16);
	*--sp		  = (uintptr_t)&sim_tramp; // return address of sim_swap
	for (int i = 0; i < 6; i++)
		*--sp = 0;
	*--sp = 0x0000037F00001F80ull; // mxcsr 0x1F80, fpu cw 0x037F
	f->sp = sp;
	f->ready_since = g_now;
	g_runmask.add(f->id);
	return f;
}

EXPORT int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
	if (!g_insim)
		_exit(96);
	Rt rt;
	sched_point(SP_THREAD);
	if ((cur->armed & (1u << FK_THREAD)) && fault_count_point(FK_THREAD, 1, 1))
		return EAGAIN;
	Fiber* f = new_fiber(fn, arg);
	if (!f)
		return EAGAIN;
	int ds = 0;
	if (attr)
		pthread_attr_getdetachstate(attr, &ds);
	f->detached = ds == PTHREAD_CREATE_DETACHED;
	f->armed	= cur->armed & (1u << FK_ALLOC); // memory is short for the threads started meanwhile, too
	vc_join(f->vc, cur->vc);
	tick();
	*out = (pthread_t)(uintptr_t)(f->id + 1);
	mix(0xC0000000ull + (uint64_t)f->id);
	return 0;
}
static Fiber* fiber_of(pthread_t t)
{
	const uintptr_t i = (uintptr_t)t;
	if (i < 1 || i > (uintptr_t)g_nf)
		return nullptr;
	return &g_f[i - 1];
}
EXPORT int pthread_join(pthread_t t, void** ret)
{
	Rt rt;
	sched_point(SP_THREAD);
	Fiber* f = fiber_of(t);
	if (!f || f->joined || f->detached)
		vio("misuse", "join of a thread that is not joinable");
	if (f == cur)
		return EDEADLK;
	while (f->st != ST_DONE)
		block_on(WK_JOIN, f, UINT64_MAX);
	f->joined = true;
	vc_join(cur->vc, f->vc);
	if (ret)
		*ret = f->ret;
	return 0;
}
EXPORT int pthread_detach(pthread_t t)
{
	Rt rt;
	sched_point(SP_THREAD);
	Fiber* f = fiber_of(t);
	if (!f || f->joined || f->detached)
		vio("misuse", "detach of a thread that is not joinable");
	f->detached = true;
	return 0;
}
EXPORT pthread_t pthread_self()
{
	return cur && g_insim ? (pthread_t)(uintptr_t)(cur->id + 1) : (pthread_t)1;
}
EXPORT int pthread_setname_np(pthread_t, const char*)
{
	return 0;
}
EXPORT int sched_yield()
{
	if (!g_insim || g_quiet)
		return 0;
	Rt rt;
	sched_point(SP_OTHER);
	if (g_runmask.others(cur->id))
		g_consec += g_rp->spin_limit / 4;
	return 0;
}

// ------------------------------------------------------------------ pthread: mutex
struct MutexRep
{
	int lock;
	unsigned count;
	int owner;
	unsigned nusers;
	int kind;
};
static MutexRep* rep(pthread_mutex_t* m)
{
	return reinterpret_cast<MutexRep*>(m);
}
EXPORT int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
	memset(m, 0, sizeof *m);
	if (a)
	{
		int t = 0;
		pthread_mutexattr_gettype(a, &t);
		rep(m)->kind = t;
	}
	return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t* m)
{
	if (g_insim && !g_quiet && rep(m)->owner)
		vio("misuse", "mutex destroyed while locked");
	return 0;
}
static int mutex_acquire(pthread_mutex_t* m, uint64_t deadline, bool rt_clock)
{
	MutexRep* x = rep(m);
	while (x->owner)
	{
		if (x->owner == cur->id + 1)
		{
			if ((x->kind & 3) == 1)
			{
				x->count++;
				return 0;
			}
			vio("deadlock", "thread %d locks a non-recursive mutex it already holds", cur->id);
		}
		cur->rt_deadline = rt_clock;
		block_on(WK_MUTEX, m, deadline);
		check_object(m, " (mutex)");
		if (cur->timed_out && x->owner)
			return ETIMEDOUT;
	}
	x->lock	 = 1;
	x->owner = cur->id + 1;
	sync_acquire(m);
	return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t* m)
{
	if (!g_insim || g_quiet)
		return 0;
	Rt rt;
	sched_point(SP_LOCK);
	check_object(m, " (mutex)");
	return mutex_acquire(m, UINT64_MAX, false);
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t* m)
{
	if (!g_insim || g_quiet)
		return 0;
	Rt rt;
	sched_point(SP_LOCK);
	check_object(m, " (mutex)");
	MutexRep* x = rep(m);
	if (x->owner == cur->id + 1 && (x->kind & 3) == 1)
	{
		x->count++;
		return 0;
	}
	if (x->owner)
		return EBUSY;
	if (fault_count_point(FK_TRYFAIL, 1, 1))
		return EBUSY;
	x->lock	 = 1;
	x->owner = cur->id + 1;
	sync_acquire(m);
	return 0;
}
static void mutex_release(pthread_mutex_t* m)
{
	MutexRep* x = rep(m);
	if (x->owner != cur->id + 1)
		vio("misuse", "thread %d unlocks a mutex it does not hold", cur->id);
	if (x->count)
	{
		x->count--;
		return;
	}
	sync_release(m);
	x->owner = 0;
	x->lock	 = 0;
	wake_all(WK_MUTEX, m);
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t* m)
{
	if (!g_insim || g_quiet)
		return 0;
	Rt rt;
	sched_point(SP_UNLOCK);
	check_object(m, " (mutex)");
	mutex_release(m);
	return 0;
}

static uint64_t to_ns(const struct timespec* ts)
{
	if (ts->tv_sec < 0)
		return 0;
	const unsigned __int128 v = (unsigned __int128)ts->tv_sec * 1000000000u + (uint64_t)ts->tv_nsec;
	return v > UINT64_MAX / 2 ? UINT64_MAX / 2 : (uint64_t)v;
}
static constexpr uint64_t MONO_BASE = 1000ull * 1000000000ull;
static uint64_t abs_to_sim(clockid_t c, const struct timespec* ts, bool& rt)
{
	const uint64_t v = to_ns(ts);
	rt				 = c == CLOCK_REALTIME;
	const __int128 d = rt ? (__int128)v - g_rt_offset : (__int128)v - MONO_BASE;
	return d < 0 ? 0 : (uint64_t)d;
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts)
{
	if (!g_insim || g_quiet)
		return 0;
	Rt rt;
	sched_point(SP_LOCK);
	check_object(m, " (mutex)");
	bool r;
	uint64_t d = abs_to_sim(c, ts, r);
	return mutex_acquire(m, d, r);
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts)
{
	return pthread_mutex_clocklock(m, CLOCK_REALTIME, ts);
}

// ------------------------------------------------------------------ pthread: condition variables
EXPORT int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*)
{
	memset(c, 0, sizeof *c);
	return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t* c)
{
	if (g_insim && !g_quiet)
		for (int i = 0; i < g_nf; i++)
			if (g_f[i].st == ST_BLOCKED && g_f[i].wk == WK_COND && g_f[i].wkey == c)
				vio("misuse", "condition variable destroyed while thread %d waits on it", i);
	return 0;
}
static int cond_wait_until(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline, bool rt_clock)
{
	check_object(c, " (condition variable)");
	check_object(m, " (mutex)");
	if (rep(m)->owner != cur->id + 1)
		vio("misuse", "condition wait without holding the mutex");
	uint64_t until	   = deadline;
	bool spur		   = false;
	const int64_t sp   = fault_count_point(FK_SPURIOUS, 100, 200000000);
	if (sp && g_now + (uint64_t)sp < until)
	{
		until = g_now + (uint64_t)sp;
		spur  = true;
	}
	if (!spur && deadline != UINT64_MAX)
	{
		const int64_t late = fault_count_point(FK_LATE, 1000, 50000000);
		if (late)
		{
			until += (uint64_t)late;
			note_fault_until(until);
		}
	}
	const unsigned cnt = rep(m)->count;
	rep(m)->count	   = 0;
	mutex_release(m);
	cur->rt_deadline = rt_clock && !spur;
	block_on(WK_COND, c, until);
	const bool to	 = cur->timed_out;
	cur->rt_deadline = false;
	check_object(m, " (mutex)");
	mutex_acquire(m, UINT64_MAX, false);
	rep(m)->count = cnt;
	return to && !spur ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	if (!g_insim || g_quiet)
		_exit(95);
	Rt rt;
	sched_point(SP_COND);
	return cond_wait_until(c, m, UINT64_MAX, false);
}
EXPORT int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts)
{
	if (!g_insim || g_quiet)
		_exit(95);
	Rt rt;
	sched_point(SP_COND);
	bool r;
	const uint64_t d = abs_to_sim(clk, ts, r);
	return cond_wait_until(c, m, d, r);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
	return pthread_cond_clockwait(c, m, CLOCK_REALTIME, ts);
}
EXPORT int pthread_cond_signal(pthread_cond_t* c)
{
	if (!g_insim || g_quiet)
		return 0;
	Rt rt;
	sched_point(SP_COND);
	check_object(c, " (condition variable)");
	Fiber* w[MAXF];
	int n = 0;
	for (int i = 0; i < g_nf; i++)
		if (g_f[i].st == ST_BLOCKED && g_f[i].wk == WK_COND && g_f[i].wkey == c)
			w[n++] = &g_f[i];
	if (!n)
		return 0;
	std::sort(w, w + n, [](Fiber* a, Fiber* b) { return a->wseq < b->wseq; });
	int k = 0;
	if (n > 1)
	{
		const int64_t v = fault_count_point(FK_WAKEPICK, 1, 63);
		if (v)
			k = (int)(v % n);
	}
	wake_fiber(w[k]);
	recompute_deadline();
	return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t* c)
{
	if (!g_insim || g_quiet)
		return 0;
	Rt rt;
	sched_point(SP_COND);
	check_object(c, " (condition variable)");
	wake_all(WK_COND, c);
	return 0;
}

// ------------------------------------------------------------------ rwlock, spin, sem, once, specific
struct RwRep
{
	int writer;
	int readers;
};
static RwRep* rwrep(pthread_rwlock_t* l)
{
	return reinterpret_cast<RwRep*>(l);
}
EXPORT int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*)
{
	memset(l, 0, sizeof *l);
	return 0;
}
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t*)
{
	return 0;
}
static int rw_acquire(pthread_rwlock_t* l, bool write, bool try_)
{
	if (!g_insim || g_quiet)
		return 0;
	Rt rt;
	sched_point(SP_LOCK);
	check_object(l, " (rwlock)");
	RwRep* x = rwrep(l);
	if (x->writer == cur->id + 1)
		return EDEADLK;
	while (x->writer || (write && x->readers))
	{
		if (try_)
			return EBUSY;
		block_on(WK_RW, l, UINT64_MAX);
	}
	if (try_ && fault_count_point(FK_TRYFAIL, 1, 1))
		return EBUSY;
	if (write)
		x->writer = cur->id + 1;
	else
		x->readers++;
	sync_acquire(l);
	return 0;
}
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
	return rw_acquire(l, false, false);
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
	return rw_acquire(l, true, false);
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
	return rw_acquire(l, false, true);
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
	return rw_acquire(l, true, true);
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
	if (!g_insim || g_quiet)
		return 0;
	Rt rt;
	sched_point(SP_UNLOCK);
	RwRep* x = rwrep(l);
	sync_release(l);
	if (x->writer)
		x->writer = 0;
	else
		x->readers--;
	wake_all(WK_RW, l);
	return 0;
}
EXPORT int pthread_spin_init(pthread_spinlock_t* l, int)
{
	*(volatile int*)l = 0;
	return 0;
}
EXPORT int pthread_spin_destroy(pthread_spinlock_t*)
{
	return 0;
}
EXPORT int pthread_spin_lock(pthread_spinlock_t* l)
{
	if (!g_insim || g_quiet)
		return 0;
	Rt rt;
	sched_point(SP_LOCK);
	while (*(volatile int*)l)
		block_on(WK_MUTEX, (const void*)l, UINT64_MAX);
	*(volatile int*)l = 1;
	sync_acquire((const void*)l);
	return 0;
}
EXPORT int pthread_spin_trylock(pthread_spinlock_t* l)
{
	if (!g_insim || g_quiet)
		return 0;
	Rt rt;
	sched_point(SP_LOCK);
	if (*(volatile int*)l)
		return EBUSY;
	*(volatile int*)l = 1;
	sync_acquire((const void*)l);
	return 0;
}
EXPORT int pthread_spin_unlock(pthread_spinlock_t* l)
{
	if (!g_insim || g_quiet)
		return 0;
	Rt rt;
	sched_point(SP_UNLOCK);
	sync_release((const void*)l);
	*(volatile int*)l = 0;
	wake_all(WK_MUTEX, (const void*)l);
	return 0;
}
EXPORT int sem_init(sem_t* s, int, unsigned v)
{
	*(volatile int*)s = (int)v;
	return 0;
}
EXPORT int sem_destroy(sem_t*)
{
	return 0;
}
EXPORT int sem_post(sem_t* s)
{
	Rt rt;
	sched_point(SP_UNLOCK);
	check_object(s, " (semaphore)");
	sync_release(s);
	*(volatile int*)s = *(volatile int*)s + 1;
	wake_all(WK_SEM, s);
	return 0;
}
static int sem_wait_(sem_t* s, bool try_, uint64_t deadline, bool rtc)
{
	Rt rt;
	sched_point(SP_LOCK);
	check_object(s, " (semaphore)");
	while (*(volatile int*)s <= 0)
	{
		if (try_)
		{
			errno = EAGAIN;
			return -1;
		}
		cur->rt_deadline = rtc;
		block_on(WK_SEM, s, deadline);
		cur->rt_deadline = false;
		if (cur->timed_out && *(volatile int*)s <= 0)
		{
			errno = ETIMEDOUT;
			return -1;
		}
	}
	*(volatile int*)s = *(volatile int*)s - 1;
	sync_acquire(s);
	return 0;
}
EXPORT int sem_wait(sem_t* s)
{
	return sem_wait_(s, false, UINT64_MAX, false);
}
EXPORT int sem_trywait(sem_t* s)
{
	return sem_wait_(s, true, UINT64_MAX, false);
}
EXPORT int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* ts)
{
	bool r;
	const uint64_t d = abs_to_sim(c, ts, r);
	return sem_wait_(s, false, d, r);
}
EXPORT int sem_timedwait(sem_t* s, const struct timespec* ts)
{
	return sem_clockwait(s, CLOCK_REALTIME, ts);
}
EXPORT int pthread_once(pthread_once_t* o, void (*fn)())
{
	volatile int* st = (volatile int*)o;
	if (!g_insim || g_quiet)
	{
		if (*st != 2)
		{
			*st = 1;
			fn();
			*st = 2;
		}
		return 0;
	}
	{
		Rt rt;
		sched_point(SP_LOCK);
		while (*st == 1)
			block_on(WK_ONCE, o, UINT64_MAX);
		if (*st == 2)
		{
			sync_acquire(o);
			return 0;
		}
		*st = 1;
	}
	try
	{
		fn();
	}
	catch (...)
	{
		Rt rt;
		*st = 0;
		wake_all(WK_ONCE, o);
		throw;
	}
	Rt rt;
	sync_release(o);
	*st = 2;
	wake_all(WK_ONCE, o);
	return 0;
}

EXPORT int sim_guard_acquire(uint64_t* g) __asm__("__cxa_guard_acquire");
int sim_guard_acquire(uint64_t* g)
{
	uint8_t* b = (uint8_t*)g;
	if (!g_insim)
	{
		if (b[0])
			return 0;
		b[1] = 1;
		return 1;
	}
	Rt rt;
	if (!g_quiet)
		sched_point(SP_LOCK);
	while (b[1] && !b[0])
	{
		if ((b[2] | b[3] << 8) == cur->id + 1)
			vio("deadlock", "recursive initialisation of a function-local static");
		block_on(WK_GUARD, g, UINT64_MAX);
	}
	if (b[0])
	{
		sync_acquire(g);
		return 0;
	}
	b[1] = 1;
	b[2] = (uint8_t)(cur->id + 1);
	b[3] = (uint8_t)((cur->id + 1) >> 8);
	return 1;
}
EXPORT void sim_guard_release(uint64_t* g) __asm__("__cxa_guard_release");
void sim_guard_release(uint64_t* g)
{
	uint8_t* b = (uint8_t*)g;
	if (g_insim)
	{
		Rt rt;
		sync_release(g);
		b[0] = 1;
		b[1] = 0;
		wake_all(WK_GUARD, g);
		return;
	}
	b[0] = 1;
	b[1] = 0;
}
EXPORT void sim_guard_abort(uint64_t* g) __asm__("__cxa_guard_abort");
void sim_guard_abort(uint64_t* g)
{
	uint8_t* b = (uint8_t*)g;
	b[1]	   = 0;
	if (g_insim)
	{
		Rt rt;
		wake_all(WK_GUARD, g);
	}
}

// ------------------------------------------------------------------ thread-local storage of the instrumented object
struct EmutlsCtl
{
	size_t size, align;
	union
	{
		uintptr_t index;
		void* address;
	} u;
	void* value;
};
EXPORT void* sim_emutls_get_address(void* c)
{
	EmutlsCtl* ctl = (EmutlsCtl*)c;
	if (!g_insim)
	{
		static std::map<void*, void*> host;
		void*& p = host[c];
		if (!p)
		{
			p = __libc_memalign(ctl->align < 16 ? 16 : ctl->align, ctl->size);
			if (ctl->value)
				memcpy(p, ctl->value, ctl->size);
			else
				memset(p, 0, ctl->size);
		}
		return p;
	}
	for (int i = 0; i < cur->ntls; i++)
		if (cur->tls[i].ctl == c)
			return cur->tls[i].ptr;
	Rt rt;
	void* p = arena_alloc(ctl->size, ctl->align, true);
	if (ctl->value)
		memcpy(p, ctl->value, ctl->size);
	else
		memset(p, 0, ctl->size);
	if (cur->ntls >= 32)
		_exit(94);
	cur->tls[cur->ntls++] = TlsVar{ c, p };
	return p;
}
extern "C" int __cxa_thread_atexit_impl(void (*)(void*), void*, void*);
EXPORT int __cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso)
{
	if (!g_insim)
		return __cxa_thread_atexit_impl(fn, obj, dso);
	if (cur->ndtors >= 64)
		_exit(94);
	cur->dtors[cur->ndtors++] = TlsDtor{ fn, obj };
	return 0;
}
static std::vector<std::pair<void (*)(void*), void*>> g_atexit;
static int (*real_cxa_atexit)(void (*)(void*), void*, void*);
EXPORT int __cxa_atexit(void (*fn)(void*), void* obj, void* dso)
{
	if (g_insim)
	{
		Rt rt;
		g_atexit.emplace_back(fn, obj);
		return 0;
	}
	if (!real_cxa_atexit)
		real_cxa_atexit = (int (*)(void (*)(void*), void*, void*))dlsym(RTLD_NEXT, "__cxa_atexit");
	return real_cxa_atexit ? real_cxa_atexit(fn, obj, dso) : 0;
}

static bool g_keys[32];
EXPORT int pthread_key_create(pthread_key_t* k, void (*)(void*))
{
	for (unsigned i = 0; i < 32; i++)
		if (!g_keys[i])
		{
			g_keys[i] = true;
			*k		  = i;
			return 0;
		}
	return EAGAIN;
}
EXPORT int pthread_key_delete(pthread_key_t k)
{
	if (k < 32)
		g_keys[k] = false;
	return 0;
}
static void* g_host_specific[32];
EXPORT void* pthread_getspecific(pthread_key_t k)
{
	if (k >= 32)
		return nullptr;
	return g_insim ? cur->specific[k] : g_host_specific[k];
}
EXPORT int pthread_setspecific(pthread_key_t k, const void* v)
{
	if (k >= 32)
		return EINVAL;
	(g_insim ? cur->specific[k] : g_host_specific[k]) = const_cast<void*>(v);
	return 0;
}

// ------------------------------------------------------------------ clocks, sleeping, randomness, misc
EXPORT int clock_gettime(clockid_t c, struct timespec* ts)
{
	if (!g_insim || g_quiet)
		return (int)raw_syscall(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
	Rt rt;
	sched_point(SP_TIME);
	const bool r	 = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE;
	const uint64_t v = r ? (uint64_t)((int64_t)g_now + g_rt_offset) : g_now + MONO_BASE;
	ts->tv_sec		 = (time_t)(v / 1000000000u);
	ts->tv_nsec		 = (long)(v % 1000000000u);
	return 0;
}
EXPORT int gettimeofday(struct timeval* tv, void*)
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec	= ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
EXPORT time_t time(time_t* t)
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t)
		*t = ts.tv_sec;
	return ts.tv_sec;
}
static void sleep_until(uint64_t d, bool rtc)
{
	const int64_t late = fault_count_point(FK_LATE, 1000, 50000000);
	if (late)
	{
		d += (uint64_t)late;
		note_fault_until(d);
	}
	cur->rt_deadline = rtc;
	if (d > g_now)
		block_on(WK_SLEEP, nullptr, d);
	cur->rt_deadline = false;
}
EXPORT int nanosleep(const struct timespec* ts, struct timespec*)
{
	if (!g_insim || g_quiet)
		return 0;
	Rt rt;
	sched_point(SP_TIME);
	sleep_until(g_now + to_ns(ts), false);
	return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts, struct timespec* rem)
{
	if (!g_insim || g_quiet)
		return 0;
	if (!(flags & TIMER_ABSTIME))
		return nanosleep(ts, rem);
	Rt rt;
	sched_point(SP_TIME);
	bool r;
	const uint64_t d = abs_to_sim(c, ts, r);
	sleep_until(d, r);
	return 0;
}
EXPORT int usleep(useconds_t us)
{
	struct timespec ts = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 };
	return nanosleep(&ts, nullptr);
}
EXPORT unsigned sleep(unsigned s)
{
	struct timespec ts = { (time_t)s, 0 };
	nanosleep(&ts, nullptr);
	return 0;
}

static uint32_t entropy_word()
{
	Rt rt;
	Fiber* f   = cur;
	uint32_t w = (uint32_t)g_env.next();
	const int k = f->nwords;
	if (k < NWORDS)
	{
		int other = -1;
		for (int i = 0; i < g_nf; i++)
			if (i != f->id && g_f[i].nwords > k)
				other = i;
		if (other >= 0 && f->wfaults < 1 && k >= g_entropy_from)
		{
			if (fault_count_point(FK_ENTROPY, 1, 1))
			{
				f->wfaults++;
				w = g_words[other][k];
			}
		}
		g_words[f->id][f->nwords++] = w;
	}
	return w;
}
EXPORT ssize_t getrandom(void* p, size_t n, unsigned fl)
{
	if (!g_insim)
		return raw_syscall(SYS_getrandom, (long)p, (long)n, fl, 0, 0, 0);
	for (size_t i = 0; i < n; i += 4)
	{
		uint32_t w = entropy_word();
		memcpy((char*)p + i, &w, n - i < 4 ? n - i : 4);
	}
	return (ssize_t)n;
}
EXPORT int getentropy(void* p, size_t n)
{
	getrandom(p, n, 0);
	return 0;
}
EXPORT uint32_t arc4random()
{
	uint32_t w;
	getrandom(&w, 4, 0);
	return w;
}
EXPORT void arc4random_buf(void* p, size_t n)
{
	getrandom(p, n, 0);
}
// std::random_device
EXPORT void _ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const void*)
{}
EXPORT void _ZNSt13random_device7_M_initEPKcm(void*, const char*, size_t)
{}
EXPORT void _ZNSt13random_device16_M_init_pretr1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const void*)
{}
EXPORT void _ZNSt13random_device7_M_finiEv(void*)
{}
EXPORT uint32_t _ZNSt13random_device9_M_getvalEv(void*)
{
	if (!g_insim)
		return 4;
	{
		Rt rt;
		sched_point(SP_OTHER);
	}
	return entropy_word();
}
EXPORT uint32_t _ZNSt13random_device16_M_getval_pretr1Ev(void* p)
{
	return _ZNSt13random_device9_M_getvalEv(p);
}
EXPORT double _ZNKSt13random_device13_M_getentropyEv(const void*)
{
	return 32.0;
}
EXPORT unsigned _ZNSt6thread20hardware_concurrencyEv()
{
	return g_insim && g_rp ? g_rp->hwc : 4u;
}

EXPORT long syscall(long n, ...)
{
	va_list ap;
	va_start(ap, n);
	long a[6];
	for (auto& x : a)
		x = va_arg(ap, long);
	va_end(ap);
	if (g_insim && !g_quiet)
	{
		if (n == SYS_futex)
		{
			Rt rt;
			const int op = (int)a[1] & FUTEX_CMD_MASK;
			int* addr	 = (int*)a[0];
			if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
			{
				sched_point(SP_COND);
				check_object(addr, " (futex)");
				if (*(volatile int*)addr != (int)a[2])
				{
					errno = EAGAIN;
					return -1;
				}
				uint64_t d = UINT64_MAX;
				bool rtc   = false;
				if (a[3])
				{
					const struct timespec* ts = (const struct timespec*)a[3];
					if (op == FUTEX_WAIT)
						d = g_now + to_ns(ts);
					else
						d = abs_to_sim((a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, ts, rtc);
				}
				const int64_t sp = fault_count_point(FK_SPURIOUS, 100, 200000000);
				bool spur		 = false;
				if (sp && g_now + (uint64_t)sp < d)
				{
					d	 = g_now + (uint64_t)sp;
					spur = true;
				}
				cur->rt_deadline = rtc;
				block_on(WK_FUTEX, addr, d);
				cur->rt_deadline = false;
				if (cur->timed_out && !spur)
				{
					errno = ETIMEDOUT;
					return -1;
				}
				return 0;
			}
			if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
			{
				sched_point(SP_COND);
				Fiber* w[MAXF];
				int k = 0;
				for (int i = 0; i < g_nf; i++)
					if (g_f[i].st == ST_BLOCKED && g_f[i].wk == WK_FUTEX && g_f[i].wkey == addr)
						w[k++] = &g_f[i];
				std::sort(w, w + k, [](Fiber* x, Fiber* y) { return x->wseq < y->wseq; });
				int woken = 0;
				for (int i = 0; i < k && woken < (int)a[2]; i++, woken++)
					wake_fiber(w[i]);
				recompute_deadline();
				return woken;
			}
		}
		if (n == SYS_getrandom)
			return getrandom((void*)a[0], (size_t)a[1], (unsigned)a[2]);
		if (n == SYS_gettid)
			return 1000 + cur->id;
		if (n == SYS_sched_yield)
			return sched_yield();
	}
	const long r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
	if (r < 0 && r > -4096)
	{
		errno = (int)-r;
		return -1;
	}
	return r;
}

EXPORT void abort()
{
	if (g_insim && !g_inviolation)
		vio("abort", "abort() was called");
	signal(SIGABRT, SIG_DFL);
	raw_syscall(SYS_kill, raw_syscall(SYS_getpid, 0, 0, 0, 0, 0, 0), SIGABRT, 0, 0, 0, 0);
	_exit(134);
}
EXPORT void __assert_fail(const char* e, const char* file, unsigned line, const char* fn)
{
	if (g_insim)
		vio("assert", "assertion failed: %s (%s:%u, %s)", e, file, line, fn ? fn : "");
	fprintf(stderr, "assertion failed: %s (%s:%u)\n", e, file, line);
	abort();
}
EXPORT void exit(int c)
{
	if (g_insim)
		vio("exit", "exit(%d) was called", c);
	fflush(nullptr);
	_exit(c);
}

static void on_terminate()
{
	g_rt++;
	std::string what = "no active exception";
	if (auto t = abi::__cxa_current_exception_type())
	{
		int st	= 0;
		char* n = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
		what	= n ? n : t->name();
		try
		{
			throw;
		}
		catch (const std::exception& e)
		{
			what += std::string(": ") + e.what();
		}
		catch (...)
		{}
	}
	if (g_insim)
		violate("terminate", "std::terminate was called (" + what + ")");
	fprintf(stderr, "terminate: %s\n", what.c_str());
	_exit(93);
}

static void on_signal(int sig, siginfo_t* si, void*)
{
	if (g_inviolation)
		_exit(92);
	if (!g_running)
	{
		fprintf(stderr, "simulator crashed outside a run: signal %d at %p\n", sig, si ? si->si_addr : nullptr);
		_exit(91);
	}
	if (sig == SIGVTALRM && g_step != g_watched_step)
	{
		g_watched_step = g_step; // long, but getting on
		return;
	}
	if (sig == SIGVTALRM)
		vio("hang", "a thread ran for seconds of CPU time without reaching any scheduling point");
	vio("crash", "signal %d (%s), address %p", sig, strsignal(sig), si ? si->si_addr : nullptr);
}

// ------------------------------------------------------------------ instrumentation entry points
#define PC ((uintptr_t)__builtin_return_address(0))
#define ACC(name, size, w)                                                                                             \
	EXPORT void name(void* a)                                                                                          \
	{                                                                                                                  \
		if (active())                                                                                                  \
			on_access((uintptr_t)a, size, w, false, PC);                                                               \
	}
ACC(__tsan_read1, 1, false)
ACC(__tsan_read2, 2, false)
ACC(__tsan_read4, 4, false)
ACC(__tsan_read8, 8, false)
ACC(__tsan_read16, 16, false)
ACC(__tsan_write1, 1, true)
ACC(__tsan_write2, 2, true)
ACC(__tsan_write4, 4, true)
ACC(__tsan_write8, 8, true)
ACC(__tsan_write16, 16, true)
ACC(__tsan_unaligned_read2, 2, false)
ACC(__tsan_unaligned_read4, 4, false)
ACC(__tsan_unaligned_read8, 8, false)
ACC(__tsan_unaligned_read16, 16, false)
ACC(__tsan_unaligned_write2, 2, true)
ACC(__tsan_unaligned_write4, 4, true)
ACC(__tsan_unaligned_write8, 8, true)
ACC(__tsan_unaligned_write16, 16, true)
ACC(__tsan_volatile_read1, 1, false)
ACC(__tsan_volatile_read2, 2, false)
ACC(__tsan_volatile_read4, 4, false)
ACC(__tsan_volatile_read8, 8, false)
ACC(__tsan_volatile_read16, 16, false)
ACC(__tsan_volatile_write1, 1, true)
ACC(__tsan_volatile_write2, 2, true)
ACC(__tsan_volatile_write4, 4, true)
ACC(__tsan_volatile_write8, 8, true)
ACC(__tsan_volatile_write16, 16, true)
ACC(__tsan_read_write1, 1, true)
ACC(__tsan_read_write2, 2, true)
ACC(__tsan_read_write4, 4, true)
ACC(__tsan_read_write8, 8, true)
ACC(__tsan_read_write16, 16, true)
ACC(__tsan_unaligned_read_write2, 2, true)
ACC(__tsan_unaligned_read_write4, 4, true)
ACC(__tsan_unaligned_read_write8, 8, true)
ACC(__tsan_unaligned_read_write16, 16, true)
ACC(__tsan_vptr_read, 8, false)
EXPORT void __tsan_vptr_update(void* a, void* v)
{
	if (active() && *(void**)a != v)
		on_access((uintptr_t)a, 8, true, false, PC);
}
EXPORT void __tsan_read_range(void* a, size_t n)
{
	if (active())
		on_access((uintptr_t)a, n, false, false, PC);
}
EXPORT void __tsan_write_range(void* a, size_t n)
{
	if (active())
		on_access((uintptr_t)a, n, true, false, PC);
}
EXPORT void __tsan_init()
{}
EXPORT void __tsan_func_entry(void* pc)
{
	if (g_insim)
	{
		if (cur->csn < 48)
			cur->cs[cur->csn] = (uint32_t)((uintptr_t)pc - g_text_base);
		cur->csn++;
	}
}
EXPORT void __tsan_func_exit()
{
	if (g_insim && cur->csn > 0)
		cur->csn--;
}
EXPORT void __tsan_ignore_thread_begin()
{}
EXPORT void __tsan_ignore_thread_end()
{}
EXPORT void* __tsan_memcpy(void* d, const void* s, size_t n)
{
	if (active())
	{
		on_access((uintptr_t)s, n, false, false, PC);
		on_access((uintptr_t)d, n, true, false, PC);
	}
	return memcpy(d, s, n);
}
EXPORT void* __tsan_memmove(void* d, const void* s, size_t n)
{
	if (active())
	{
		on_access((uintptr_t)s, n, false, false, PC);
		on_access((uintptr_t)d, n, true, false, PC);
	}
	return memmove(d, s, n);
}
EXPORT void* __tsan_memset(void* d, int c, size_t n)
{
	if (active())
		on_access((uintptr_t)d, n, true, false, PC);
	return memset(d, c, n);
}

static inline bool is_acq(int mo)
{
	return mo == 1 || mo == 2 || mo == 4 || mo == 5;
}
static inline bool is_rel(int mo)
{
	return mo == 3 || mo == 4 || mo == 5;
}
static void at_load(const void* a, int mo)
{
	SyncVar* v = sync_var(a);
	if (is_acq(mo))
		vc_join(cur->vc, v->vc);
	else
		vc_join(cur->acq, v->vc);
}
static void at_store(void* a, int mo)
{
	SyncVar* v = sync_var(a);
	if (is_rel(mo))
	{
		memcpy(v->vc, cur->vc, (size_t)g_nf * 4);
		tick();
	}
	else if (cur->has_rel)
		memcpy(v->vc, cur->rel, (size_t)g_nf * 4);
	else
		memset(v->vc, 0, (size_t)g_nf * 4);
}
static void at_rmw(void* a, int mo)
{
	SyncVar* v = sync_var(a);
	if (is_acq(mo))
		vc_join(cur->vc, v->vc);
	else
		vc_join(cur->acq, v->vc);
	if (is_rel(mo))
	{
		vc_join(v->vc, cur->vc);
		tick();
	}
	else if (cur->has_rel)
		vc_join(v->vc, cur->rel);
}

template <typename T>
static T a_load(const volatile T* a, int mo, uintptr_t pc)
{
	if (!active())
		return *a;
	Rt rt;
	sched_point(SP_ATOMIC);
	on_access((uintptr_t)a, sizeof(T), false, true, pc);
	at_load((const void*)a, mo);
	return *a;
}
template <typename T>
static void a_store(volatile T* a, T v, int mo, uintptr_t pc)
{
	if (!active())
	{
		*a = v;
		return;
	}
	Rt rt;
	sched_point(SP_ATOMIC);
	on_access((uintptr_t)a, sizeof(T), true, true, pc);
	at_store((void*)a, mo);
	*a = v;
}
template <typename T, typename F>
static T a_rmw(volatile T* a, int mo, uintptr_t pc, F f)
{
	if (!active())
	{
		T o = *a;
		*a	= f(o);
		return o;
	}
	Rt rt;
	sched_point(SP_ATOMIC);
	on_access((uintptr_t)a, sizeof(T), true, true, pc);
	at_rmw((void*)a, mo);
	T o = *a;
	*a	= f(o);
	return o;
}
template <typename T>
static bool a_cas(volatile T* a, T* exp, T v, int mo, int fmo, bool weak, uintptr_t pc)
{
	if (!active())
	{
		if (*a == *exp)
		{
			*a = v;
			return true;
		}
		*exp = *a;
		return false;
	}
	Rt rt;
	sched_point(SP_ATOMIC);
	T o = *a;
	bool ok = o == *exp;
	if (ok && weak && fault_count_point(FK_TRYFAIL, 1, 1))
		ok = false;
	on_access((uintptr_t)a, sizeof(T), ok, true, pc);
	if (ok)
	{
		at_rmw((void*)a, mo);
		*a = v;
		return true;
	}
	at_load((const void*)a, fmo);
	*exp = o;
	return false;
}

#define ATOMICS(N, T)                                                                                                  \
	EXPORT T __tsan_atomic##N##_load(const volatile T* a, int mo)                                                      \
	{                                                                                                                  \
		return a_load<T>(a, mo, PC);                                                                                   \
	}                                                                                                                  \
	EXPORT void __tsan_atomic##N##_store(volatile T* a, T v, int mo)                                                   \
	{                                                                                                                  \
		a_store<T>(a, v, mo, PC);                                                                                      \
	}                                                                                                                  \
	EXPORT T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo)                                                   \
	{                                                                                                                  \
		return a_rmw<T>(a, mo, PC, [v](T) { return v; });                                                              \
	}                                                                                                                  \
	EXPORT T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo)                                                  \
	{                                                                                                                  \
		return a_rmw<T>(a, mo, PC, [v](T o) { return (T)(o + v); });                                                   \
	}                                                                                                                  \
	EXPORT T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo)                                                  \
	{                                                                                                                  \
		return a_rmw<T>(a, mo, PC, [v](T o) { return (T)(o - v); });                                                   \
	}                                                                                                                  \
	EXPORT T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo)                                                  \
	{                                                                                                                  \
		return a_rmw<T>(a, mo, PC, [v](T o) { return (T)(o & v); });                                                   \
	}                                                                                                                  \
	EXPORT T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo)                                                   \
	{                                                                                                                  \
		return a_rmw<T>(a, mo, PC, [v](T o) { return (T)(o | v); });                                                   \
	}                                                                                                                  \
	EXPORT T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo)                                                  \
	{                                                                                                                  \
		return a_rmw<T>(a, mo, PC, [v](T o) { return (T)(o ^ v); });                                                   \
	}                                                                                                                  \
	EXPORT T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo)                                                 \
	{                                                                                                                  \
		return a_rmw<T>(a, mo, PC, [v](T o) { return (T)~(o & v); });                                                  \
	}                                                                                                                  \
	EXPORT int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int f)                     \
	{                                                                                                                  \
		return a_cas<T>(a, e, v, mo, f, false, PC);                                                                    \
	}                                                                                                                  \
	EXPORT int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int f)                       \
	{                                                                                                                  \
		return a_cas<T>(a, e, v, mo, f, true, PC);                                                                     \
	}                                                                                                                  \
	EXPORT T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T e, T v, int mo, int f)                           \
	{                                                                                                                  \
		T x = e;                                                                                                       \
		a_cas<T>(a, &x, v, mo, f, false, PC);                                                                          \
		return x;                                                                                                      \
	}
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
ATOMICS(128, unsigned __int128)

EXPORT void __tsan_atomic_thread_fence(int mo)
{
	if (!active())
		return;
	Rt rt;
	sched_point(SP_ATOMIC);
	if (is_acq(mo))
		vc_join(cur->vc, cur->acq);
	if (is_rel(mo))
	{
		memcpy(cur->rel, cur->vc, (size_t)g_nf * 4);
		cur->has_rel = true;
		tick();
	}
}
EXPORT void __tsan_atomic_signal_fence(int)
{}

// ------------------------------------------------------------------ harness interface
EXPORT void sim_quiet_enter()
{
	g_quiet++;
}
EXPORT void sim_quiet_leave()
{
	g_quiet--;
}
EXPORT void sim_no_race_enter()
{
	g_norace++;
}
EXPORT void sim_no_race_leave()
{
	g_norace--;
}
EXPORT uint64_t sim_now()
{
	return g_now;
}
EXPORT uint64_t sim_seq()
{
	return g_step;
}
EXPORT int sim_fiber()
{
	return cur ? cur->id : -1;
}
EXPORT void sim_yield()
{
	if (!active())
		return;
	Rt rt;
	sched_point(SP_OTHER);
}
EXPORT void sim_sleep(uint64_t ns)
{
	if (!g_insim)
		return;
	Rt rt;
	sched_point(SP_TIME);
	cur->long_sleep = ns >= 1000000000;
	block_on(WK_SLEEP, nullptr, g_now + ns);
	cur->long_sleep = false;
}
EXPORT void sim_block(const void* key)
{
	Rt rt;
	block_on(WK_HARNESS, key, UINT64_MAX);
}
EXPORT void sim_wake(const void* key)
{
	Rt rt;
	wake_all(WK_HARNESS, key);
}
EXPORT void sim_event(uint64_t a, uint64_t b)
{
	mix(a * 0x100000001B3ull ^ b);
	g_st.ehash = (g_st.ehash ^ (a * 0x100000001B3ull ^ b)) * 0x9E3779B97F4A7C15ull;
	g_st.ehash ^= g_st.ehash >> 31;
	if (g_trace)
	{
		Rt rt;
		fprintf(g_trace, "  %10llu t=%-12llu T%d event %llu %llu\n", (unsigned long long)g_step, (unsigned long long)g_now, sim_fiber(), (unsigned long long)a, (unsigned long long)b);
	}
}
EXPORT void sim_probe(const char* name)
{
	Rt rt;
	g_probes[name]++;
}
EXPORT uint64_t sim_fault(int kind, uint64_t n)
{
	if (!g_insim)
		return 0;
	Rt rt;
	return (uint64_t)fault_count_point(kind, 1, (int64_t)n);
}
EXPORT void sim_arm(int kind, int on)
{
	if (on)
		cur->armed |= 1u << kind;
	else
		cur->armed &= ~(1u << kind);
}
EXPORT void sim_race_mode(int m)
{
	g_race_mode = m;
}
EXPORT void sim_entropy_from(int n)
{
	g_entropy_from = n;
}
EXPORT void sim_watch(const void* p, size_t n)
{
	if (g_nwatch < 64)
		g_watch[g_nwatch++] = Watch{ (uintptr_t)p, (uintptr_t)p + n };
}
EXPORT size_t sim_live_allocs()
{
	return g_live_blocks;
}
EXPORT size_t sim_alloc_calls()
{
	return g_alloc_calls;
}
EXPORT void sim_report_leaks(const char* cls, size_t baseline)
{
	if (g_live_blocks <= baseline)
		return;
	Rt rt;
	std::string s;
	int n = 0;
	for (size_t i = 0; i < g_nblocks; i++)
		if (g_blocks[i].live && !g_blocks[i].tls && n++ < 4)
		{
			char b[128];
			snprintf(b, sizeof b, "; %zu bytes allocated by thread %u at +0x%x +0x%x", g_blocks[i].size, g_blocks[i].fiber, g_blocks[i].pc[0], g_blocks[i].pc[1]);
			s += b;
		}
	vio(cls, "%zu allocation(s) never freed%s", g_live_blocks - baseline, s.c_str());
}
EXPORT int sim_live_threads()
{
	int n = 0;
	for (int i = 1; i < g_nf; i++)
		n += g_f[i].st != ST_DONE;
	return n;
}
EXPORT int sim_unjoined_threads()
{
	int n = 0;
	for (int i = 1; i < g_nf; i++)
		n += !g_f[i].joined && !g_f[i].detached;
	return n;
}
EXPORT int sim_in_drain()
{
	return g_drain;
}
EXPORT uint64_t sim_last_fault_time()
{
	for (int i = 0; i < g_nf; i++)
		if (starving(&g_f[i]))
			return g_now;
	return g_last_fault;
}
EXPORT uint64_t sim_waiting_in(const char* what)
{
	uint64_t n = 0;
	for (int i = 0; i < g_nf; i++)
		if (g_f[i].st == ST_BLOCKED && !strcmp(wk_names[g_f[i].wk], what))
			n++;
	return n;
}
EXPORT void sim_stop()
{
	g_st.stopped = true;
	leave_world();
}
EXPORT int sim_mem_state(const void* p)
{
	const uintptr_t off = (uintptr_t)p - REG_BASE;
	if (off >= ARENA_SIZE)
		return 0;
	const uint8_t k = g_state[off >> 3];
	return k >= 1 && k <= 8 && (off & 7) < k ? 1 : 2;
}
EXPORT int sim_fiber_blocked(int i)
{
	return i >= 0 && i < g_nf && g_f[i].st == ST_BLOCKED;
}

// ------------------------------------------------------------------ start-up and runs
static int phdr_cb(struct dl_phdr_info* info, size_t, void* data)
{
	const char* want = (const char*)data;
	if (!info->dlpi_name || strcmp(info->dlpi_name, want))
		return 0;
	uintptr_t lo = UINTPTR_MAX, hi = 0, rlo = 0, rhi = 0;
	for (int i = 0; i < info->dlpi_phnum; i++)
	{
		const auto& p = info->dlpi_phdr[i];
		if (p.p_type == PT_LOAD && (p.p_flags & PF_W))
		{
			lo = std::min(lo, (uintptr_t)(info->dlpi_addr + p.p_vaddr));
			hi = std::max(hi, (uintptr_t)(info->dlpi_addr + p.p_vaddr + p.p_memsz));
		}
		if (p.p_type == PT_GNU_RELRO)
		{
			rlo = info->dlpi_addr + p.p_vaddr;
			rhi = rlo + p.p_memsz;
		}
	}
	if (rhi > lo)
		lo = (rhi + 4095) & ~4095ull; // relro is rounded to pages
	g_dlo		= lo & ~7ull;
	g_dhi		= hi;
	g_text_base = info->dlpi_addr;
	return 1;
}

static char g_altstack[1 << 16];

void rt_init(const char* libpath)
{
	__libc_single_threaded = 0;
	auto map = [](uintptr_t at, size_t n)
	{
		void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
		if (p == MAP_FAILED)
		{
			perror("mmap");
			_exit(90);
		}
		return p;
	};
	map(REG_BASE, REG_SIZE);
	for (int i = 0; i < MAXF; i++)
		mprotect((void*)(REG_BASE + ARENA_SIZE + (size_t)i * STACK_SIZE), 4096, PROT_NONE);
	g_shadow = (Cell*)map(0, REG_SIZE / 8 * CELLS * sizeof(Cell));
	g_state	 = (uint8_t*)map(0, ARENA_SIZE / 8);
	g_blocks = (Block*)map(0, MAX_BLOCKS * sizeof(Block));
	g_svtab	 = (uint32_t*)map(0, SV_TAB * 4);
	g_sv	 = (SyncVar*)map(0, SV_MAX * sizeof(SyncVar));
	g_svslot = (uint32_t*)map(0, SV_MAX * 4);

	std::set_terminate(on_terminate);
	stack_t ss{};
	ss.ss_sp   = g_altstack;
	ss.ss_size = sizeof g_altstack;
	sigaltstack(&ss, nullptr);
	struct sigaction sa{};
	sa.sa_sigaction = on_signal;
	sa.sa_flags		= SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	for (int s : { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGVTALRM })
		sigaction(s, &sa, nullptr);

	char real[4096];
	if (!realpath(libpath, real))
	{
		fprintf(stderr, "no such workload: %s\n", libpath);
		_exit(90);
	}
	void* h = dlopen(real, RTLD_NOW | RTLD_LOCAL);
	if (!h)
	{
		fprintf(stderr, "%s\n", dlerror());
		_exit(90);
	}
	auto fn = (const Workload* (*)())dlsym(h, "sim_workload");
	if (!fn)
	{
		fprintf(stderr, "%s\n", dlerror());
		_exit(90);
	}
	g_the_wl = fn();
	dl_iterate_phdr(phdr_cb, real);
	if (!g_dhi)
		_exit(90);
	g_dshadow = (Cell*)map(0, ((g_dhi - g_dlo) / 8 + 2) * CELLS * sizeof(Cell));
	g_dsnap.assign((const char*)g_dlo, (const char*)g_dhi);
}

const Workload* rt_workload()
{
	return g_the_wl;
}
const RunStats& rt_stats()
{
	g_st.steps	= g_step;
	g_st.sim_ns = g_now;
	g_st.fibers = (uint64_t)g_nf;
	return g_st;
}
RunParams& rt_params()
{
	return *g_rp;
}
std::map<std::string, uint64_t>& rt_probes()
{
	return g_probes;
}
void rt_set_trace(FILE* f)
{
	g_trace = f;
}

static void clear_range(void* p, size_t n)
{
	if (n > (4u << 20))
		madvise(p, (n + 4095) & ~4095ull, MADV_DONTNEED); // p is page aligned in all uses
	else
		memset(p, 0, n);
}

static void reset_world()
{
	memcpy((void*)g_dlo, g_dsnap.data(), g_dsnap.size());
	memset((void*)g_dshadow, 0, ((g_dhi - g_dlo) / 8 + 1) * CELLS * sizeof(Cell));
	const size_t used = (g_bump_max + 4095) & ~size_t{ 4095 };
	clear_range(g_shadow, used / 8 * CELLS * sizeof(Cell));
	clear_range(g_state, used / 8);
	for (int i = 0; i < g_nf; i++)
	{
		const uintptr_t top = REG_BASE + ARENA_SIZE + (size_t)(i + 1) * STACK_SIZE;
		uintptr_t lo		= (g_f[i].minsp - 24576) & ~7ull;
		if (lo < (uintptr_t)g_f[i].stk || lo > top)
			lo = (uintptr_t)g_f[i].stk;
		memset((void*)lo, 0, top - lo);
		memset((void*)cells_for(lo), 0, (top - lo) / 8 * CELLS * sizeof(Cell));
	}
	for (size_t i = 0; i < g_nsv; i++)
		g_svtab[g_svslot[i]] = 0;
	g_nsv	   = 0;
	g_bump	   = 0;
	g_bump_max = 0;
	g_nblocks  = 0;
	g_live_blocks = g_alloc_calls = 0;
	g_nf						  = 0;
	g_runmask					  = Mask{};
	g_now = g_step = g_consec = g_wseq = 0;
	g_next_deadline					   = UINT64_MAX;
	g_rt_offset						   = 1700000000ll * 1000000000ll;
	g_last_fault					   = 0;
	g_drain							   = false;
	g_low_prio						   = 0;
	g_nchange						   = 0;
	g_norace						   = 0;
	g_rt = g_quiet					   = 0;
	g_race_mode						   = 1;
	g_entropy_from					   = 0;
	g_nwatch						   = 0;
	g_st							   = RunStats{};
	memset(g_keys, 0, sizeof g_keys);
	g_atexit.clear();
}

static void* main_fiber(void*)
{
	g_wl->body();
	while (!g_atexit.empty())
	{
		std::pair<void (*)(void*), void*> p;
		{
			Rt rt;
			p = g_atexit.back();
			g_atexit.pop_back();
		}
		p.first(p.second);
	}
	return nullptr;
}

void rt_run(const Workload* w, const Scenario& sc, RunParams& rp, RunStats& st)
{
	reset_world();
	g_wl  = w;
	g_rp  = &rp;
	g_rng = Rng(rp.sched_seed);
	g_env = Rng(rp.env_seed);
	for (auto& v : g_dev)
		v.clear();
	g_fdev.clear();
	memset(g_fdev_any, 0, sizeof g_fdev_any);
	if (rp.replay)
	{
		for (auto& d : rp.sched)
			if (d.fiber >= 0 && d.fiber < MAXF)
				g_dev[d.fiber].push_back(d);
		for (auto& v : g_dev)
			std::stable_sort(v.begin(), v.end(), [](const SchedDev& a, const SchedDev& b) { return a.opno < b.opno; });
		for (auto& d : rp.faults)
		{
			g_fdev[FKey{ d.kind, d.fiber, d.idx }] = d.value;
			g_fdev_any[d.kind]					   = true;
		}
	}
	else
	{
		rp.sched.clear();
		rp.faults.clear();
		if (rp.strategy == 1)
		{
			g_nchange = std::min(rp.depth, 16);
			for (int i = 0; i < g_nchange; i++)
				g_change[i] = g_rng.below(rp.est);
			std::sort(g_change, g_change + g_nchange, [](uint64_t a, uint64_t b) { return a > b; });
		}
	}
	g_watched_step		= 0;
	struct itimerval tv = { { 20, 0 }, { 20, 0 } };
	setitimer(ITIMER_VIRTUAL, &tv, nullptr);
	g_running = true;
	w->begin(sc);
	new_fiber(main_fiber, nullptr);
	cur = &g_f[0];
	memcpy(g_host_eh, abi::__cxa_get_globals(), 16);
	memset(abi::__cxa_get_globals(), 0, 16);
	g_insim = true;
	sim_swap(&g_host_sp, cur->sp);
	// back on the host stack
	cur		  = nullptr;
	w->end(g_st.abandoned || g_st.stopped);
	g_running = false;
	tv					= itimerval{};
	setitimer(ITIMER_VIRTUAL, &tv, nullptr);
	st = rt_stats();
}

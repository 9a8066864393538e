// Interface between the simulator (the executable) and the workloads (the instrumented shared object).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>

// ------------------------------------------------------------------ pseudo-random numbers
struct Rng
{
	uint64_t s[4];
	static uint64_t splitmix(uint64_t& x)
	{
		uint64_t z = (x += 0x9E3779B97F4A7C15ull);
		z		   = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z		   = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	explicit Rng(uint64_t seed = 1)
	{
		for (auto& v : s)
			v = splitmix(seed);
	}
	static uint64_t rotl(uint64_t x, int k)
	{
		return (x << k) | (x >> (64 - k));
	}
	uint64_t next()
	{
		const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
		s[2] ^= s[0];
		s[3] ^= s[1];
		s[1] ^= s[2];
		s[0] ^= s[3];
		s[2] ^= t;
		s[3] = rotl(s[3], 45);
		return r;
	}
	uint64_t below(uint64_t n)
	{
		return n ? (uint64_t)(((unsigned __int128)next() * n) >> 64) : 0;
	}
	int64_t range(int64_t lo, int64_t hi) // inclusive
	{
		return lo + (int64_t)below((uint64_t)(hi - lo + 1));
	}
	bool chance(double p)
	{
		return (next() >> 11) * 0x1.0p-53 < p;
	}
	template <typename T, size_t N>
	T pick(const T (&a)[N])
	{
		return a[below(N)];
	}
};

// ------------------------------------------------------------------ scenarios
// One operation of a scenario. 'thr' is the simulated client thread that performs it.
struct SimOp
{
	int kind;
	int thr;
	int64_t a, b, c, d;
};

struct Scenario
{
	std::string wl;	  // workload (shared object) name
	std::string prop; // property whose oracle is armed
	std::map<std::string, int64_t> cfg;
	std::vector<SimOp> ops;

	int64_t get(const char* k, int64_t def = 0) const
	{
		auto it = cfg.find(k);
		return it == cfg.end() ? def : it->second;
	}
};

struct Workload
{
	const char* name;
	void (*gen)(Rng&, Scenario&);	 // host context: make a scenario for sc.prop
	void (*begin)(const Scenario&);	 // host context: fresh oracle state
	void (*body)();					 // main simulated thread
	void (*end)(int abandoned);		 // host context: final checks over the history (unless abandoned); frees oracle state
	int (*stuck)(std::string& why);	 // no thread can ever finish: does that violate the property? (null: yes)
	const char* const* op_names;	 // by kind
	int n_op_names;
};

// count-indexed fault kinds (the n-th opportunity on a fiber); step-indexed ones are FK_STALL/FK_CLOCK
enum FaultKind
{
	FK_SPURIOUS,   // condition wait wakes up without a notification (value: ns until it does)
	FK_TRYFAIL,	   // try_lock fails spuriously
	FK_LATE,	   // timer fires late (value: extra ns)
	FK_THREAD,	   // thread creation fails
	FK_ALLOC,	   // allocation fails
	FK_ENTROPY,	   // entropy source repeats a word handed to somebody else
	FK_WAKEPICK,   // notify_one picks a waiter other than the longest waiting
	FK_THROW,	   // user callback / constructor throws (asked by workloads)
	FK_DEVICE,	   // output device misbehaves (asked by workloads)
	FK_STALL,	   // thread is descheduled for a while (value: ns)
	FK_CLOCK,	   // wall clock jumps (value: ns, signed)
	FK_COUNT
};
extern "C" const char* const sim_fault_names[FK_COUNT];

extern "C"
{
	[[noreturn]] void sim_violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	void sim_quiet_enter();
	void sim_quiet_leave();
	uint64_t sim_now();		   // simulated steady clock, ns
	uint64_t sim_seq();		   // global event sequence number
	int sim_fiber();		   // id of the running simulated thread
	void sim_yield();		   // a scheduling point
	void sim_sleep(uint64_t ns);  // harness sleep; creates no happens-before edge
	void sim_block(const void* key); // harness wait; creates no happens-before edge. Use in a predicate loop.
	void sim_wake(const void* key);
	void sim_event(uint64_t a, uint64_t b); // mixed into the execution hash
	void sim_probe(const char* name);		// "this rare condition was reached" counter (static string)
	uint64_t sim_fault(int kind, uint64_t nvalues); // 0: no fault; otherwise 1..nvalues
	void sim_arm(int kind, int on);					// FK_ALLOC and FK_THREAD faults happen only while armed on the calling thread
	void sim_entropy_from(int n);					// the entropy source repeats words only from a thread's n-th on
	void sim_race_mode(int mode);					// 0: ignore data races, 1: report all, 2: only in watched memory
	void sim_watch(const void* p, size_t n);
	size_t sim_live_allocs();						// blocks of the simulated heap not yet freed
	size_t sim_alloc_calls();						// allocations attempted so far
	void sim_report_leaks(const char* cls, size_t baseline);
	int sim_live_threads();							// simulated threads created and not finished, without main
	int sim_unjoined_threads();						// created, neither joined nor detached
	int sim_in_drain();								// faults have stopped
	uint64_t sim_last_fault_time();					// when the last stall/late/jump ended, ns
	uint64_t sim_waiting_in(const char* what);		// number of fibers blocked in a primitive kind ("mutex","cond",...)
	void sim_no_race_enter();
	void sim_no_race_leave();
	[[noreturn]] void sim_stop();					// ends the run here, with everything in order so far
	int sim_mem_state(const void* p);				// 0 not in simulated memory, 1 live, 2 not live
	int sim_fiber_blocked(int fiber);				// blocked/sleeping (not runnable)
}

struct Quiet
{
	Quiet()
	{
		sim_quiet_enter();
	}
	~Quiet()
	{
		sim_quiet_leave();
	}
	Quiet(const Quiet&)			   = delete;
	Quiet& operator=(const Quiet&) = delete;
};

// One pool, many client threads: T01 T02 T03 T04 T08 T09 T10 T11 T14.
#include "pool_common.h"
#include <algorithm>
#include <optional>

enum Op
{
	OP_ENQ,	  // a: callable kind, b: behaviour, c: its argument
	OP_PLAIN, // a: stateless callable kind
	OP_EACH,  // a: number of values, b: behaviour, c: argument
	OP_WAIT,
	OP_SLEEP, // a: ns
	OP_QUERY,
	OP_FLOOD, // a: number of tasks, b: how many between two waits (0: none)
	OP_COUNT
};
static const char* const op_names[] = { "enqueue", "enqueue_stateless", "for_each", "wait", "sleep", "query", "flood" };

enum Shape
{
	SH_HISTORY,
	SH_DESTROY,
	SH_PRESSURE,
	SH_PROMPT
};

static int64_t clampi(int64_t v, int64_t lo, int64_t hi)
{
	return v < lo ? lo : v > hi ? hi : v;
}

// ------------------------------------------------------------------ generation
static int64_t pick_beh(Rng& r, int64_t& arg, bool sleeps)
{
	switch (r.below(sleeps ? 4 : 3))
	{
		case 0: arg = 0; return BEH_NONE;
		case 1:
		case 2: arg = r.range(1, 30); return BEH_YIELD;
		default:
		{
			static const int64_t d[] = { 1000, 50000, 2000000, 30000000 };
			arg						 = r.pick(d);
			return BEH_SLEEP;
		}
	}
}

// polling threads take many steps in a long time
static void long_run(std::map<std::string, int64_t>& c)
{
	c["budget1"] = 4000000;
	c["budget2"] = 40000000;
}

#ifdef MUU_SIM_SPIN_ITERATIONS
static constexpr double LARGE_POOL = 0.004;
static constexpr int64_t LARGEST	   = 190;
#else
static constexpr double LARGE_POOL = 0.0003;
static constexpr int64_t LARGEST	   = 50;
#endif
// a pool of many workers, which take many steps to look through all its queues
static void large_pool(Rng& r, std::map<std::string, int64_t>& c)
{
	c["hwc"]	 = 4;
	c["large"]	 = 1;
	c["workers"] = r.range(40, LARGEST);
	c["step_ns"] = 20;
	c["budget1"] = 8000000;
	c["budget2"] = 60000000;
	c["clients"] = 1;
	for (int k = 0; k < FK_COUNT; k++)
		c.erase(std::string("f_") + sim_fault_names[k]);
}

static void gen(Rng& r, Scenario& sc)
{
	const std::string& p = sc.prop;
	auto& c				 = sc.cfg;
	rates(r, sc);
	c["budget1"] = 800000;
	c["budget2"] = 3000000;
	static const int64_t steps[] = { 20, 100, 200, 200, 500, 1000, 2000 };
	c["step_ns"]				 = r.pick(steps);
	if (p == "T04")
	{
		// workers that are not joined yet spin on their terminated queues, possibly for 100 ms each
		static const int64_t slow[] = { 200, 1000, 2000, 5000, 5000, 10000, 20000 };
		c["step_ns"]				= r.pick(slow);
	}
	static const int64_t ws[] = { 1, 1, 2, 2, 2, 3, 3, 4, 5 };
	c["workers"]			  = r.pick(ws);
	static const int64_t qs[] = { 1, 1, 2, 3, 4, 6, 8, 16, 64 };
	c["queue"]				  = r.pick(qs);
	c["clients"]			  = r.range(1, 4);
	c["shape"]				  = p == "T04" ? SH_DESTROY : p == "T09" ? SH_PRESSURE : p == "T10" ? SH_PROMPT : SH_HISTORY;
	const int64_t clients	  = c["clients"];
	int64_t arg;

	if (p == "T08")
	{
		// the documented limits of the worker count
#ifdef MUU_SIM_SPIN_ITERATIONS
		if (r.chance(0.01))
#else
		if (r.chance(0.0005))
#endif
		{
			c["step_ns"]  = 2000;
			c["hwc"]	  = r.range(0, 3);
			c["large"]	  = r.chance(0.9);
			c["workers"]  = r.chance(0.5) ? r.range(60, 140) : (int64_t)1 << r.range(6, 40);
			c["queue"]	  = r.range(0, 100);
			c["clients"]  = 1;
			c["budget1"]  = 6000000;
			c["budget2"]  = 12000000;
			for (int k = 0; k < FK_COUNT; k++)
				c.erase(std::string("f_") + sim_fault_names[k]);
			const int64_t many = r.chance(0.5) ? 70 : r.range(190, 400);
			for (int64_t i = 0; i < many; i++)
				sc.ops.push_back({ OP_ENQ, 0, K_WORD, BEH_YIELD, many > 70 ? r.range(3, 40) : 3, 0 });
			return;
		}
		if (r.chance(0.1))
		{
			c["workers"] = 0;
			c["hwc"]	 = r.range(0, 9);
		}
	}

	if (c["shape"] == SH_DESTROY)
	{
		c["drain"] = 0;
		static const double stall[] = { 0, 0, 1 };
		if (r.pick(stall) < 0.5)
		{
			c.erase("f_thread_stall");
			c.erase("f_late_timer");
		}
		static const int64_t durs[] = { 0, 1000, 100000, 5000000, 40000000, 150000000, 300000000 };
		const int64_t nkinds		= r.range(1, 3);
		int64_t ds[3];
		for (auto& d : ds)
			d = r.pick(durs);
		const int64_t n = r.range(0, 40);
		for (int64_t i = 0; i < n; i++)
		{
			const int thr = (int)r.below((uint64_t)clients);
			if (r.chance(0.05))
				sc.ops.push_back({ OP_SLEEP, thr, r.range(0, 50000000), 0, 0, 0 });
			else if (r.chance(0.05))
				sc.ops.push_back({ OP_EACH, thr, r.range(1, 12), BEH_SLEEP, ds[0], 0 });
			else
			{
				const int64_t d = ds[r.below((uint64_t)nkinds)];
				sc.ops.push_back({ OP_ENQ, thr, r.range(0, K_IDENTIFIED_COUNT - 1), d ? BEH_SLEEP : BEH_NONE, d, 0 });
			}
		}
		static const int64_t before[] = { 0, 0, 0, 1000, 20000, 3000000, 30000000, 99990000, 100010000, 200000000 };
		c["before"]					  = r.pick(before);
		c["queue"]					  = r.chance(0.5) ? 64 : c["queue"];
		return;
	}
	if (c["shape"] == SH_PRESSURE)
	{
		c["queue"] = r.chance(0.03) ? r.range(0, 5000) : r.range(1, 24);
		c["excess"] = r.chance(0.6) ? r.range(1, 6) : 0;
		c["hold"]	= r.range(0, 400000000);
		if (c["excess"] && r.chance(0.12)) // a producer may have to wait for minutes
			c["hold"] = r.range(1000000000, 60000000000), long_run(c);
		if (r.chance(LARGE_POOL))
		{
			large_pool(r, c);
			c["queue"]	= r.chance(0.5) ? r.range(1, 40) : c["workers"] + r.range(-2, 2);
			c["excess"] = r.range(0, 3);
			c["hold"]	= r.range(0, 200000000);
			for (int64_t i = 0; i < 200; i++)
				sc.ops.push_back({ OP_ENQ, 0, K_WORD, BEH_NONE, 0, 0 });
			return;
		}
		const bool each = r.chance(0.4);
		const int64_t n = c["queue"] > 40 ? 0 : c["queue"] + c["workers"] + 4;
		for (int64_t i = 0; i < n; i++)
		{
			arg			 = r.range(0, 3);
			const int thr = (int)r.below((uint64_t)clients);
			if (each && r.chance(0.2))
				sc.ops.push_back({ OP_EACH, thr, r.range(1, 7), BEH_YIELD, arg, 0 });
			else
				sc.ops.push_back({ OP_ENQ, thr, r.range(0, K_IDENTIFIED_COUNT - 1), BEH_YIELD, arg, 0 });
		}
		return;
	}
	if (c["shape"] == SH_PROMPT)
	{
		c["workers"]  = r.range(2, 5);
		c["queue"]	  = (int64_t)(4 << r.below(5));
		c["blockers"] = r.range(0, c["workers"] - 1);
		c["meet"]	  = r.chance(0.4) ? r.range(2, 5) : 0;
		static const int st[] = { 0, 0, 0, 20, 100 };
		c["f_thread_stall"]   = r.pick(st);
		c["idle"]			  = r.chance(0.5) ? r.range(0, 350000000) : 0;
		if (r.chance(0.02))
			c["idle"] = r.range(1000000000, 60000000000), long_run(c);
		else if (r.chance(LARGE_POOL))
		{
			large_pool(r, c);
			c["queue"]	  = c["workers"] * r.range(1, 4);
			c["blockers"] = c["workers"] - r.range(1, 3);
			c["idle"]	  = 0;
			for (int i = 0; i < 10; i++)
				sc.ops.push_back({ OP_ENQ, 0, K_WORD, BEH_NONE, 0, 0 });
			return;
		}
		const int64_t n		  = r.range(1, 14);
		for (int64_t i = 0; i < n; i++)
		{
			const int thr = (int)r.below((uint64_t)clients);
			if (r.chance(0.3))
				sc.ops.push_back({ OP_SLEEP, thr, r.range(0, 250000000), 0, 0, 0 });
			const int64_t b = r.below(3);
			if (r.chance(0.15))
				sc.ops.push_back({ OP_EACH, thr, r.range(1, 9), b == 0 ? BEH_NONE : BEH_YIELD, r.range(0, 20), 0 });
			else
				sc.ops.push_back({ OP_ENQ, thr, r.range(0, K_IDENTIFIED_COUNT - 1), b == 0 ? BEH_NONE : b == 1 ? BEH_YIELD : BEH_SLEEP, b == 1 ? r.range(0, 20) : r.range(0, 5000000), 0 });
		}
		return;
	}

	// history
	if (r.chance(p == "T01" || p == "T03" ? 0.0002 : 0))
	{
		// counters of 16 bits would overflow
		for (int k = 0; k < FK_COUNT; k++)
			c.erase(std::string("f_") + sim_fault_names[k]);
		c["workers"]  = 1;
		c["queue"]	  = r.range(1, 100);
		c["clients"]  = 1;
		c["drain"]	  = 1;
		c["budget1"]  = 400000000;
		c["budget2"]  = 800000000;
		sc.ops.push_back({ OP_FLOOD, 0, 66000 + r.range(0, 600), r.chance(0.5) ? r.range(1, 200) : 0, 0, 0 });
		return;
	}
	if (r.chance(p == "T14" || p == "T08" ? 0 : LARGE_POOL))
	{
		large_pool(r, c);
		c["queue"] = r.chance(0.5) ? r.range(1, 400) : 0;
		c["drain"] = 1;
		for (int64_t i = 0, e = r.range(20, 400); i < e; i++)
			if (r.chance(0.01))
				sc.ops.push_back({ OP_WAIT, 0, 0, 0, 0, 0 });
			else
				sc.ops.push_back({ OP_ENQ, 0, r.chance(0.5) ? K_WORD : K_MOVE, BEH_YIELD, r.range(0, 10), 0 });
		return;
	}
	if (r.chance(p == "T02" ? 0.01 : p == "T03" || p == "T11" ? 0.002 : 0))
	{
		// much is submitted while a thread waits for what was there before
		c["workers"] = r.range(1, 3);
		c["queue"]	 = r.range(60, 350);
		c["clients"] = r.range(2, 3);
		c["drain"]	 = 1;
		c["budget1"] = 4000000;
		c["budget2"] = 24000000;
		for (int64_t i = 0, e = r.range(1, 4); i < e; i++)
			sc.ops.push_back({ OP_ENQ, 0, K_WORD, BEH_SLEEP, r.range(100000, 300000000), 0 });
		sc.ops.push_back({ OP_WAIT, 0, 0, 0, 0, 0 });
		for (int64_t i = 0, e = r.range(60, 360); i < e; i++)
			sc.ops.push_back({ OP_ENQ, (int)r.range(1, c["clients"] - 1), K_WORD, BEH_NONE, 0, 0 });
		return;
	}
	if (r.chance(0.004))
	{
		c["workers"] = r.range(1, 2);
		c["budget1"] = 4000000;
		c["budget2"] = 20000000;
		for (int64_t k = 0; k < clients; k++)
			sc.ops.push_back({ OP_FLOOD, (int)k, r.range(100, clients > 1 ? 500 : 1200), r.chance(0.7) ? r.range(1, 300) : 0, 0, 0 });
	}
	const bool big	   = r.chance(0.08);
	const bool sleeps  = r.chance(0.4);
	const bool slow	   = r.chance(0.02); // tasks that take minutes
	const int64_t n	   = big ? r.range(40, 160) : r.range(1, 24);
	const double pwait = r.chance(0.5) ? 0.25 : 0.08;
	if (slow)
		long_run(c);
	const bool onekind = r.chance(0.3);
	const int64_t kind = r.range(0, K_IDENTIFIED_COUNT - 1);
	for (int64_t i = 0; i < n; i++)
	{
		const int thr  = (int)r.below((uint64_t)clients);
		const double x = (double)r.below(1000) / 1000.0;
		if (x < pwait)
			sc.ops.push_back({ OP_WAIT, thr, 0, 0, 0, 0 });
		else if (x < pwait + 0.05)
			sc.ops.push_back({ OP_SLEEP, thr, r.range(0, r.chance(0.5) ? 150000000 : 20000), 0, 0, 0 });
		else if (x < pwait + 0.10)
			sc.ops.push_back({ OP_QUERY, thr, 0, 0, 0, 0 });
		else if (x < pwait + 0.17)
		{
			const int64_t b = pick_beh(r, arg, false);
			sc.ops.push_back({ OP_EACH, thr, r.range(1, 10), b, arg > 4 ? 4 : arg, 0 });
		}
		else if (x < pwait + 0.24)
			sc.ops.push_back({ OP_PLAIN, thr, r.range(K_PLAIN0, K_COUNT - 1), 0, 0, 0 });
		else
		{
			int64_t b = pick_beh(r, arg, sleeps);
			if (slow && r.chance(0.15))
				b = BEH_SLEEP, arg = r.range(1000000000, 60000000000);
			sc.ops.push_back({ OP_ENQ, thr, onekind ? kind : r.range(0, K_IDENTIFIED_COUNT - 1), b, arg, 0 });
		}
	}
	c["drain"] = p == "T14" ? r.chance(0.6) : 1;
	if (!c["drain"]) // objects the caller owns must outlive the run
		for (auto& o : sc.ops)
			if (o.kind == OP_ENQ && outlives((int)o.a))
				o.a = K_MOVE;
}

// ------------------------------------------------------------------ execution
static muu::thread_pool* pool;
static size_t cap0;
static uint64_t dtor_begin_t, dtor_begin_faults;
static int quota_taken;

static void begin(const Scenario& sc)
{
	S		= new PoolOracle;
	S->sc	= sc;
	S->prop = sc.prop;
	pool	= nullptr;
	quota_taken = 0;
	S->gates.assign(4, 0);
	S->running_on.assign(8 * 128, -1);
	S->client_ops.resize(8);
	auto& ops = S->sc.ops;
	for (size_t i = 0; i < ops.size(); i++)
	{
		auto& o	  = ops[i];
		o.thr	  = (int)clampi(o.thr, 0, clampi(sc.get("clients", 1), 1, 8) - 1);
		size_t n  = 0;
		if (o.kind == OP_ENQ)
		{
			n	= 1;
			o.a = clampi(o.a, 0, K_IDENTIFIED_COUNT - 1);
			if (sc.get("drain", 1) == 0 && outlives((int)o.a))
				o.a = K_MOVE;
		}
		else if (o.kind == OP_EACH)
		{
			o.a = clampi(o.a, 0, 24);
			n	= (size_t)o.a;
		}
		o.b = o.kind == OP_ENQ || o.kind == OP_EACH ? clampi(o.b, 0, BEH_SLEEP) : o.b;
		o.c = clampi(o.c, 0, 100000000000);
		if (S->t.size() + n > 480)
			n = 0;
		S->flood_base.push_back((int)S->flood.size());
		if (o.kind == OP_FLOOD)
		{
			o.a = clampi(o.a, 0, 200000);
			if (S->flood.size() + (size_t)o.a > 300000)
				o.a = 0;
			S->flood.resize(S->flood.size() + (size_t)o.a);
		}
		S->op_base.push_back(n ? (int)S->t.size() : -1);
		for (size_t k = 0; k < n; k++)
		{
			TaskRec t;
			t.kind	 = o.kind == OP_ENQ ? (int)o.a : -1;
			t.beh	 = (int)o.b;
			t.c		 = o.c;
			t.client = o.thr;
			S->t.push_back(t);
		}
		S->client_ops[(size_t)o.thr].push_back((int)i);
	}
	const std::string& p = sc.prop;
	sim_race_mode(p == "T11" ? 1 : (p == "T02" || p == "T08") ? 2 : 0);
}

static int add_task(int kind, int beh, int64_t arg)
{
	Quiet q;
	TaskRec t;
	t.kind = kind;
	t.beh  = beh;
	t.c	   = arg;
	S->t.push_back(t);
	return (int)S->t.size() - 1;
}

static void check_limits()
{
	const size_t w = pool->workers(), c = pool->capacity();
	Quiet q;
	const uint64_t req = (uint64_t)S->sc.get("workers"), hwc = (uint64_t)S->sc.get("hwc", -1);
	if (is("T08"))
	{
		if (req || S->sc.cfg.count("hwc"))
		{
			uint64_t conc = S->sc.cfg.count("hwc") ? (hwc ? hwc : 1) : 0;
			uint64_t want = req ? req : conc;
			uint64_t lim  = conc ? conc * 64 : 1024;
			if (lim > 1024)
				lim = 1024;
			if (want > lim)
				want = lim;
			if (w != want)
				sim_violation("workers", "a pool asked for %llu workers on a machine with %lld hardware threads reports %zu", (unsigned long long)req, (long long)S->sc.get("hwc", -1), w);
		}
		if (S->workers[0] && S->workers[0] != w)
			sim_violation("workers", "workers() changed from %zu to %zu", S->workers[0], w);
	}
	if (is("T09"))
	{
		const uint64_t q = (uint64_t)S->sc.get("queue");
		if (c < q)
			sim_violation("capacity", "capacity() is %zu, less than the %llu requested", c, (unsigned long long)q);
		if (cap0 && cap0 != c)
			sim_violation("capacity", "capacity() changed from %zu to %zu", cap0, c);
		if (!c)
			sim_violation("capacity", "capacity() is zero");
	}
	S->workers[0] = w;
	cap0		  = c;
}

static void do_wait(const std::vector<int>& mine)
{
	uint64_t t0;
	{
		Quiet q;
		t0 = ++S->clk;
		S->in_wait++;
		sim_event(0x61, 0);
	}
	pool->wait();
	{
		Quiet q;
		S->in_wait--;
		sim_event(0x62, 0);
		if (is("T02"))
			for (size_t i = 0; i < S->t.size(); i++)
			{
				const TaskRec& t = S->t[i];
				if (!t.returned || t.ret_seq >= t0)
					continue;
				if (!t.starts)
					sim_violation("wait_early", "wait() returned although task %zu, submitted before it was called, had not started", i);
				if (!t.ended)
					sim_violation("wait_early", "wait() returned although task %zu, submitted before it was called, was still running", i);
				if (t.live)
					sim_violation("wait_early", "wait() returned although the stored callable of task %zu, submitted before it was called, was not destroyed yet", i);
			}
	}
	for (int id : mine)
		if (P->out[id] != 2000 + id && (is("T02") || is("T11")))
			sim_violation("publish", "after wait() the waiting thread does not see what task %d wrote", id);
}

static void flood_task(int i, int check, size_t w) noexcept
{
	Quiet q;
	sim_event(0x55, (uint64_t)i);
	const bool known = i >= 0 && i < (int)S->flood.size();
	if ((!known || check != i * 7 + 1) && (is("T01") || is("T14")))
		sim_violation("value", "a task was invoked with corrupted captured values (%d, %d)", i, check);
	if (w >= S->workers[0] && is("T08"))
		sim_violation("worker_index", "a task was given worker index %zu by a pool of %zu workers", w, S->workers[0]);
	S->flood_ran++;
	if (known && ++S->flood[(size_t)i] > 1 && is("T01"))
		sim_violation("twice", "task %d of many was invoked %d times", i, (int)S->flood[(size_t)i]);
}
static void flood(int base, int n, int64_t every)
{
	int from = 0;
	for (int k = 0; k < n; k++)
	{
		{
			Quiet q;
			S->flood_sub++;
			S->in_enqueue++;
		}
		pool->enqueue([i = base + k, c = (base + k) * 7 + 1](size_t w) noexcept { flood_task(i, c, w); });
		{
			Quiet q;
			S->in_enqueue--;
		}
		if (every > 0 && (k % every == every - 1 || k == n - 1))
		{
			{
				Quiet q;
				S->in_wait++;
			}
			pool->wait();
			Quiet q;
			S->in_wait--;
			if (is("T02"))
				for (; from <= k; from++)
					if (!S->flood[(size_t)(base + from)])
						sim_violation("wait_early", "wait() returned although the %d-th of many tasks, submitted before it was called, had not run", from + 1);
		}
	}
}

static void run_client(int k)
{
	Lvalues& lv = *new Lvalues;
	std::vector<int> mine;
	size_t n;
	{
		Quiet q;
		n = S->client_ops[(size_t)k].size();
	}
	const bool quota = S->sc.get("shape") == SH_PRESSURE;
	for (size_t i = 0; i < n; i++)
	{
		SimOp o;
		int base, fbase;
		{
			Quiet q;
			const int j = S->client_ops[(size_t)k][i];
			fbase		= S->flood_base[(size_t)j];
			o			= S->sc.ops[(size_t)j];
			base		= S->op_base[(size_t)j];
			if (quota)
			{
				const size_t need = o.kind == OP_ENQ ? 1 : o.kind == OP_EACH ? (size_t)std::min<int64_t>(o.a, (int64_t)S->workers[0]) : 0;
				if ((size_t)quota_taken + need > cap0)
					continue;
				quota_taken += (int)need;
			}
		}
		switch (o.kind)
		{
			case OP_ENQ:
				if (base >= 0)
				{
					submit(*pool, base, lv);
					mine.push_back(base);
				}
				break;
			case OP_PLAIN: submit_plain(*pool, (int)clampi(o.a, K_PLAIN0, K_COUNT - 1)); break;
			case OP_EACH:
				if (base >= 0)
				{
					for (int v = 0; v < (int)o.a; v++)
						note_submit(base + v);
					pool->for_each(base, base + (int)o.a, [](int v, size_t) noexcept { run_task(v, NO_WORKER); });
					for (int v = 0; v < (int)o.a; v++)
					{
						note_returned(base + v);
						mine.push_back(base + v);
					}
				}
				break;
			case OP_WAIT: do_wait(mine); break;
			case OP_SLEEP: sim_sleep((uint64_t)clampi(o.a, 0, 1000000000)); break;
			case OP_QUERY: check_limits(); break;
			case OP_FLOOD: flood(fbase, (int)o.a, o.b); break;
		}
	}
	// lvalue tasks must not die before they have run
	Quiet q;
	S->kept.push_back(&lv);
}

static void run_clients()
{
	const int n = (int)clampi(S->sc.get("clients", 1), 1, 8);
	std::vector<std::thread> th;
	for (int k = 1; k < n; k++)
		th.emplace_back([k] { run_client(k); });
	run_client(0);
	for (auto& t : th)
		t.join();
}
static void drop_lvalues()
{
	for (auto* l : S->kept)
		delete l;
	Quiet q;
	S->kept.clear();
}

static void check_all_ran(const char* when)
{
	Quiet q;
	if (!(is("T01") || is("T09")))
		return;
	for (size_t i = 0; i < S->t.size(); i++)
	{
		const TaskRec& t = S->t[i];
		if (t.submitted && t.starts != 1)
			sim_violation(t.starts ? "twice" : "lost", "task %zu was invoked %d times %s", i, t.starts, when);
		if (t.submitted && !t.ended)
			sim_violation("lost", "task %zu has not finished %s", i, when);
	}
	if (S->flood_ran != S->flood_sub)
		sim_violation("lost", "%lld of %lld tasks were not invoked %s", (long long)(S->flood_sub - S->flood_ran), (long long)S->flood_sub, when);
	for (int n = 0; n < 8; n++)
		if (S->plain_counts[n] != S->plain_expect[n])
			sim_violation(S->plain_counts[n] > S->plain_expect[n] ? "twice" : "lost", "stateless task type %d was invoked %lld times for %lld submissions %s", n,
						  (long long)S->plain_counts[n], (long long)S->plain_expect[n], when);
}

static void destroy_pool(size_t baseline)
{
	if (S->sc.get("large", 0)) // joining very many workers that all look through all queues takes too many steps
		sim_stop();
	size_t nworkers;
	{
		Quiet q;
		dtor_begin_t = sim_now();
		S->in_dtor	 = 1;
		++S->clk;
		sim_event(0x71, 0);
		nworkers = S->workers[0];
	}
	delete pool;
	{
		Quiet q;
		S->in_dtor	= 0;
		S->dead[0]	= true;
		pool		= nullptr;
		const uint64_t t1 = sim_now();
		sim_event(0x72, 0);
		if (is("T04"))
		{
			if (sim_live_threads())
				sim_violation("threads", "%d worker threads still exist after the pool's destructor has returned", sim_live_threads());
			uint64_t last = std::max(dtor_begin_t, sim_last_fault_time());
			for (size_t i = 0; i < S->t.size(); i++)
			{
				const TaskRec& t = S->t[i];
				if (t.starts && !t.ended)
					sim_violation("running", "task %zu is still running after the pool's destructor has returned", i);
				if (t.ended)
					last = std::max(last, t.end_t);
				if (t.live || t.ctors != t.dtors)
					sim_violation("lifetime", "the stored callable of task %zu was constructed %d times and destroyed %d times", i, t.ctors, t.dtors);
				if (t.starts > 1)
					sim_violation("twice", "task %zu was invoked %d times", i, t.starts);
				// nothing may start once the destructor is under way; allow for it having been preempted
				if (t.kind >= 0 && t.starts && sim_last_fault_time() == 0 && t.start_t > dtor_begin_t + 200000000)
					sim_violation("not_discarded", "task %zu was started %.1f ms after the destructor had begun", i, (double)(t.start_t - dtor_begin_t) * 1e-6);
			}
			const uint64_t bound = last + 700000000 + 120000000 * (uint64_t)nworkers;
			if (!sim_in_drain() && t1 > bound)
				sim_violation("slow_destructor", "the destructor returned %.1f ms after the last running task had finished", (double)(t1 - last) * 1e-6);
			sim_report_leaks("leak", baseline);
		}
		if (is("T14"))
		{
			for (size_t i = 0; i < S->t.size(); i++)
				if (S->t[i].live || S->t[i].ctors != S->t[i].dtors)
					sim_violation("lifetime", "the stored callable of task %zu was constructed %d times and destroyed %d times", i, S->t[i].ctors, S->t[i].dtors);
			if (!S->live.empty())
				sim_violation("lifetime", "%zu stored callables were never destroyed", S->live.size());
		}
	}
	// the destructor publishes, too
	if (is("T11"))
		for (size_t i = 0; i < S->t.size(); i++)
			if (S->t[i].ended && P->out[i] != 2000 + (int64_t)i)
				sim_violation("publish", "after the destructor its caller does not see what task %zu wrote", i);
}

// sleeps until cond holds; a violation of T10 if that takes longer than the bound after 'since' and the last fault
template <typename F>
static void await_started(F&& missing, uint64_t extra)
{
	uint64_t t0 = sim_now();
	for (;;)
	{
		{
			Quiet q;
			const int id = missing();
			if (id < 0)
				return;
			if (is("T10"))
			{
				const uint64_t from = std::max({ S->t[(size_t)id].ret_t, sim_last_fault_time(), t0 });
				if (sim_now() > from + 1000000000 + extra)
					sim_violation("not_prompt", "task %d was queued %.1f ms ago and has not started although a worker was idle all the time", id,
								  (double)(sim_now() - S->t[(size_t)id].ret_t) * 1e-6);
			}
		}
		sim_sleep(20000000);
	}
}

static void shape_prompt()
{
	Lvalues lv;
	const size_t w = pool->workers();
	int nb		   = (int)clampi(S->sc.get("blockers"), 0, (int64_t)w - 1);
	sim_sleep((uint64_t)clampi(S->sc.get("idle"), 0, 1000000000000));
	std::vector<int> blockers;
	for (int i = 0; i < nb; i++)
	{
		const int id = add_task(K_WORD, BEH_GATE, 0);
		blockers.push_back(id);
		submit(*pool, id, lv);
	}
	auto started = [&](const std::vector<int>& v)
	{
		for (int id : v)
			if (!S->t[(size_t)id].starts)
				return id;
		return -1;
	};
	await_started([&] { return started(blockers); }, 0);
	run_clients();
	uint64_t work = 0;
	for (auto& t : S->t)
		if (t.submitted && t.beh == BEH_SLEEP)
			work += (uint64_t)t.c;
	await_started(
		[&]
		{
			for (size_t i = 0; i < S->t.size(); i++)
				if (S->t[i].returned && !S->t[i].starts)
					return (int)i;
			return -1;
		},
		work);
	// tasks that wait for each other; exactly as many as there are free workers
	const int meet = (int)clampi(S->sc.get("meet"), 0, (int64_t)w - nb);
	if (meet > 1)
	{
		{
			Quiet q;
			S->rendezvous_need[7] = meet;
		}
		std::vector<int> m;
		for (int i = 0; i < meet; i++)
		{
			const int id = add_task(K_WORD, BEH_MEET, 7);
			m.push_back(id);
			submit(*pool, id, lv);
		}
		await_started([&] { return started(m); }, 0);
	}
	gate_open(0);
	pool->wait();
}

static void shape_pressure()
{
	Lvalues lv;
	const size_t w = pool->workers();
	std::vector<int> blockers;
	for (size_t i = 0; i < w; i++)
	{
		const int id = add_task(K_WORD, BEH_GATE, 0);
		blockers.push_back(id);
		submit(*pool, id, lv);
	}
	for (;;)
	{
		bool all = true;
		{
			Quiet q;
			for (int id : blockers)
				all = all && S->t[(size_t)id].starts;
		}
		if (all)
			break;
		sim_sleep(5000000);
	}
	check_limits();
	run_clients(); // up to capacity(): must all return although every worker is busy
	// exactly fill up
	for (;;)
	{
		int id;
		{
			Quiet q;
			if ((size_t)quota_taken >= cap0 || S->t.size() >= 480 || (S->sc.get("queue") > 40 && !S->sc.get("large", 0)))
				break;
			quota_taken++;
		}
		id = add_task(K_MOVE, BEH_NONE, 0);
		submit(*pool, id, lv);
	}
	const bool full = (size_t)quota_taken >= cap0;
	if (full)
		sim_probe("pool filled to capacity with all workers busy");
	std::vector<std::thread> th;
	const int64_t ex = full ? clampi(S->sc.get("excess"), 0, 8) : 0;
	for (int64_t i = 0; i < ex; i++)
	{
		const int id = add_task(i & 1 ? K_MOVE : K_WORD, BEH_NONE, 0);
		th.emplace_back(
			[id]
			{
				Lvalues l;
				submit(*pool, id, l);
			});
	}
	if (ex)
	{
		sim_sleep((uint64_t)clampi(S->sc.get("hold"), 0, 1000000000000));
		Quiet q;
		size_t queued = 0;
		for (auto& t : S->t)
			queued += t.returned && !t.starts && t.kind >= 0;
		if (is("T09") && queued > cap0)
			sim_violation("over_capacity", "%zu submitted tasks wait to be started in a pool whose capacity is %zu", queued, cap0);
		if (queued == cap0)
			sim_probe("producer waiting for space");
	}
	gate_open(0);
	for (auto& t : th)
		t.join();
	check_limits();
	pool->wait();
	check_all_ran("after wait()");
}

static void body()
{
	P = new Payload;
	memset((void*)P, 0, sizeof *P);
	cap0 = 0;
	if (is("T02"))
		sim_watch(P->out, sizeof P->out);
	if (is("T08"))
		sim_watch(P->scratch, sizeof P->scratch);
	const size_t baseline = sim_live_allocs();
	const int shape		  = (int)S->sc.get("shape");
	pool = new muu::thread_pool(static_cast<size_t>(S->sc.get("workers")), static_cast<size_t>(S->sc.get("queue")));
	check_limits();
	switch (shape)
	{
		case SH_PROMPT: shape_prompt(); break;
		case SH_PRESSURE: shape_pressure(); break;
		case SH_DESTROY:
			run_clients();
			drop_lvalues();
			sim_sleep((uint64_t)clampi(S->sc.get("before"), 0, 1000000000));
			break;
		default:
			run_clients();
			if (S->sc.get("drain", 1))
			{
				std::vector<int> all;
				for (size_t i = 0; i < S->t.size(); i++)
					if (S->t[i].submitted)
						all.push_back((int)i);
				do_wait(all);
				check_all_ran("after wait()");
				drop_lvalues();
			}
			check_limits();
			break;
	}
	if (shape != SH_DESTROY)
		drop_lvalues();
	destroy_pool(baseline);
	delete P;
	P = nullptr;
}

static void end(int)
{
	free_oracle();
}

static int stuck(std::string& why)
{
	int unstarted = -1, unfinished = -1;
	for (size_t i = 0; i < S->t.size(); i++)
	{
		if (S->t[i].submitted && !S->t[i].starts)
			unstarted = (int)i;
		if (S->t[i].starts && !S->t[i].ended)
			unfinished = (int)i;
	}
	bool plain = false;
	for (int n = 0; n < 8; n++)
		plain = plain || S->plain_counts[n] < S->plain_expect[n];
	char b[128];
	if (is("T01") && S->flood_ran < S->flood_sub)
	{
		why = "some of many tasks are never invoked";
		return 1;
	}
	if (is("T01") && (unstarted >= 0 || plain || S->in_enqueue))
	{
		snprintf(b, sizeof b, "task %d was submitted and is never invoked", unstarted);
		why = b;
		return 1;
	}
	if (is("T03") && S->in_wait)
	{
		why = "a thread in wait() is never released";
		return 1;
	}
	if (is("T04") && S->in_dtor)
	{
		why = "the destructor never returns";
		return 1;
	}
	if (is("T09") && (S->in_enqueue || unstarted >= 0))
	{
		why = S->in_enqueue ? "enqueue() blocks although there is room, or forever" : "a task was dropped";
		return 1;
	}
	if (is("T10") && (unstarted >= 0 || unfinished >= 0) && !S->in_enqueue)
	{
		why = "queued tasks never start although workers are idle";
		return 1;
	}
	return 0;
}

static const Workload wl = { SIM_WL_NAME, gen, begin, body, end, stuck, op_names, OP_COUNT };
extern "C" __attribute__((visibility("default"))) const Workload* sim_workload()
{
	return &wl;
}

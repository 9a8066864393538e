// Construction under faults, moves, several pools: T12 T13 T15.
#include "pool_common.h"
#include <algorithm>
#include <exception>
#include <optional>

enum Op
{
	OP_MAKE,	// a: workers, b: queue size, c: tasks, d: 1 alloc faults, 2 thread faults, 4.. name     (T12)
	OP_CREATE,	// a: slot, b: workers, c: queue size                                                       (T13)
	OP_ENQ,		// a: slot or pool, b: kind, c: behaviour, d: its argument
	OP_EACH,	// a: slot or pool, b: values, c: behaviour, d: argument
	OP_MOVECTOR, // a: from slot, b: to slot
	OP_ASSIGN,	// a: from slot, b: to slot
	OP_SWAP,	// a, b: slots
	OP_WAIT,	// a: slot or pool
	OP_DESTROY, // a: slot or pool
	OP_SLEEP,	// a: ns
	OP_CROSS,	// a: pool, b: pool submitted to (a < b), c: whether the task waits                       (T15)
	OP_COUNT
};
static const char* const op_names[] = { "construct", "create", "enqueue", "for_each", "move_construct", "move_assign", "swap", "wait", "destroy", "sleep", "cross" };

static constexpr int SLOTS = 4, MAXP = 8;
static int64_t clampi(int64_t v, int64_t lo, int64_t hi)
{
	return v < lo ? lo : v > hi ? hi : v;
}

// ------------------------------------------------------------------ generation
static int64_t beh(Rng& r, int64_t& arg)
{
	switch (r.below(6))
	{
		case 0:
		case 1: arg = 0; return BEH_NONE;
		case 2:
		case 3: arg = r.range(1, 20); return BEH_YIELD;
		default:
		{
			static const int64_t d[] = { 1000, 50000, 2000000, 30000000 };
			arg						 = r.pick(d);
			return BEH_SLEEP;
		}
	}
}
static void gen(Rng& r, Scenario& sc)
{
	auto& c				 = sc.cfg;
	const std::string& p = sc.prop;
	rates(r, sc);
	c["budget1"]				 = 800000;
	c["budget2"]				 = 3000000;
	static const int64_t steps[] = { 100, 200, 500, 1000, 2000, 5000, 10000, 20000 };
	c["step_ns"]				 = r.pick(steps);
	int64_t arg;
	if (p == "T12")
	{
		static const int64_t rate[] = { 0, 20000, 60000, 150000, 300000, 1000000 };
		c["f_thread_create_fails"]	= r.pick(rate);
		c["f_alloc_fails"]			= r.pick(rate);
		c["clients"]				= r.chance(0.3) ? r.range(2, 3) : 1;
		const int64_t n				= r.range(1, 5);
		c["budget2"]				= 12000000;
		for (int64_t i = 0; i < n; i++)
		{
			int64_t arm = r.range(0, 3);
			// (idle workers of a pool being destroyed spin, the more the more of them there are)
#ifdef MUU_SIM_SPIN_ITERATIONS
			static const int64_t ws[] = { 1, 2, 3, 4, 5, 6, 9, 17 };
#else
			static const int64_t ws[] = { 1, 1, 2, 2, 3, 4 };
#endif
			sc.ops.push_back({ OP_MAKE, (int)r.below((uint64_t)c["clients"]), r.pick(ws), r.chance(0.04) ? r.range(1000, 200000) : r.range(0, 40), r.range(0, 6), arm | (int64_t)r.below(11) << 2 });
		}
		return;
	}
	if (p == "T13")
	{
		c["clients"]	= 1;
		const int64_t n = r.range(3, r.chance(0.3) ? 30 : 14);
		sc.ops.push_back({ OP_CREATE, 0, 0, r.range(1, 3), r.range(1, 12), 0 });
		for (int64_t i = 0; i < n; i++)
		{
			const int64_t s = r.range(0, SLOTS - 1), t = r.range(0, SLOTS - 1);
			const int64_t b = beh(r, arg);
			switch (r.below(12))
			{
				case 0:
				case 1: sc.ops.push_back({ OP_CREATE, 0, s, r.range(1, 4), r.range(1, 12), 0 }); break;
				case 2:
				case 3: sc.ops.push_back({ OP_MOVECTOR, 0, s, t, 0, 0 }); break;
				case 4:
				case 5: sc.ops.push_back({ OP_ASSIGN, 0, s, t, 0, 0 }); break;
				case 6:
					if (r.chance(0.3))
						sc.ops.push_back({ OP_SWAP, 0, s, t, 0, 0 });
					else if (r.chance(0.4))
						sc.ops.push_back({ OP_DESTROY, 0, s, 0, 0, 0 });
					else
						sc.ops.push_back({ OP_SLEEP, 0, r.range(0, 120000000), 0, 0, 0 });
					break;
				case 7: sc.ops.push_back({ OP_WAIT, 0, s, 0, 0, 0 }); break;
				case 8: sc.ops.push_back({ OP_EACH, 0, s, r.range(1, 9), b, arg }); break;
				default:
				{
					const int64_t m = r.range(1, 4);
					for (int64_t k = 0; k < m; k++)
						sc.ops.push_back({ OP_ENQ, 0, s, r.range(0, K_IDENTIFIED_COUNT - 1), b, arg });
				}
			}
		}
		return;
	}
	// T15
	c["pools"]	   = r.range(2, 4);
	c["creators"]  = r.range(0, 1);
	c["clients"]   = r.range(1, 4);
	c["private"]   = r.chance(0.5);
	for (int64_t k = 0; k < c["pools"]; k++)
	{
		c["w" + std::to_string(k)] = r.chance(0.2) ? 0 : r.range(1, 3);
		c["q" + std::to_string(k)] = r.range(1, 12);
	}
	c["hwc"]	= r.range(1, 3);
	c["hold"]	= r.chance(0.4) ? r.range(0, c["pools"] - 1) : -1; // the pool whose tasks do not finish until the others are gone
	const int64_t n = r.range(2, r.chance(0.3) ? 30 : 14);
	for (int64_t i = 0; i < n; i++)
	{
		const int thr	= (int)r.below((uint64_t)c["clients"]);
		const int64_t s = c["private"] ? thr : r.range(0, c["pools"] - 1);
		const int64_t b = beh(r, arg);
		switch (r.below(10))
		{
			case 0:
			case 1: sc.ops.push_back({ OP_WAIT, thr, s, 0, 0, 0 }); break;
			case 2:
				if (c["private"])
					sc.ops.push_back({ OP_DESTROY, thr, s, 0, 0, 0 });
				else
					sc.ops.push_back({ OP_SLEEP, thr, r.range(0, 120000000), 0, 0, 0 });
				break;
			case 3:
			case 4: sc.ops.push_back({ OP_CROSS, thr, s, r.range(0, c["pools"] - 1), r.range(0, 1), 0 }); break;
			case 5: sc.ops.push_back({ OP_EACH, thr, s, r.range(1, 6), b, arg }); break;
			default: sc.ops.push_back({ OP_ENQ, thr, s, r.range(0, K_IDENTIFIED_COUNT - 1), b, arg }); break;
		}
	}
}

// ------------------------------------------------------------------ state
struct PoolRec // one pool as an entity, whatever object owns it
{
	size_t workers = 0, capacity = 0;
	bool alive = false;
	int64_t busy = 0;
};
struct State
{
	std::vector<PoolRec> p;
	std::vector<std::vector<int>> client_ops;
	int slot_pool[SLOTS];  // which pool the object in a slot owns, -1 none
	bool slot_obj[SLOTS];  // whether there is an object
	int in_ctor = 0, in_dtor = 0, in_wait = 0, in_move = 0;
	int made = 0, thrown = 0;
	std::vector<int> cross_child, cross_pool, cross_wait; // by task id
};
static State* X;
static std::optional<muu::thread_pool>* slots;	// T13
static muu::thread_pool** pools;				// T15
static Lvalues* cross_lv;

static int new_task(int pool_id, int kind, int b, int64_t arg, int client = 0)
{
	Quiet q;
	if (S->t.size() >= 500)
		return -1;
	TaskRec t;
	t.kind	 = kind;
	t.beh	 = b;
	t.c		 = arg;
	t.pool	 = pool_id;
	t.client = client;
	S->t.push_back(t);
	return (int)S->t.size() - 1;
}

// T15: a task of one pool uses another
static void on_cross(int id)
{
	int child, pl, wait;
	{
		Quiet q;
		child = X->cross_child[(size_t)id];
		pl	  = X->cross_pool[(size_t)id];
		wait  = X->cross_wait[(size_t)id];
	}
	if (child < 0)
		return;
	Lvalues lv;
	submit(*pools[pl], child, lv);
	if (!wait)
		return;
	pools[pl]->wait();
	Quiet q;
	if (is("T15") && !S->t[(size_t)child].ended)
		sim_violation("cross", "task %d submitted task %d to another pool and waited for that pool, yet the task has not finished", id, child);
}

static void begin(const Scenario& sc)
{
	S		= new PoolOracle;
	S->sc	= sc;
	S->prop = sc.prop;
	X		= new State;
	slots	= nullptr;
	pools	= nullptr;
	S->gates.assign(4, 0);
	S->running_on.assign(8 * 128, -1);
	for (int i = 0; i < SLOTS; i++)
	{
		X->slot_pool[i] = -1;
		X->slot_obj[i]	= false;
	}
	X->client_ops.resize(8);
	const int64_t clients = clampi(sc.get("clients", 1), 1, 8);
	for (size_t i = 0; i < S->sc.ops.size(); i++)
	{
		auto& o = S->sc.ops[i];
		o.thr	= (int)clampi(o.thr, 0, clients - 1);
		X->client_ops[(size_t)o.thr].push_back((int)i);
	}
	cross_hook = on_cross;
	sim_race_mode(sc.prop == "T15" ? 1 : 0);
}

template <typename F>
static void each_op(int client, F&& f)
{
	size_t n;
	{
		Quiet q;
		n = X->client_ops[(size_t)client].size();
	}
	for (size_t i = 0; i < n; i++)
	{
		SimOp o;
		{
			Quiet q;
			o = S->sc.ops[(size_t)X->client_ops[(size_t)client][i]];
		}
		f(o);
	}
}
template <typename F>
static void run_clients(F&& f)
{
	const int n = (int)clampi(S->sc.get("clients", 1), 1, 8);
	std::vector<std::thread> th;
	for (int k = 1; k < n; k++)
		th.emplace_back([k, &f] { f(k); });
	f(0);
	for (auto& t : th)
		t.join();
}

// waits until every submitted task of the pool has ended; they had better
static void finish_pool(int id, const char* what)
{
	const uint64_t t0 = sim_now();
	for (;;)
	{
		{
			Quiet q;
			int missing = -1;
			for (size_t i = 0; i < S->t.size(); i++)
				if (S->t[i].pool == id && S->t[i].submitted && !S->t[i].ended)
					missing = (int)i;
			if (missing < 0)
				return;
			if (sim_now() > std::max(t0, sim_last_fault_time()) + 5000000000ull)
				sim_violation("lost", "task %d of pool %d has not been run to its end (%s)", missing, id, what);
		}
		sim_sleep(20000000);
	}
}
static void pool_gone(int id)
{
	Quiet q;
	X->p[(size_t)id].alive = false;
	S->dead[id & 7]		   = true;
	for (size_t i = 0; i < S->t.size(); i++)
	{
		const TaskRec& t = S->t[i];
		if (t.pool != id)
			continue;
		if (t.starts && !t.ended)
			sim_violation("running", "task %zu is still running although its pool has been shut down", i);
		if (t.live || t.ctors != t.dtors)
			sim_violation("lifetime", "the stored callable of task %zu was constructed %d times and destroyed %d times by the time its pool had been shut down", i, t.ctors, t.dtors);
	}
}

// ------------------------------------------------------------------ T12
static void do_make(int client, const SimOp& o, bool alone)
{
	const size_t w = (size_t)clampi(o.a, 1, 20), qs = (size_t)clampi(o.b, 0, 200000);
	const int arm  = (int)(o.d & 3);
	const int name = (int)((o.d >> 2) & 15);
	int before_threads, id;
	size_t before_allocs;
	{
		Quiet q;
		if (X->p.size() >= 7)
			return;
		before_threads = sim_live_threads();
		before_allocs  = sim_live_allocs();
		X->in_ctor++;
		id = (int)X->p.size();
		X->p.push_back({});
		sim_event(0x91, (uint64_t)id);
	}
	static const char long_name[] = "a pool with a name that does not fit into any small string buffer";
	alignas(muu::thread_pool) unsigned char raw[sizeof(muu::thread_pool)];
	muu::thread_pool* pl = nullptr;
	bool thrown = false, standard = false;
	if (arm & 1)
		sim_arm(FK_ALLOC, 1);
	if (arm & 2)
		sim_arm(FK_THREAD, 1);
	try
	{
		switch (name)
		{
			case 0: pl = ::new ((void*)raw) muu::thread_pool(w, qs); break;
			case 1: pl = ::new ((void*)raw) muu::thread_pool(w, qs, std::string_view{ "p" }); break;
			case 2: pl = ::new ((void*)raw) muu::thread_pool(w, qs, std::string_view{ long_name }); break;
			case 3: pl = ::new ((void*)raw) muu::thread_pool(w, qs, std::string_view{}); break;
			case 4:
			{
				std::string n{ long_name };
				pl = ::new ((void*)raw) muu::thread_pool(w, qs, static_cast<std::string&&>(n));
				break;
			}
			// names of other kinds are converted
			case 5: pl = ::new ((void*)raw) muu::thread_pool(w, qs, std::wstring_view{ L"a pool with a name that does not fit into any small string buffer" }); break;
			case 6: pl = ::new ((void*)raw) muu::thread_pool(w, qs, u"a pool with a name that does not fit into any small string buffer"); break;
			case 7: pl = ::new ((void*)raw) muu::thread_pool(w, qs, U"\u00e4\u20ac"); break;
			case 8:
			{
				std::u32string n{ U"a pool with a name that does not fit into any small string buffer" };
				pl = ::new ((void*)raw) muu::thread_pool(w, qs, static_cast<std::u32string&&>(n));
				break;
			}
			case 9: pl = ::new ((void*)raw) muu::thread_pool(w, qs, u8"a pool with a name that does not fit into any small string buffer"); break;
			default: pl = ::new ((void*)raw) muu::thread_pool(w, qs, muu::string_param{}); break;
		}
	}
	catch (const std::exception&)
	{
		sim_arm(FK_ALLOC, 0);
		thrown	 = true;
		standard = true;
	}
	catch (...)
	{
		thrown = true;
	}
	sim_arm(FK_ALLOC, 0);
	sim_arm(FK_THREAD, 0);
	{
		Quiet q;
		X->in_ctor--;
		X->made += !thrown;
		X->thrown += thrown;
		sim_event(0x92, (uint64_t)thrown);
		if (thrown && is("T12"))
		{
			if (!standard)
				sim_violation("exception", "the constructor threw something that is not derived from std::exception");
			if (!arm)
				sim_violation("spurious", "the constructor threw although neither memory nor threads were short");
			sim_probe("constructor threw");
			if (alone && sim_live_threads() != before_threads)
				sim_violation("threads", "%d threads started by the failed constructor still exist", sim_live_threads() - before_threads);
			if (alone)
				sim_report_leaks("leak", before_allocs);
		}
	}
	if (thrown)
		return;
	Lvalues lv;
	{
		const size_t nw = pl->workers(), cap = pl->capacity();
		Quiet q;
		S->workers[id & 7]		= nw;
		X->p[(size_t)id].alive	= true;
		X->p[(size_t)id].workers = nw;
		if (is("T12") && (nw != w || cap < qs))
			sim_violation("limits", "a pool made for %zu workers and %zu tasks reports %zu and %zu", w, qs, nw, cap);
	}
	for (int64_t i = 0; i < clampi(o.c, 0, 20); i++)
	{
		const int t = new_task(id, (int)(i % K_IDENTIFIED_COUNT), BEH_YIELD, 2, client);
		if (t >= 0)
			submit(*pl, t, lv);
	}
	pl->wait();
	if (is("T12"))
		finish_pool(id, "pool made after earlier failures");
	{
		Quiet q;
		X->in_dtor++;
	}
	pl->~thread_pool();
	{
		Quiet q;
		X->in_dtor--;
	}
	pool_gone(id);
	lv = Lvalues{};
	Quiet q;
	if (alone && is("T12"))
	{
		if (sim_live_threads() != before_threads)
			sim_violation("threads", "%d threads of a destroyed pool still exist", sim_live_threads() - before_threads);
		sim_report_leaks("leak", before_allocs);
	}
}
static void body_make()
{
	const size_t base = sim_live_allocs();
	const bool alone  = S->sc.get("clients", 1) <= 1;
	run_clients([&](int k) { each_op(k, [&](const SimOp& o) { do_make(k, o, alone); }); });
	// with nothing failing a pool can be made
	do_make(0, SimOp{ OP_MAKE, 0, 2, 4, 3, 0 }, true);
	Quiet q;
	if (sim_live_threads())
		sim_violation("threads", "%d threads started by failed constructors still exist", sim_live_threads());
	sim_report_leaks("leak", base);
}

// ------------------------------------------------------------------ T13
static int slot_of(int64_t a)
{
	return (int)(((a % SLOTS) + SLOTS) % SLOTS);
}
static void check_threads()
{
	Quiet q;
	if (!is("T13"))
		return;
	size_t want = 0;
	for (auto& p : X->p)
		if (p.alive)
			want += p.workers;
	if ((size_t)sim_live_threads() > want)
		sim_violation("threads", "%d worker threads exist although all pools together have %zu", sim_live_threads(), want);
}
static void check_slot(int s)
{
	const size_t w = slots[s]->workers(), c = slots[s]->capacity();
	Quiet q;
	const int p		= X->slot_pool[s];
	const size_t ew = p < 0 ? 0 : X->p[(size_t)p].workers, ec = p < 0 ? 0 : X->p[(size_t)p].capacity;
	if (is("T13") && (w != ew || c != ec))
		sim_violation("limits", "%s pool reports %zu workers and capacity %zu instead of %zu and %zu", p < 0 ? "a moved-from" : "a moved", w, c, ew, ec);
}
static void destroy_begins()
{
	Quiet q;
	X->in_dtor++;
}
static void destroy_ended(int p)
{
	{
		Quiet q;
		X->in_dtor--;
	}
	if (p >= 0)
		pool_gone(p);
	check_threads();
}
static void slot_destroy(int s)
{
	int p;
	{
		Quiet q;
		p = X->slot_pool[s];
	}
	destroy_begins();
	slots[s].reset();
	{
		Quiet q;
		X->slot_pool[s] = -1;
		X->slot_obj[s]	= false;
	}
	destroy_ended(p);
}
// tasks that refer to objects their submitter owns must be run before their pool may go
static void settle_lvalues(int s)
{
	int p;
	bool need = false;
	{
		Quiet q;
		p = X->slot_pool[s];
		if (p < 0)
			return;
		for (auto& t : S->t)
			if (t.pool == p && outlives(t.kind) && t.submitted && !t.ended)
				need = true;
	}
	if (need)
		finish_pool(p, "before its pool is shut down");
}
static void body_moves()
{
	const size_t base = sim_live_allocs();
	slots			  = new std::optional<muu::thread_pool>[SLOTS];
	Lvalues* lv		  = new Lvalues;
	each_op(0,
			[&](const SimOp& o)
			{
				const int s = slot_of(o.a), t = slot_of(o.b);
				switch (o.kind)
				{
					case OP_CREATE:
					{
						if (X->p.size() >= MAXP - 1)
							return;
						if (X->slot_obj[s])
						{
							// assign a new pool over the object
							settle_lvalues(s);
							muu::thread_pool fresh((size_t)clampi(o.b, 1, 6), (size_t)clampi(o.c, 1, 64));
							const int old = X->slot_pool[s];
							{
								const size_t w = fresh.workers(), c = fresh.capacity();
								Quiet q;
								X->p.push_back({ w, c, true, 0 });
								X->slot_pool[s]					= (int)X->p.size() - 1;
								S->workers[X->p.size() - 1] = w;
								sim_event(0x93, (uint64_t)s);
							}
							destroy_begins();
							*slots[s] = static_cast<muu::thread_pool&&>(fresh);
							destroy_ended(old);
							if (is("T13") && (fresh.workers() || fresh.capacity()))
								sim_violation("limits", "a moved-from pool reports workers or capacity");
						}
						else
						{
							slots[s].emplace((size_t)clampi(o.b, 1, 6), (size_t)clampi(o.c, 1, 64));
							const size_t w = slots[s]->workers(), c = slots[s]->capacity();
							Quiet q;
							X->p.push_back({ w, c, true, 0 });
							X->slot_pool[s]					= (int)X->p.size() - 1;
							X->slot_obj[s]					= true;
							S->workers[X->p.size() - 1] = w;
							sim_event(0x94, (uint64_t)s);
						}
						check_slot(s);
						break;
					}
					case OP_ENQ:
					{
						if (X->slot_pool[s] < 0)
							return;
						const int id = new_task(X->slot_pool[s], (int)clampi(o.b, 0, K_IDENTIFIED_COUNT - 1), (int)clampi(o.c, 0, BEH_SLEEP), clampi(o.d, 0, 100000000));
						if (id >= 0)
							submit(*slots[s], id, *lv);
						break;
					}
					case OP_EACH:
					{
						if (X->slot_pool[s] < 0)
							return;
						const int n = (int)clampi(o.b, 0, 24);
						int first	= -1, last = -1;
						for (int i = 0; i < n; i++)
						{
							const int id = new_task(X->slot_pool[s], -1, (int)clampi(o.c, 0, BEH_SLEEP), clampi(o.d, 0, 1000000));
							if (id < 0)
								break;
							if (first < 0)
								first = id;
							last = id;
							note_submit(id);
						}
						if (first < 0)
							return;
						slots[s]->for_each(first, last + 1, [](int v, size_t) noexcept { run_task(v, NO_WORKER); });
						for (int i = first; i <= last; i++)
							note_returned(i);
						break;
					}
					case OP_MOVECTOR:
					{
						if (!X->slot_obj[s] || X->slot_obj[t] || s == t)
							return;
						slots[t].emplace(static_cast<muu::thread_pool&&>(*slots[s]));
						{
							Quiet q;
							X->slot_pool[t] = X->slot_pool[s];
							X->slot_pool[s] = -1;
							X->slot_obj[t]	= true;
							sim_event(0x95, (uint64_t)(s * 8 + t));
						}
						check_slot(s);
						check_slot(t);
						break;
					}
					case OP_ASSIGN:
					{
						if (!X->slot_obj[s] || !X->slot_obj[t])
							return;
						if (s != t)
							settle_lvalues(t);
						const int old = s == t ? -1 : X->slot_pool[t];
						destroy_begins();
						muu::thread_pool& from = *slots[s];
						*slots[t]			   = static_cast<muu::thread_pool&&>(from);
						if (s != t)
						{
							Quiet q;
							X->slot_pool[t] = X->slot_pool[s];
							X->slot_pool[s] = -1;
							sim_event(0x96, (uint64_t)(s * 8 + t));
						}
						destroy_ended(old);
						check_slot(s);
						check_slot(t);
						break;
					}
					case OP_SWAP:
					{
						if (!X->slot_obj[s] || !X->slot_obj[t] || s == t)
							return;
						std::swap(*slots[s], *slots[t]);
						{
							Quiet q;
							std::swap(X->slot_pool[t], X->slot_pool[s]);
						}
						check_slot(s);
						check_slot(t);
						check_threads();
						break;
					}
					case OP_WAIT:
						if (X->slot_pool[s] >= 0)
						{
							slots[s]->wait();
							check_slot(s);
						}
						break;
					case OP_DESTROY:
						settle_lvalues(s);
						slot_destroy(s);
						break;
					case OP_SLEEP: sim_sleep((uint64_t)clampi(o.a, 0, 1000000000)); break;
				}
			});
	for (int s = 0; s < SLOTS; s++)
		if (X->slot_pool[s] >= 0)
		{
			slots[s]->wait();
			finish_pool(X->slot_pool[s], "after the pool was moved about");
		}
	for (int s = 0; s < SLOTS; s++)
		slot_destroy(s);
	delete[] slots;
	delete lv;
	Quiet q;
	for (size_t i = 0; i < S->t.size(); i++)
		if (S->t[i].starts > 1)
			sim_violation("twice", "task %zu was invoked %d times", i, S->t[i].starts);
	if (is("T13"))
	{
		if (sim_live_threads())
			sim_violation("threads", "%d worker threads still exist after all pools are gone", sim_live_threads());
		sim_report_leaks("leak", base);
	}
}

// ------------------------------------------------------------------ T15
static void check_home(int id)
{
	Quiet q;
	const TaskRec& t = S->t[(size_t)id];
	auto it			 = S->fiber_pool.emplace(t.fiber, t.pool).first;
	if (is("T15") && it->second != t.pool)
		sim_violation("foreign", "task %d of pool %d was run by a worker thread of pool %d", id, t.pool, it->second);
}
static void t15_client(int k, int np, bool priv, int hold)
{
	Lvalues& lv = *new Lvalues;
	each_op(k,
			[&](const SimOp& o)
			{
				const int pl = priv ? k : (int)(((o.a % np) + np) % np);
				bool alive;
				{
					Quiet q;
					alive = pl < np && X->p[(size_t)pl].alive;
				}
				if (o.kind == OP_SLEEP)
				{
					sim_sleep((uint64_t)clampi(o.a, 0, 1000000000));
					return;
				}
				if (!alive)
					return;
				switch (o.kind)
				{
					case OP_ENQ:
					{
						int b = (int)clampi(o.c, 0, BEH_SLEEP);
						// the held pool accepts what fits into it and does not get done until the end
						if (pl == hold)
						{
							b = BEH_GATE;
							Quiet q;
							if (++X->p[(size_t)pl].busy > (int64_t)X->p[(size_t)pl].capacity)
								return;
						}
						const int id = new_task(pl, (int)clampi(o.b, 0, K_IDENTIFIED_COUNT - 1), b, pl == hold ? 0 : clampi(o.d, 0, 100000000), k);
						if (id >= 0)
							submit(*pools[pl], id, lv);
						break;
					}
					case OP_EACH:
					{
						if (pl == hold)
							return;
						const int n = (int)clampi(o.b, 0, 16);
						int ids[16], m = 0;
						// ids must be consecutive although other clients take some, too
						{
							Quiet q;
							for (int i = 0; i < n && S->t.size() < 490; i++)
							{
								TaskRec t;
								t.beh  = (int)clampi(o.c, 0, BEH_SLEEP);
								t.c	   = clampi(o.d, 0, 1000000);
								t.pool = pl;
								S->t.push_back(t);
								ids[m++] = (int)S->t.size() - 1;
							}
						}
						if (!m)
							return;
						for (int i = 0; i < m; i++)
							note_submit(ids[i]);
						pools[pl]->for_each(ids[0], ids[0] + m, [](int v, size_t) noexcept { run_task(v, NO_WORKER); });
						for (int i = 0; i < m; i++)
							note_returned(ids[i]);
						break;
					}
					case OP_WAIT:
						if (pl == hold)
							return;
						{
							Quiet q;
							X->in_wait++;
						}
						pools[pl]->wait();
						{
							Quiet q;
							X->in_wait--;
						}
						break;
					case OP_CROSS:
					{
						const int to = (int)clampi(o.b, 0, np - 1);
						// only upwards, or waiting for each other is the user's fault
						if (to <= pl || pl == hold || to == hold || (priv && to < (int)S->sc.get("clients", 1)))
							return;
						{
							Quiet q;
							if (!X->p[(size_t)to].alive)
								return;
						}
						const int id = new_task(pl, K_WORD, BEH_CROSS, 0, k), child = new_task(to, K_MOVE, BEH_YIELD, 2, k);
						if (id < 0 || child < 0)
							return;
						{
							Quiet q;
							X->cross_child.resize(512, -1);
							X->cross_pool.resize(512, -1);
							X->cross_wait.resize(512, 0);
							X->cross_child[(size_t)id] = child;
							X->cross_pool[(size_t)id]  = to;
							X->cross_wait[(size_t)id]  = (int)(o.c & 1);
						}
						submit(*pools[pl], id, lv);
						break;
					}
					case OP_DESTROY:
					{
						if (!priv || pl == hold)
							return;
						{
							bool need = false;
							{
								Quiet q;
								for (auto& t : S->t)
									if (t.pool == pl && outlives(t.kind) && t.submitted && !t.ended)
										need = true;
							}
							if (need)
								finish_pool(pl, "before its pool is shut down");
						}
						{
							Quiet q;
							X->in_dtor++;
						}
						delete pools[pl];
						{
							Quiet q;
							X->in_dtor--;
						}
						pool_gone(pl);
						break;
					}
				}
			});
	Quiet q;
	S->kept.push_back(&lv);
}
static void body_many()
{
	const size_t base = sim_live_allocs();
	const int np	  = (int)clampi(S->sc.get("pools", 2), 1, 4);
	const bool priv	  = S->sc.get("private");
	const int hold	  = (int)S->sc.get("hold", -1);
	pools			  = new muu::thread_pool*[MAXP]();
	auto make		  = [&](int k)
	{
		size_t w, q;
		{
			Quiet qq;
			w = (size_t)clampi(S->sc.get(("w" + std::to_string(k)).c_str(), 1), 0, 6);
			q = (size_t)clampi(S->sc.get(("q" + std::to_string(k)).c_str(), 1), 1, 64);
		}
		pools[k]		 = new muu::thread_pool(w, q);
		const size_t nw	 = pools[k]->workers(), cap = pools[k]->capacity();
		const size_t hwc = (size_t)S->sc.get("hwc", 1);
		Quiet qq;
		if (is("T15") && (nw != (w ? w : hwc) || cap < q))
			sim_violation("limits", "one of several pools made for %zu workers and %zu tasks reports %zu and %zu", w, q, nw, cap);
		S->workers[k]	  = nw;
		X->p[(size_t)k]	  = { nw, cap, true, 0 };
	};
	{
		Quiet q;
		X->p.resize((size_t)np);
	}
	{
		std::vector<std::thread> th;
		const bool together = S->sc.get("creators", 1);
		for (int k = 0; k < np; k++)
			if (together && k)
				th.emplace_back([k, &make] { make(k); });
			else if (!together)
				make(k);
		if (together)
			make(0);
		for (auto& t : th)
			t.join();
	}
	run_clients([&](int k) { t15_client(k, np, priv, hold); });
	// the others neither wait for nor depend on the pool that is held up
	for (int k = 0; k < np; k++)
	{
		if (k == hold || !X->p[(size_t)k].alive)
			continue;
		{
			Quiet q;
			X->in_wait++;
		}
		pools[k]->wait();
		{
			Quiet q;
			X->in_wait--;
		}
		// tasks that were crossing over may still arrive: they are submitted by pools with lower numbers, waited for already
		finish_pool(k, "while another pool is busy");
	}
	for (int k = 0; k < np; k++)
	{
		if (k == hold || !X->p[(size_t)k].alive)
			continue;
		{
			Quiet q;
			X->in_dtor++;
		}
		delete pools[k];
		{
			Quiet q;
			X->in_dtor--;
		}
		pool_gone(k);
	}
	gate_open(0);
	if (hold >= 0 && hold < np && X->p[(size_t)hold].alive)
	{
		pools[hold]->wait();
		finish_pool(hold, "after the other pools are gone");
		delete pools[hold];
		pool_gone(hold);
	}
	for (size_t i = 0; i < S->t.size(); i++)
		if (S->t[i].starts)
			check_home((int)i);
	for (auto* l : S->kept)
		delete l;
	delete[] pools;
	Quiet q;
	S->kept.clear();
	for (size_t i = 0; i < S->t.size(); i++)
		if (S->t[i].starts > 1)
			sim_violation("twice", "task %zu was invoked %d times", i, S->t[i].starts);
	if (is("T15"))
	{
		if (sim_live_threads())
			sim_violation("threads", "%d worker threads still exist after all pools are gone", sim_live_threads());
		sim_report_leaks("leak", base);
	}
}

static void body()
{
	P = new Payload;
	memset((void*)P, 0, sizeof *P);
	if (is("T12"))
		body_make();
	else if (is("T13"))
		body_moves();
	else
		body_many();
	delete P;
	P = nullptr;
}
static void end(int)
{
	delete X;
	X = nullptr;
	free_oracle();
}
static int stuck(std::string& why)
{
	if (is("T12"))
	{
		if (X->in_ctor)
			why = "the constructor never returns";
		else
			why = "a pool made after failed attempts does not work";
		return 1;
	}
	if (is("T13"))
	{
		why = X->in_dtor ? "shutting down a pool that was assigned over or moved never ends" : "a moved pool does not run its tasks";
		return 1;
	}
	why = "pools wait for each other";
	return 1;
}

static const Workload wl = { SIM_WL_NAME, gen, begin, body, end, stuck, op_names, OP_COUNT };
extern "C" __attribute__((visibility("default"))) const Workload* sim_workload()
{
	return &wl;
}

// scope_guard, scope_fail, scope_success: G01. Scenarios are little programs of nested scopes, handlers and destructors.
#include "../sim/rt.h"
#include <muu/scope_guard.h>
#include <cstring>
#include <exception>
#include <memory>
#include <stdexcept>
#include <thread>

enum Op
{
	OP_FRAME, // { ... }  a scope with one guard of each sort. a: flavour of callable, b: route out, c: dismissals, d: iterations
	OP_TRY,	  // { ... CATCH ... } a: what the handler does at its end
	OP_CATCH,
	OP_DTOR,  // { ... } a local object of the enclosing scope; the block is its destructor
	OP_CALL,  // { ... } a guard in the enclosing scope; the block is its callable. a: sort of guard
	OP_END,
	OP_THROW, // a: type
	OP_MAYBE, // throws if the simulator says so. a: type
	OP_YIELD, // a: scheduling points
	OP_PASS,  // stores the exception being handled for other threads / throws what another thread stored. a: which
	OP_COUNT
};
static const char* const op_names[] = { "scope", "try", "catch", "destructor", "callable", "end", "throw", "maybe_throw", "yield", "pass_exception" };
static constexpr int FLAVOURS = 11, CLIENTS = 5;
static int64_t clampi(int64_t v, int64_t lo, int64_t hi)
{
	return v < lo ? lo : v > hi ? hi : v;
}

// ------------------------------------------------------------------ generation
static void gen_block(Rng& r, Scenario& sc, int thr, int depth, int& budget)
{
	const int n = (int)r.range(1, 4);
	for (int i = 0; i < n && budget > 0; i++)
	{
		budget--;
		const int k = (int)r.below(depth > 0 ? 12 : 4);
		switch (k)
		{
			case 0: sc.ops.push_back({ OP_YIELD, thr, r.range(1, 4), 0, 0, 0 }); break;
			case 1: sc.ops.push_back({ OP_MAYBE, thr, r.range(0, 4), 0, 0, 0 }); break;
			case 2:
				if (r.chance(0.5))
					sc.ops.push_back({ OP_THROW, thr, r.range(0, 4), 0, 0, 0 });
				else
					sc.ops.push_back({ OP_MAYBE, thr, r.range(0, 4), 0, 0, 0 });
				break;
			case 3: sc.ops.push_back({ OP_PASS, thr, r.range(0, 3), 0, 0, 0 }); break;
			case 4:
			case 5:
			case 6:
				sc.ops.push_back({ OP_FRAME, thr, r.range(0, FLAVOURS - 1), r.range(0, 4), r.chance(0.5) ? 0 : r.range(0, 63), r.chance(0.2) ? 2 : 1 });
				gen_block(r, sc, thr, depth - 1, budget);
				sc.ops.push_back({ OP_END, thr, 0, 0, 0, 0 });
				break;
			case 7:
			case 8:
				sc.ops.push_back({ OP_TRY, thr, r.range(0, 3), 0, 0, 0 });
				gen_block(r, sc, thr, depth - 1, budget);
				sc.ops.push_back({ OP_CATCH, thr, 0, 0, 0, 0 });
				if (r.chance(0.7))
					gen_block(r, sc, thr, depth - 1, budget);
				sc.ops.push_back({ OP_END, thr, 0, 0, 0, 0 });
				break;
			case 9:
			case 10:
				sc.ops.push_back({ OP_DTOR, thr, 0, 0, 0, 0 });
				gen_block(r, sc, thr, depth - 1, budget);
				sc.ops.push_back({ OP_END, thr, 0, 0, 0, 0 });
				break;
			default:
				sc.ops.push_back({ OP_CALL, thr, r.range(0, 2), 0, 0, 0 });
				gen_block(r, sc, thr, depth - 1, budget);
				sc.ops.push_back({ OP_END, thr, 0, 0, 0, 0 });
		}
	}
}
static void gen(Rng& r, Scenario& sc)
{
	auto& c			  = sc.cfg;
	c["clients"]	  = r.range(1, r.chance(0.3) ? CLIENTS : 2);
	c["budget1"]	  = 100000;
	c["budget2"]	  = 400000;
	static const int64_t th[] = { 0, 50000, 200000, 500000, 1000000 };
	c["f_callback_throws"]	  = r.pick(th);
	static const int64_t st[] = { 0, 0, 300, 3000 };
	c["f_thread_stall"]		  = r.pick(st);
	for (int k = 0; k < (int)c["clients"]; k++)
	{
		if (r.chance(0.15))
		{
			// many exceptions in flight at once: destructors within destructors, each unwinding
			const int deep = (int)r.range(3, 14);
			for (int i = 0; i < deep; i++)
			{
				sc.ops.push_back({ OP_FRAME, k, r.range(0, FLAVOURS - 1), r.range(0, 4), r.chance(0.7) ? 0 : r.range(0, 63), 1 });
				sc.ops.push_back({ OP_DTOR, k, 0, 0, 0, 0 });
			}
			int b = 8;
			gen_block(r, sc, k, 3, b);
			for (int i = 0; i < deep; i++)
			{
				sc.ops.push_back({ OP_END, k, 0, 0, 0, 0 });
				if (r.chance(0.8))
					sc.ops.push_back({ OP_THROW, k, r.range(0, 4), 0, 0, 0 });
				sc.ops.push_back({ OP_END, k, 0, 0, 0, 0 });
			}
		}
		int budget = (int)r.range(3, 40);
		gen_block(r, sc, k, (int)r.range(2, 7), budget);
	}
}

// ------------------------------------------------------------------ state
struct Node
{
	SimOp o;
	std::vector<Node> body, handler;
};
struct Rec // one life of one scope
{
	int count[3] = {};
	bool dismissed[3] = {};
	bool normal = false, done = false;
	bool has[3] = { true, true, true };
};
struct State
{
	Scenario sc;
	std::vector<Node> prog[CLIENTS];
	std::vector<Rec> recs;
	std::vector<int> stack[CLIENTS]; // open scopes per client
	int executed[CLIENTS] = {};
	int in_flight[CLIENTS] = {}, max_in_flight = 0;
};
static State* X;
static int fiber_client[256];
static const char* const sorts[3] = { "scope_guard", "scope_fail", "scope_success" };

static int me()
{
	return fiber_client[sim_fiber() & 255];
}
// (host) tree of a client's program; unbalanced lists, as left over by the minimiser, are completed
static size_t parse(const std::vector<SimOp>& v, size_t i, std::vector<Node>& out, bool& at_catch, bool nested)
{
	at_catch = false;
	while (i < v.size())
	{
		const SimOp& o = v[i++];
		if (o.kind == OP_END)
		{
			if (nested)
				return i;
			continue;
		}
		if (o.kind == OP_CATCH)
		{
			if (nested)
			{
				at_catch = true;
				return i;
			}
			continue;
		}
		Node n{ o, {}, {} };
		if (o.kind == OP_FRAME || o.kind == OP_TRY || o.kind == OP_DTOR || o.kind == OP_CALL)
		{
			bool c;
			i = parse(v, i, n.body, c, true);
			if (c && o.kind == OP_TRY)
				i = parse(v, i, n.handler, c, true);
			while (c)
			{
				std::vector<Node> ignored;
				i = parse(v, i, ignored, c, true);
			}
		}
		out.push_back(std::move(n));
	}
	return i;
}

// ------------------------------------------------------------------ callables
static void ran(int rec, int sort)
{
	{
		Quiet q;
		if (rec < 0 || rec >= (int)X->recs.size())
			sim_violation("value", "a guard's callable was run with a corrupted value");
		Rec& r = X->recs[(size_t)rec];
		r.count[sort]++;
		sim_event(0x21, (uint64_t)(rec * 4 + sort));
		if (r.done)
			sim_violation("late", "the callable of a %s was run after its scope had been left", sorts[sort]);
		if (!r.has[sort])
			sim_violation("value", "a %s ran that does not exist", sorts[sort]);
		if (r.count[sort] > 1)
			sim_violation("twice", "the callable of a %s was run %d times", sorts[sort], r.count[sort]);
	}
	sim_yield();
}
static int top()
{
	Quiet q;
	auto& s = X->stack[me()];
	return s.empty() ? -1 : s.back();
}
template <int S>
struct Empty
{
	void operator()() const noexcept
	{
		ran(top(), S);
	}
};
template <int S>
struct EmptyMade // empty, but has to be constructed
{
	EmptyMade() noexcept
	{}
	EmptyMade(const EmptyMade&) noexcept
	{}
	~EmptyMade() noexcept
	{}
	void operator()() const noexcept
	{
		ran(top(), S);
	}
};
template <int S>
struct EmptyFinal final
{
	EmptyFinal() noexcept
	{}
	void operator()() noexcept
	{
		ran(top(), S);
	}
};
template <int S>
static void fn() noexcept
{
	ran(top(), S);
}
template <int S>
struct Stateful
{
	int rec;
	int calls = 0;
	void operator()() noexcept
	{
		calls++;
		ran(rec, S);
	}
};
template <int S>
struct ConstStateful
{
	int rec;
	void operator()() const noexcept
	{
		ran(rec, S);
	}
};
template <int S>
struct MoveOnly
{
	std::unique_ptr<int> rec;
	void operator()() noexcept
	{
		ran(rec ? *rec : -1, S);
	}
};
template <int S>
struct alignas(64) Big
{
	int before[8] = { 1, 2, 3, 4, 5, 6, 7, 8 };
	int rec;
	int after[40] = {};
	explicit Big(int r) : rec{ r }
	{}
	void operator()() noexcept
	{
		for (int i = 0; i < 8; i++)
			if (before[i] != i + 1)
				rec = -1;
		for (int i : after)
			if (i)
				rec = -1;
		if ((uintptr_t)this % 64)
			rec = -1;
		ran(rec, S);
	}
};

// ------------------------------------------------------------------ interpreter
struct Thrown
{
	int x;
};
[[noreturn]] static void throw_it(int64_t type)
{
	switch (((type % 5) + 5) % 5)
	{
		case 0: throw 42;
		case 1: throw Thrown{ 7 };
		case 2: throw std::runtime_error("simulated failure");
		case 3: throw std::make_unique<int>(3);
		default: throw "text";
	}
}
static std::exception_ptr* shared_ex; // by OP_PASS; guarded by the simulator (no scheduling point in between)

struct Checker // declared before the guards, so destroyed after them
{
	int rec, client;
	explicit Checker(bool g, bool f, bool s)
	{
		Quiet q;
		client = me();
		rec	   = (int)X->recs.size();
		X->recs.push_back({});
		Rec& r	 = X->recs.back();
		r.has[0] = g;
		r.has[1] = f;
		r.has[2] = s;
		X->stack[client].push_back(rec);
		sim_event(0x22, (uint64_t)rec);
	}
	~Checker()
	{
		Quiet q;
		X->stack[client].pop_back();
		Rec& r = X->recs[(size_t)rec];
		r.done = true;
		for (int s = 0; s < 3; s++)
		{
			const bool due = r.has[s] && !r.dismissed[s] && (s == 0 || (s == 1) == !r.normal);
			if (r.count[s] != due)
				sim_violation(due ? "not_run" : "run", "the callable of a %s%s was %s although its scope was left %s (%d exceptions in flight)", r.dismissed[s] ? "dismissed " : "", sorts[s],
							  due ? "not run" : "run", r.normal ? "normally" : "by an exception", std::uncaught_exceptions());
		}
		const int n = std::uncaught_exceptions();
		if (n > X->max_in_flight)
			X->max_in_flight = n;
		if (n == 2)
			sim_probe("scope left with 2 exceptions in flight");
		if (n >= 3)
			sim_probe("scope left with 3 or more exceptions in flight");
		if (n && r.normal)
			sim_probe("scope left normally during unwinding");
	}
	Checker(const Checker&) = delete;
};

static void exec(const std::vector<Node>& v, size_t i = 0);

template <typename G, typename F, typename S>
static void inside(const Node& n, Checker& ck, G& g, F& f, S& s)
{
	const int64_t c = n.o.c;
	auto dismiss	= [&](int64_t m)
	{
		if (m & 1)
			g.dismiss();
		if (m & 2)
			f.dismiss();
		if (m & 4)
			s.dismiss();
		bool bad;
		{
			const bool dg = g.dismissed(), df = f.dismissed(), ds = s.dismissed();
			Quiet q;
			Rec& r = X->recs[(size_t)ck.rec];
			r.dismissed[0] |= (m & 1) != 0;
			r.dismissed[1] |= (m & 2) != 0;
			r.dismissed[2] |= (m & 4) != 0;
			bad = dg != r.dismissed[0] || df != r.dismissed[1] || ds != r.dismissed[2];
			if (bad)
				sim_violation("dismissed", "dismissed() does not tell whether the guard was dismissed");
		}
	};
	dismiss(c & 7);
	exec(n.body);
	dismiss((c >> 3) & 7);
	Quiet q;
	X->recs[(size_t)ck.rec].normal = true;
	sim_event(0x23, (uint64_t)ck.rec);
}

#define FLAVOUR(NAME, SETUP, A, B, C)                                                                                  \
	static void NAME(const Node& n)                                                                                    \
	{                                                                                                                  \
		const int64_t route = n.o.b, iters = clampi(n.o.d, 1, 2);                                                      \
		for (int64_t it = 0; it < iters; it++)                                                                         \
		{                                                                                                              \
			Checker ck{ true, true, true };                                                                            \
			const int rec = ck.rec;                                                                                    \
			SETUP;                                                                                                     \
			muu::scope_guard g{ A };                                                                                   \
			muu::scope_fail f{ B };                                                                                    \
			muu::scope_success s{ C };                                                                                 \
			inside(n, ck, g, f, s);                                                                                    \
			if (route == 1)                                                                                            \
				return;                                                                                                \
			if (route == 2)                                                                                            \
				break;                                                                                                 \
			if (route == 3)                                                                                            \
				continue;                                                                                              \
			if (route == 4)                                                                                            \
				goto out;                                                                                              \
		}                                                                                                              \
	out:;                                                                                                              \
	}
FLAVOUR(frame_lambda, , [rec]() noexcept { ran(rec, 0); }, [rec]() noexcept { ran(rec, 1); }, [rec]() noexcept { ran(rec, 2); })
FLAVOUR(frame_empty, , Empty<0>{}, Empty<1>{}, Empty<2>{})
FLAVOUR(frame_empty_lvalue, const Empty<0> e0{}; Empty<1> e1{}; Empty<2> e2{}, e0, e1, e2)
FLAVOUR(frame_pointer, , &fn<0>, &fn<1>, &fn<2>)
FLAVOUR(frame_function, , fn<0>, fn<1>, fn<2>)
FLAVOUR(frame_lvalue, Stateful<0> e0{ rec }; Stateful<1> e1{ rec }; Stateful<2> e2{ rec }, e0, e1, e2)
FLAVOUR(frame_const, const ConstStateful<0> e0{ rec }; const ConstStateful<1> e1{ rec }; const ConstStateful<2> e2{ rec }, e0, e1, e2)
FLAVOUR(frame_move, , MoveOnly<0>{ std::make_unique<int>(rec) }, MoveOnly<1>{ std::make_unique<int>(rec) }, MoveOnly<2>{ std::make_unique<int>(rec) })
FLAVOUR(frame_big, , Big<0>{ rec }, Big<1>{ rec }, Big<2>{ rec })
FLAVOUR(frame_made, , EmptyMade<0>{}, EmptyMade<1>{}, EmptyMade<2>{})
FLAVOUR(frame_final, , EmptyFinal<0>{}, EmptyFinal<1>{}, EmptyFinal<2>{})
static void (*const frames[FLAVOURS])(const Node&) = { frame_lambda, frame_empty, frame_empty_lvalue, frame_pointer, frame_function, frame_lvalue, frame_const, frame_move, frame_big, frame_made, frame_final };

static void contained(const std::vector<Node>& v) noexcept
{
	try
	{
		exec(v);
	}
	catch (...)
	{
	}
}
struct Local // its destructor runs part of the program
{
	const Node& n;
	~Local()
	{
		contained(n.body);
	}
};

static void call_scope(const Node& n, const std::vector<Node>& v, size_t next)
{
	const int sort = (int)(((n.o.a % 3) + 3) % 3);
	Checker ck{ sort == 0, sort == 1, sort == 2 };
	const int rec = ck.rec;
	auto callable = [rec, sort, &n]() noexcept
	{
		ran(rec, sort);
		contained(n.body);
	};
	auto rest = [&]
	{
		exec(v, next);
		Quiet q;
		X->recs[(size_t)rec].normal = true;
	};
	if (sort == 0)
	{
		muu::scope_guard g{ callable };
		rest();
	}
	else if (sort == 1)
	{
		muu::scope_fail g{ std::move(callable) };
		rest();
	}
	else
	{
		muu::scope_success g{ callable };
		rest();
	}
}

static void exec(const std::vector<Node>& v, size_t i)
{
	for (;; i++)
	{
		const Node* n;
		{
			Quiet q;
			if (i >= v.size() || X->executed[me()]++ > 400)
				return;
			n = &v[i];
		}
		switch (n->o.kind)
		{
			case OP_YIELD:
				for (int64_t k = 0; k < clampi(n->o.a, 0, 10); k++)
					sim_yield();
				break;
			case OP_THROW: throw_it(n->o.a);
			case OP_MAYBE:
				if (sim_fault(FK_THROW, 1))
					throw_it(n->o.a);
				break;
			case OP_PASS:
			{
				std::exception_ptr& slot = shared_ex[((n->o.a % 2) + 2) % 2];
				if (n->o.a & 2)
				{
					std::exception_ptr p = slot;
					if (p)
						std::rethrow_exception(p);
				}
				else if (auto p = std::current_exception())
					slot = p;
				break;
			}
			case OP_FRAME: frames[((n->o.a % FLAVOURS) + FLAVOURS) % FLAVOURS](*n); break;
			case OP_DTOR:
			{
				Local l{ *n };
				exec(v, i + 1);
				return;
			}
			case OP_CALL: call_scope(*n, v, i + 1); return;
			case OP_TRY:
				try
				{
					exec(n->body);
				}
				catch (...)
				{
					exec(n->handler);
					if ((n->o.a & 3) == 1)
						throw;
					if ((n->o.a & 3) == 2)
						throw Thrown{ 9 };
					if ((n->o.a & 3) == 3)
						std::rethrow_exception(std::current_exception());
				}
				break;
		}
	}
}

static void begin(const Scenario& sc)
{
	X	  = new State;
	X->sc = sc;
	X->recs.reserve(1000);
	const int64_t n = clampi(sc.get("clients", 1), 1, CLIENTS);
	std::vector<SimOp> ops[CLIENTS];
	for (auto& o : sc.ops)
		ops[clampi(o.thr, 0, n - 1)].push_back(o);
	for (int k = 0; k < CLIENTS; k++)
	{
		bool c;
		parse(ops[k], 0, X->prog[k], c, false);
	}
	for (auto& f : fiber_client)
		f = 0;
	sim_race_mode(0);
}
static void client(int k)
{
	fiber_client[sim_fiber() & 255] = k;
	contained(X->prog[k]);
}
static void body()
{
	shared_ex	= new std::exception_ptr[2];
	const int n = (int)clampi(X->sc.get("clients", 1), 1, CLIENTS);
	{
		std::vector<std::thread> th;
		for (int k = 1; k < n; k++)
			th.emplace_back([k] { client(k); });
		client(0);
		for (auto& t : th)
			t.join();
	}
	delete[] shared_ex;
}
static void end(int)
{
	delete X;
	X = nullptr;
}
static int stuck(std::string&)
{
	return 0;
}

static const Workload wl = { SIM_WL_NAME, gen, begin, body, end, stuck, op_names, OP_COUNT };
extern "C" __attribute__((visibility("default"))) const Workload* sim_workload()
{
	return &wl;
}

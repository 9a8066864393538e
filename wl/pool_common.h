// Shared by the thread-pool workloads: reference model of submitted tasks, callable kinds, client threads.
#pragma once
#include "../sim/rt.h"
#include <muu/thread_pool.h>
#include <atomic>
#include <cstring>
#include <memory>
#include <new>
#include <thread>
#include <unordered_map>
#include <vector>

// ------------------------------------------------------------------ oracle state (host heap, touched only inside Quiet)
struct TaskRec
{
	int kind = -1, beh = 0, client = 0, pool = 0;
	int64_t c	  = 0;
	uint64_t inv_seq = 0, ret_seq = 0, start_seq = 0, end_seq = 0;
	uint64_t inv_t = 0, ret_t = 0, start_t = 0, end_t = 0;
	bool submitted = false, returned = false, ended = false, tracked = false;
	int starts = 0, worker = -1, fiber = -1;
	int live = 0, ctors = 0, dtors = 0; // instances of the stored callable
};
struct ObjRec
{
	int id;
	bool moved_from;
};

struct PoolOracle
{
	Scenario sc;
	std::vector<TaskRec> t;
	std::unordered_map<uintptr_t, ObjRec> live; // tracked callables by address
	std::vector<std::vector<int>> client_ops;
	std::vector<char> gates;
	std::map<int64_t, int> rendezvous, rendezvous_need;
	std::vector<int> running_on;				// per (pool, worker index): running task id or -1
	std::map<int, int> fiber_pool;				// worker thread -> pool it was seen working for
	int in_wait = 0, in_enqueue = 0, in_dtor = 0;
	int64_t plain_counts[8] = {}, plain_expect[8] = {}, plain_started[8] = {};
	bool dead[8]			= {};				// pool i destroyed
	uint64_t clk = 0;
	std::vector<struct Lvalues*> kept;
	size_t workers[8] = {};
	std::vector<int> op_base; // first task id of each operation
	std::vector<unsigned char> flood; // invocations of each task of the floods
	std::vector<int> flood_base;
	int64_t flood_sub = 0, flood_ran = 0;
	std::string prop;
};
inline PoolOracle* S;

// memory the library must publish for its users; plain accesses, so an unordered access is a race
struct Payload
{
	int64_t in[512], out[512];
	int64_t scratch[8][128];
};
inline Payload* P;

inline bool is(const char* p)
{
	return S->prop == p;
}

#define FAIL_IF(prop_, cond, cls, ...)                                                                                 \
	do                                                                                                                 \
	{                                                                                                                  \
		if (is(prop_) && (cond))                                                                                       \
			sim_violation(cls, __VA_ARGS__);                                                                           \
	}                                                                                                                  \
	while (0)

inline void gate_wait(int g)
{
	for (;;)
	{
		{
			Quiet q;
			if (g < 0 || g >= (int)S->gates.size() || S->gates[(size_t)g])
				return;
		}
		sim_block((const void*)(uintptr_t)(0x1000 + g));
	}
}
inline void gate_open(int g)
{
	Quiet q;
	if (g >= 0 && g < (int)S->gates.size())
		S->gates[(size_t)g] = 1;
	sim_wake((const void*)(uintptr_t)(0x1000 + g));
}
inline void rendezvous(int64_t grp)
{
	{
		Quiet q;
		S->rendezvous[grp]++;
		sim_wake((const void*)(uintptr_t)(0x2000 + grp));
	}
	for (;;)
	{
		{
			Quiet q;
			if (S->rendezvous[grp] >= S->rendezvous_need[grp])
				return;
		}
		sim_block((const void*)(uintptr_t)(0x2000 + grp));
	}
}

enum Beh
{
	BEH_NONE,
	BEH_YIELD, // c scheduling points
	BEH_SLEEP, // c nanoseconds
	BEH_GATE,  // until gate c opens
	BEH_MEET,  // until everybody of group c has started
	BEH_CROSS, // submits to another pool and waits for it
	BEH_COUNT
};
inline void (*cross_hook)(int id) = nullptr;

constexpr size_t NO_WORKER = (size_t)-1;

// what every task does when it is invoked
inline void run_task(int id, size_t worker) noexcept
{
	int beh, pool;
	int64_t c;
	{
		Quiet q;
		if (id < 0 || id >= (int)S->t.size())
			sim_violation("value", "a task was invoked with a corrupted captured value (%d)", id);
		TaskRec& t = S->t[(size_t)id];
		sim_event(0x51, (uint64_t)id);
		if (!t.submitted)
			sim_violation("value", "task %d was invoked although it was never submitted", id);
		t.starts++;
		if (is("T01") || is("T13") || is("T15") || is("T09") || is("T14"))
			if (t.starts > 1)
				sim_violation("twice", "task %d was invoked %d times", id, t.starts);
		if (S->dead[t.pool] && (is("T04") || is("T13") || is("T15") || is("T01")))
			sim_violation("after_destroy", "task %d was started after its pool's destructor had returned", id);
		t.start_seq = (++S->clk);
		t.start_t	= sim_now();
		t.fiber		= sim_fiber();
		t.worker	= worker == NO_WORKER ? -1 : (int)worker;
		beh			= t.beh;
		c			= t.c;
		pool		= t.pool;
		if (worker != NO_WORKER)
		{
			if ((is("T08") || is("T15") || is("T13")) && worker >= S->workers[pool])
				sim_violation("worker_index", "task %d was given worker index %zu by a pool of %zu workers", id, worker, S->workers[pool]);
			if (is("T08"))
			{
				int& r = S->running_on[(size_t)pool * 128 + worker];
				if (r >= 0)
					sim_violation("overlap", "tasks %d and %d run at the same time with the same worker index %zu", r, id, worker);
				r = id;
			}
		}
	}
	if (worker != NO_WORKER && worker < 128)
		P->scratch[pool][worker]++;
	// everything written before the submission is visible here
	if (P->in[id] != 1000 + id && (is("T11") || is("T14")))
		sim_violation("publish", "task %d does not see what its submitter wrote before enqueueing it", id);
	switch (beh)
	{
		case BEH_YIELD:
			for (int64_t i = 0; i < c; i++)
				sim_yield();
			break;
		case BEH_SLEEP: sim_sleep((uint64_t)c); break;
		case BEH_GATE: gate_wait((int)c); break;
		case BEH_MEET: rendezvous(c); break;
		case BEH_CROSS:
			if (cross_hook)
				cross_hook(id);
			break;
		default: break;
	}
	P->out[id] = 2000 + id;
	if (worker != NO_WORKER && worker < 128)
		P->scratch[pool][worker]++;
	{
		Quiet q;
		if (worker != NO_WORKER && is("T08"))
			S->running_on[(size_t)pool * 128 + worker] = -1;
		TaskRec& t = S->t[(size_t)id];
		t.ended	   = true;
		t.end_seq  = (++S->clk);
		t.end_t	   = sim_now();
		sim_event(0x52, (uint64_t)id);
	}
}

// ------------------------------------------------------------------ callables
// Objects with a lifetime the oracle follows.
struct Life
{
	int id;
	const Life* self;

	void born(bool from_live_source) const noexcept
	{
		Quiet q;
		auto [it, fresh] = S->live.emplace((uintptr_t)this, ObjRec{ id, false });
		if (!fresh && is("T14"))
			sim_violation("lifetime", "callable of task %d constructed on top of the live callable of task %d", id, it->second.id);
		if (!fresh)
			it->second = ObjRec{ id, false };
		if (!from_live_source && is("T14"))
			sim_violation("lifetime", "callable of task %d copied or moved from a dead or moved-from object", id);
		if (id >= 0 && id < (int)S->t.size())
		{
			S->t[(size_t)id].live++;
			S->t[(size_t)id].ctors++;
		}
	}
	static bool source_ok(const Life& o) noexcept
	{
		Quiet q;
		auto it = S->live.find((uintptr_t)&o);
		return it != S->live.end() && !it->second.moved_from && o.self == &o && it->second.id == o.id;
	}
	void mark_moved() const noexcept
	{
		Quiet q;
		auto it = S->live.find((uintptr_t)this);
		if (it != S->live.end())
			it->second.moved_from = true;
	}
	void died() const noexcept
	{
		Quiet q;
		auto it = S->live.find((uintptr_t)this);
		if (it == S->live.end() || self != this)
		{
			if (is("T14") || is("T04"))
				sim_violation("lifetime", "callable of task %d destroyed although no live object is at that address (destroyed twice or moved bytewise)", id);
			return;
		}
		const int i = it->second.id;
		S->live.erase(it);
		if (i >= 0 && i < (int)S->t.size())
		{
			S->t[(size_t)i].live--;
			S->t[(size_t)i].dtors++;
		}
	}
	void check_call() const noexcept
	{
		Quiet q;
		if (!is("T14") && !is("T13"))
			return;
		auto it = S->live.find((uintptr_t)this);
		if (it == S->live.end() || self != this)
			sim_violation("lifetime", "callable of task %d invoked outside its lifetime", id);
		if (it->second.moved_from)
			sim_violation("lifetime", "callable of task %d invoked after it had been moved from", id);
		if (it->second.id != id)
			sim_violation("value", "callable of task %d invoked with the value of task %d", it->second.id, id);
	}
};

struct MoveOnly : Life
{
	explicit MoveOnly(int i) noexcept
	{
		id	 = i;
		self = this;
		born(true);
	}
	MoveOnly(MoveOnly&& o) noexcept
	{
		const bool ok = source_ok(o);
		id			  = o.id;
		self		  = this;
		born(ok);
		o.mark_moved();
	}
	MoveOnly& operator=(MoveOnly&&) = delete;
	~MoveOnly()
	{
		died();
	}
	void operator()(size_t w) noexcept
	{
		check_call();
		run_task(id, w);
	}
};
struct CopyOnly : Life
{
	int64_t more[3];
	explicit CopyOnly(int i) noexcept
	{
		id		= i;
		self	= this;
		more[0] = more[1] = more[2] = i * 7;
		born(true);
	}
	CopyOnly(const CopyOnly& o) noexcept
	{
		const bool ok = source_ok(o);
		id			  = o.id;
		self		  = this;
		for (int k = 0; k < 3; k++)
			more[k] = o.more[k];
		born(ok);
	}
	CopyOnly& operator=(const CopyOnly&) = delete;
	~CopyOnly()
	{
		died();
	}
	void operator()() noexcept
	{
		check_call();
		for (auto v : more)
			if (v != id * 7 && is("T14"))
				sim_violation("value", "captured bytes of task %d changed", id);
		run_task(id, NO_WORKER);
	}
};
// only default construction followed by assignment
struct AssignOnly : Life
{
	AssignOnly() noexcept
	{
		id	 = -1;
		self = this;
		born(true);
	}
	AssignOnly(const AssignOnly&) = delete;
	AssignOnly& operator=(AssignOnly&& o) noexcept
	{
		const bool ok = source_ok(o);
		assign(o.id, ok);
		o.mark_moved();
		return *this;
	}
	AssignOnly& operator=(const AssignOnly& o) noexcept
	{
		assign(o.id, source_ok(o));
		return *this;
	}
	void set(int i) noexcept
	{
		assign(i, true);
	}
	void assign(int i, bool ok) noexcept
	{
		Quiet q;
		auto it = S->live.find((uintptr_t)this);
		if (is("T14") && (it == S->live.end() || !ok || self != this))
			sim_violation("lifetime", "callable of task %d assigned to or from an object that is not alive", i);
		id = i;
		if (it != S->live.end())
			it->second = ObjRec{ i, false };
		if (i >= 0 && i < (int)S->t.size())
		{
			S->t[(size_t)i].live++;
			S->t[(size_t)i].ctors++;
		}
	}
	~AssignOnly()
	{
		died();
	}
	void operator()(size_t w) noexcept
	{
		check_call();
		run_task(id, w);
	}
};
// moves by copying: has both, move must be preferred but either is fine
struct Both : Life
{
	char pad[24];
	explicit Both(int i) noexcept
	{
		id	 = i;
		self = this;
		memset(pad, i & 0x7f, sizeof pad);
		born(true);
	}
	Both(const Both& o) noexcept : Both(o, source_ok(o))
	{}
	Both(Both&& o) noexcept : Both(o, source_ok(o))
	{
		o.mark_moved();
	}
	Both(const Both& o, bool ok) noexcept
	{
		id	 = o.id;
		self = this;
		memcpy(pad, o.pad, sizeof pad);
		born(ok);
	}
	~Both()
	{
		died();
	}
	void operator()(size_t w) noexcept
	{
		check_call();
		for (char c : pad)
			if (c != (id & 0x7f) && is("T14"))
				sim_violation("value", "captured bytes of task %d changed", id);
		run_task(id, w);
	}
};
static bool misaligned(const void* p, uintptr_t a) // (the compiler takes the alignment of 'this' for granted)
{
	const volatile uintptr_t v = (uintptr_t)p;
	return v % a;
}
struct alignas(32) Aligned : Life
{
	explicit Aligned(int i) noexcept
	{
		id	 = i;
		self = this;
		born(true);
	}
	Aligned(Aligned&& o) noexcept
	{
		const bool ok = source_ok(o);
		id			  = o.id;
		self		  = this;
		born(ok);
		o.mark_moved();
	}
	~Aligned()
	{
		died();
	}
	void operator()(size_t w) noexcept
	{
		check_call();
		if (misaligned(this, 32) && is("T14"))
			sim_violation("alignment", "32-byte aligned callable of task %d invoked at %p", id, (void*)this);
		run_task(id, w);
	}
};
// trivially copyable, fills the in-place buffer completely
struct Full
{
	int id;
	int words[13];
	explicit Full(int i) noexcept : id(i)
	{
		for (int k = 0; k < 13; k++)
			words[k] = i * 31 + k;
	}
	void operator()(size_t w) noexcept
	{
		for (int k = 0; k < 13; k++)
			if (words[k] != id * 31 + k && is("T14"))
				sim_violation("value", "captured bytes of task %d changed (word %d)", id, k);
		run_task(id, w);
		// mutating the stored copy must not matter to anybody
		for (auto& x : words)
			x = -1;
	}
};
static_assert(sizeof(Full) == muu::impl::thread_pool_task::buffer_capacity);
struct alignas(16) Full16
{
	int id;
	int words[11];
	explicit Full16(int i) noexcept : id(i)
	{
		for (int k = 0; k < 11; k++)
			words[k] = i * 17 + k;
	}
	void operator()() const noexcept
	{
		if (misaligned(this, 16) && is("T14"))
			sim_violation("alignment", "16-byte aligned callable of task %d invoked at %p", id, (const void*)this);
		for (int k = 0; k < 11; k++)
			if (words[k] != id * 17 + k && is("T14"))
				sim_violation("value", "captured bytes of task %d changed (word %d)", id, k);
		run_task(id, NO_WORKER);
	}
};
// too big for the queue: must be invoked in place
struct Large
{
	int id;
	const Large* self;
	char pad[120];
	explicit Large(int i) noexcept : id(i), self(this)
	{
		memset(pad, i & 0x7f, sizeof pad);
	}
	Large(const Large& o) noexcept : id(o.id), self(o.self)
	{
		if (is("T14"))
			sim_violation("copied", "a large lvalue callable (task %d) was copied", id);
		memcpy(pad, o.pad, sizeof pad);
	}
	void operator()(size_t w) noexcept
	{
		if (self != this && is("T14"))
			sim_violation("copied", "a large lvalue callable (task %d) was not invoked in place", id);
		run_task(id, w);
	}
};
// neither copyable nor movable
struct Pinned
{
	int id;
	const Pinned* self;
	explicit Pinned(int i) noexcept : id(i), self(this)
	{}
	Pinned(const Pinned&) = delete;
	~Pinned()
	{
		self = nullptr;
	}
	void operator()() noexcept
	{
		if (self != this && is("T14"))
			sim_violation("copied", "a pinned callable (task %d) was not invoked in place", id);
		run_task(id, NO_WORKER);
	}
};

// trivially copyable, of any size, aligned to a byte
template <size_t N>
struct Sized
{
	unsigned char bytes[N];
	static unsigned char at(int id, size_t k) noexcept
	{
		return (unsigned char)(id * 29 + (int)k * 7 + 1);
	}
	explicit Sized(int i) noexcept
	{
		memcpy(bytes, &i, sizeof i);
		for (size_t k = sizeof i; k < N; k++)
			bytes[k] = at(i, k);
	}
	int check() const noexcept
	{
		int id;
		memcpy(&id, bytes, sizeof id);
		for (size_t k = sizeof id; k < N; k++)
			if (bytes[k] != at(id, k) && is("T14"))
				sim_violation("value", "captured byte %zu of %zu of task %d changed", k, N, id);
		return id;
	}
	void operator()(size_t w) noexcept
	{
		run_task(check(), w);
	}
	void operator()() const noexcept
	{
		run_task(check(), NO_WORKER);
	}
};
static_assert(sizeof(Sized<55>) == 55 && std::is_trivially_copyable_v<Sized<55>>);
union Either
{
	int id;
	double other;
	explicit Either(int i) noexcept : id(i)
	{}
	void operator()(size_t w) noexcept
	{
		run_task(id, w);
	}
};
// constant lvalues: small ones are copied, large ones used in place
struct ConstSmall : Life
{
	explicit ConstSmall(int i) noexcept
	{
		id	 = i;
		self = this;
		born(true);
	}
	ConstSmall(const ConstSmall& o) noexcept
	{
		const bool ok = source_ok(o);
		id			  = o.id;
		self		  = this;
		born(ok);
	}
	~ConstSmall()
	{
		died();
	}
	void operator()(size_t w) const noexcept
	{
		check_call();
		run_task(id, w);
	}
};
struct ConstLarge
{
	int id;
	const ConstLarge* self;
	char pad[48];
	explicit ConstLarge(int i) noexcept : id(i), self(this)
	{
		memset(pad, i & 0x7f, sizeof pad);
	}
	ConstLarge(const ConstLarge& o) noexcept : id(o.id), self(o.self)
	{
		if (is("T14"))
			sim_violation("copied", "a large constant callable (task %d) was copied", id);
	}
	void operator()() const noexcept
	{
		if (self != this && is("T14"))
			sim_violation("copied", "a large constant callable (task %d) was not invoked in place", id);
		run_task(id, NO_WORKER);
	}
};

// callables without any state: identified by their type, told apart by counting
inline void plain_task(int n, size_t w) noexcept
{
	Quiet q;
	(void)w;
	S->plain_started[n]++;
	sim_event(0x53, (uint64_t)n);
	if ((is("T01") || is("T14")) && S->plain_started[n] > S->plain_expect[n])
		sim_violation("twice", "a stateless task was invoked more often than it was submitted");
	S->plain_counts[n]++;
}
struct Plain0
{
	void operator()(size_t w) const noexcept
	{
		plain_task(0, w);
	}
};
struct Plain1
{
	void operator()() const noexcept
	{
		plain_task(1, 0);
	}
};
inline void plain_fn2(size_t w) noexcept
{
	plain_task(2, w);
}
inline void plain_fn3() noexcept
{
	plain_task(3, 0);
}
inline void plain_fn4() noexcept
{
	plain_task(4, 0);
}

enum Kind
{
	K_WORD, // lambda capturing one word
	K_FULL,
	K_MOVE,
	K_COPY,
	K_ASSIGN,
	K_BOTH,
	K_ALIGNED,
	K_FULL16,
	K_LARGE,
	K_PINNED,
	K_LVALUE, // small lvalue, copied into the queue
	K_MUTABLE, // mutable lambda without the worker index
	K_SIZED0,
	K_SIZED1,
	K_SIZED2,
	K_SIZED3,
	K_UNION,
	K_CSMALL,
	K_CLARGE,
	K_IDENTIFIED_COUNT, // kinds below cannot carry an id
	K_PLAIN0 = K_IDENTIFIED_COUNT,
	K_PLAIN1,
	K_FNPTR,
	K_FNREF,
	K_LAMBDA0,
	K_FNPTR_LVALUE,
	K_COUNT
};

inline bool outlives(int kind) // the caller's object must outlive the task
{
	return kind == K_LARGE || kind == K_PINNED || kind == K_CLARGE;
}

template <typename T>
struct Keep // lvalue callables the client owns until their tasks have finished
{
	alignas(T) unsigned char raw[sizeof(T)];
	bool used = false;
	T* make(int id)
	{
		used = true;
		return ::new ((void*)raw) T(id);
	}
	void drop()
	{
		if (used)
			std::launder(reinterpret_cast<T*>(raw))->~T();
		used = false;
	}
};
struct Lvalues
{
	std::vector<std::unique_ptr<Large>> large;
	std::vector<std::unique_ptr<Pinned>> pinned;
	std::vector<std::unique_ptr<const ConstLarge>> clarge;
};

inline void note_submit(int id)
{
	P->in[id] = 1000 + id; // published by enqueue()
	Quiet q;
	TaskRec& t	= S->t[(size_t)id];
	t.submitted = true;
	t.inv_seq	= (++S->clk);
	t.inv_t		= sim_now();
	S->in_enqueue++;
	sim_event(0x41, (uint64_t)id);
}
inline void note_returned(int id)
{
	Quiet q;
	TaskRec& t = S->t[(size_t)id];
	t.returned = true;
	t.ret_seq  = (++S->clk);
	t.ret_t	   = sim_now();
	S->in_enqueue--;
	sim_event(0x42, (uint64_t)id);
}

// submits task 'id' of the model through the real API
inline void submit(muu::thread_pool& p, int id, Lvalues& lv)
{
	int kind;
	{
		Quiet q;
		kind = S->t[(size_t)id].kind;
	}
	note_submit(id);
	switch (kind)
	{
		default:
		case K_WORD: p.enqueue([id](size_t w) noexcept { run_task(id, w); }); break;
		case K_FULL: p.enqueue(Full{ id }); break;
		case K_MOVE: p.enqueue(MoveOnly{ id }); break;
		case K_COPY: p.enqueue(CopyOnly{ id }); break;
		case K_ASSIGN:
		{
			AssignOnly a;
			a.set(id);
			p.enqueue(static_cast<AssignOnly&&>(a));
			break;
		}
		case K_BOTH: p.enqueue(Both{ id }); break;
		case K_ALIGNED: p.enqueue(Aligned{ id }); break;
		case K_FULL16: p.enqueue(Full16{ id }); break;
		case K_LARGE:
			lv.large.push_back(std::make_unique<Large>(id));
			p.enqueue(*lv.large.back());
			break;
		case K_PINNED:
			lv.pinned.push_back(std::make_unique<Pinned>(id));
			p.enqueue(*lv.pinned.back());
			break;
		case K_LVALUE:
		{
			Both b{ id };
			p.enqueue(b);
			break;
		}
		case K_MUTABLE:
			p.enqueue(
				[id, n = 0]() mutable noexcept
				{
					n++;
					run_task(id, NO_WORKER);
				});
			break;
		case K_SIZED0: p.enqueue(Sized<5>{ id }); break;
		case K_SIZED1:
			if (id & 1)
				p.enqueue(Sized<11>{ id });
			else
				p.enqueue(Sized<23>{ id });
			break;
		case K_SIZED2:
			if (id & 1)
			{
				const Sized<31> c{ id };
				p.enqueue(c);
			}
			else
				p.enqueue(Sized<41>{ id });
			break;
		case K_SIZED3:
			if (id & 1)
				p.enqueue(Sized<55>{ id });
			else
				p.enqueue(Sized<49>{ id });
			break;
		case K_UNION: p.enqueue(Either{ id }); break;
		case K_CSMALL:
		{
			const ConstSmall c{ id };
			p.enqueue(c);
			break;
		}
		case K_CLARGE:
			lv.clarge.push_back(std::make_unique<const ConstLarge>(id));
			p.enqueue(*lv.clarge.back());
			break;
	}
	note_returned(id);
}
inline void submit_plain(muu::thread_pool& p, int kind)
{
	int n = 0;
	switch (kind)
	{
		case K_PLAIN0: n = 0; break;
		case K_PLAIN1: n = 1; break;
		case K_FNPTR: n = 2; break;
		case K_FNREF: n = 3; break;
		case K_LAMBDA0: n = 5; break;
		default: n = 4; break;
	}
	{
		Quiet q;
		S->plain_expect[n]++;
		S->in_enqueue++;
		sim_event(0x43, (uint64_t)n);
	}
	switch (n)
	{
		case 0: p.enqueue(Plain0{}); break;
		case 1: p.enqueue(Plain1{}); break;
		case 2: p.enqueue(&plain_fn2); break;
		case 3: p.enqueue(plain_fn3); break;
		case 5: p.enqueue([]() noexcept { plain_task(5, 0); }); break;
		default:
		{
			auto f = &plain_fn4;
			p.enqueue(f);
			break;
		}
	}
	Quiet q;
	S->in_enqueue--;
}

inline void free_oracle()
{
	delete S;
	S = nullptr;
}

// fault rates: probability per million opportunities
inline void rates(Rng& r, Scenario& sc, bool stalls = true)
{
	static const int none[] = { 0, 0, 0, 2000, 20000, 200000 };
	if (r.chance(0.25)) // a quarter of all runs is fault free
		return;
	sc.cfg["f_spurious_wakeup"] = r.pick(none);
	sc.cfg["f_try_lock_fails"]	= r.pick(none);
	sc.cfg["f_late_timer"]		= r.pick(none);
	sc.cfg["f_wake_other"]		= r.pick(none);
	if (stalls)
	{
		static const int st[] = { 0, 0, 50, 300, 2000 };
		sc.cfg["f_thread_stall"] = r.pick(st);
		static const int cj[] = { 0, 0, 50, 500 };
		sc.cfg["f_clock_jump"]	 = r.pick(cj);
	}
}

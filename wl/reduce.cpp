// Accumulating in parallel: A01. Which thread gets which samples, and in which order partial results are merged, is up to the schedule.
#include "pool_common.h"
#include <muu/core.h>
#include <muu/half.h>
#include <muu/accumulator.h>
#include <muu/spin_mutex.h>
#include <algorithm>
#include <cmath>
#include <limits>
#include <mutex>

enum Op
{
	OP_REDUCE, // a: value type, b: samples, c: how, d: seed
	OP_SLEEP,  // a: ns
	OP_COUNT
};
static const char* const op_names[] = { "reduce", "sleep" };

enum How
{
	HOW_RANGE,	// for_each over indices, an accumulator per batch
	HOW_COLL,	// for_each over the samples, an accumulator per batch
	HOW_WORKER, // enqueued chunks, an accumulator per worker
	HOW_TASK,	// enqueued chunks, an accumulator per task, merged by the tasks
	HOW_STOLEN, // as HOW_TASK, but each task takes samples as they come
	HOW_SERIAL, // the client itself, in parts
	HOW_COUNT
};
enum Type
{
	TY_I8,
	TY_U8,
	TY_I16,
	TY_I32,
	TY_U32,
	TY_I64,
	TY_HALF,
	TY_FLOAT,
	TY_DOUBLE,
	TY_COUNT
};
static constexpr int MAXN = 600;

static int64_t clampi(int64_t v, int64_t lo, int64_t hi)
{
	return v < lo ? lo : v > hi ? hi : v;
}

static void gen(Rng& r, Scenario& sc)
{
	auto& c = sc.cfg;
	rates(r, sc);
	c["budget1"]				 = 800000;
	c["budget2"]				 = 3000000;
	static const int64_t steps[] = { 20, 100, 200, 500, 2000 };
	c["step_ns"]				 = r.pick(steps);
	static const int64_t ws[]	 = { 1, 2, 2, 3, 3, 4, 5, 7 };
	c["workers"]				 = r.pick(ws);
	static const int64_t qs[]	 = { 1, 2, 4, 8, 16, 64 };
	c["queue"]					 = r.pick(qs);
	c["clients"]				 = r.range(1, 3);
	const int n					 = (int)r.range(1, 5);
	for (int i = 0; i < n; i++)
	{
		const int thr = (int)r.below((uint64_t)c["clients"]);
		if (r.chance(0.1))
		{
			sc.ops.push_back({ OP_SLEEP, thr, (int64_t)r.range(0, 300000), 0, 0, 0 });
			continue;
		}
		const int64_t samples = r.chance(0.1) ? 0 : r.chance(0.5) ? r.range(1, 12) : r.chance(0.7) ? r.range(1, 100) : r.range(100, MAXN);
		sc.ops.push_back({ OP_REDUCE, thr, r.range(0, TY_COUNT - 1), samples, r.range(0, HOW_COUNT - 1), (int64_t)(r.next() >> 1) });
	}
}

static muu::thread_pool* pool;
static size_t W;

template <typename T>
struct Traits
{
	static constexpr bool floats = std::is_floating_point_v<T> || std::is_same_v<T, muu::half>;
	static constexpr int bits	 = std::is_same_v<T, muu::half> ? 11 : std::is_same_v<T, float> ? 24 : std::is_same_v<T, double> ? 53 : 0;
};

// every sample is a multiple of 2^-10 below 2^30, so that sums are exact in a long double
template <typename T>
static T sample(Rng& r, int sort, std::vector<long double>& exact)
{
	if constexpr (Traits<T>::floats)
	{
		constexpr int mant = Traits<T>::bits < 30 ? Traits<T>::bits : 30;
		int64_t m		   = (int64_t)(r.next() >> (64 - mant));
		int e			   = 0; // value: m * 2^(e - 10)
		if constexpr (std::is_same_v<T, muu::half>)
		{
			m = (int64_t)r.below(64);
			e = sort == 0 ? 10 : (int)r.range(4, 11);
		}
		else
			switch (sort)
			{
				case 0: m >>= mant - 8; e = 7; break;
				case 1: e = (int)r.range(0, 38 - mant); break;
				default:
					if (r.chance(0.5))
						m >>= mant - 10; // small among large ones
					else
						e = 38 - mant;
			}
		if (r.chance(0.5))
			m = -m;
		const double v = std::ldexp((double)m, e - 10);
		exact.push_back((long double)v);
		return T(static_cast<std::conditional_t<std::is_same_v<T, double>, double, float>>(v));
	}
	else
	{
		int64_t v;
		switch (sort)
		{
			case 0: v = r.range(0, 20); break;
			case 1:
				v = (int64_t)(r.next() >> 44);
				if (r.chance(0.5) && std::is_signed_v<T>)
					v = -v;
				break;
			default: v = r.chance(0.5) ? (int64_t)std::numeric_limits<T>::max() : (int64_t)std::numeric_limits<T>::min(); break;
		}
		if (sort == 2 && sizeof(T) >= 4) // sums must not overflow
			v = r.chance(0.5) ? 1000000 : std::is_signed_v<T> ? -1000000 : 0;
		const T t = static_cast<T>(v);
		exact.push_back((long double)t);
		return t;
	}
}

template <typename T>
struct Job
{
	using Acc = muu::accumulator<T>;
	std::vector<T> samples;
	std::vector<Acc> parts;
	Acc total;
	muu::spin_mutex spin;
	std::mutex mutex;
	std::atomic<size_t> next{ 0 }, merged{ 0 };
};

template <typename Acc, typename T>
static void feed(Acc& a, const T* b, const T* e, int way)
{
	switch (way % 5)
	{
		case 0: a.add(b, e); break;
		case 1:
			for (; b != e; b++)
				a(*b);
			break;
		case 2:
		{
			Acc own{ b, e };
			a.add(own);
			break;
		}
		case 3:
			if (b != e)
			{
				const Acc one{ *b++ };
				a(one);
			}
			a.add(b, e);
			break;
		default:
			for (; b != e; b++)
				a.add(*b);
			break;
	}
}

template <typename T>
static void reduce(const SimOp& o)
{
	using Acc = typename Job<T>::Acc;
	Rng r{ (uint64_t)o.d };
	auto* j		   = new Job<T>;
	const size_t n = (size_t)clampi(o.b, 0, MAXN);
	const int sort = (int)r.below(3), way = (int)r.below(5);
	std::vector<long double>* exact;
	{
		Quiet q;
		exact = new std::vector<long double>;
	}
	for (size_t i = 0; i < n; i++)
	{
		std::vector<long double> one;
		const T v = sample<T>(r, sort, one);
		j->samples.push_back(v);
		Quiet q;
		exact->push_back(one[0]);
	}
	const int how = (int)clampi(o.c, 0, HOW_COUNT - 1);
	j->parts.resize(W + 1);
	const size_t chunk	= (size_t)r.range(1, 20);
	const int ylds		= (int)r.below(3);
	const uint64_t lock = r.below(2);
	switch (how)
	{
		case HOW_RANGE:
			pool->for_each(size_t{}, n,
						   [j, ylds](size_t i, size_t batch) noexcept
						   {
							   j->parts[batch].add(j->samples[i]);
							   for (int y = 0; y < ylds; y++)
								   sim_yield();
						   });
			pool->wait();
			break;
		case HOW_COLL:
			pool->for_each(j->samples,
						   [j, ylds](T& v, size_t batch) noexcept
						   {
							   j->parts[batch](v);
							   for (int y = 0; y < ylds; y++)
								   sim_yield();
						   });
			pool->wait();
			break;
		case HOW_WORKER:
			for (size_t b = 0; b < n; b += chunk)
			{
				const size_t e = std::min(b + chunk, n);
				pool->enqueue([j, b, e, way](size_t worker) noexcept { feed(j->parts[worker], j->samples.data() + b, j->samples.data() + e, way); });
			}
			pool->wait();
			break;
		case HOW_TASK:
			for (size_t b = 0; b < n; b += chunk)
			{
				const size_t e = std::min(b + chunk, n);
				pool->enqueue(
					[j, b, e, way, lock]() noexcept
					{
						Acc own;
						feed(own, j->samples.data() + b, j->samples.data() + e, way);
						sim_yield();
						if (lock)
						{
							std::lock_guard l{ j->spin };
							j->total.add(own);
						}
						else
						{
							std::lock_guard l{ j->mutex };
							j->total(own);
						}
					});
			}
			pool->wait();
			break;
		case HOW_STOLEN:
			for (size_t t = 0; t < W + 1; t++)
				pool->enqueue(
					[j, n, way]() noexcept
					{
						Acc own;
						for (size_t i; (i = j->next.fetch_add(1, std::memory_order_relaxed)) < n;)
							feed(own, j->samples.data() + i, j->samples.data() + i + 1, way);
						std::lock_guard l{ j->mutex };
						j->total.add(own);
					});
			pool->wait();
			break;
		default:
			for (size_t b = 0, k = 0; b < n; b += chunk, k++)
				feed(j->parts[k % j->parts.size()], j->samples.data() + b, j->samples.data() + std::min(b + chunk, n), way);
			break;
	}
	// merge what is left in some order, as a chain or as a tree
	for (size_t i = j->parts.size(); i > 1; i--)
		std::swap(j->parts[i - 1], j->parts[r.below(i)]);
	if (r.chance(0.5))
		for (auto& p : j->parts)
			j->total.add(p);
	else
	{
		for (size_t w = 1; w < j->parts.size(); w *= 2)
			for (size_t i = 0; i + w < j->parts.size(); i += 2 * w)
				j->parts[i].add(j->parts[i + w]);
		Acc t = j->parts[0];
		t.add(j->total);
		j->total = t;
	}
	const size_t count	 = j->total.sample_count();
	const bool empty	 = j->total.empty();
	const long double s	 = static_cast<long double>(static_cast<std::conditional_t<Traits<T>::floats, double, long double>>(j->total.sum()));
	const long double mn = n ? static_cast<long double>(static_cast<std::conditional_t<Traits<T>::floats, double, long double>>(j->total.min())) : 0;
	const long double mx = n ? static_cast<long double>(static_cast<std::conditional_t<Traits<T>::floats, double, long double>>(j->total.max())) : 0;
	delete j;
	{
		Quiet q;
		long double es = 0, ea = 0, emn = n ? (*exact)[0] : 0, emx = emn;
		for (auto v : *exact)
		{
			es += v;
			ea += std::fabs(v);
			emn = std::min(emn, v);
			emx = std::max(emx, v);
		}
		delete exact;
		sim_event(count, (uint64_t)(int64_t)es);
		if (count != n || empty != (n == 0))
			sim_violation("count", "%zu samples were accumulated in parts, the merged accumulator counts %zu", n, count);
		if (mn != emn || mx != emx)
			sim_violation("extremes", "the merged accumulator of %zu samples has min %.10Lg and max %.10Lg instead of %.10Lg and %.10Lg", n, mn, mx, emn, emx);
		long double tol = 0;
		if (Traits<T>::floats)
		{
			// the value itself is rounded to T; partial sums are kept in at least a float
			const long double u	 = std::ldexp(1.0L, -Traits<T>::bits);
			const long double ui = std::ldexp(1.0L, -std::max(Traits<T>::bits, 24));
			const long double m	 = (long double)n + W + 4;
			tol					 = 4 * u * std::fabs(es) + 4 * m * m * ui * ui * ea;
			if (std::is_same_v<T, muu::half>)
				tol += 1e-7L; // subnormal results
		}
		if (std::fabs(s - es) > tol)
			sim_violation("sum", "the merged accumulator of %zu samples has the sum %.20Lg instead of %.20Lg (off by %.3Lg, allowed %.3Lg)", n, s, es, s - es, tol);
		sim_probe(op_names[0]);
	}
}

static void run_client(int id)
{
	size_t n;
	{
		Quiet q;
		n = S->client_ops[(size_t)id].size();
	}
	for (size_t i = 0; i < n; i++)
	{
		SimOp o;
		{
			Quiet q;
			o = S->sc.ops[(size_t)S->client_ops[(size_t)id][i]];
		}
		if (o.kind == OP_SLEEP)
		{
			sim_sleep((uint64_t)clampi(o.a, 0, 1000000000));
			continue;
		}
		switch (clampi(o.a, 0, TY_COUNT - 1))
		{
			case TY_I8: reduce<int8_t>(o); break;
			case TY_U8: reduce<uint8_t>(o); break;
			case TY_I16: reduce<int16_t>(o); break;
			case TY_I32: reduce<int32_t>(o); break;
			case TY_U32: reduce<uint32_t>(o); break;
			case TY_I64: reduce<int64_t>(o); break;
			case TY_HALF: reduce<muu::half>(o); break;
			case TY_FLOAT: reduce<float>(o); break;
			default: reduce<double>(o); break;
		}
	}
}

static void begin(const Scenario& sc)
{
	S		= new PoolOracle;
	S->sc	= sc;
	S->prop = sc.prop;
	const int64_t n = clampi(sc.get("clients", 1), 1, 4);
	S->client_ops.resize((size_t)n);
	for (size_t i = 0; i < sc.ops.size(); i++)
		S->client_ops[(size_t)clampi(sc.ops[i].thr, 0, n - 1)].push_back((int)i);
	sim_race_mode(1);
}
static void body()
{
	int nc;
	{
		Quiet q;
		nc = (int)S->client_ops.size();
	}
	pool = new muu::thread_pool(static_cast<size_t>(S->sc.get("workers", 1)), static_cast<size_t>(S->sc.get("queue", 1)));
	W	 = pool->workers();
	{
		std::vector<std::thread> th;
		for (int k = 1; k < nc; k++)
			th.emplace_back([k] { run_client(k); });
		run_client(0);
		for (auto& t : th)
			t.join();
	}
	delete pool;
	pool = nullptr;
}
static void end(int)
{
	free_oracle();
}
static int stuck(std::string& why)
{
	why = "a parallel reduction never ends";
	return 1;
}

static const Workload wl = { SIM_WL_NAME, gen, begin, body, end, stuck, op_names, OP_COUNT };
extern "C" __attribute__((visibility("default"))) const Workload* sim_workload()
{
	return &wl;
}

// Search driver: seeds -> scenarios -> runs; recording, replay and minimisation.
#include "rt_int.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <algorithm>
#include <unordered_set>
#include <functional>
#include <fcntl.h>
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/wait.h>

static double wall() // real time (the process never has an active simulation when this is called)
{
	struct timespec ts;
	long ret;
	__asm__ volatile("syscall" : "=a"(ret) : "a"(SYS_clock_gettime), "D"(CLOCK_MONOTONIC), "S"(&ts) : "rcx", "r11", "memory");
	return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}

static uint64_t hash_str(const std::string& s)
{
	uint64_t h = 1469598103934665603ull;
	for (unsigned char c : s)
		h = (h ^ c) * 1099511628211ull;
	return h;
}

// ------------------------------------------------------------------ seed -> scenario + parameters
static void derive(const Workload* w, const std::string& prop, uint64_t base, uint64_t index, Scenario& sc, RunParams& rp)
{
	uint64_t x = base * 0x9E3779B97F4A7C15ull ^ hash_str(prop);
	Rng::splitmix(x);
	x ^= index * 0xD1B54A32D192ED03ull;
	Rng r(Rng::splitmix(x));
	sc	   = Scenario{};
	sc.wl  = w->name;
	sc.prop = prop;
	rp			  = RunParams{};
	rp.env_seed	  = r.next();
	rp.sched_seed = r.next();
	rp.hwc		  = (uint32_t)r.range(1, 8);
	static const uint32_t steps[] = { 1, 20, 20, 20, 200, 2000 };
	rp.step_ns		= r.pick(steps);
	rp.preempt_plain = r.chance(0.4);
	static const int strat[] = { 0, 0, 0, 1, 1, 2, 3, 3, 3, 4 };
	rp.strategy				 = r.pick(strat);
	static const double ps[] = { 0.01, 0.03, 0.1, 0.3, 0.7 };
	rp.p					 = r.pick(ps);
	rp.depth				 = (int)r.range(1, 8);
	rp.quantum				 = (uint32_t)r.range(1, 40);
	static const uint64_t ests[] = { 100, 300, 1000, 3000, 10000, 30000 };
	rp.est						 = r.pick(ests);
	w->gen(r, sc);
	if (sc.cfg.count("hwc"))
		rp.hwc = (uint32_t)sc.cfg["hwc"];
	if (sc.cfg.count("step_ns"))
		rp.step_ns = (uint32_t)sc.cfg["step_ns"];
	if (sc.cfg.count("budget1"))
		rp.budget1 = (uint64_t)sc.cfg["budget1"];
	if (sc.cfg.count("budget2"))
		rp.budget2 = (uint64_t)sc.cfg["budget2"];
	if (sc.cfg.count("spin_limit"))
		rp.spin_limit = (uint32_t)sc.cfg["spin_limit"];
	if (sc.cfg.count("preempt_plain"))
		rp.preempt_plain = (int)sc.cfg["preempt_plain"];
	for (int k = 0; k < FK_COUNT; k++)
	{
		auto it = sc.cfg.find(std::string("f_") + sim_fault_names[k]);
		if (it != sc.cfg.end())
			rp.fprob[k] = (double)it->second * 1e-6; // per million opportunities
	}
}

// ------------------------------------------------------------------ replay files
static void write_case(FILE* f, const Workload* w, const Scenario& sc, const RunParams& rp, const Violation* v, uint64_t hash, const RunStats* st)
{
	fprintf(f, "muu-sim-replay 1\nworkload %s\nproperty %s\n", sc.wl.c_str(), sc.prop.c_str());
	for (auto& [k, x] : sc.cfg)
		fprintf(f, "cfg %s %lld\n", k.c_str(), (long long)x);
	fprintf(f, "env %llu %u %d %u %llu %llu %u\n", (unsigned long long)rp.env_seed, rp.step_ns, rp.preempt_plain, rp.spin_limit, (unsigned long long)rp.budget1,
			(unsigned long long)rp.budget2, rp.hwc);
	for (auto& o : sc.ops)
		fprintf(f, "op %d %d %lld %lld %lld %lld # %s by client %d\n", o.kind, o.thr, (long long)o.a, (long long)o.b, (long long)o.c, (long long)o.d,
				o.kind >= 0 && o.kind < w->n_op_names ? w->op_names[o.kind] : "?", o.thr);
	for (auto& d : rp.sched)
		fprintf(f, "sched %d %llu %d\n", d.fiber, (unsigned long long)d.opno, d.target);
	for (auto& d : rp.faults)
		fprintf(f, "fault %d %d %llu %lld # %s\n", d.kind, d.fiber, (unsigned long long)d.idx, (long long)d.value, sim_fault_names[d.kind]);
	fprintf(f, "hash %016llx\n", (unsigned long long)hash);
	if (st)
		fprintf(f, "steps %llu simulated_ns %llu switches %llu preemptions %llu\n", (unsigned long long)st->steps, (unsigned long long)st->sim_ns,
				(unsigned long long)st->switches, (unsigned long long)st->preemptions);
	if (v)
	{
		std::string m = v->msg;
		for (auto& c : m)
			if (c == '\n')
				c = ' ';
		fprintf(f, "violation %s\nmessage %s\n", v->cls.c_str(), m.c_str());
	}
}

struct Expect
{
	std::string cls;
	uint64_t hash = 0;
};
static bool read_case(const char* path, Scenario& sc, RunParams& rp, Expect& ex)
{
	FILE* f = fopen(path, "r");
	if (!f)
		return false;
	char line[8192];
	sc = Scenario{};
	rp = RunParams{};
	rp.replay = true;
	while (fgets(line, sizeof line, f))
	{
		char k[64], s[256];
		if (sscanf(line, "%63s", k) != 1)
			continue;
		std::string key = k;
		const char* rest = line + strlen(k);
		if (key == "workload" && sscanf(rest, "%255s", s) == 1)
			sc.wl = s;
		else if (key == "property" && sscanf(rest, "%255s", s) == 1)
			sc.prop = s;
		else if (key == "cfg")
		{
			long long v;
			if (sscanf(rest, "%255s %lld", s, &v) == 2)
				sc.cfg[s] = v;
		}
		else if (key == "env")
		{
			unsigned long long e, b1, b2;
			sscanf(rest, "%llu %u %d %u %llu %llu %u", &e, &rp.step_ns, &rp.preempt_plain, &rp.spin_limit, &b1, &b2, &rp.hwc);
			rp.env_seed = e;
			rp.budget1	= b1;
			rp.budget2	= b2;
		}
		else if (key == "op")
		{
			SimOp o{};
			long long a, b, c, d;
			if (sscanf(rest, "%d %d %lld %lld %lld %lld", &o.kind, &o.thr, &a, &b, &c, &d) == 6)
			{
				o.a = a;
				o.b = b;
				o.c = c;
				o.d = d;
				sc.ops.push_back(o);
			}
		}
		else if (key == "sched")
		{
			SchedDev d{};
			unsigned long long n;
			if (sscanf(rest, "%d %llu %d", &d.fiber, &n, &d.target) == 3)
			{
				d.opno = n;
				rp.sched.push_back(d);
			}
		}
		else if (key == "fault")
		{
			FaultDev d{};
			unsigned long long n;
			long long v;
			if (sscanf(rest, "%d %d %llu %lld", &d.kind, &d.fiber, &n, &v) == 4 && d.kind >= 0 && d.kind < FK_COUNT)
			{
				d.idx	= n;
				d.value = v;
				rp.faults.push_back(d);
			}
		}
		else if (key == "hash")
			ex.hash = strtoull(rest, nullptr, 16);
		else if (key == "violation" && sscanf(rest, "%255s", s) == 1)
			ex.cls = s;
	}
	fclose(f);
	return true;
}

// ------------------------------------------------------------------ the current run, for the violation callback
static const Scenario* g_sc;
static RunParams* g_params;
static std::function<void(const Violation&)> g_report;
static void violation_cb(const Violation& v)
{
	if (g_report)
		g_report(v);
	_exit(89);
}

// ------------------------------------------------------------------ worker
struct Totals
{
	uint64_t runs = 0, steps = 0, switches = 0, preempt = 0, sim_ns = 0, fibers = 0, faulted = 0, nontrivial = 0, drained = 0, abandoned = 0, concurrent = 0;
	uint64_t fired[FK_COUNT] = {}, fired_runs[FK_COUNT] = {}, kinds[8] = {}, strategies[5] = {};
	uint64_t max_steps = 0, max_fibers = 0;
};
static void write_stats(const char* path, const Totals& t, double secs, uint64_t first, uint64_t stride, const std::vector<uint64_t>& samples, bool viol)
{
	FILE* f = fopen(path, "w");
	if (!f)
		return;
	fprintf(f, "{\"runs\":%llu,\"steps\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"sim_ns\":%llu,\"threads\":%llu,\"faulted_runs\":%llu,\"nontrivial\":%llu,\"concurrent_runs\":%llu,\"drained\":%llu,\"abandoned\":%llu,\"max_steps\":%llu,\"max_threads\":%llu,\"seconds\":%.3f,\"first\":%llu,\"stride\":%llu,\"violation\":%d",
			(unsigned long long)t.runs, (unsigned long long)t.steps, (unsigned long long)t.switches, (unsigned long long)t.preempt, (unsigned long long)t.sim_ns,
			(unsigned long long)t.fibers, (unsigned long long)t.faulted, (unsigned long long)t.nontrivial, (unsigned long long)t.concurrent, (unsigned long long)t.drained, (unsigned long long)t.abandoned,
			(unsigned long long)t.max_steps, (unsigned long long)t.max_fibers, secs, (unsigned long long)first, (unsigned long long)stride, viol);
	fprintf(f, ",\"fired\":{");
	for (int k = 0; k < FK_COUNT; k++)
		fprintf(f, "%s\"%s\":%llu", k ? "," : "", sim_fault_names[k], (unsigned long long)t.fired[k]);
	fprintf(f, "},\"fired_runs\":{");
	for (int k = 0; k < FK_COUNT; k++)
		fprintf(f, "%s\"%s\":%llu", k ? "," : "", sim_fault_names[k], (unsigned long long)t.fired_runs[k]);
	static const char* kn[] = { "lock", "unlock", "cond", "atomic", "thread", "time", "plain_access", "other" };
	fprintf(f, "},\"points\":{");
	for (int k = 0; k < 8; k++)
		fprintf(f, "%s\"%s\":%llu", k ? "," : "", kn[k], (unsigned long long)t.kinds[k]);
	static const char* sn[] = { "random_walk", "pct", "round_robin", "sync_biased", "run_to_block" };
	fprintf(f, "},\"strategies\":{");
	for (int k = 0; k < 5; k++)
		fprintf(f, "%s\"%s\":%llu", k ? "," : "", sn[k], (unsigned long long)t.strategies[k]);
	fprintf(f, "},\"probes\":{");
	bool first_p = true;
	for (auto& [k, v] : rt_probes())
	{
		fprintf(f, "%s\"%s\":%llu", first_p ? "" : ",", k.c_str(), (unsigned long long)v);
		first_p = false;
	}
	fprintf(f, "},\"samples\":[");
	for (size_t i = 0; i < samples.size(); i++)
		fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)samples[i]);
	fprintf(f, "]}\n");
	fclose(f);
}
static void dump_set(const std::string& path, const std::unordered_set<uint64_t>& s)
{
	FILE* f = fopen(path.c_str(), "wb");
	if (!f)
		return;
	std::vector<uint64_t> v(s.begin(), s.end());
	fwrite(v.data(), 8, v.size(), f);
	fclose(f);
}

static int do_worker(const std::string& prop, uint64_t base, uint64_t first, uint64_t stride, double secs, uint64_t maxruns, const std::string& out)
{
	const Workload* w = rt_workload();
	Totals t;
	std::unordered_set<uint64_t> execs, hists;
	std::vector<uint64_t> hashes; // index, hash of a few runs, for the determinism check
	const double t0 = wall();
	Scenario sc;
	RunParams rp;
	uint64_t index = first;
	// the index of the run in progress, should the process die
	uint64_t* progress = nullptr;
	{
		const int fd = open((out + ".idx").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
		if (fd >= 0 && !ftruncate(fd, 8))
		{
			void* m = mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			if (m != MAP_FAILED)
				progress = (uint64_t*)m;
		}
	}
	g_report = [&](const Violation& v)
	{
		FILE* f = fopen((out + ".case").c_str(), "w");
		if (f)
		{
			write_case(f, w, sc, rp, &v, rt_stats().hash, &rt_stats());
			fprintf(f, "seed %llu index %llu\n", (unsigned long long)base, (unsigned long long)index);
			fclose(f);
		}
		write_stats((out + ".json").c_str(), t, wall() - t0, first, stride, {}, true);
		dump_set(out + ".execs", execs);
		dump_set(out + ".hists", hists);
		_exit(10);
	};
	for (;; index += stride)
	{
		if (t.runs >= maxruns || ((t.runs & 15) == 0 && wall() - t0 >= secs))
			break;
		derive(w, prop, base, index, sc, rp);
		if (progress)
			*progress = index;
		RunStats st;
		rt_run(w, sc, rp, st);
		t.runs++;
		t.steps += st.steps;
		t.switches += st.switches;
		t.preempt += st.preemptions;
		t.sim_ns += st.sim_ns;
		t.fibers += st.fibers;
		t.drained += st.drained;
		t.abandoned += st.abandoned;
		if (st.abandoned && getenv("SIM_SHOW_ABANDONED"))
			fprintf(stderr, "abandoned: index %llu\n", (unsigned long long)index);
		t.max_steps	 = std::max(t.max_steps, st.steps);
		t.max_fibers = std::max(t.max_fibers, st.fibers);
		t.strategies[rp.strategy]++;
		bool any = false;
		for (int k = 0; k < FK_COUNT; k++)
		{
			t.fired[k] += st.fired[k];
			t.fired_runs[k] += st.fired[k] != 0;
			any = any || st.fired[k];
		}
		for (int k = 0; k < 8; k++)
			t.kinds[k] += st.kinds[k];
		t.faulted += any;
		const bool conc = st.fibers > 1 && st.switches > 0;
		t.concurrent += conc;
		const bool nt = (st.fibers > 1 && st.preemptions > 0) || any;
		t.nontrivial += nt;
		if (nt && execs.size() < 6000000)
			execs.insert(st.hash);
		if (nt && hists.size() < 6000000)
			hists.insert(st.ehash);
		if (t.runs <= 8 || (t.runs & (t.runs - 1)) == 0)
		{
			hashes.push_back(index);
			hashes.push_back(st.hash);
		}
	}
	write_stats((out + ".json").c_str(), t, wall() - t0, first, stride, hashes, false);
	dump_set(out + ".execs", execs);
	dump_set(out + ".hists", hists);
	return 0;
}

static int do_merge(int n, char** files)
{
	std::vector<uint64_t> v;
	for (int i = 0; i < n; i++)
	{
		FILE* f = fopen(files[i], "rb");
		if (!f)
			continue;
		uint64_t b[4096];
		size_t k;
		while ((k = fread(b, 8, 4096, f)) > 0)
			v.insert(v.end(), b, b + k);
		fclose(f);
	}
	std::sort(v.begin(), v.end());
	printf("%zu\n", (size_t)(std::unique(v.begin(), v.end()) - v.begin()));
	return 0;
}

// ------------------------------------------------------------------ trying candidates in child processes
struct Outcome
{
	bool violated = false;
	std::string cls, msg;
	uint64_t hash = 0, steps = 0;
	std::vector<SchedDev> sched;
	std::vector<FaultDev> faults;
};
static void wr(int fd, const void* p, size_t n)
{
	const char* c = (const char*)p;
	while (n)
	{
		ssize_t k = write(fd, c, n);
		if (k <= 0)
			return;
		c += k;
		n -= (size_t)k;
	}
}
static Outcome try_case(const Scenario& sc0, const RunParams& rp0, double limit = 25)
{
	Outcome o;
	int p[2];
	if (pipe(p))
		return o;
	const pid_t pid = fork();
	if (pid == 0)
	{
		close(p[0]);
		static Scenario sc;
		static RunParams rp;
		sc		 = sc0;
		rp		 = rp0;
		g_report = [&](const Violation& v)
		{
			std::string b;
			auto add = [&](const void* q, size_t n) { b.append((const char*)q, n); };
			uint64_t h = rt_stats().hash, s = rt_stats().steps, nc = v.cls.size(), nm = v.msg.size(), ns = rp.sched.size(), nf = rp.faults.size();
			for (uint64_t x : { h, s, nc, nm, ns, nf })
				add(&x, 8);
			add(v.cls.data(), nc);
			add(v.msg.data(), nm);
			add(rp.sched.data(), ns * sizeof(SchedDev));
			add(rp.faults.data(), nf * sizeof(FaultDev));
			wr(p[1], b.data(), b.size());
			_exit(10);
		};
		RunStats st;
		rt_run(rt_workload(), sc, rp, st);
		_exit(0);
	}
	close(p[1]);
	std::string b;
	const double t0 = wall();
	for (;;)
	{
		struct pollfd pf = { p[0], POLLIN, 0 };
		const int left	 = (int)((limit - (wall() - t0)) * 1000);
		if (left <= 0 || poll(&pf, 1, left) <= 0)
		{
			kill(pid, SIGKILL);
			break;
		}
		char buf[65536];
		ssize_t k = read(p[0], buf, sizeof buf);
		if (k <= 0)
			break;
		b.append(buf, (size_t)k);
	}
	close(p[0]);
	int status;
	waitpid(pid, &status, 0);
	if (b.size() < 48)
		return o;
	uint64_t x[6];
	memcpy(x, b.data(), 48);
	if (b.size() != 48 + x[2] + x[3] + x[4] * sizeof(SchedDev) + x[5] * sizeof(FaultDev))
		return o;
	o.violated	  = true;
	o.hash		  = x[0];
	o.steps		  = x[1];
	const char* q = b.data() + 48;
	o.cls.assign(q, x[2]);
	q += x[2];
	o.msg.assign(q, x[3]);
	q += x[3];
	o.sched.resize(x[4]);
	memcpy((void*)o.sched.data(), q, x[4] * sizeof(SchedDev));
	q += x[4] * sizeof(SchedDev);
	o.faults.resize(x[5]);
	memcpy((void*)o.faults.data(), q, x[5] * sizeof(FaultDev));
	return o;
}

template <typename T>
static std::vector<T> ddmin(std::vector<T> v, const std::function<bool(const std::vector<T>&)>& bad, const std::function<bool()>& more)
{
	if (v.empty())
		return v;
	if (bad({}))
		return {};
	size_t n = 2;
	while (v.size() >= 2 && more())
	{
		const size_t chunk = (v.size() + n - 1) / n;
		bool reduced	   = false;
		for (size_t i = 0; i < v.size() && more(); i += chunk)
		{
			std::vector<T> c(v.begin(), v.begin() + (long)i);
			c.insert(c.end(), v.begin() + (long)std::min(i + chunk, v.size()), v.end());
			if (c.size() < v.size() && bad(c))
			{
				v		= std::move(c);
				n		= std::max<size_t>(n - 1, 2);
				reduced = true;
				break;
			}
		}
		if (!reduced)
		{
			if (n >= v.size())
				break;
			n = std::min(n * 2, v.size());
		}
	}
	return v;
}

static int do_minimise(const char* in, const char* outp, double secs)
{
	Scenario sc;
	RunParams rp;
	Expect ex;
	if (!read_case(in, sc, rp, ex))
		return 3;
	const double t0		= wall();
	auto more			= [&] { return wall() - t0 < secs; };
	Outcome best		= try_case(sc, rp);
	if (!best.violated || best.cls != ex.cls)
	{
		printf("recorded case does not reproduce (%s)\n", best.violated ? best.cls.c_str() : "no violation");
		return 4;
	}
	const std::string cls = best.cls;
	auto same			  = [&](const Outcome& o) { return o.violated && o.cls == cls; };

	// 1. fewer operations; the schedule may have to be found again
	bool changed = true;
	uint64_t tries = 0;
	while (changed && more())
	{
		changed = false;
		for (size_t len = std::max<size_t>(sc.ops.size() / 2, 1); len >= 1 && more(); len = len == 1 ? 0 : len / 2)
		{
			for (size_t i = 0; i + len <= sc.ops.size() && more();)
			{
				Scenario c = sc;
				c.ops.erase(c.ops.begin() + (long)i, c.ops.begin() + (long)(i + len));
				Outcome o = try_case(c, rp);
				RunParams np = rp;
				if (!same(o))
				{
					for (int k = 0; k < 24 && more() && !same(o); k++)
					{
						np			  = rp;
						np.replay	  = false;
						np.sched_seed = ++tries * 7919;
						np.strategy	  = (int)(k % 4);
						static const double ps[] = { 0.02, 0.1, 0.3 };
						np.p  = ps[k % 3];
						np.quantum = 1 + (uint32_t)k;
						np.est = 100u << (k % 6);
						for (auto& f : rp.faults)
							np.fprob[f.kind] = (f.kind == FK_STALL || f.kind == FK_CLOCK) ? 0.001 : 0.15;
						o = try_case(c, np);
					}
					if (same(o))
					{
						np.replay = true;
						np.sched  = o.sched;
						np.faults = o.faults;
						o		  = try_case(c, np);
					}
				}
				if (same(o))
				{
					sc		= c;
					rp		= np;
					best	= o;
					changed = true;
				}
				else
					i += len;
			}
			if (len == 1)
				break;
		}
	}
	// 2. fewer faults, 3. fewer scheduling decisions, twice
	for (int round = 0; round < 2; round++)
	{
		rp.faults = ddmin<FaultDev>(
			rp.faults,
			[&](const std::vector<FaultDev>& v)
			{
				RunParams c = rp;
				c.faults	= v;
				return same(try_case(sc, c));
			},
			more);
		rp.sched = ddmin<SchedDev>(
			rp.sched,
			[&](const std::vector<SchedDev>& v)
			{
				RunParams c = rp;
				c.sched		= v;
				return same(try_case(sc, c));
			},
			more);
	}
	// 4. simpler arguments
	for (auto& o : sc.ops)
		for (int64_t SimOp::*m : { &SimOp::a, &SimOp::b, &SimOp::c, &SimOp::d })
			for (int64_t v : { (int64_t)0, (int64_t)1, o.*m / 2 })
			{
				if (!more() || o.*m == v || (v == 1 && o.*m == 0))
					continue;
				const int64_t old = o.*m;
				o.*m			  = v;
				if (same(try_case(sc, rp)))
					break;
				o.*m = old;
			}
	best = try_case(sc, rp);
	if (!same(best))
		return 5;
	FILE* f = fopen(outp, "w");
	if (!f)
		return 6;
	Violation v{ best.cls, best.msg };
	write_case(f, rt_workload(), sc, rp, &v, best.hash, nullptr);
	fclose(f);
	printf("minimised to %zu operations, %zu scheduling decisions, %zu faults\n", sc.ops.size(), rp.sched.size(), rp.faults.size());
	return 0;
}

static int do_replay(const char* path, bool trace)
{
	static Scenario sc;
	static RunParams rp;
	static Expect ex;
	if (!read_case(path, sc, rp, ex))
		return 3;
	g_report = [&](const Violation& v)
	{
		printf("violation %s\nmessage %s\nhash %016llx\n", v.cls.c_str(), v.msg.c_str(), (unsigned long long)rt_stats().hash);
		const bool ok = v.cls == ex.cls && (!ex.hash || rt_stats().hash == ex.hash);
		printf("%s\n", ok ? "reproduced exactly" : "DIFFERS from the recorded execution");
		fflush(stdout);
		_exit(ok ? 10 : 11);
	};
	if (trace)
		rt_set_trace(stdout);
	RunStats st;
	rt_run(rt_workload(), sc, rp, st);
	printf("no violation\nhash %016llx\n", (unsigned long long)st.hash);
	return 0;
}

static int do_hash(const std::string& prop, uint64_t base, int n, char** idx, bool dump)
{
	for (int i = 0; i < n; i++)
	{
		static Scenario sc;
		static RunParams rp;
		derive(rt_workload(), prop, base, strtoull(idx[i], nullptr, 10), sc, rp);
		g_report = [&](const Violation& v)
		{
			printf("violation %s: %s\n", v.cls.c_str(), v.msg.c_str());
			if (dump)
				write_case(stdout, rt_workload(), sc, rp, &v, rt_stats().hash, &rt_stats());
			fflush(stdout);
			_exit(10);
		};
		RunStats st;
		rt_run(rt_workload(), sc, rp, st);
		if (dump)
			write_case(stdout, rt_workload(), sc, rp, nullptr, st.hash, &st);
		else
			printf("%s %llu\n", idx[i], (unsigned long long)st.hash);
	}
	return 0;
}

int main(int argc, char** argv)
{
	// identical addresses in every process, where the system permits it
	if (!getenv("SIM_NOASLR"))
	{
		setenv("SIM_NOASLR", "1", 1);
		const int old = personality(0xffffffff);
		if (old != -1 && !(old & ADDR_NO_RANDOMIZE) && personality((unsigned long)old | ADDR_NO_RANDOMIZE) != -1)
			execv("/proc/self/exe", argv);
	}
	rt_on_violation = violation_cb;
	std::vector<std::string> a(argv + 1, argv + argc);
	auto need = [&](size_t n)
	{
		if (a.size() < n)
		{
			fprintf(stderr, "usage: simrun worker LIB PROP BASE FIRST STRIDE SECS MAXRUNS OUT | replay LIB FILE [trace] | minimise LIB IN OUT SECS | hash LIB PROP BASE IDX... | show LIB PROP BASE IDX | merge FILES...\n");
			exit(2);
		}
	};
	need(1);
	if (a[0] == "merge")
		return do_merge(argc - 2, argv + 2);
	need(3);
	rt_init(a[1].c_str());
	if (a[0] == "worker")
	{
		need(9);
		return do_worker(a[2], strtoull(a[3].c_str(), 0, 10), strtoull(a[4].c_str(), 0, 10), strtoull(a[5].c_str(), 0, 10), atof(a[6].c_str()),
						 strtoull(a[7].c_str(), 0, 10), a[8]);
	}
	if (a[0] == "replay")
		return do_replay(a[2].c_str(), a.size() > 3);
	if (a[0] == "minimise")
	{
		need(5);
		return do_minimise(a[2].c_str(), a[3].c_str(), atof(a[4].c_str()));
	}
	if (a[0] == "hash" || a[0] == "show")
	{
		need(5);
		return do_hash(a[2], strtoull(a[3].c_str(), 0, 10), argc - 5, argv + 5, a[0] == "show");
	}
	return 2;
}

// uuid::generate(): U01.
#include "../sim/rt.h"
#include <muu/uuid.h>
#include <array>
#include <cstring>
#include <set>
#include <thread>

enum Op
{
	OP_BURST, // a: how many, b: wave (threads of a wave run together; those of the next start when all have exited), c: scheduling points in between
	OP_NAMED, // a: which name, b: wave
	OP_COUNT
};
static const char* const op_names[] = { "burst", "named" };
static constexpr int CLIENTS = 12, WAVES = 5, NAMES = 6;
static int64_t clampi(int64_t v, int64_t lo, int64_t hi)
{
	return v < lo ? lo : v > hi ? hi : v;
}

static void gen(Rng& r, Scenario& sc)
{
	auto& c			  = sc.cfg;
	c["clients"]	  = r.range(2, r.chance(0.2) ? CLIENTS : 4);
	c["main"]		  = r.range(0, 1);
	c["budget1"]	  = 200000;
	c["budget2"]	  = 3000000;
	static const int64_t rep[] = { 0, 200, 20000, 200000, 1000000 };
	c["f_entropy_repeat"]	   = r.pick(rep);
	static const int64_t st[]  = { 0, 0, 300, 3000 };
	c["f_thread_stall"]		   = r.pick(st);
	c["entropy_from"]		   = r.chance(0.4) ? r.range(1, 1600) : 0;
	const int64_t waves		   = r.range(1, WAVES);
	const int n				   = (int)r.range(2, r.chance(0.2) ? 30 : 10);
	const bool huge			   = r.chance(0.002); // beyond what a 16-bit counter of a thread counts
	const bool big			   = huge || r.chance(0.05);
	const int64_t same		   = r.range(0, waves - 1);
	for (int i = 0; i < n; i++)
	{
		const int thr		= (int)r.below((uint64_t)c["clients"]);
		const int64_t w		= r.range(0, waves - 1);
		if (!(big && i < 2) && r.chance(0.2))
			sc.ops.push_back({ OP_NAMED, thr, r.range(0, NAMES - 1), w, 0, 0 });
		else
			sc.ops.push_back({ OP_BURST, big && i < 2 ? i : thr, huge && i < 2 ? r.range(65530, 65900) : big && i < 2 ? (r.chance(0.5) ? r.range(200, 1100) : r.range(1000, 3000)) : r.range(1, 20), big && i < 2 ? same : w,
							   huge && i < 2 ? 0 : r.range(0, 3), 0 });
	}
}

using Bytes = std::array<unsigned char, 16>;
struct State
{
	Scenario sc;
	std::set<Bytes> seen;
	Bytes all_or{}, all_and;
	Bytes named[NAMES];
	bool have[NAMES] = {};
	std::vector<SimOp> ops[CLIENTS][WAVES];
};
static State* X;

static const char* const names[NAMES] = { "", "a", "www.example.com", "a name that takes up more than a single block of the hash function, so that it is processed in several steps",
										  "www.example.org", "b" };

static void check(const muu::uuid& u, int k)
{
	const auto var = u.variant();
	const auto ver = u.version();
	const bool nil = !u;
	Quiet q;
	Bytes b;
	memcpy(b.data(), &u, 16);
	uint64_t h[2];
	memcpy(h, b.data(), 16);
	sim_event(h[0], h[1] ^ (uint64_t)k);
	if (ver != muu::uuid_version::random || var != muu::uuid_variant::standard || (b[6] >> 4) != 4 || (b[8] >> 6) != 2)
		sim_violation("malformed", "generate() made a uuid of version %d, variant %d (bytes 6 and 8: %02x %02x)", (int)ver, (int)var, b[6], b[8]);
	if (nil)
		sim_violation("nil", "generate() made a nil uuid");
	if (!X->seen.insert(b).second)
		sim_violation("duplicate", "generate() made the same uuid twice within one process (the second time in client %d)", k);
	for (size_t i = 0; i < 16; i++)
	{
		X->all_or[i] |= b[i];
		X->all_and[i] &= b[i];
	}
}
static void client(int k, int wave)
{
	size_t n;
	{
		Quiet q;
		n = X->ops[k][wave].size();
	}
	for (size_t i = 0; i < n; i++)
	{
		SimOp o;
		{
			Quiet q;
			o = X->ops[k][wave][i];
		}
		if (o.kind == OP_NAMED)
		{
			const int j = (int)(((o.a % NAMES) + NAMES) % NAMES);
			const muu::uuid ns{ 0x6ba7b810, 0x9dad, 0x11d1, 0x80, 0xb4, 0x00c04fd430c8 };
			const muu::uuid u{ ns, std::string_view{ names[j] } };
			const auto var = u.variant();
			const auto ver = u.version();
			Quiet q;
			Bytes b;
			memcpy(b.data(), &u, 16);
			if (ver != muu::uuid_version::name_sha1 || var != muu::uuid_variant::standard)
				sim_violation("named", "a named uuid has version %d, variant %d", (int)ver, (int)var);
			if (X->have[j] && X->named[j] != b)
				sim_violation("named", "the same name was given two different uuids");
			X->named[j] = b;
			X->have[j]	= true;
			continue;
		}
		for (int64_t m = 0; m < clampi(o.a, 0, 70000); m++)
		{
			const muu::uuid u = muu::uuid::generate();
			check(u, k);
			for (int64_t y = 0; y < clampi(o.c, 0, 10); y++)
				sim_yield();
		}
	}
}

static void begin(const Scenario& sc)
{
	X	  = new State;
	X->sc = sc;
	X->all_and.fill(0xFF);
	const int64_t n = clampi(sc.get("clients", 2), 1, CLIENTS);
	for (auto& o : sc.ops)
		X->ops[clampi(o.thr, 0, n - 1)][clampi(o.b, 0, WAVES - 1)].push_back(o);
	sim_race_mode(1);
	sim_entropy_from((int)clampi(sc.get("entropy_from", 0), 0, 2000));
}
static void body()
{
	int n;
	bool main;
	{
		Quiet q;
		n	 = (int)clampi(X->sc.get("clients", 2), 1, CLIENTS);
		main = X->sc.get("main", 0) != 0;
	}
	for (int w = 0; w < WAVES; w++)
	{
		std::vector<std::thread> th;
		for (int k = main; k < n; k++)
		{
			bool any;
			{
				Quiet q;
				any = !X->ops[k][w].empty();
			}
			if (any)
				th.emplace_back([k, w] { client(k, w); });
		}
		if (main)
			client(0, w);
		for (auto& t : th)
			t.join();
	}
	Quiet q;
	if (X->seen.size() >= 300)
	{
		sim_probe("enough uuids to judge every bit");
		for (size_t i = 0; i < 16; i++)
		{
			const unsigned fixed = i == 6 ? 0xF0u : i == 8 ? 0xC0u : 0u;
			const unsigned vary	 = X->all_or[i] & ~X->all_and[i] & 0xFFu;
			if ((vary | fixed) != 0xFFu)
				sim_violation("stuck_bits", "in %zu generated uuids byte %zu never varied in bits %02x", X->seen.size(), i, ~(vary | fixed) & 0xFFu);
		}
	}
}
static void end(int)
{
	delete X;
	X = nullptr;
}
static int stuck(std::string& why)
{
	why = "generate() never returns";
	return 1;
}

static const Workload wl = { SIM_WL_NAME, gen, begin, body, end, stuck, op_names, OP_COUNT };
extern "C" __attribute__((visibility("default"))) const Workload* sim_workload()
{
	return &wl;
}

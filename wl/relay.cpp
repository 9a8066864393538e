// Text handed from peer to peer, each of which keeps text in an encoding of its own: X01.
#include "text_model.h"
#include <muu/core.h>
#include <muu/strings.h>
#include <condition_variable>
#include <cstring>
#include <algorithm>
#include <deque>
#include <memory>
#include <exception>
#include <mutex>
#include <new>
#include <thread>
#include <variant>

enum Op
{
	OP_SEND, // a: seed of the text (modulo 16: 7: not text at all), b: hops, c: seed of the route, d: memory is short at some hops
	OP_COUNT
};
static const char* const op_names[] = { "send" };
static constexpr int MAXHOPS		= 8;

static int clampi(int64_t v, int lo, int hi)
{
	return (int)(v < lo ? lo : v > hi ? hi : v);
}

static void gen(Rng& r, Scenario& sc)
{
	auto& c						 = sc.cfg;
	c["budget1"]				 = 500000;
	c["budget2"]				 = 1500000;
	static const int64_t steps[] = { 20, 100, 500, 2000 };
	c["step_ns"]				 = r.pick(steps);
	static const int64_t th[]	 = { 0, 100000, 300000, 600000 };
	c["f_alloc_fails"]			 = r.pick(th);
	static const int64_t few[]	 = { 0, 0, 0, 1000, 10000 };
	c["f_spurious_wakeup"]				 = r.pick(few);
	c["f_thread_stall"]				 = r.pick(few);
	c["peers"]					 = r.range(1, 4);
	int64_t k = 1;
	for (int64_t n = r.range(1, r.chance(0.3) ? 12 : 4); n-- > 0;)
	{
		sc.ops.push_back({ OP_SEND, 0, r.chance(0.04) ? 0 : text_seed(r), r.range(1, MAXHOPS), (int64_t)(r.next() >> 1), r.chance(0.5) });
		k = std::max(k, text_steps(sc.ops.back().a));
	}
	c["budget1"] *= k;
	c["budget2"] *= k;
}

// ------------------------------------------------------------------ messages
using Any = std::variant<std::string, std::wstring, std::u8string, std::u16string, std::u32string>;
enum Trim
{
	KEEP,
	BOTH,
	LEFT,
	RIGHT
};
struct Hop
{
	int peer, enc, trim;
};
struct Message // simulated memory
{
	int id;
	bool fail;
	size_t at = 0;
	std::vector<Hop> route;
	Any text;
};
struct Model
{
	Text text;
	bool garbage;
};
struct State
{
	Scenario sc;
	std::vector<Model> m;
	size_t arrived = 0;
};
static State* X;

struct Peer
{
	std::mutex mutex;
	std::condition_variable cv;
	std::deque<Message*> inbox;
	bool closed = false;
};
static Peer* peers;
static std::mutex* done_mutex;
static std::condition_variable* done_cv;
static size_t done;

template <typename C>
static Text decoded(const C* p, size_t n)
{
	// of text known to be well-formed
	Text t;
	for (size_t i = 0; i < n; i++)
	{
		const uint32_t u = sizeof(C) == 1 ? (uint8_t)p[i] : sizeof(C) == 2 ? (uint16_t)p[i] : (uint32_t)p[i];
		if constexpr (sizeof(C) == 1)
		{
			const int k = u < 0x80 ? 0 : u < 0xE0 ? 1 : u < 0xF0 ? 2 : 3;
			uint32_t c	= k == 0 ? u : u & (0x3Fu >> k);
			for (int j = 0; j < k && i + 1 < n; j++)
				c = c << 6 | ((uint8_t)p[++i] & 0x3F);
			t.push_back(c);
		}
		else if constexpr (sizeof(C) == 2)
		{
			if (u >= 0xD800 && u < 0xDC00 && i + 1 < n)
				t.push_back(0x10000 + ((u - 0xD800) << 10) + ((uint16_t)p[++i] - 0xDC00));
			else
				t.push_back(u);
		}
		else
			t.push_back(u);
	}
	return t;
}
static Text cut(const Text& t, int trim)
{
	size_t a = 0, b = t.size();
	if (trim != RIGHT)
		while (a < b && is_space(t[a]))
			a++;
	if (trim != LEFT)
		while (b > a && is_space(t[b - 1]))
			b--;
	return Text(t.begin() + (long)a, t.begin() + (long)b);
}

template <typename C>
static std::basic_string_view<C> trim_view(std::basic_string_view<C> v, int trim)
{
	return trim == BOTH ? muu::trim(v) : trim == LEFT ? muu::trim_left(v) : trim == RIGHT ? muu::trim_right(v) : v;
}

// the text as it must be by now
template <typename C>
static void compare(const Message& m, const C* p, size_t n, const char* what)
{
	for (size_t i = 0; i < n; i++)
	{
		const C c = *(const volatile C*)(p + i); // (may be accessed)
		Quiet q;
		sim_event(0x61, (uint64_t)c);
	}
	Quiet q;
	const Model& x = X->m[(size_t)m.id];
	if (x.garbage || strcmp(X->sc.prop.c_str(), "X01"))
		return;
	const std::vector<C> want = encode<C>(x.text);
	if (want.size() != n)
		sim_violation("text", "%s of %zu code points has %zu units of %zu bytes instead of %zu (after %zu hops)", what, x.text.size(), n, sizeof(C), want.size(), m.at);
	for (size_t i = 0; i < n; i++)
		if (p[i] != want[i])
			sim_violation("text", "unit %zu of %zu of %s is %llx instead of %llx (units of %zu bytes, after %zu hops)", i, n, what, (unsigned long long)p[i], (unsigned long long)want[i], sizeof(C), m.at);
}

template <typename To, typename From>
static void receive(Message& m, const Hop& h, const std::basic_string<From>& from)
{
	using view = std::basic_string_view<From>;
	// read from a buffer of exactly that size
	const size_t n = from.size();
	std::unique_ptr<From[]> buf{ n ? new From[n] : nullptr };
	std::copy(from.begin(), from.end(), buf.get());
	view v{ buf.get(), n };
	if (h.trim != KEEP)
	{
		const view t = trim_view(v, h.trim);
		bool skip	 = false;
		{
			Quiet q;
			Model& x = X->m[(size_t)m.id];
			if (!t.empty() && (t.data() < v.data() || t.data() + t.size() > v.data() + n))
				sim_violation("range", "trimming text of %zu units yields a view that reaches beyond it", n);
			if (!x.garbage)
			{
				Text k = cut(x.text, h.trim);
				// text whose byte order would be in doubt is left as it is
				skip = looks_swapped(k);
				if (!skip)
					x.text.swap(k);
				else if (decoded(t.data(), t.size()) != k && !strcmp(X->sc.prop.c_str(), "X01"))
					sim_violation("text", "trimmed text of %zu code points is wrong", k.size());
			}
		}
		if (!skip)
			v = t;
		compare(m, v.data(), v.size(), "trimmed text");
	}
	for (int attempt = 0;; attempt++)
	{
		if (m.fail && attempt < 3)
			sim_arm(FK_ALLOC, 1);
		bool ok = false, thrown = false, standard = true;
		try
		{
			if constexpr (std::is_same_v<To, From>)
			{
				const auto same = muu::transcode<To>(v);
				static_assert(std::is_same_v<decltype(same), const view>);
				sim_arm(FK_ALLOC, 0);
				if (same.data() != v.data() || same.size() != v.size())
					sim_violation("text", "text that need not be converted is not left alone");
				std::basic_string<To> copy{ same };
				m.text = static_cast<std::basic_string<To>&&>(copy);
			}
			else
			{
				std::basic_string<To> out = muu::transcode<To>(v);
				sim_arm(FK_ALLOC, 0);
				compare(m, out.data(), out.size(), "converted text");
				m.text = static_cast<std::basic_string<To>&&>(out);
			}
			ok = true;
		}
		catch (const std::exception&)
		{
			thrown = true;
		}
		catch (...)
		{
			thrown	 = true;
			standard = false;
		}
		sim_arm(FK_ALLOC, 0);
		if (ok)
			break;
		Quiet q;
		sim_event(0x62, (uint64_t)attempt);
		if (!standard)
			sim_violation("exception", "a conversion threw something that is not derived from std::exception");
		if (!(m.fail && attempt < 3))
			sim_violation("spurious", "a conversion threw although memory was not short");
		sim_probe("conversion repeated after running out of memory");
	}
	bool changed = false;
	for (size_t i = 0; i < n; i++)
		changed |= buf[i] != from[i];
	if (changed)
		sim_violation("source", "converting or trimming text has modified it");
}
template <typename From>
static void receive_any(Message& m, const Hop& h, const std::basic_string<From>& from)
{
	switch (h.enc)
	{
		case 0: receive<char>(m, h, from); break;
		case 1: receive<wchar_t>(m, h, from); break;
		case 2: receive<char8_t>(m, h, from); break;
		case 3: receive<char16_t>(m, h, from); break;
		default: receive<char32_t>(m, h, from); break;
	}
}
static void pass_on(Message* m)
{
	if (m->at == m->route.size())
	{
		{
			Quiet q;
			X->arrived++;
			sim_event(0x63, (uint64_t)m->id);
		}
		std::visit([&](auto& s) { compare(*m, s.data(), s.size(), "text that has arrived"); }, m->text);
		delete m;
		std::lock_guard l{ *done_mutex };
		done++;
		done_cv->notify_all();
		return;
	}
	Peer& p = peers[m->route[m->at].peer];
	std::lock_guard l{ p.mutex };
	p.inbox.push_back(m);
	p.cv.notify_one();
}
static void run_peer(int id)
{
	Peer& p = peers[id];
	for (;;)
	{
		Message* m;
		{
			std::unique_lock l{ p.mutex };
			p.cv.wait(l, [&] { return p.closed || !p.inbox.empty(); });
			if (p.inbox.empty())
				return;
			m = p.inbox.front();
			p.inbox.pop_front();
		}
		const Hop h = m->route[m->at];
		m->at++;
		Any before = static_cast<Any&&>(m->text);
		std::visit([&](auto& s) { receive_any(*m, h, s); }, before);
		pass_on(m);
	}
}

template <typename C>
static Any make(const Text& t, bool junk, int64_t seed)
{
	std::vector<C>* units;
	{
		Quiet q;
		units = new std::vector<C>(junk ? garbage<C>(seed) : encode<C>(t));
	}
	Any a = std::basic_string<C>(units->data(), units->size());
	Quiet q;
	delete units;
	return a;
}

static void begin(const Scenario& sc)
{
	X	  = new State;
	X->sc = sc;
	sim_race_mode(1);
}
static void body()
{
	const size_t base = sim_live_allocs();
	int np;
	size_t n;
	{
		Quiet q;
		np = clampi(X->sc.get("peers", 1), 1, 8);
		n  = X->sc.ops.size();
		X->m.resize(n);
	}
	peers	   = new Peer[(size_t)np];
	done_mutex = new std::mutex;
	done_cv	   = new std::condition_variable;
	done	   = 0;
	std::vector<std::thread> threads;
	for (int i = 0; i < np; i++)
		threads.emplace_back([i] { run_peer(i); });
	for (size_t i = 0; i < n; i++)
	{
		SimOp o;
		bool junk;
		int enc;
		{
			Quiet q;
			o				= X->sc.ops[i];
			const int64_t a = o.a < 0 ? -o.a : o.a;
			junk			= a % 16 == 7;
			X->m[i].garbage = junk;
			if (!junk)
				X->m[i].text = a_text(a);
		}
		Rng r((uint64_t)o.c);
		auto* m	 = new Message;
		m->id	 = (int)i;
		m->fail	 = o.d & 1;
		enc		 = (int)r.below(5);
		for (int k = clampi(o.b, 0, MAXHOPS); k-- > 0;)
			m->route.push_back({ (int)r.below((uint64_t)np), (int)r.below(5), r.chance(0.8) ? KEEP : (int)r.range(1, 3) });
		const Text& t = X->m[i].text;
		switch (enc)
		{
			case 0: m->text = make<char>(t, junk, o.a); break;
			case 1: m->text = make<wchar_t>(t, junk, o.a); break;
			case 2: m->text = make<char8_t>(t, junk, o.a); break;
			case 3: m->text = make<char16_t>(t, junk, o.a); break;
			default: m->text = make<char32_t>(t, junk, o.a); break;
		}
		pass_on(m);
	}
	{
		std::unique_lock l{ *done_mutex };
		done_cv->wait(l, [&] { return done == n; });
	}
	for (int i = 0; i < np; i++)
	{
		std::lock_guard l{ peers[i].mutex };
		peers[i].closed = true;
		peers[i].cv.notify_all();
	}
	for (auto& t : threads)
		t.join();
	threads.clear();
	threads.shrink_to_fit();
	delete[] peers;
	delete done_mutex;
	delete done_cv;
	Quiet q;
	sim_report_leaks("leak", base);
}
static void end(int)
{
	delete X;
	X = nullptr;
}
static int stuck(std::string& why)
{
	why = "a conversion never returns";
	return 1;
}

static const Workload wl = { SIM_WL_NAME, gen, begin, body, end, stuck, op_names, OP_COUNT };
extern "C" __attribute__((visibility("default"))) const Workload* sim_workload()
{
	return &wl;
}

// string_param against a plain model of the text it was given, with failing allocations: P01.
#include "text_model.h"
#include <muu/core.h>
#include <muu/string_param.h>
#include <cstring>
#include <exception>
#include <new>
#include <ostream>
#include <streambuf>

enum Op
{
	OP_MAKE,		// a: slot, b: seed of the text, c: form | encoding << 4, d: assign the result to the slot | its allocations may fail << 20
	OP_MOVE,		// a: to (constructed anew), b: from
	OP_MOVE_ASSIGN, // a: to, b: from (may be the same)
	OP_VIEW,		// a: slot, b: encoding | twice << 4, c: as an rvalue, d: fail
	OP_TAKE,		// a: slot, b: encoding, d: fail
	OP_TRIM,		// a: slot, c: as an rvalue
	OP_PRINT,		// a: slot, b: 0 narrow / 1 wide, d: fail
	OP_DROP_SOURCE, // a: slot: the string it was made from goes away, if it says it no longer needs it
	OP_DESTROY,		// a: slot
	OP_COUNT
};
static const char* const op_names[] = { "construct", "move_construct", "move_assign", "view", "take", "trim", "print", "drop_source", "destroy" };
static constexpr int SLOTS = 4;
enum Form
{
	F_VIEW,
	F_STRING,
	F_POINTER,
	F_POINTER_LENGTH,
	F_OWNED,
	F_VIEWABLE,
	F_DEFAULT,
	F_NULL,
	F_COUNT
};
enum Enc
{
	E_CHAR,
	E_WCHAR,
	E_U8,
	E_U16,
	E_U32,
	E_COUNT
};
static int clampi(int64_t v, int n)
{
	return (int)(((v % n) + n) % n);
}

static void gen(Rng& r, Scenario& sc)
{
	auto& c					  = sc.cfg;
	c["budget1"]			  = 400000;
	c["budget2"]			  = 800000;
	static const int64_t th[] = { 0, 50000, 200000, 500000, 1000000 };
	c["f_alloc_fails"]		  = r.pick(th);
	const int n				  = (int)r.range(1, r.chance(0.3) ? 40 : 12);
	const int slots			  = (int)r.range(1, SLOTS);
	for (int i = 0; i < n; i++)
	{
		const int64_t s = r.range(0, slots - 1), t = r.range(0, slots - 1), f = r.chance(0.5);
		switch (i < slots ? 0 : r.below(18))
		{
			case 0:
			case 1:
			case 2:
			case 3: sc.ops.push_back({ OP_MAKE, 0, s, r.chance(0.05) ? 0 : text_seed(r), r.range(0, r.chance(0.1) ? F_COUNT - 1 : F_VIEWABLE) | r.range(0, E_COUNT - 1) << 4, (int64_t)r.chance(0.4) | f << 20 }); break;
			case 4: sc.ops.push_back({ OP_MOVE, 0, s, t, 0, 0 }); break;
			case 5:
			case 6: sc.ops.push_back({ OP_MOVE_ASSIGN, 0, s, t, 0, 0 }); break;
			case 7:
			case 8:
			case 9:
			case 10: sc.ops.push_back({ OP_VIEW, 0, s, r.range(0, E_COUNT - 1) | (int64_t)r.chance(0.3) << 4, r.chance(0.2), f }); break;
			case 11:
			case 12: sc.ops.push_back({ OP_TAKE, 0, s, r.range(0, E_COUNT - 1), 0, f }); break;
			case 13: sc.ops.push_back({ OP_TRIM, 0, s, 0, r.chance(0.3), 0 }); break;
			case 14: sc.ops.push_back({ OP_PRINT, 0, s, r.range(0, 1), 0, f }); break;
			case 15:
			case 16: sc.ops.push_back({ OP_DROP_SOURCE, 0, s, 0, 0, 0 }); break;
			default: sc.ops.push_back({ OP_DESTROY, 0, s, 0, 0, 0 }); break;
		}
	}
	int64_t k = 1;
	for (auto& o : sc.ops)
		if (o.kind == OP_MAKE)
			k = std::max(k, text_steps(o.b));
	c["budget1"] *= k;
	c["budget2"] *= k;
}

// ------------------------------------------------------------------ model
struct Slot
{
	Text text;
	bool garbage = false; // not well-formed: only memory safety is promised
	bool needs_source = false;
	// what it was made from (simulated memory)
	void* buffer = nullptr;
	size_t bytes = 0;
	std::vector<unsigned char> copy;
	void (*release)(void*) = nullptr; // for a string object
	void* object		   = nullptr;
};
struct State
{
	Scenario sc;
	Slot m[SLOTS];
};
static State* X;
static muu::string_param** slot;

static void forget_source(int s)
{
	void *buf, *obj;
	void (*rel)(void*);
	{
		Quiet q;
		Slot& m = X->m[s];
		buf = m.buffer, obj = m.object, rel = m.release;
		if (buf && memcmp(buf, m.copy.data(), m.bytes))
			sim_violation("source", "the string that a string_param was viewing has been modified");
		m.buffer = m.object = nullptr;
		m.release	= nullptr;
		m.copy.clear();
		if (buf && !obj)
			memset(buf, '#', m.bytes); // no longer what it was
	}
	if (obj)
		rel(obj);
	else if (buf)
		::operator delete(buf);
}
static void drop(int s)
{
	if (slot[s])
	{
		delete slot[s];
		slot[s] = nullptr;
	}
	forget_source(s);
	Quiet q;
	X->m[s] = Slot{};
}

// the contents of the slot, as units of C
template <typename C>
static void compare(int s, const C* p, size_t n, const char* what, const char* when)
{
	for (size_t i = 0; i < n; i++)
	{
		// (may be accessed)
		const C c = *(const volatile C*)(p + i);
		Quiet q;
		sim_event(0x51, (uint64_t)c);
	}
	Quiet q;
	const Slot& m = X->m[s];
	if (m.garbage)
		return;
	const std::vector<C> want = encode<C>(m.text);
	if (want.size() != n)
		sim_violation("text", "%s of a string_param holding %zu code points has %zu units instead of %zu (%s)", what, m.text.size(), n, want.size(), when);
	for (size_t i = 0; i < n; i++)
		if (p[i] != want[i])
			sim_violation("text", "unit %zu of %zu of %s of a string_param is %llx instead of %llx (%s)", i, n, what, (unsigned long long)p[i], (unsigned long long)want[i], when);
}
static void check(int s, const char* when)
{
	if (!slot[s])
		return;
	const muu::string_param& p = *slot[s];
	const bool e = p.empty(), b = (bool)p, own = p.owning();
	Quiet q;
	const Slot& m = X->m[s];
	sim_event(0x52, (uint64_t)e | (uint64_t)own << 1);
	if (e == b)
		sim_violation("empty", "a string_param is %s and converts to %s (%s)", e ? "empty" : "not empty", b ? "true" : "false", when);
	if (!m.garbage && e != m.text.empty())
		sim_violation("empty", "a string_param that should hold %zu code points is %s (%s)", m.text.size(), e ? "empty" : "not empty", when);
	if (e && own)
		sim_violation("empty", "an empty string_param claims to own a string (%s)", when);
	if (!m.garbage && !e && !own && !m.needs_source)
		sim_violation("owning", "a string_param that was given its own string does not own it (%s)", when);
	if (m.buffer && memcmp(m.buffer, m.copy.data(), m.bytes))
		sim_violation("source", "the string that a string_param was viewing has been modified (%s)", when);
}
// runs an operation during which allocations may fail. Returns whether it succeeded.
template <typename F>
static bool attempt(bool fail, const char* what, F&& f)
{
	bool thrown = false, standard = true;
	const size_t live = sim_live_allocs();
	if (fail)
		sim_arm(FK_ALLOC, 1);
	try
	{
		f();
	}
	catch (const std::exception&)
	{
		thrown = true;
	}
	catch (...)
	{
		thrown	 = true;
		standard = false;
	}
	sim_arm(FK_ALLOC, 0);
	Quiet q;
	sim_event(0x53, thrown);
	if (thrown)
	{
		if (!standard)
			sim_violation("exception", "%s threw something that is not derived from std::exception", what);
		if (!fail)
			sim_violation("spurious", "%s threw although memory was not short", what);
		if (sim_live_allocs() != live)
			sim_report_leaks("leak", live);
		sim_probe(what);
	}
	return !thrown;
}

template <typename C>
struct Viewable // something else that converts to a view
{
	const C* p;
	size_t n;
	operator std::basic_string_view<C>() const noexcept
	{
		return { p, n };
	}
};
template <typename C>
static C* buffer_of(int s, const std::vector<C>& units, bool terminated)
{
	// exactly as long as it must be (runs outside Quiet: the buffer belongs to the program under test)
	const size_t n = units.size() + (terminated ? 1 : 0);
	C* p		   = (C*)::operator new(n ? n * sizeof(C) : 1);
	for (size_t i = 0; i < units.size(); i++)
		p[i] = units[i];
	if (terminated)
		p[units.size()] = C{};
	Quiet q;
	Slot& m	 = X->m[s];
	m.buffer = p;
	m.bytes	 = n * sizeof(C);
	m.copy.assign((unsigned char*)p, (unsigned char*)p + m.bytes);
	return p;
}
// move-constructs or move-assigns the slot from a fresh string_param
template <typename F>
static void place(int s, bool assign, F&& make)
{
	if (assign && slot[s])
	{
		muu::string_param& p   = *slot[s];
		muu::string_param& ret = (p = make());
		if (&ret != &p)
			sim_violation("access", "assignment does not return the string_param");
	}
	else
		slot[s] = new muu::string_param(make());
}
template <typename C>
static void do_make(int s, const SimOp& o)
{
	using str		= std::basic_string<C>;
	using view		= std::basic_string_view<C>;
	int form		= clampi(o.c & 15, F_COUNT);
	const bool into = (o.d & 1) && slot[s];
	std::vector<C>* units;
	Slot* fresh;
	bool terminator_inside = false;
	{
		Quiet q;
		fresh			= new Slot;
		const bool junk = o.b % 16 == 7;
		fresh->garbage	= junk;
		if (!junk)
			fresh->text = a_text(o.b < 0 ? -o.b : o.b);
		units = new std::vector<C>(junk ? garbage<C>(o.b) : encode<C>(fresh->text));
		for (C c : *units)
			terminator_inside |= c == C{};
		if (terminator_inside && form == F_POINTER)
			form = F_POINTER_LENGTH;
	}
	// where the text comes from stays until the slot's previous contents are gone
	Slot* previous;
	if (!into)
		drop(s);
	{
		Quiet q;
		previous = new Slot(X->m[s]);
		X->m[s]	 = Slot{};
	}
	switch (form)
	{
		case F_VIEW:
		{
			const C* p = buffer_of(s, *units, false);
			place(s, into, [&] { return muu::string_param{ view{ p, units->size() } }; });
			break;
		}
		case F_POINTER:
		{
			const C* p = buffer_of(s, *units, true);
			place(s, into, [&] { return muu::string_param{ p }; });
			break;
		}
		case F_POINTER_LENGTH:
		{
			const C* p = buffer_of(s, *units, false);
			place(s, into, [&] { return muu::string_param{ p, units->size() }; });
			break;
		}
		case F_VIEWABLE:
		{
			const C* p = buffer_of(s, *units, false);
			place(s, into, [&] { return muu::string_param{ Viewable<C>{ p, units->size() } }; });
			break;
		}
		case F_STRING:
		{
			str* obj = new str(units->data(), units->size());
			{
				Quiet q;
				Slot& m	  = X->m[s];
				m.object  = obj;
				m.release = [](void* p) { delete (str*)p; };
				m.buffer  = obj->data();
				m.bytes	  = obj->size() * sizeof(C);
				m.copy.assign((unsigned char*)m.buffer, (unsigned char*)m.buffer + m.bytes);
			}
			place(s, into, [&] { return muu::string_param{ static_cast<const str&>(*obj) }; });
			break;
		}
		case F_OWNED:
		{
			str obj(units->data(), units->size());
			place(s, into, [&] { return muu::string_param{ static_cast<str&&>(obj) }; });
			// what is left of the source may be used for something else
			obj.assign(9, C('?'));
			break;
		}
		case F_DEFAULT:
			place(s, into, [&] { return muu::string_param{}; });
			break;
		default:
			place(s, into, [&] { return o.b & 1 ? muu::string_param{ static_cast<const C*>(nullptr) } : muu::string_param{ static_cast<const C*>(nullptr), 5 }; });
			break;
	}
	void *obj, *buf;
	void (*rel)(void*);
	{
		Quiet q;
		Slot& m		   = X->m[s];
		m.text		   = fresh->text;
		m.garbage	   = fresh->garbage;
		m.needs_source = form != F_OWNED;
		if (form >= F_DEFAULT)
		{
			m.text.clear();
			m.garbage = false;
		}
		obj = previous->object, buf = previous->buffer, rel = previous->release;
		if (buf && memcmp(buf, previous->copy.data(), previous->bytes))
			sim_violation("source", "the string that a string_param was viewing has been modified");
		if (buf && !obj)
			memset(buf, '#', previous->bytes);
		delete previous;
		delete fresh;
		delete units;
	}
	if (obj)
		rel(obj);
	else if (buf)
		::operator delete(buf);
}
static void move_model(int from, int to)
{
	Quiet q;
	X->m[to]   = X->m[from];
	X->m[from] = Slot{};
}
template <typename C>
static void do_view(int s, const SimOp& o)
{
	muu::string_param& p = *slot[s];
	std::basic_string_view<C> v{}, again{};
	const bool ok = attempt(o.d & 1, op_names[o.kind],
							[&]
							{
								if (o.c & 1)
									v = std::basic_string_view<C>{ static_cast<const muu::string_param&&>(p) };
								else
									v = static_cast<const muu::string_param&>(p);
							});
	if (!ok)
		return;
	compare(s, v.data(), v.size(), "a view", "view");
	if ((o.b >> 4) & 1)
	{
		// a view stays usable while nothing but the same question is asked
		again = p;
		(void)p.empty();
		(void)p.owning();
		compare(s, v.data(), v.size(), "an earlier view", "view");
		compare(s, again.data(), again.size(), "a second view", "view");
	}
}
template <typename C>
static void do_take(int s, const SimOp& o)
{
	muu::string_param& p = *slot[s];
	std::basic_string<C> out;
	if (!attempt(o.d & 1, op_names[o.kind],
				 [&]
				 {
					 std::basic_string<C> got = static_cast<muu::string_param&&>(p);
					 out.swap(got);
				 }))
		return;
	compare(s, out.data(), out.size(), "the string moved out", "take");
	// moved from: it holds all of its text still, or nothing
	if (p.empty())
	{
		Quiet q;
		X->m[s].text.clear();
		X->m[s].garbage = false;
	}
}
template <typename C>
struct Sink : std::basic_streambuf<C>
{
	C* p;
	size_t n = 0, cap;
	Sink(C* p_, size_t c)
		: p{ p_ },
		  cap{ c }
	{}
	void put(C c)
	{
		if (n < cap)
			p[n] = c;
		n++;
	}
	typename std::basic_streambuf<C>::int_type overflow(typename std::basic_streambuf<C>::int_type c) override
	{
		put((C)c);
		return std::char_traits<C>::not_eof(c);
	}
	std::streamsize xsputn(const C* s, std::streamsize k) override
	{
		for (std::streamsize i = 0; i < k; i++)
			put(s[i]);
		return k;
	}
};
template <typename C>
static void do_print(int s, const SimOp& o)
{
	const muu::string_param& p = *slot[s];
	constexpr size_t cap	   = 2000;
	C* mem					   = (C*)::operator new(cap * sizeof(C));
	{
		Sink<C> sink(mem, cap);
		std::basic_ostream<C> os(&sink);
		if (attempt(o.d & 1, op_names[o.kind], [&] { os << p; }))
		{
			if (!os.good())
				sim_violation("text", "printing a string_param made the stream fail");
			if (sink.n <= cap)
				compare(s, mem, sink.n, "the output", "print");
		}
		else if (sink.n)
			sim_violation("text", "printing a string_param threw after printing some of it");
	}
	::operator delete(mem);
}
template <template <typename> class F>
static void with_enc(int enc, int s, const SimOp& o)
{
	switch (enc)
	{
		case E_CHAR: F<char>{}(s, o); break;
		case E_WCHAR: F<wchar_t>{}(s, o); break;
		case E_U8: F<char8_t>{}(s, o); break;
		case E_U16: F<char16_t>{}(s, o); break;
		default: F<char32_t>{}(s, o); break;
	}
}
template <typename C>
struct Make
{
	void operator()(int s, const SimOp& o) { do_make<C>(s, o); }
};
template <typename C>
struct View
{
	void operator()(int s, const SimOp& o) { do_view<C>(s, o); }
};
template <typename C>
struct Take
{
	void operator()(int s, const SimOp& o) { do_take<C>(s, o); }
};

static void run_op(const SimOp& o)
{
	const int s = clampi(o.a, SLOTS), t = clampi(o.b, SLOTS);
	switch (o.kind)
	{
		case OP_MAKE: with_enc<Make>(clampi(o.c >> 4, E_COUNT), s, o); break;
		case OP_MOVE:
			if (s == t || !slot[t])
				break;
			drop(s);
			slot[s] = new muu::string_param(static_cast<muu::string_param&&>(*slot[t]));
			move_model(t, s);
			break;
		case OP_MOVE_ASSIGN:
		{
			if (!slot[s] || !slot[t])
				break;
			muu::string_param& from = *slot[t];
			muu::string_param* ret	= &(*slot[s] = static_cast<muu::string_param&&>(from));
			if (ret != slot[s])
				sim_violation("access", "assignment does not return the string_param");
			if (s != t)
			{
				forget_source(s);
				move_model(t, s);
			}
			break;
		}
		case OP_VIEW:
			if (slot[s])
				with_enc<View>(clampi(o.b & 15, E_COUNT), s, o);
			break;
		case OP_TAKE:
			if (slot[s])
				with_enc<Take>(clampi(o.b, E_COUNT), s, o);
			break;
		case OP_TRIM:
		{
			if (!slot[s])
				break;
			muu::string_param& p = *slot[s];
			if (o.c & 1)
			{
				muu::string_param&& r = static_cast<muu::string_param&&>(p).trim();
				if (&r != &p)
					sim_violation("access", "trim() does not return the string_param");
			}
			else if (&p.trim() != &p)
				sim_violation("access", "trim() does not return the string_param");
			Quiet q;
			Text k = trimmed(X->m[s].text);
			X->m[s].text.swap(k);
			break;
		}
		case OP_PRINT:
			if (slot[s])
			{
				if (o.b & 1)
					do_print<wchar_t>(s, o);
				else
					do_print<char>(s, o);
			}
			break;
		case OP_DROP_SOURCE:
			if (slot[s] && (slot[s]->owning() || slot[s]->empty()))
				forget_source(s);
			break;
		case OP_DESTROY: drop(s); break;
	}
	for (int k = 0; k < SLOTS; k++)
		check(k, op_names[o.kind]);
}

static void begin(const Scenario& sc)
{
	X	  = new State;
	X->sc = sc;
	sim_race_mode(0);
	static bool warm;
	if (!warm)
	{
		// facets come into being
		char a[8];
		wchar_t b[8];
		Sink<char> x(a, 8);
		Sink<wchar_t> y(b, 8);
		std::ostream o(&x);
		std::wostream w(&y);
		o << std::string_view{ "x" };
		w << std::wstring_view{ L"x" };
		warm = true;
	}
}
static void body()
{
	const size_t base = sim_live_allocs();
	slot			  = new muu::string_param*[SLOTS]();
	size_t n;
	{
		Quiet q;
		n = X->sc.ops.size();
	}
	for (size_t i = 0; i < n; i++)
	{
		SimOp o;
		{
			Quiet q;
			o = X->sc.ops[i];
			sim_event(0x54, i);
		}
		if (o.kind >= 0 && o.kind < OP_COUNT)
			run_op(o);
	}
	for (int s = 0; s < SLOTS; s++)
		drop(s);
	delete[] slot;
	Quiet q;
	sim_report_leaks("leak", base);
}
static void end(int)
{
	delete X;
	X = nullptr;
}
static int stuck(std::string& why)
{
	why = "an operation on a string_param never returns";
	return 1;
}

static const Workload wl = { SIM_WL_NAME, gen, begin, body, end, stuck, op_names, OP_COUNT };
extern "C" __attribute__((visibility("default"))) const Workload* sim_workload()
{
	return &wl;
}

// Printing to streams over unreliable devices: O01, O02.
#include "../sim/rt.h"
#include <muu/core.h>
#include <muu/axis_angle.h>
#include <muu/bounding_box.h>
#include <muu/bounding_sphere.h>
#include <muu/euler_angles.h>
#include <muu/fixed_string.h>
#include <muu/half.h>
#include <muu/hashing.h>
#include <muu/line_segment.h>
#include <muu/matrix.h>
#include <muu/packed_unit_vector.h>
#include <muu/plane.h>
#include <muu/quaternion.h>
#include <muu/ray.h>
#include <muu/string_param.h>
#include <muu/triangle.h>
#include <muu/uuid.h>
#include <muu/vector.h>
#include <cstring>
#include <limits>
#include <locale>
#include <memory>
#include <ostream>
#include <streambuf>
#include <string>
#include <thread>
#include <type_traits>

enum Op
{
	OP_PRINT, // a: type of object, b: value, c: prior format, d: which of the client's streams
	OP_CLEAR, // d: stream. clears the error state
	OP_TEXT,  // d: stream. something that is not ours is printed in between
	OP_COUNT
};
static const char* const op_names[] = { "print", "clear", "other_text" };
static constexpr int CLIENTS = 5, STREAMS = 4; // streams 0, 1: narrow; 2, 3: wide
static int64_t clampi(int64_t v, int64_t lo, int64_t hi)
{
	return v < lo ? lo : v > hi ? hi : v;
}

// ------------------------------------------------------------------ the objects
template <typename T>
static T scalar(Rng& r)
{
	if constexpr (std::is_same_v<T, muu::half>)
	{
		return T{ scalar<float>(r) };
	}
	else if constexpr (std::is_floating_point_v<T> || std::is_same_v<T, _Float16>)
	{
		switch (r.below(12))
		{
			case 0: return static_cast<T>(0);
			case 1: return static_cast<T>(-0.0f);
			case 2: return static_cast<T>(std::numeric_limits<float>::infinity());
			case 3: return static_cast<T>(-std::numeric_limits<float>::infinity());
			case 4: return static_cast<T>(std::numeric_limits<float>::quiet_NaN());
			case 5: return static_cast<T>(static_cast<float>(r.next()));
			case 6: return static_cast<T>(1.0f / static_cast<float>(r.range(1, 1 << 30)));
			default: return static_cast<T>(static_cast<float>(r.range(-1000000, 1000000)) / static_cast<float>(r.range(1, 5000)));
		}
	}
	else
	{
		switch (r.below(6))
		{
			case 0: return T{};
			case 1: return static_cast<T>(r.next());
			case 2: return static_cast<T>(~(T)0);
			default: return static_cast<T>(r.range(-300, 300));
		}
	}
}
template <typename T, size_t N>
static muu::vector<T, N> vec(Rng& r)
{
	muu::vector<T, N> v;
	for (size_t i = 0; i < N; i++)
		v[i] = scalar<T>(r);
	return v;
}
template <typename M>
static M mat(Rng& r)
{
	M m;
	using S = typename M::scalar_type;
	static_assert(sizeof(M) == sizeof(S) * M::rows * M::columns);
	S s[M::rows * M::columns];
	for (auto& x : s)
		x = scalar<S>(r);
	memcpy(static_cast<void*>(&m), s, sizeof m);
	return m;
}
template <typename C, typename T>
static void put(std::basic_ostream<C>& os, const T& v)
{
	os << v;
}

template <typename C>
struct Type
{
	const char* name;
	bool formatted; // one of the types O02 speaks of
	void (*print)(std::basic_ostream<C>&, Rng&);
};
#define V_(T, N)                                                                                                       \
	{                                                                                                                  \
		"vector<" #T "," #N ">", true, [](std::basic_ostream<C>& os, Rng& r) { put(os, vec<T, N>(r)); }                    \
	}
#define M_(T, R, K)                                                                                                    \
	{                                                                                                                  \
		"matrix<" #T "," #R "," #K ">", true, [](std::basic_ostream<C>& os, Rng& r) { put(os, mat<muu::matrix<T, R, K>>(r)); } \
	}
#define O_(N, F, ...)                                                                                                  \
	{                                                                                                                  \
		N, F, [](std::basic_ostream<C>& os, Rng& r) { put(os, __VA_ARGS__); }                                              \
	}
using i8  = signed char;
using u8  = unsigned char;
using i16 = short;
using u16 = unsigned short;
using i64 = long long;
using u64 = unsigned long long;
using ld  = long double;
using i128 = __int128;
using u128 = unsigned __int128;
using il  = long;
using ul  = unsigned long;
using muu::half;
using f16 = _Float16;

template <typename C>
static muu::axis_angle<C> aa(Rng& r)
{
	muu::axis_angle<C> a;
	a.axis	= vec<C, 3>(r);
	a.angle = scalar<C>(r);
	return a;
}
static muu::uuid id(Rng& r)
{
	muu::uuid u;
	const uint64_t w[2] = { r.next(), r.next() };
	memcpy(static_cast<void*>(&u), w, 16);
	return u;
}
template <size_t W>
static muu::fnv1a<W> fnv(Rng& r)
{
	muu::fnv1a<W> h;
	const uint64_t w = r.next();
	h(std::string_view{ reinterpret_cast<const char*>(&w), 8 });
	return h;
}
static muu::sha1 sha(Rng& r)
{
	muu::sha1 h;
	const uint64_t w = r.next();
	h(std::string_view{ reinterpret_cast<const char*>(&w), 8 });
	h.finish();
	return h;
}
static const char* const words[] = { "", "x", "a word", "something that is too long for the string to be kept within the object itself" };
static const wchar_t* const wwords[] = { L"", L"x", L"a word", L"something that is too long for the string to be kept within the object itself" };

template <typename C>
static const std::vector<Type<C>>& types()
{
	static const std::vector<Type<C>>* t = [] {
		auto* v = new std::vector<Type<C>>{
			V_(float, 1), V_(float, 2), V_(float, 3), V_(float, 4), V_(double, 3), V_(double, 4), V_(half, 3), V_(ld, 3), V_(i8, 4), V_(u8, 3),
			V_(i16, 3), V_(u16, 2), V_(int, 3), V_(unsigned, 4), V_(il, 2), V_(ul, 3), V_(i64, 3), V_(u64, 2), V_(f16, 3), V_(i128, 2), V_(u128, 3),
			V_(int, 9), M_(float, 1, 3), M_(float, 4, 4), M_(double, 3, 3), M_(half, 2, 2), M_(ld, 2, 3), M_(i8, 2, 2), M_(u8, 3, 1), M_(i16, 2, 4),
			M_(u16, 4, 2), M_(int, 3, 2), M_(unsigned, 2, 5), M_(il, 2, 2), M_(ul, 1, 2), M_(i64, 3, 3), M_(u64, 2, 2), M_(i128, 2, 2), M_(f16, 2, 2),
			O_("quaternion<float>", true, muu::quaternion<float>{ scalar<float>(r), vec<float, 3>(r) }),
			O_("quaternion<double>", true, muu::quaternion<double>{ scalar<double>(r), vec<double, 3>(r) }),
			O_("axis_angle<float>", true, aa<float>(r)),
			O_("axis_angle<double>", true, aa<double>(r)),
			O_("euler_angles<float>", true, muu::euler_angles<float>{ scalar<float>(r), scalar<float>(r), scalar<float>(r) }),
			O_("euler_angles<double>", true, muu::euler_angles<double>{ scalar<double>(r), scalar<double>(r), scalar<double>(r) }),
			O_("plane<float>", true, muu::plane<float>{ vec<float, 3>(r), scalar<float>(r) }),
			O_("plane<double>", true, muu::plane<double>{ vec<double, 3>(r), scalar<double>(r) }),
			O_("ray<float>", true, muu::ray<float>{ vec<float, 3>(r), vec<float, 3>(r) }),
			O_("ray<double>", true, muu::ray<double>{ vec<double, 3>(r), vec<double, 3>(r) }),
			O_("triangle<float>", true, muu::triangle<float>{ vec<float, 3>(r), vec<float, 3>(r), vec<float, 3>(r) }),
			O_("triangle<double>", true, muu::triangle<double>{ vec<double, 3>(r), vec<double, 3>(r), vec<double, 3>(r) }),
			O_("line_segment<float>", true, muu::line_segment<float>{ vec<float, 3>(r), vec<float, 3>(r) }),
			O_("line_segment<ld>", true, muu::line_segment<ld>{ vec<ld, 3>(r), vec<ld, 3>(r) }),
			O_("bounding_box<float>", true, muu::bounding_box<float>{ vec<float, 3>(r), vec<float, 3>(r) }),
			O_("bounding_box<double>", true, muu::bounding_box<double>{ vec<double, 3>(r), vec<double, 3>(r) }),
			O_("bounding_sphere<float>", true, muu::bounding_sphere<float>{ vec<float, 3>(r), scalar<float>(r) }),
			O_("bounding_sphere<ld>", true, muu::bounding_sphere<ld>{ vec<ld, 3>(r), scalar<ld>(r) }),
			O_("packed_unit_vector", true, muu::packed_unit_vector<uint32_t, 3>{ muu::vector<float, 3>::normalize(muu::vector<float, 3>{ (float)r.range(1, 9), (float)r.range(-9, 9), (float)r.range(-9, 9) }) }),
			O_("half", false, scalar<half>(r)),
			O_("uuid", false, id(r)),
			O_("string_param", false, muu::string_param{ words[r.below(4)] }),
		};
		if constexpr (std::is_same_v<C, char>)
		{
			v->push_back(O_("sha1", false, sha(r)));
			v->push_back(O_("fnv1a<32>", false, fnv<32>(r)));
			v->push_back(O_("fnv1a<64>", false, fnv<64>(r)));
			v->push_back(O_("hex_char_pair", false, muu::byte_to_hex((uint8_t)r.next())));
			v->push_back(O_("fixed_string", false, muu::fixed_string{ "fixed string" }));
		}
		else
			v->push_back(O_("fixed_string", false, muu::fixed_string{ L"fixed string" }));
		return v;
	}();
	return *t;
}
static constexpr int64_t TYPES = 64;

// ------------------------------------------------------------------ generation
static void gen(Rng& r, Scenario& sc)
{
	auto& c		   = sc.cfg;
	const bool o1  = sc.prop == "O01";
	c["clients"]   = r.range(1, o1 ? (r.chance(0.2) ? 3 : 1) : (r.chance(0.3) ? CLIENTS : 3));
	c["budget1"]   = 300000;
	c["budget2"]   = 600000;
	c["buffer"]	   = r.chance(0.35) ? r.range(1, 24) : 0; // size of the device's buffer
	static const int64_t df[] = { 0, 5000, 30000, 100000, 400000 };
	c["f_device_fault"]		  = r.pick(df);
	if (o1 && c["f_device_fault"] == 0)
		c["f_device_fault"] = 60000;
	static const int64_t st[] = { 0, 0, 300, 3000 };
	c["f_thread_stall"]		  = r.pick(st);
	const int n				  = (int)r.range(1, r.chance(0.2) ? 30 : 10);
	const bool same			  = r.chance(0.3); // everybody prints the same sort of thing
	const int64_t st0		  = r.range(0, TYPES - 1);
	for (int i = 0; i < n; i++)
	{
		const int thr	= (int)r.below((uint64_t)c["clients"]);
		const int64_t s = r.range(0, STREAMS - 1);
		if (r.chance(0.25))
			sc.ops.push_back({ OP_CLEAR, thr, 0, 0, 0, s });
		if (r.chance(0.1))
			sc.ops.push_back({ OP_TEXT, thr, 0, 0, 0, s });
		sc.ops.push_back({ OP_PRINT, thr, same ? st0 : r.range(0, TYPES - 1), r.range(0, 1 << 20), r.chance(0.2) ? 0 : r.range(1, 1 << 20), s });
	}
}

// ------------------------------------------------------------------ the device
struct DeviceError
{
	int client;
};
static bool fault_on[CLIENTS + 1];

template <typename C>
struct Device final : std::basic_streambuf<C>
{
	using Tr = std::char_traits<C>;
	std::basic_string<C>* sink; // on the host's heap
	int owner;
	bool broken		= false; // rejects everything from now on
	bool throws		= false; // throws from now on
	int failures	= 0;	 // faults that the stream was told of
	int thrown		= 0;
	bool may_sync_fail = false;
	C buf[32];
	size_t buf_size;

	Device(int owner_, size_t buffer) : owner{ owner_ }, buf_size{ buffer > 32 ? 32 : buffer }
	{
		{
			Quiet q;
			sink = new std::basic_string<C>;
		}
		if (buf_size)
			this->setp(buf, buf + buf_size);
	}
	~Device()
	{
		Quiet q;
		delete sink;
	}
	size_t accepted() const
	{
		return sink->size() + (size_t)(this->pptr() - this->pbase());
	}
	std::basic_string<C> text() const // (quiet)
	{
		return *sink + std::basic_string<C>(this->pbase(), this->pptr());
	}
	// writes to the medium, returns how much it took
	size_t write(const C* s, size_t n)
	{
		sim_yield();
		size_t take = n;
		bool thr	= false;
		{
			Quiet q;
			if (n && fault_on[owner])
			{
				if (broken)
					take = 0;
				else if (throws)
				{
					take = 0;
					thr	 = true;
				}
				else if (const uint64_t f = sim_fault(FK_DEVICE, 6 * 16))
				{
					const size_t at = ((f - 1) / 6) % (n < 16 ? n : 16); // fails at this character
					switch ((f - 1) % 6)
					{
						case 0: take = at; break; // takes no more this time
						case 1: take = 0; break;  // refuses all of it this time
						case 2:
							take   = at;
							broken = true;
							break;
						case 3:
							take = at;
							thr	 = true;
							break;
						case 4:
							take = 0;
							thr	 = true;
							break;
						default:
							take   = at;
							thr	   = true;
							throws = true;
					}
				}
			}
			sink->append(s, take);
			sim_event((uint64_t)take, n);
			if (take < n)
				failures++;
			if (thr)
				thrown++;
		}
		if (thr)
			throw DeviceError{ owner };
		return take;
	}
	bool flush()
	{
		while (this->pptr() > this->pbase())
		{
			const size_t n = (size_t)(this->pptr() - this->pbase());
			size_t before;
			{
				Quiet q;
				before = sink->size();
			}
			size_t k;
			try
			{
				k = write(this->pbase(), n);
			}
			catch (...)
			{
				{
					Quiet q;
					k = sink->size() - before;
				}
				drop(k, n);
				throw;
			}
			drop(k, n);
			if (k < n)
				return false;
		}
		return true;
	}
	void drop(size_t k, size_t n)
	{
		memmove(buf, buf + k, (n - k) * sizeof(C));
		this->setp(buf, buf + buf_size);
		this->pbump((int)(n - k));
	}
	typename Tr::int_type overflow(typename Tr::int_type c) override
	{
		if (Tr::eq_int_type(c, Tr::eof()))
			return flush() ? Tr::not_eof(c) : Tr::eof();
		if (buf_size)
		{
			if (!flush())
				return Tr::eof();
			*this->pptr() = Tr::to_char_type(c);
			this->pbump(1);
			return c;
		}
		const C ch = Tr::to_char_type(c);
		return write(&ch, 1) == 1 ? c : Tr::eof();
	}
	std::streamsize xsputn(const C* s, std::streamsize n) override
	{
		if (buf_size)
			return std::basic_streambuf<C>::xsputn(s, n);
		return (std::streamsize)write(s, (size_t)n);
	}
	int sync() override
	{
		bool fail = false;
		{
			Quiet q;
			if (fault_on[owner] && may_sync_fail && sim_fault(FK_DEVICE, 1))
			{
				failures++;
				fail = true;
			}
		}
		return fail ? -1 : 0;
	}
};

// ------------------------------------------------------------------ state
struct State
{
	Scenario sc;
	std::vector<SimOp> ops[CLIENTS];
	std::vector<std::string> want[CLIENTS]; // what an unfailing device would have received
	std::vector<std::wstring> wwant[CLIENTS];
};
static State* X;
static bool is(const char* p)
{
	return X->sc.prop == p;
}

struct Punct : std::numpunct<char>
{
	char do_decimal_point() const override { return ','; }
	char do_thousands_sep() const override { return '.'; }
	std::string do_grouping() const override { return "\3"; }
};
struct WPunct : std::numpunct<wchar_t>
{
	wchar_t do_decimal_point() const override { return L','; }
	wchar_t do_thousands_sep() const override { return L'.'; }
	std::string do_grouping() const override { return "\3"; }
};
static const std::locale* other_locale;

struct Null : std::streambuf
{
	int overflow(int c) override { return c; }
};
struct WNull : std::wstreambuf
{
	wint_t overflow(wint_t c) override { return c; }
};

struct Format
{
	std::ios_base::fmtflags flags;
	std::streamsize precision, width;
	int fill;
	bool locale;
	std::ios_base::iostate exceptions;
};
static Format format(int64_t seed, uint64_t client)
{
	Format f{ std::ios_base::dec | std::ios_base::skipws, 6, 0, ' ', false, std::ios_base::goodbit };
	if (!seed)
		return f;
	Rng r((uint64_t)seed * 77 + client);
	static const std::ios_base::fmtflags base[] = { std::ios_base::dec, std::ios_base::dec, std::ios_base::hex, std::ios_base::oct, std::ios_base::fmtflags{} };
	static const std::ios_base::fmtflags fl[]	= { std::ios_base::fmtflags{}, std::ios_base::fixed, std::ios_base::scientific, std::ios_base::fixed | std::ios_base::scientific };
	static const std::ios_base::fmtflags adj[]	= { std::ios_base::fmtflags{}, std::ios_base::left, std::ios_base::right, std::ios_base::internal };
	f.flags = r.pick(base) | r.pick(fl) | r.pick(adj);
	for (auto bit : { std::ios_base::showpos, std::ios_base::showbase, std::ios_base::showpoint, std::ios_base::uppercase, std::ios_base::boolalpha, std::ios_base::skipws })
		if (r.chance(0.25))
			f.flags |= bit;
	if (r.chance(0.15))
		f.flags |= std::ios_base::unitbuf;
	f.precision = r.range(0, 18);
	f.width		= r.chance(0.5) ? 0 : r.range(1, 20);
	static const int fills[] = { ' ', '*', '0', '_' };
	f.fill					 = r.pick(fills);
	f.locale				 = r.chance(0.2);
	static const std::ios_base::iostate ex[] = { std::ios_base::goodbit, std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::failbit, std::ios_base::badbit | std::ios_base::failbit,
												 std::ios_base::badbit | std::ios_base::failbit | std::ios_base::eofbit };
	f.exceptions = r.pick(ex);
	return f;
}
template <typename C>
static void set_format(std::basic_ostream<C>& os, const Format& f)
{
	if (f.locale)
		os.imbue(*other_locale);
	else
		os.imbue(std::locale::classic());
	os.flags(f.flags);
	os.precision(f.precision);
	os.width(f.width);
	os.fill((C)f.fill);
}

static const char* state_text(std::ios_base::iostate s)
{
	static char t[4][32];
	static int n;
	char* p = t[n++ & 3];
	snprintf(p, 32, "%s%s%s%s", s & std::ios_base::badbit ? "bad " : "", s & std::ios_base::failbit ? "fail " : "", s & std::ios_base::eofbit ? "eof " : "", s ? "" : "good");
	return p;
}
static std::string show(const std::string& s)
{
	return s;
}
static std::string show(const std::wstring& s)
{
	std::string o;
	for (auto c : s)
		o += c < 127 ? (char)c : '?';
	return o;
}

// ------------------------------------------------------------------ one print
template <typename C>
struct Channel
{
	Device<C> dev;
	std::basic_ostream<C> os;
	Channel(int owner, size_t buffer) : dev{ owner, buffer }, os{ &dev } {}
};
template <typename C>
static void print_one(Channel<C>& ch, const SimOp& o, int k, const std::basic_string<C>* want)
{
	using S				 = std::ios_base;
	auto& os			 = ch.os;
	const auto& t		 = types<C>();
	const Type<C>& type	 = t[(size_t)(((o.a % (int64_t)t.size()) + (int64_t)t.size()) % (int64_t)t.size())];
	Format f			 = format(o.c, (uint64_t)0);
	const auto state0	 = os.rdstate();
	if (state0 & f.exceptions)
		f.exceptions = S::goodbit;
	os.exceptions(f.exceptions);
	set_format(os, f);
	Rng r((uint64_t)o.b + 1);
	size_t before;
	int failures0, thrown0;
	{
		Quiet q;
		before				 = ch.dev.accepted();
		failures0			 = ch.dev.failures;
		thrown0				 = ch.dev.thrown;
		ch.dev.may_sync_fail = !(f.exceptions & S::badbit) && !state0;
	}
	// 0: returned, 1: the stream's own exception, 2: the device's, 3: something else
	int outcome = 0;
	try
	{
		type.print(os, r);
	}
	catch (const std::ios_base::failure&)
	{
		outcome = 1;
	}
	catch (const DeviceError& e)
	{
		outcome = e.client == k ? 2 : 3;
	}
	catch (...)
	{
		outcome = 3;
	}
	const auto state  = os.rdstate();
	const auto flags  = os.flags();
	const auto prec	  = os.precision();
	const auto width  = os.width();
	const C fill	  = os.fill();
	const auto except = os.exceptions();
	os.exceptions(S::goodbit);
	Quiet q;
	ch.dev.may_sync_fail = false;
	const std::basic_string<C> got = ch.dev.text().substr(before);
	const bool failed	= ch.dev.failures > failures0;
	const bool threw	= ch.dev.thrown > thrown0;
	sim_event((uint64_t)got.size(), (uint64_t)state ^ ((uint64_t)outcome << 8));
	if (failed)
		sim_probe(threw ? "device threw while an object was printed" : "device rejected part of an object");
	if (failed && outcome)
		sim_probe("failure reported as an exception");
	if (state0)
		sim_probe("printed to a stream that had failed before");
	if (is("O02"))
	{
		if (type.formatted)
		{
			const char* how = outcome ? "threw" : failed ? "failed" : "succeeded";
			if (flags != f.flags)
				sim_violation("flags", "printing a %s %s and left format flags %#x on a stream that had %#x", type.name, how, (unsigned)flags, (unsigned)f.flags);
			if (prec != f.precision)
				sim_violation("precision", "printing a %s %s and left precision %d on a stream that had %d", type.name, how, (int)prec, (int)f.precision);
			if (fill != (C)f.fill)
				sim_violation("fill", "printing a %s %s and left fill character %d on a stream that had %d", type.name, how, (int)fill, f.fill);
			if (width != 0)
				sim_violation("width", "printing a %s %s and left width %d (it was %d before)", type.name, how, (int)width, (int)f.width);
		}
		if (want && !failed && !state0 && got != *want)
			sim_violation("text", "client %d printed a %s and its stream received \"%s\" instead of \"%s\"", k, type.name, show(got).c_str(), show(*want).c_str());
	}
	else if (is("O01"))
	{
		if (outcome == 3)
			sim_violation("exception", "printing a %s threw something that neither the stream nor its device did", type.name);
		if (state0)
		{
			if (!got.empty())
				sim_violation("after_failure", "a %s was printed to a stream that had failed: \"%s\"", type.name, show(got).c_str());
			if (!(state & state0 & (S::badbit | S::failbit)))
				sim_violation("state", "printing a %s to a failed stream (%s) made it %s", type.name, state_text(state0), state_text(state));
		}
		else
		{
			if (want && (got.size() > want->size() || want->compare(0, got.size(), got)))
				sim_violation("prefix", "the device accepted \"%s\", which is not a prefix of \"%s\" (%s)", show(got).c_str(), show(*want).c_str(), type.name);
			if (failed && !(state & (S::badbit | S::failbit)))
				sim_violation("state", "the device failed while a %s was printed, the stream is %s", type.name, state_text(state));
			if (!failed && (state || outcome))
				sim_violation("state", "printing a %s to a working device left the stream %s%s", type.name, state_text(state), outcome ? " and threw" : "");
			if (want && !failed && got.size() != want->size())
				sim_violation("prefix", "the device accepted everything, but received only \"%s\" of \"%s\" (%s)", show(got).c_str(), show(*want).c_str(), type.name);
		}
		if (except != f.exceptions)
			sim_violation("exception", "printing a %s changed the exception mask of the stream from %#x to %#x", type.name, (unsigned)f.exceptions, (unsigned)except);
		if (!outcome && (state & f.exceptions))
			sim_violation("exception", "printing a %s left the stream %swith exceptions enabled for that, but none was thrown", type.name, state_text(state));
		if (outcome && !(state & f.exceptions))
			sim_violation("exception", "printing a %s threw, but the stream is %s and has exceptions %#x", type.name, state_text(state), (unsigned)f.exceptions);
		if (threw && (f.exceptions & S::badbit) && outcome != 2)
			sim_violation("exception", "the device threw while a %s was printed, exceptions are enabled, but %s was thrown", type.name, outcome ? "another exception" : "none");
	}
}
template <typename C>
static void other(Channel<C>& ch, int k)
{
	ch.os.exceptions(std::ios_base::goodbit);
	ch.os.width(0);
	static const C txt[] = { 'h', 'i', 0 };
	try
	{
		ch.os << txt;
	}
	catch (...)
	{
	}
}
static bool wide(const SimOp& o)
{
	return (((o.d % STREAMS) + STREAMS) % STREAMS) >= 2;
}
static void client(int k)
{
	size_t n, buffer;
	{
		Quiet q;
		n			= X->ops[k].size();
		buffer		= (size_t)clampi(X->sc.get("buffer", 0), 0, 32);
		fault_on[k] = true;
	}
	Channel<char> narrow[2]{ { k, buffer }, { k, buffer / 2 } };
	Channel<wchar_t> wides[2]{ { k, buffer }, { k, buffer / 2 } };
	for (size_t i = 0; i < n; i++)
	{
		SimOp o;
		const std::string* want;
		const std::wstring* wwant;
		{
			Quiet q;
			o	  = X->ops[k][i];
			want  = &X->want[k][i];
			wwant = &X->wwant[k][i];
		}
		const size_t s = (size_t)(((o.d % STREAMS) + STREAMS) % STREAMS);
		if (o.kind == OP_CLEAR)
		{
			if (s < 2)
			{
				narrow[s].os.clear();
				Quiet q;
				narrow[s].dev.broken = narrow[s].dev.throws = false;
			}
			else
			{
				wides[s - 2].os.clear();
				Quiet q;
				wides[s - 2].dev.broken = wides[s - 2].dev.throws = false;
			}
		}
		else if (o.kind == OP_TEXT)
		{
			if (s < 2)
				other(narrow[s], k);
			else
				other(wides[s - 2], k);
		}
		else if (s < 2)
			print_one(narrow[s], o, k, want);
		else
			print_one(wides[s - 2], o, k, wwant);
	}
}

static void begin(const Scenario& sc)
{
	if (!other_locale)
	{
		// what the standard library makes at first use must not live in a run's memory
		other_locale = new std::locale(std::locale(std::locale::classic(), new Punct), new WPunct);
		for (auto* l : { &std::locale::classic(), other_locale })
		{
			Null nb;
			std::ostream os(&nb);
			os.imbue(*l);
			os << 1 << 2.5 << 2.5L << true << 1234567ull << (void*)&nb << 'x' << "x";
			WNull wb;
			std::wostream ws(&wb);
			ws.imbue(*l);
			ws << 1 << 2.5 << 2.5L << true << 1234567ull << (void*)&nb << L'x' << L"x";
		}
		types<char>();
		types<wchar_t>();
	}
	X	  = new State;
	X->sc = sc;
	const int64_t n = clampi(sc.get("clients", 2), 1, CLIENTS);
	for (auto& o : sc.ops)
		X->ops[clampi(o.thr, 0, n - 1)].push_back(o);
	memset(fault_on, 0, sizeof fault_on);
	sim_race_mode(is("O02") ? 1 : 0);
}
template <typename C>
static std::basic_string<C> reference(const SimOp& o)
{
	Channel<C> ch(CLIENTS, 0);
	const auto& t		= types<C>();
	const Type<C>& type = t[(size_t)(((o.a % (int64_t)t.size()) + (int64_t)t.size()) % (int64_t)t.size())];
	set_format(ch.os, format(o.c, 0));
	Rng r((uint64_t)o.b + 1);
	type.print(ch.os, r);
	Quiet q;
	return *ch.dev.sink;
}
static void body()
{
	int n;
	{
		Quiet q;
		n = (int)clampi(X->sc.get("clients", 2), 1, CLIENTS);
	}
	for (int k = 0; k < n; k++)
	{
		size_t m;
		{
			Quiet q;
			m = X->ops[k].size();
		}
		for (size_t i = 0; i < m; i++)
		{
			SimOp o;
			{
				Quiet q;
				o = X->ops[k][i];
			}
			std::string s;
			std::wstring w;
			if (o.kind == OP_PRINT)
			{
				if (wide(o))
					w = reference<wchar_t>(o);
				else
					s = reference<char>(o);
			}
			Quiet q;
			X->want[k].emplace_back(s.data(), s.size());
			X->wwant[k].emplace_back(w.data(), w.size());
		}
	}
	std::vector<std::thread> th;
	for (int k = 0; k < n; k++)
		th.emplace_back([k] { client(k); });
	for (auto& t : th)
		t.join();
}
static void end(int)
{
	delete X;
	X = nullptr;
}
static int stuck(std::string&)
{
	return 1;
}

static const Workload wl = { SIM_WL_NAME, gen, begin, body, end, stuck, op_names, OP_COUNT };
extern "C" __attribute__((visibility("default"))) const Workload* sim_workload()
{
	return &wl;
}

// Threads that work on their own objects, or read the same constant ones: C01.
// Every job is a self-contained use of the public interface; what it observes is folded into one number. The same jobs are
// first done one after another by one thread, and what they gave then is what they have to give when they are done concurrently.
#include "../sim/rt.h"
#include <muu/core.h>
#include <muu/accumulator.h>
#include <muu/axis_angle.h>
#include <muu/blob.h>
#include <muu/bounding_box.h>
#include <muu/bounding_sphere.h>
#include <muu/emplacement_array.h>
#include <muu/euler_angles.h>
#include <muu/fixed_string.h>
#include <muu/half.h>
#include <muu/hashing.h>
#include <muu/line_segment.h>
#include <muu/matrix.h>
#include <muu/oriented_bounding_box.h>
#include <muu/packed_unit_vector.h>
#include <muu/plane.h>
#include <muu/quaternion.h>
#include <muu/ray.h>
#include <muu/scope_guard.h>
#include <muu/string_param.h>
#include <muu/strings.h>
#include <muu/triangle.h>
#include <muu/uuid.h>
#include <muu/vector.h>
#include <cstring>
#include <memory>
#include <new>
#include <sstream>
#include <thread>

enum Op
{
	OP_SHA1,
	OP_FNV,
	OP_NAME,
	OP_PARSE,
	OP_UUID_PRINT,
	OP_TRANSCODE,
	OP_DECODE,
	OP_PARAM,
	OP_TRIM,
	OP_CONTAINERS,
	OP_MATH,
	OP_GEOMETRY,
	OP_SMALL,
	OP_PRINT,
	OP_GUARDS,
	OP_SHARED, // read the objects that all threads share
	OP_SURFACE,
	OP_COUNT
};
static const char* const op_names[] = { "sha1", "fnv1a", "name a uuid", "parse a uuid", "print a uuid", "transcode", "decode", "string_param", "trim", "containers",
										"matrices and rotations", "geometry", "small values", "print vectors", "scope guards", "read shared constants", "the rest of the value types" };
static constexpr int CLIENTS = 5, MAXJOBS = 12;
static int64_t clampi(int64_t v, int64_t lo, int64_t hi)
{
	return v < lo ? lo : v > hi ? hi : v;
}

static void gen(Rng& r, Scenario& sc)
{
	auto& c		 = sc.cfg;
	c["clients"] = r.range(2, r.chance(0.2) ? CLIENTS : 3);
	c["main"]	 = r.range(0, 1);
	c["first"]	 = r.range(0, 2); // the sequential pass: before, after, both
	c["shared"]	 = (int64_t)(r.next() >> 1);
	c["budget1"] = 600000;
	c["budget2"] = 3000000;
	static const int64_t st[] = { 0, 0, 300, 3000 };
	c["f_thread_stall"]		  = r.pick(st);
	static const int64_t al[] = { 0, 0, 0, 30000, 200000 };
	c["f_alloc_fails"]		  = r.pick(al);
	const int n				  = (int)r.range(2, r.chance(0.2) ? 20 : 8);
	const bool same			  = r.chance(0.5);
	const int kind			  = (int)r.below(OP_COUNT);
	for (int i = 0; i < n; i++)
	{
		const int thr = (int)r.below((uint64_t)c["clients"]);
		const int k	  = same && r.chance(0.8) ? kind : (int)r.below(OP_COUNT);
		sc.ops.push_back({ k, thr, (int64_t)(r.next() >> 1), r.chance(0.3) ? r.range(0, 3) : r.range(0, 40), r.range(0, 1000), r.range(0, 7) });
	}
}

// ------------------------------------------------------------------ what a job sees
struct Seen
{
	uint64_t h = 0xCBF29CE484222325ull;
	void bytes(const void* p, size_t n)
	{
		auto b = static_cast<const unsigned char*>(p);
		for (size_t i = 0; i < n; i++)
			h = (h ^ b[i]) * 0x100000001B3ull;
	}
	void num(uint64_t v)
	{
		h = (h ^ v) * 0x9E3779B97F4A7C15ull;
		h ^= h >> 29;
	}
	void flag(bool v)
	{
		num(v ? 11 : 5);
	}
	template <typename F>
	void real(F v)
	{
		if (v != v)
			num(77); // whichever NaN
		else
		{
			double d = static_cast<double>(v);
			if (d == 0)
				d = 0;
			uint64_t u;
			memcpy(&u, &d, 8);
			num(u);
		}
	}
	template <typename C>
	void text(std::basic_string_view<C> s)
	{
		num(s.size());
		for (auto c : s)
			num(static_cast<uint64_t>(c));
	}
	template <typename V>
	void vec(const V& v)
	{
		for (size_t i = 0; i < V::constants::dimensions || i < 3; i++)
			real(v[i]);
	}
};
struct V3
{
	template <typename T>
	static void add(Seen& s, const muu::vector<T, 3>& v)
	{
		s.real(v.x);
		s.real(v.y);
		s.real(v.z);
	}
};

// ------------------------------------------------------------------ material
static std::u32string code_points(Rng& r, size_t n, bool spaces)
{
	static const char32_t pool[] = { U'a', U'z', U'0', U'#', 0xE9, 0x3B1, 0x20AC, 0x4E2D, 0xFF21, 0x1F600, 0x10FFFF, 0x7FF, 0x800 };
	static const char32_t blank[] = { U' ', U'\t', U'\n', 0x2003, 0x3000, 0xA0 };
	std::u32string t;
	t.reserve(n);
	for (size_t i = 0; i < n; i++)
		t.push_back(spaces && r.chance(0.3) ? blank[r.below(std::size(blank))] : pool[r.below(std::size(pool))]);
	return t;
}
static std::u32string letters(Rng& r, size_t n, bool spaces)
{
	std::u32string t;
	t.reserve(n);
	for (size_t i = 0; i < n; i++)
		t.push_back(spaces && r.chance(0.3) ? U' ' : U'a' + (char32_t)r.below(26));
	return t;
}
static std::vector<unsigned char> raw(Rng& r, size_t n)
{
	std::vector<unsigned char> d(n);
	for (auto& b : d)
		b = (unsigned char)r.next();
	return d;
}
template <typename T>
static T real(Rng& r)
{
	return (T)((double)r.range(-4000, 4000) / 512.0);
}
template <typename T>
static muu::vector<T, 3> vec3(Rng& r)
{
	const T x = real<T>(r), y = real<T>(r), z = real<T>(r);
	return { x, y, z };
}

// ------------------------------------------------------------------ objects that everybody reads
struct Shared
{
	muu::sha1 hash;
	muu::fnv1a<64> fnv;
	muu::uuid id, parsed;
	muu::blob bytes;
	muu::emplacement_array<std::string> list;
	muu::matrix<float, 4, 4> m4;
	muu::matrix<double, 3, 3> m3;
	muu::quaternion<double> q;
	muu::bounding_box<float> box;
	muu::oriented_bounding_box<float> obb;
	muu::bounding_sphere<float> ball;
	muu::triangle<float> tri;
	muu::plane<float> floor;
	muu::half h;
	muu::accumulator<double> acc;
	std::u32string text;
	std::string utf8;
	explicit Shared(Rng r)
		: id{ nullptr },
		  parsed{ nullptr },
		  bytes{ 70, nullptr, 64 },
		  list{ 4 },
		  h{ real<float>(r) }
	{
		const auto d = raw(r, 200);
		hash(d.data(), 131).finish();
		fnv(d.data(), 90);
		id = muu::uuid{ muu::uuid{ 1, 2, 3, 4, 5, 6 }, d.data(), 77 };
		parsed = *muu::uuid::parse(std::string_view{ "12345678-9abc-def0-1234-56789abcdef0" });
		memcpy(bytes.data(), d.data() + 100, 70);
		list.emplace_back("first");
		list.emplace_back("a second element that does not fit in place");
		for (size_t i = 0; i < 4; i++)
			for (size_t j = 0; j < 4; j++)
				m4(i, j) = real<float>(r) + (i == j ? 10.0f : 0.0f);
		for (size_t i = 0; i < 3; i++)
			for (size_t j = 0; j < 3; j++)
				m3(i, j) = real<double>(r) + (i == j ? 10.0 : 0.0);
		q	  = muu::quaternion<double>{ 0.5, 0.5, -0.5, 0.5 };
		box	  = muu::bounding_box<float>{ vec3<float>(r), muu::vector<float, 3>{ 3, 4, 5 } };
		obb	  = muu::oriented_bounding_box<float>{ vec3<float>(r), muu::vector<float, 3>{ 2, 2, 5 } };
		ball  = muu::bounding_sphere<float>{ vec3<float>(r), 3.5f };
		tri	  = muu::triangle<float>{ vec3<float>(r), vec3<float>(r), vec3<float>(r) };
		floor = muu::plane<float>{ muu::vector<float, 3>{ 0, 1, 0 }, real<float>(r) };
		for (int i = 0; i < 5; i++)
			acc.add(real<double>(r));
		text = code_points(r, 20, true);
		utf8 = muu::transcode<char>(std::u32string_view{ text });
	}
};

struct State
{
	Scenario sc;
	std::vector<SimOp> ops[CLIENTS];
	uint64_t first[CLIENTS][MAXJOBS];
	bool have[CLIENTS][MAXJOBS] = {};
};
static State* X;
static const Shared* shared; // set before the threads start

// ------------------------------------------------------------------ jobs
// a string stream that runs out of memory reports that in its state only
template <typename C>
static void printed(Seen& s, std::basic_ostringstream<C>& os)
{
	if (!os)
		throw std::bad_alloc{};
	const auto t = os.str();
	s.text(std::basic_string_view<C>{ t });
}
template <typename To>
static void transcode_all(Seen& s, const std::u32string& t)
{
	const auto a = muu::transcode<To>(std::u32string_view{ t });
	const auto b = muu::transcode<char>(std::basic_string_view<To>{ a });
	const auto c = muu::transcode<char16_t>(std::string_view{ b });
	const auto d = muu::transcode<wchar_t>(std::u16string_view{ c });
	s.text(std::basic_string_view<To>{ a });
	s.text(std::string_view{ b });
	s.text(std::u16string_view{ c });
	s.text(std::wstring_view{ d });
}
template <typename C>
static void param(Seen& s, const std::basic_string<C>& src, Rng& r)
{
	muu::string_param p = r.chance(0.5) ? muu::string_param{ std::basic_string_view<C>{ src } } : muu::string_param{ std::basic_string<C>(src) };
	s.flag(p.owning());
	s.flag(p.empty());
	if (r.chance(0.5))
		p.trim();
	for (int i = 0; i < 3; i++)
		switch (r.below(4))
		{
			case 0: s.text(static_cast<std::string_view>(p)); break;
			case 1: s.text(static_cast<std::u16string_view>(p)); break;
			case 2: s.text(static_cast<std::u32string_view>(p)); break;
			default: s.text(static_cast<std::wstring_view>(p)); break;
		}
	muu::string_param m{ std::move(p) };
	s.flag(m.empty());
	const std::u32string out = std::move(m);
	s.text(std::u32string_view{ out });
}
template <typename C>
static void trims(Seen& s, const std::basic_string<C>& t)
{
	const std::basic_string_view<C> v{ t };
	s.text(muu::trim(v));
	s.text(muu::trim_left(v));
	s.text(muu::trim_right(v));
}
static void geometry(Seen& s, const muu::bounding_box<float>& box, const muu::oriented_bounding_box<float>& obb, const muu::bounding_sphere<float>& ball,
					 const muu::triangle<float>& tri, const muu::plane<float>& floor, Rng& r)
{
	const muu::triangle<float> t2{ vec3<float>(r), vec3<float>(r), vec3<float>(r) };
	const muu::line_segment<float> seg{ vec3<float>(r), vec3<float>(r) };
	const muu::bounding_box<float> b2{ vec3<float>(r), muu::vector<float, 3>{ 1, 2, 3 } };
	const auto p = vec3<float>(r);
	s.flag(box.intersects(ball));
	s.flag(box.intersects(tri));
	s.flag(box.intersects(seg));
	s.flag(box.intersects(floor));
	s.flag(box.intersects(obb));
	s.flag(box.contains(p));
	s.flag(box.contains(b2));
	s.flag(obb.intersects(tri));
	s.flag(obb.intersects(ball));
	s.flag(obb.intersects(box));
	s.flag(obb.contains(p));
	s.flag(ball.intersects(tri));
	s.flag(ball.contains(seg));
	s.flag(tri.intersects(t2));
	s.flag(tri.intersects(ball));
	s.flag(tri.contains(p));
	V3::add(s, tri.barycentric(p));
	V3::add(s, floor.project(p));
	s.real(floor.signed_distance(p));
	const auto tester = box.collision_tester();
	s.flag(tester(t2));
	s.flag(tester(ball));
	const muu::ray<float> ray{ p, muu::vector<float, 3>::normalize(vec3<float>(r) + muu::vector<float, 3>{ 20, 0, 0 }) };
	if (auto hit = ray.hits(box))
		s.real(*hit);
	if (auto hit = ray.hits(tri))
		s.real(*hit);
	if (auto hit = ray.hits(ball))
		s.real(*hit);
	if (auto hit = ray.hits(floor))
		s.real(*hit);
}
template <typename M>
static void matrix_entries(Seen& s, const M& m, size_t n)
{
	for (size_t i = 0; i < n; i++)
		for (size_t j = 0; j < n; j++)
			s.real(m(i, j));
}
static void read_shared(Seen& s, Rng& r)
{
	const Shared& o = *shared;
	switch (r.below(8))
	{
		case 0:
			s.bytes(&o.hash.value(), 20);
			s.num(o.fnv.value());
			{
				muu::sha1 copy{ o.hash };
				copy.finish();
				s.bytes(&copy.value(), 20);
			}
			break;
		case 1:
		{
			s.flag(o.id == o.parsed);
			s.flag(o.id < o.parsed);
			s.num(o.id.time_low());
			s.num((uint64_t)o.id.version());
			s.num((uint64_t)o.parsed.variant());
			s.num(std::hash<muu::uuid>{}(o.id));
			const muu::uuid n{ o.id, std::string_view{ "shared name space" } };
			s.bytes(&n, 16);
			std::ostringstream os;
			os << o.id << ' ' << o.parsed << ' ' << o.hash << ' ' << o.fnv;
			printed(s, os);
			break;
		}
		case 2:
		{
			const muu::blob copy{ o.bytes };
			s.bytes(o.bytes.data(), o.bytes.size());
			s.bytes(copy.data(), copy.size());
			s.num(o.bytes.alignment());
			break;
		}
		case 3:
			for (auto& e : o.list)
				s.text(std::string_view{ e });
			s.text(std::string_view{ o.list.front() });
			s.num(o.list.size() * 100 + o.list.capacity());
			break;
		case 4:
			matrix_entries(s, muu::matrix<float, 4, 4>::invert(o.m4), 4);
			matrix_entries(s, muu::matrix<float, 4, 4>::transpose(o.m4) * o.m4, 4);
			s.real(muu::matrix<double, 3, 3>::determinant(o.m3));
			matrix_entries(s, muu::matrix<double, 3, 3>::from_quaternion(o.q), 3);
			break;
		case 5: geometry(s, o.box, o.obb, o.ball, o.tri, o.floor, r); break;
		case 6:
		{
			s.real(static_cast<float>(o.h));
			s.real(o.acc.sum());
			s.real(o.acc.min());
			std::ostringstream os;
			os << o.m4 << o.q << o.h;
			printed(s, os);
			break;
		}
		default:
			transcode_all<char16_t>(s, o.text);
			s.text(muu::trim(std::u32string_view{ o.text }));
			s.text(muu::trim(std::string_view{ o.utf8 }));
			s.num(muu::fnv1a<32>{}(std::u32string_view{ o.text }).value());
			break;
	}
}

#include "surface.h"

static uint64_t job(const SimOp& o)
{
	Rng r{ (uint64_t)o.a };
	const size_t n = (size_t)clampi(o.b, 0, 60);
	Seen s;
	switch (o.kind)
	{
		case OP_SHA1:
		{
			const auto d = raw(r, (size_t)clampi(o.c, 0, 300));
			muu::sha1 h, other;
			size_t at = 0;
			while (at < d.size())
			{
				const size_t k = 1 + r.below(std::min<size_t>(d.size() - at, r.chance(0.5) ? 5 : 90));
				if (k == 1)
					h(d[at]);
				else
					h(d.data() + at, k);
				at += k;
				if (r.chance(0.2))
					other = h;
			}
			h(std::u16string_view{ u"wide text \u20AC" });
			h.finish();
			other.finish();
			s.bytes(&h.value(), 20);
			s.bytes(&other.value(), 20);
			break;
		}
		case OP_FNV:
		{
			const auto d = raw(r, (size_t)clampi(o.c, 0, 300));
			muu::fnv1a<32> a;
			muu::fnv1a<64> b;
			a(d.data(), d.size())(std::string_view{ "tail" });
			b(std::u32string_view{ U"wide \U0001F600" })(d.data(), d.size());
			s.num(a.value());
			s.num(b.value());
			muu::hash_combiner<> hc{ (size_t)o.c };
			hc((size_t)a.value())((size_t)b.value());
			s.num(hc.value());
			break;
		}
		case OP_NAME:
		{
			const auto d = raw(r, 16 + n * 3);
			muu::uuid ns{ nullptr };
			memcpy(&ns, d.data(), 16);
			const muu::uuid a{ ns, d.data() + 16, d.size() - 16 };
			const muu::uuid b{ ns, std::string_view{ reinterpret_cast<const char*>(d.data()), 9 } };
			s.bytes(&a, 16);
			s.bytes(&b, 16);
			s.flag(a < b);
			break;
		}
		case OP_PARSE:
		{
			static const char hex[] = "0123456789abcdefABCDEF";
			std::string t;
			for (int i = 0; i < 32; i++)
			{
				if (i == 8 || i == 12 || i == 16 || i == 20)
					t.push_back('-');
				t.push_back(hex[r.below(22)]);
			}
			if (r.chance(0.3))
				t[r.below(t.size())] = 'g';
			if (r.chance(0.3))
				t = "{" + t + "}";
			const auto u = muu::uuid::parse(std::string_view{ t });
			const auto w = muu::uuid::parse(std::wstring_view{ muu::transcode<wchar_t>(std::string_view{ t }) });
			s.flag(!!u);
			s.flag(!!w);
			if (u)
				s.bytes(&*u, 16);
			break;
		}
		case OP_UUID_PRINT:
		{
			const auto d = raw(r, 16);
			muu::uuid u{ nullptr };
			memcpy(&u, d.data(), 16);
			std::ostringstream os;
			os << u;
			printed(s, os);
			std::wostringstream ws;
			ws << u;
			printed(s, ws);
			break;
		}
		case OP_TRANSCODE:
		{
			// a letter first, so that the byte order is never in doubt
			const auto t = U"abc" + code_points(r, n / 2, false);
			switch (o.d & 3)
			{
				case 0: transcode_all<char16_t>(s, t); break;
				case 1: transcode_all<char8_t>(s, t); break;
				case 2: transcode_all<wchar_t>(s, t); break;
				default: transcode_all<char>(s, t); break;
			}
			break;
		}
		case OP_DECODE:
		{
			const auto t = muu::transcode<char>(std::u32string_view{ code_points(r, n, true) });
			muu::utf8_decoder dec;
			for (auto c : t)
			{
				dec(static_cast<uint8_t>(c));
				s.flag(dec.has_value());
				if (dec.has_value())
					s.num(dec.value());
			}
			muu::utf_decode(std::string_view{ t }, [&](char32_t c) noexcept { s.num(c); });
			break;
		}
		case OP_PARAM:
		{
			const auto t = U"ab" + (r.chance(0.5) ? code_points(r, n / 2, true) : letters(r, n, true)) + U"  ";
			switch (o.d & 3)
			{
				case 0: param(s, t, r); break;
				case 1: param(s, muu::transcode<char>(std::u32string_view{ t }), r); break;
				case 2: param(s, muu::transcode<char16_t>(std::u32string_view{ t }), r); break;
				default: param(s, muu::transcode<wchar_t>(std::u32string_view{ t }), r); break;
			}
			break;
		}
		case OP_TRIM:
		{
			const auto t = code_points(r, n, true);
			trims(s, t);
			trims(s, muu::transcode<char>(std::u32string_view{ U"  a" + t }));
			trims(s, muu::transcode<wchar_t>(std::u32string_view{ t }));
			break;
		}
		case OP_CONTAINERS:
		{
			const auto d = raw(r, n + 1);
			muu::blob a{ d.size(), d.data(), size_t{ 1 } << r.below(8) };
			muu::blob b{ a };
			b.resize(d.size() / 2 + r.below(40));
			memset(static_cast<char*>(static_cast<void*>(b.data())), 7, b.size());
			s.bytes(a.data(), a.size());
			s.bytes(b.data(), b.size());
			a = std::move(b);
			s.bytes(a.data(), a.size());
			muu::emplacement_array<std::u32string> e{ 3 };
			e.emplace_back(letters(r, n, false));
			e.emplace_back(3u, U'x');
			auto e2 = std::move(e);
			for (auto& x : e2)
				s.text(std::u32string_view{ x });
			s.num(e2.size() + e.size() * 10);
			break;
		}
		case OP_MATH:
		{
			muu::matrix<double, 4, 4> m;
			for (size_t i = 0; i < 4; i++)
				for (size_t j = 0; j < 4; j++)
					m(i, j) = real<double>(r) + (i == j ? 20.0 : 0.0);
			matrix_entries(s, muu::matrix<double, 4, 4>::invert(m) * m, 4);
			s.real(muu::matrix<double, 4, 4>::determinant(m));
			const muu::quaternion<double> q = muu::quaternion<double>::from_euler(real<double>(r), real<double>(r), real<double>(r));
			const auto rot = muu::matrix<double, 3, 3>::from_quaternion(q);
			matrix_entries(s, rot, 3);
			V3::add(s, q * vec3<double>(r));
			const auto e = q.to_euler();
			s.real(e.yaw);
			s.real(e.pitch);
			s.real(e.roll);
			const auto aa = q.to_axis_angle();
			V3::add(s, aa.axis);
			s.real(aa.angle);
			V3::add(s, muu::vector<double, 3>::cross(vec3<double>(r), vec3<double>(r)));
			break;
		}
		case OP_GEOMETRY:
		{
			const muu::bounding_box<float> box{ vec3<float>(r), muu::vector<float, 3>{ 3, 4, 5 } };
			const muu::oriented_bounding_box<float> obb{ vec3<float>(r), muu::vector<float, 3>{ 2, 2, 5 } };
			const muu::bounding_sphere<float> ball{ vec3<float>(r), 3.5f };
			const muu::triangle<float> tri{ vec3<float>(r), vec3<float>(r), vec3<float>(r) };
			const muu::plane<float> floor{ muu::vector<float, 3>{ 0, 1, 0 }, real<float>(r) };
			geometry(s, box, obb, ball, tri, floor, r);
			break;
		}
		case OP_SMALL:
		{
			muu::accumulator<float> acc;
			for (size_t i = 0; i < n; i++)
			{
				const muu::half h{ real<float>(r) };
				acc.add(static_cast<float>(h) * 0.1f);
				s.real(static_cast<float>(h * h));
				const muu::packed_unit_vector<uint32_t, 3> p{ muu::vector<float, 3>::normalize(vec3<float>(r) + muu::vector<float, 3>{ 20, 0, 0 }) };
				V3::add(s, p.unpack<float>());
				s.num(muu::popcount(r.next()));
				s.num(muu::byte_reverse(r.next()));
			}
			if (n)
				s.real(acc.sum());
			break;
		}
		case OP_PRINT:
		{
			std::ostringstream os;
			os.precision(3 + (int)(o.d & 7));
			os << vec3<float>(r) << muu::quaternion<double>{ 1, 0.25, real<double>(r), 3 } << muu::half{ real<float>(r) };
			os << muu::bounding_box<float>{ vec3<float>(r), muu::vector<float, 3>{ 3, 4, 5 } };
			os << muu::sha1{}(std::string_view{ "x" }).finish();
			printed(s, os);
			s.num((uint64_t)os.precision());
			break;
		}
		case OP_GUARDS:
		{
			int a = 0, b = 0, c = 0;
			try
			{
				muu::scope_guard g{ [&]() noexcept { a++; } };
				muu::scope_fail f{ [&]() noexcept { b++; } };
				muu::scope_success ok{ [&]() noexcept { c++; } };
				sim_yield();
				if (o.d & 1)
					throw (int)n;
			}
			catch (int v)
			{
				s.num((uint64_t)v);
			}
			s.num((uint64_t)(a * 100 + b * 10 + c));
			break;
		}
		case OP_SHARED: read_shared(s, r); break;
		default: surface(s, r); break;
	}
	return s.h;
}

// false: the job ran out of memory
static bool attempt(const SimOp& o, uint64_t& out)
{
	bool ok = true;
	sim_arm(FK_ALLOC, 1);
	try
	{
		out = job(o);
	}
	catch (const std::bad_alloc&)
	{
		ok = false;
	}
	sim_arm(FK_ALLOC, 0);
	return ok;
}

static bool mine()
{
	return X->sc.prop == "C01";
}
static void pass(int k, bool concurrent)
{
	size_t n;
	{
		Quiet q;
		n = std::min<size_t>(X->ops[k].size(), MAXJOBS);
	}
	for (size_t i = 0; i < n; i++)
	{
		SimOp o;
		{
			Quiet q;
			o = X->ops[k][i];
		}
		uint64_t h	  = 0;
		const bool ok = concurrent ? attempt(o, h) : (h = job(o), true);
		Quiet q;
		sim_event(h, (uint64_t)o.kind * 4 + ok * 2 + concurrent);
		if (!ok)
		{
			sim_probe("a job ran out of memory");
			continue;
		}
		if (!X->have[k][i])
		{
			X->have[k][i]  = true;
			X->first[k][i] = h;
		}
		else if (X->first[k][i] != h && mine())
			sim_violation("interference", "job %zu of thread %d (%s) gave another result %s than %s", i, k, op_names[clampi(o.kind, 0, OP_COUNT - 1)],
						  concurrent ? "among other threads" : "when repeated alone", concurrent ? "when done alone before" : "the first time");
	}
}

static void begin(const Scenario& sc)
{
	X				= new State;
	X->sc			= sc;
	const int64_t n = clampi(sc.get("clients", 2), 1, CLIENTS);
	for (auto& o : sc.ops)
		X->ops[clampi(o.thr, 0, n - 1)].push_back(o);
	sim_race_mode(1);
}
static void body()
{
	int n, first;
	bool main;
	uint64_t seed;
	size_t before;
	{
		Quiet q;
		n	  = (int)clampi(X->sc.get("clients", 2), 1, CLIENTS);
		main  = X->sc.get("main", 0) != 0;
		first = (int)X->sc.get("first", 0);
		seed  = (uint64_t)X->sc.get("shared", 1);
	}
	const auto sh = std::make_unique<const Shared>(Rng{ seed });
	shared		  = sh.get();
	if (first != 1)
		for (int k = 0; k < n; k++)
			pass(k, false);
	{
		std::vector<std::thread> th;
		for (int k = main; k < n; k++)
			th.emplace_back([k] { pass(k, true); });
		if (main)
			pass(0, true);
		for (auto& t : th)
			t.join();
	}
	if (first != 0)
		for (int k = n; k-- > 0;)
			pass(k, false);
}
static void end(int)
{
	delete X;
	X = nullptr;
}
static int stuck(std::string& why)
{
	why = "a job never returns";
	return 1;
}

static const Workload wl = { SIM_WL_NAME, gen, begin, body, end, stuck, op_names, OP_COUNT };
extern "C" __attribute__((visibility("default"))) const Workload* sim_workload()
{
	return &wl;
}

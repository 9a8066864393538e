// Consumers of streams that arrive in pieces: hashers (H01), UTF decoders (D01) and readers of uuids sent as text (U02).
// The transport decides where pieces end, stalls, is interrupted, breaks down (the consumer goes back to its last checkpoint) and, for text, damages units.
#include "../sim/rt.h"
#include <muu/core.h>
#include <muu/hashing.h>
#include <muu/utf8_decoder.h>
#include <muu/utf16_decoder.h>
#include <muu/utf_decode.h>
#include <muu/uuid.h>
#include <algorithm>
#include <array>
#include <optional>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <atomic>
#include <cstring>
#include <memory>
#include <mutex>
#include <thread>
#include <sys/mman.h>

enum Op
{
	OP_HASH,   // a: hasher, b: length, c: what the stream holds + 8 * how it is passed to other threads, d: seed
	OP_DECODE, // a: decoder, b: code points, c: how damaged, d: seed
	OP_WHOLE,  // a: code units of what size, b: code points, d: seed
	OP_TEXT,   // a: hasher, b: code points, d: seed (text handed over as wide strings)
	OP_LONG,   // a: hasher, b: length in bytes, c: piece size, d: seed (only in the variant that is not instrumented)
	OP_UUID,   // a: encoding, b: kind of uuid, c: how damaged, d: seed (a uuid sent as text)
	OP_ORDER,  // a: how many, d: seed (uuids received from several peers, sorted, looked up, taken apart and put together)
	OP_COUNT
};
static const char* const op_names[] = { "hash", "decode", "decode_whole", "hash_text", "hash_long", "send_uuid", "order_uuids" };
static constexpr int CLIENTS = 5;
static int64_t clampi(int64_t v, int64_t lo, int64_t hi)
{
	return v < lo ? lo : v > hi ? hi : v;
}

struct State
{
	Scenario sc;
	std::vector<SimOp> ops[CLIENTS];
};
static State* X;
static bool is(const char* p)
{
	return X->sc.prop == p;
}

static void gen(Rng& r, Scenario& sc)
{
	auto& c		 = sc.cfg;
	c["clients"] = r.chance(0.5) ? 1 : r.range(2, CLIENTS);
	c["budget1"] = 300000;
	c["budget2"] = 900000;
	static const int64_t dv[]  = { 0, 0, 20000, 100000, 300000 };
	c["f_device_fault"]		   = r.pick(dv);
	static const int64_t st[]  = { 0, 0, 300, 3000 };
	c["f_thread_stall"]		   = c["clients"] > 1 ? r.pick(st) : 0;
#ifdef SIM_LONG
	c["clients"] = 1;
	static const int64_t marks[] = { 1ll << 32, 1ll << 32, 1ll << 29, 1ll << 29, 1ll << 29, 1ll << 28, 1ll << 24, 1ll << 22, 1ll << 16 };
	const int64_t mark			 = r.pick(marks);
	static const int64_t piece[] = { 0, 0, 1ll << 31, 1000003, 65536, 100000 };
	sc.ops.push_back({ OP_LONG, 0, r.chance(0.75) ? 0 : r.range(1, 3), mark + r.range(-200, 400), r.pick(piece), (int64_t)(r.next() >> 1) });
	return;
#endif
	const int n				   = (int)r.range(1, 8);
	for (int i = 0; i < n; i++)
	{
		const int thr	   = (int)r.below((uint64_t)c["clients"]);
		const int64_t seed = (int64_t)(r.next() >> 1);
		if (sc.prop == "U02")
		{
			if (r.chance(0.15))
				sc.ops.push_back({ OP_ORDER, thr, r.range(2, 12), 0, 0, seed });
			else
				sc.ops.push_back({ OP_UUID, thr, r.range(0, 4), r.range(0, 3), r.range(0, 4), seed });
			continue;
		}
		if (sc.prop == "H01")
		{
			if (r.chance(0.2))
			{
				sc.ops.push_back({ OP_TEXT, thr, r.range(0, 3), r.range(0, r.chance(0.2) ? 200 : 30), 0, seed });
				continue;
			}
			int64_t len;
			switch (r.below(6))
			{
				case 0: len = r.range(0, 10); break;
				case 1: len = r.range(50, 68); break;
				case 2: len = r.range(114, 132); break;
				case 3: len = 64 * r.range(1, 5) + r.range(-10, 10); break;
				case 4: len = r.range(0, 1500); break;
				default: len = r.range(0, 300); break;
			}
			sc.ops.push_back({ OP_HASH, thr, r.chance(0.7) ? 0 : r.range(1, 3), len, r.range(0, 3) + 8 * r.range(0, 3), seed });
		}
		else if (r.chance(0.25))
			{
			const bool huge = r.chance(0.001), some = r.chance(0.02);
			sc.ops.push_back({ OP_WHOLE, thr, r.range(0, 2), huge ? r.range(65500, 65600) : some ? (r.chance(0.5) ? r.range(250, 260) : r.range(260, 3000)) : r.range(0, r.chance(0.2) ? 100 : 20), r.chance(0.5) ? r.range(1, 3) : 0, seed });
			if (huge || some)
			{
				c["budget1"] *= huge ? 200 : 4;
				c["budget2"] *= huge ? 200 : 4;
			}
		}
		else
			sc.ops.push_back({ OP_DECODE, thr, r.range(0, 1), r.range(0, r.chance(0.2) ? 200 : 30), r.range(0, 4), seed });
	}
}

// ------------------------------------------------------------------ references
static void ref_sha1(const uint8_t* p, size_t n, uint8_t (&out)[20])
{
	std::vector<uint8_t> m(p, p + n);
	m.push_back(0x80);
	while (m.size() % 64 != 56)
		m.push_back(0);
	const uint64_t bits = (uint64_t)n * 8;
	for (int i = 7; i >= 0; i--)
		m.push_back((uint8_t)(bits >> (8 * i)));
	uint32_t h[5] = { 0x67452301u, 0xEFCDAB89u, 0x98BADCFEu, 0x10325476u, 0xC3D2E1F0u };
	auto rol	  = [](uint32_t v, int k) { return (v << k) | (v >> (32 - k)); };
	for (size_t b = 0; b < m.size(); b += 64)
	{
		uint32_t w[80];
		for (int i = 0; i < 16; i++)
			w[i] = (uint32_t)m[b + 4 * i] << 24 | (uint32_t)m[b + 4 * i + 1] << 16 | (uint32_t)m[b + 4 * i + 2] << 8 | m[b + 4 * i + 3];
		for (int i = 16; i < 80; i++)
			w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
		uint32_t a = h[0], bb = h[1], c = h[2], d = h[3], e = h[4];
		for (int i = 0; i < 80; i++)
		{
			uint32_t f, k;
			if (i < 20)
				f = (bb & c) | (~bb & d), k = 0x5A827999u;
			else if (i < 40)
				f = bb ^ c ^ d, k = 0x6ED9EBA1u;
			else if (i < 60)
				f = (bb & c) | (bb & d) | (c & d), k = 0x8F1BBCDCu;
			else
				f = bb ^ c ^ d, k = 0xCA62C1D6u;
			const uint32_t t = rol(a, 5) + f + e + k + w[i];
			e				 = d;
			d				 = c;
			c				 = rol(bb, 30);
			bb				 = a;
			a				 = t;
		}
		h[0] += a;
		h[1] += bb;
		h[2] += c;
		h[3] += d;
		h[4] += e;
	}
	for (int i = 0; i < 20; i++)
		out[i] = (uint8_t)(h[i / 4] >> (24 - 8 * (i % 4)));
}
template <typename U>
static U ref_fnv(const uint8_t* p, size_t n, U basis, U prime)
{
	for (size_t i = 0; i < n; i++)
	{
		basis ^= p[i];
		basis *= prime;
	}
	return basis;
}

static bool r_bit(int64_t v)
{
	return (v >> 3) & 1;
}
static char32_t random_cp(Rng& r)
{
	static const char32_t edges[] = { 0x00, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0x1000, 0xCFFF, 0xD000, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF, 0xFEFF };
	switch (r.below(5))
	{
		case 0: return r.pick(edges);
		case 1: return (char32_t)r.range(0x20, 0x7E);
		case 2: return (char32_t)r.range(0x80, 0x7FF);
		case 3:
		{
			const char32_t c = (char32_t)r.range(0x800, 0xFFFF);
			return c >= 0xD800 && c <= 0xDFFF ? c - 0x800 : c;
		}
		default: return (char32_t)r.range(0x10000, 0x10FFFF);
	}
}
template <typename U, typename V>
static void put8(V& out, char32_t c)
{
	if (c < 0x80)
		out.push_back((U)c);
	else if (c < 0x800)
		out.push_back((U)(0xC0 | c >> 6)), out.push_back((U)(0x80 | (c & 63)));
	else if (c < 0x10000)
		out.push_back((U)(0xE0 | c >> 12)), out.push_back((U)(0x80 | (c >> 6 & 63))), out.push_back((U)(0x80 | (c & 63)));
	else
		out.push_back((U)(0xF0 | c >> 18)), out.push_back((U)(0x80 | (c >> 12 & 63))), out.push_back((U)(0x80 | (c >> 6 & 63))), out.push_back((U)(0x80 | (c & 63)));
}
template <typename U, typename V>
static void put16(V& out, char32_t c)
{
	if (c < 0x10000)
		out.push_back((U)c);
	else
		out.push_back((U)(0xD800 + ((c - 0x10000) >> 10))), out.push_back((U)(0xDC00 + ((c - 0x10000) & 0x3FF)));
}

// what an ideal decoder says after each unit
struct Ref
{
	int left = 0, lo = 0x80, hi = 0xBF;
	char32_t cp = 0;
	char32_t high = 0;
	enum Out
	{
		VALUE,
		MORE,
		ERROR
	};
	Out unit8(unsigned u)
	{
		if (!left)
		{
			lo = 0x80;
			hi = 0xBF;
			if (u < 0x80)
				return cp = u, VALUE;
			if (u >= 0xC2 && u <= 0xDF)
				return cp = u & 31, left = 1, MORE;
			if (u >= 0xE0 && u <= 0xEF)
			{
				if (u == 0xE0)
					lo = 0xA0;
				if (u == 0xED)
					hi = 0x9F;
				return cp = u & 15, left = 2, MORE;
			}
			if (u >= 0xF0 && u <= 0xF4)
			{
				if (u == 0xF0)
					lo = 0x90;
				if (u == 0xF4)
					hi = 0x8F;
				return cp = u & 7, left = 3, MORE;
			}
			return ERROR;
		}
		if ((int)u < lo || (int)u > hi)
			return left = 0, ERROR;
		lo = 0x80;
		hi = 0xBF;
		cp = cp << 6 | (u & 63);
		return --left ? MORE : VALUE;
	}
	Out unit16(unsigned u)
	{
		const bool hs = u >= 0xD800 && u <= 0xDBFF, ls = u >= 0xDC00 && u <= 0xDFFF;
		if (high)
		{
			const char32_t h = high;
			high			 = 0;
			if (!ls)
				return ERROR;
			return cp = 0x10000 + ((h - 0xD800) << 10) + (u - 0xDC00), VALUE;
		}
		if (hs)
			return high = u, MORE;
		if (ls)
			return ERROR;
		return cp = u, VALUE;
	}
};

// ------------------------------------------------------------------ hashers
enum Trouble
{
	TR_NONE,
	TR_SHORT,	  // fewer bytes than asked for
	TR_INTERRUPT, // nothing at all
	TR_NULL,	  // nothing, and no buffer either
	TR_BROKEN,	  // back to the last checkpoint
	TR_ONE		  // a single byte
};
template <typename H>
static void feed(H& h, const uint8_t* p, size_t n, uint64_t way)
{
	switch (way)
	{
		case 0:
			for (size_t i = 0; i < n; i++)
				h(p[i]);
			break;
		case 1:
			for (size_t i = 0; i < n; i++)
				h(static_cast<std::byte>(p[i]));
			break;
		case 2: h(std::string_view{ reinterpret_cast<const char*>(p), n }); break;
		case 3: h(std::u8string_view{ reinterpret_cast<const char8_t*>(p), n }); break;
		default: h(static_cast<const void*>(p), n); break;
	}
}
template <typename H>
struct HashJob
{
	H now, checkpoint;
	size_t at = 0, check_at = 0;
	std::mutex mutex;
	std::atomic<int> turn{ 0 };
};
template <typename H>
static bool deliver(HashJob<H>& j, const std::vector<uint8_t>& data, Rng& r, size_t upto, int sizes)
{
	while (j.at < upto)
	{
		const size_t left = upto - j.at;
		size_t n;
		switch (sizes)
		{
			case 0: n = left; break;
			case 1: n = (size_t)r.range(1, 7); break;
			case 2: n = (size_t)r.range(55, 72); break;
			default: n = (size_t)r.range(0, r.chance(0.2) ? 200 : 40); break;
		}
		n = std::min(n, left);
		uint64_t way = r.below(7);
		switch (sim_fault(FK_DEVICE, 5))
		{
			case TR_SHORT: n = (size_t)r.below(n + 1); break;
			case TR_INTERRUPT: n = 0; break;
			case TR_NULL: feed(j.now, nullptr, 0, 4); n = 0; break;
			case TR_ONE: n = 1; break;
			case TR_BROKEN:
				j.now = j.checkpoint;
				j.at  = j.check_at;
				n	  = 0;
				break;
			default: break;
		}
		// the library sees a buffer of its own, which is gone afterwards
		{
			std::unique_ptr<uint8_t[]> buf{ new uint8_t[n ? n : 1] };
			if (n)
				memcpy(buf.get(), data.data() + j.at, n);
			feed(j.now, buf.get(), n, way);
			memset(buf.get(), 0xA5, n);
		}
		j.at += n;
		if (r.chance(0.2))
		{
			j.checkpoint = j.now;
			j.check_at	 = j.at;
		}
		if (r.chance(0.5))
			sim_yield();
	}
	return true;
}
static std::vector<uint8_t> digest(muu::sha1& h)
{
	h.finish();
	const auto* b = reinterpret_cast<const uint8_t*>(&h.value());
	return { b, b + 20 };
}
template <size_t B>
static std::vector<uint8_t> digest(muu::fnv1a<B>& h)
{
	const auto v = h.value();
	std::vector<uint8_t> o(B / 8);
	memcpy(o.data(), &v, B / 8);
	return o;
}
template <typename H>
static std::vector<uint8_t> reference(const uint8_t* p, size_t n)
{
	std::vector<uint8_t> o;
	if constexpr (std::is_same_v<H, muu::sha1>)
	{
		uint8_t d[20];
		ref_sha1(p, n, d);
		o.assign(d, d + 20);
	}
	else
	{
		typename H::hash_type v;
		if constexpr (sizeof(v) == 4)
			v = ref_fnv<uint32_t>(p, n, 0x811C9DC5u, 0x01000193u);
		else if constexpr (sizeof(v) == 8)
			v = ref_fnv<uint64_t>(p, n, 0xCBF29CE484222325ull, 0x100000001B3ull);
		else
			v = ref_fnv<unsigned __int128>(p, n, ((unsigned __int128)0x6C62272E07BB0142ull << 64) | 0x62B821756295C58Dull, ((unsigned __int128)0x0000000001000000ull << 64) | 0x13Bull);
		o.resize(sizeof v);
		memcpy(o.data(), &v, sizeof v);
	}
	return o;
}
static void compare(const std::vector<uint8_t>& got, const std::vector<uint8_t>& data, size_t n, bool sha, size_t bits, const std::vector<uint8_t>& want, const char* when)
{
	Quiet q;
	sim_event(got.size() > 3 ? got[0] | got[1] << 8 | got[2] << 16 : 0, n);
	if (is("H01") && got != want)
		sim_violation("digest", "the %s%zu of %zu bytes that arrived in pieces is wrong (%s)", sha ? "sha" : "fnv1a-", bits, n, when);
}
template <typename H>
static void hash(const SimOp& o)
{
	constexpr bool sha = std::is_same_v<H, muu::sha1>;
	Rng r{ (uint64_t)o.d };
	const size_t n = (size_t)clampi(o.b, 0, 3000);
	std::vector<uint8_t> data(n);
	for (auto& b : data)
		switch (o.c & 7)
		{
			case 0: b = (uint8_t)r.next(); break;
			case 1: b = 0; break;
			case 2: b = 0xFF; break;
			default: b = (uint8_t)('a' + r.below(26)); break;
		}
	const int sizes	 = (int)r.below(4);
	const int shared = (int)((o.c >> 3) & 3);
	auto j			 = std::make_unique<HashJob<H>>();
	if (shared == 3) // the stream is taken over by another thread on the way
	{
		const size_t mid = r.below(n + 1);
		Rng r2{ r.next() };
		std::thread t{ [&]
					   {
						   std::lock_guard l{ j->mutex };
						   deliver(*j, data, r2, mid, sizes);
						   j->turn.store(1);
					   } };
		while (!j->turn.load())
			sim_sleep(1000);
		{
			std::lock_guard l{ j->mutex };
			deliver(*j, data, r, n, sizes);
		}
		t.join();
	}
	else
		deliver(*j, data, r, n, sizes);
	H copy			= j->now;
	H moved			= std::move(copy);
	const auto got	= digest(j->now);
	std::vector<uint8_t> want;
	{
		std::vector<uint8_t> w = reference<H>(data.data(), n);
		want.assign(w.begin(), w.end());
	}
	compare(got, data, n, sha, sha ? 1 : sizeof(typename H::hash_type) * 8, want, "finished");
	if constexpr (sha)
	{
		// final means final
		feed(j->now, reinterpret_cast<const uint8_t*>("more"), 4, r.below(5));
		j->now(static_cast<uint8_t>(r.next()));
		const auto again = digest(j->now);
		compare(again, data, n, sha, 1, want, "fed again after it had been finished");
		const H fin = j->now;
		H fin2{ fin };
		compare(digest(fin2), data, n, sha, 1, want, "copied after it had been finished");
	}
	// the copy goes its own way
	std::vector<uint8_t> more = data;
	for (size_t i = r.below(100); i--;)
		more.push_back((uint8_t)r.next());
	auto j2 = std::make_unique<HashJob<H>>();
	j2->now = j2->checkpoint = moved;
	j2->at = j2->check_at = n;
	deliver(*j2, more, r, more.size(), sizes);
	const auto got2 = digest(j2->now);
	compare(got2, more, more.size(), sha, sha ? 1 : sizeof(typename H::hash_type) * 8, reference<H>(more.data(), more.size()), "continued from a copy");
}
template <typename H>
static void hash_text(const SimOp& o)
{
	Rng r{ (uint64_t)o.d };
	const size_t n = (size_t)clampi(o.b, 0, 300);
	std::vector<uint8_t> bytes;
	H h;
	for (size_t i = 0; i < n;)
	{
		const size_t m = std::min<size_t>(n - i, (size_t)r.range(1, r.chance(0.05) ? 300 : 12));
		std::u32string t;
		for (size_t k = 0; k < m; k++)
		{
			char32_t c;
			do // text of which the byte order is in doubt is left out
				c = random_cp(r);
			while ((c & 0xFF) == 0 || c == 0xFEFF || c == 0xFFFE || (c >= 0x10000 && (((c - 0x10000) >> 10) & 0xFF) == 0));
			t.push_back(c);
			put8<uint8_t>(bytes, c);
		}
		i += m;
		switch (r.below(4))
		{
			case 0: h(std::u32string_view{ t }); break;
			case 1: h(std::wstring_view{ std::wstring(t.begin(), t.end()) }); break;
			case 2:
			{
				std::u16string s;
				for (auto c : t)
					put16<char16_t>(s, c);
				h(std::u16string_view{ s });
				break;
			}
			default:
			{
				std::u8string s;
				for (auto c : t)
					put8<char8_t>(s, c);
				h(std::u8string_view{ s });
				break;
			}
		}
		if (r.chance(0.3))
			sim_yield();
	}
	compare(digest(h), bytes, bytes.size(), std::is_same_v<H, muu::sha1>, std::is_same_v<H, muu::sha1> ? 1 : sizeof(typename H::hash_type) * 8, reference<H>(bytes.data(), bytes.size()), "of wide text");
}

// streams of zeros so long that the counts involved no longer fit into 16, 24, 31 or 32 bits
static void ref_sha1_block(uint32_t (&h)[5], const uint8_t* p)
{
	auto rol = [](uint32_t v, int k) { return (v << k) | (v >> (32 - k)); };
	uint32_t w[80];
	for (int i = 0; i < 16; i++)
		w[i] = (uint32_t)p[4 * i] << 24 | (uint32_t)p[4 * i + 1] << 16 | (uint32_t)p[4 * i + 2] << 8 | p[4 * i + 3];
	for (int i = 16; i < 80; i++)
		w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
	uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
	for (int i = 0; i < 80; i++)
	{
		const uint32_t f = i < 20 ? (b & c) | (~b & d) : i >= 40 && i < 60 ? (b & c) | (b & d) | (c & d) : b ^ c ^ d;
		const uint32_t k = i < 20 ? 0x5A827999u : i < 40 ? 0x6ED9EBA1u : i < 60 ? 0x8F1BBCDCu : 0xCA62C1D6u;
		const uint32_t t = rol(a, 5) + f + e + k + w[i];
		e				 = d;
		d				 = c;
		c				 = rol(b, 30);
		b				 = a;
		a				 = t;
	}
	h[0] += a;
	h[1] += b;
	h[2] += c;
	h[3] += d;
	h[4] += e;
}
struct Mid
{
	uint64_t n;
	uint32_t h[5];
};
static const Mid mids[] = { // SHA-1's state after so many zero bytes
	{ 0, { 0x67452301u, 0xEFCDAB89u, 0x98BADCFEu, 0x10325476u, 0xC3D2E1F0u } },
	{ 4194048ull, { 0x0F5F06C6u, 0x291FC5EDu, 0x8E133C75u, 0xD7F9F880u, 0xED2B6C47u } },
	{ 16776960ull, { 0x1D679556u, 0x475BBF1Au, 0xD727910Eu, 0xB3ED51E1u, 0x5C55FD7Eu } },
	{ 268435200ull, { 0x70D5A8E7u, 0x524C81C2u, 0x3127E6C8u, 0xFE78ADF6u, 0xA7FF91C3u } },
	{ 536870656ull, { 0x38A899C1u, 0x89B096E6u, 0xC426DAA6u, 0x973802EAu, 0x541DAC96u } },
	{ 4294967040ull, { 0x6ED887CAu, 0x7A8AA523u, 0xB7147D87u, 0x1BC4535Eu, 0xC0ECF861u } },
};
static void ref_sha1_zeros(uint64_t n, uint8_t (&out)[20])
{
	Mid m = mids[0];
	for (auto& k : mids)
		if (k.n <= n)
			m = k;
	uint8_t b[128]{};
	for (; n - m.n >= 64; m.n += 64)
		ref_sha1_block(m.h, b);
	size_t k		= (size_t)(n - m.n);
	b[k]			= 0x80;
	const size_t e	= k < 56 ? 64 : 128;
	for (int i = 0; i < 8; i++)
		b[e - 1 - (size_t)i] = (uint8_t)((n * 8) >> (8 * i));
	for (size_t i = 0; i < e; i += 64)
		ref_sha1_block(m.h, b + i);
	for (int i = 0; i < 20; i++)
		out[i] = (uint8_t)(m.h[i / 4] >> (24 - 8 * (i % 4)));
}
template <typename U>
static U ref_fnv_zeros(uint64_t n, U v, U prime)
{
	for (; n; n >>= 1, prime *= prime)
		if (n & 1)
			v *= prime;
	return v;
}
template <typename H>
static void hash_long(const SimOp& o)
{
	constexpr bool sha	 = std::is_same_v<H, muu::sha1>;
	const uint64_t n	 = (uint64_t)clampi(o.b, 0, (1ll << 32) + (1 << 20));
	const uint64_t piece = o.c > 0 ? (uint64_t)std::max<int64_t>(o.c, 1000) : n;
	const size_t map	 = (size_t)std::max<uint64_t>(std::min(n, piece), 1);
	Rng r{ (uint64_t)o.d };
	void* zeros;
	{
		Quiet q;
		zeros = mmap(nullptr, map, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	}
	if (zeros == MAP_FAILED)
		return;
	H now, checkpoint;
	uint64_t at = 0, check_at = 0;
	int broken	= 0;
	while (at < n)
	{
		uint64_t k = std::min<uint64_t>(n - at, map);
		switch (sim_fault(FK_DEVICE, 5))
		{
			case TR_SHORT: k = r.below(k + 1); break;
			case TR_INTERRUPT: k = 0; break;
			case TR_NULL: now(static_cast<const void*>(nullptr), 0); break;
			case TR_ONE: k = 1; break;
			case TR_BROKEN:
				if (broken++ < 2 && at - check_at < (1u << 28))
				{
					now = checkpoint;
					at	= check_at;
					continue;
				}
				break;
			default: break;
		}
		feed(now, static_cast<const uint8_t*>(zeros), k, k < 100 ? r.below(5) : 2 + r.below(3));
		at += k;
		if (r.chance(0.01))
		{
			checkpoint = now;
			check_at   = at;
		}
		if (r.chance(0.01))
			sim_yield();
	}
	const auto got = digest(now);
	std::vector<uint8_t> want;
	if constexpr (sha)
	{
		uint8_t d[20];
		ref_sha1_zeros(n, d);
		want.assign(d, d + 20);
	}
	else
	{
		typename H::hash_type v;
		if constexpr (sizeof(v) == 4)
			v = ref_fnv_zeros<uint32_t>(n, 0x811C9DC5u, 0x01000193u);
		else if constexpr (sizeof(v) == 8)
			v = ref_fnv_zeros<uint64_t>(n, 0xCBF29CE484222325ull, 0x100000001B3ull);
		else
			v = ref_fnv_zeros<unsigned __int128>(n, ((unsigned __int128)0x6C62272E07BB0142ull << 64) | 0x62B821756295C58Dull, ((unsigned __int128)0x0000000001000000ull << 64) | 0x13Bull);
		want.resize(sizeof v);
		memcpy(want.data(), &v, sizeof v);
	}
	{
		Quiet q;
		munmap(zeros, map);
	}
	compare(got, want, (size_t)n, sha, sha ? 1 : sizeof(typename H::hash_type) * 8, want, "a long one");
	if (n >= (1ull << 32))
		sim_probe("stream of 4 GiB or more");
	else if (n >= (1ull << 29))
		sim_probe("stream of 512 MiB or more");
}

// ------------------------------------------------------------------ decoders
template <typename D, typename U>
static void decode(const SimOp& o)
{
	constexpr bool eight = sizeof(U) == 1;
	Rng r{ (uint64_t)o.d };
	const size_t n = (size_t)clampi(o.b, 0, 70000);
	std::vector<U> units;
	for (size_t i = 0; i < n; i++)
	{
		const char32_t c = random_cp(r);
		if constexpr (eight)
			put8<U>(units, c);
		else
			put16<U>(units, c);
	}
	D now{}, checkpoint{};
	Ref ref{}, ref_cp{};
	size_t at = 0, check_at = 0;
	int damaged			= 0;
	const double hurt	= o.c == 1 ? 0.02 : o.c == 2 ? 0.1 : o.c == 3 ? 0.5 : 0;
	while (at < units.size())
	{
		U u	   = units[at++];
		int lost = 0;
		uint64_t f = sim_fault(FK_DEVICE, 6);
		if (!f && hurt && r.chance(hurt))
			f = 2 + r.below(4);
		switch (f)
		{
			case 1: // the connection breaks down
				now = checkpoint;
				ref = ref_cp;
				at	= check_at;
				continue;
			case 2: lost = 1; break;									// a unit is lost
			case 3: u = (U)(u ^ (U)(1u << r.below(8 * sizeof(U)))); break; // a bit flips
			case 4: u = (U)r.next(); break;								// noise
			case 5: at--; break;										// a unit is delivered twice
			case 6: units.resize(at); break;							// the stream ends here
			default: break;
		}
		if (f)
			damaged++;
		if (lost)
			continue;
		if (f == 5 && damaged > 3000)
			at++;
		switch (r.below(3))
		{
			case 0: now(u); break;
			case 1:
				if constexpr (eight)
					now(static_cast<char>(u));
				else
					now(static_cast<char16_t>(u));
				break;
			default:
				if constexpr (eight)
					now(static_cast<char8_t>(u));
				else
					now(static_cast<char16_t>(u));
				break;
		}
		const bool err = now.error(), val = now.has_value(), more = now.needs_more_input();
		const char32_t v = now.value();
		Ref::Out want;
		{
			Quiet q;
			want = eight ? ref.unit8((unsigned)(std::make_unsigned_t<U>)u) : ref.unit16((unsigned)(std::make_unsigned_t<U>)u);
			sim_event(v, (uint64_t)want);
			if (is("D01"))
			{
				if (err != (want == Ref::ERROR) || val != (want == Ref::VALUE) || more != (want == Ref::MORE))
					sim_violation("state", "after unit %zu (%x, %d damaged so far) the utf-%d decoder says error %d, value %d, more %d where %s is due", at - 1, (unsigned)(std::make_unsigned_t<U>)u, damaged, eight ? 8 : 16,
								  err, val, more, want == Ref::ERROR ? "an error" : want == Ref::VALUE ? "a value" : "more input");
				if (val && v != ref.cp)
					sim_violation("value", "the utf-%d decoder yields %x instead of %x", eight ? 8 : 16, (unsigned)v, (unsigned)ref.cp);
			}
		}
		if (err)
		{
			sim_probe("ill-formed unit reported");
			now.clear_error();
			if (is("D01") && (now.error() || now.needs_more_input()))
				sim_violation("state", "the utf-%d decoder is not ready for new input after clear_error()", eight ? 8 : 16);
		}
		if (r.chance(0.1))
		{
			checkpoint = now;
			ref_cp	   = ref;
			check_at   = at;
		}
		if (r.chance(0.1))
			sim_yield();
	}
}
struct Point
{
	char32_t cp;
	size_t at, n;
};
template <typename Char>
static void whole(const SimOp& o)
{
	Rng r{ (uint64_t)o.d };
	const size_t n = (size_t)clampi(o.b, 0, 70000);
	std::vector<Char> units;
	std::vector<Point> want;
	for (size_t i = 0; i < n; i++)
	{
		char32_t c = random_cp(r);
		if (sizeof(Char) > 1) // text of which the byte order is in doubt is left out
			while ((c & 0xFF) == 0 || (c >= 0x10000 && (((c - 0x10000) >> 10) & 0xFF) == 0))
				c = random_cp(r);
		if (!i && (c == 0xFEFF || c == 0xFFFE)) // reads as a byte order mark
			c = 'x';
		const size_t at = units.size();
		if constexpr (sizeof(Char) == 1)
			put8<Char>(units, c);
		else if constexpr (sizeof(Char) == 2)
			put16<Char>(units, c);
		else
			units.push_back((Char)c);
		want.push_back({ c, at, units.size() - at });
	}
	// damage on the way, past the units from which the byte order is told
	bool damaged	= false;
	size_t complete = units.size(); // from here on: a sequence that the text does not complete
	if constexpr (sizeof(Char) < 4)
		if (o.c > 0 && units.size() > 4)
		{
			const double hurt = o.c == 1 ? 0.02 : o.c == 2 ? 0.1 : 0.5;
			std::vector<Char> hurt_units;
			for (size_t i = 0; i < units.size(); i++)
			{
				Char u	   = units[i];
				uint64_t f = i < 4 ? 0 : sim_fault(FK_DEVICE, 5);
				if (i >= 4 && !f && r.chance(hurt))
					f = 1 + r.below(4);
				damaged |= f != 0;
				switch (f)
				{
					case 1: continue;															   // lost
					case 2: u = (Char)(u ^ (Char)(1u << r.below(8 * sizeof(Char)))); break; // a bit flips
					case 3: u = (Char)r.next(); break;											   // noise
					case 4: hurt_units.push_back(u); break;									   // delivered twice
					case 5: i = units.size(); break;											   // the text ends here
					default: break;
				}
				if (sizeof(Char) > 1 && (u & 0xFF) == 0)
					u = units[i < units.size() ? i : 0];
				hurt_units.push_back(u);
			}
			units.swap(hurt_units);
		}
	if (damaged)
	{
		sim_probe("a damaged text walked through");
		want.clear();
		Ref ref{};
		size_t from = 0;
		for (size_t i = 0; i < units.size(); i++)
		{
			const auto unit = (unsigned)(std::make_unsigned_t<Char>)units[i];
			switch (sizeof(Char) == 1 ? ref.unit8(unit) : ref.unit16(unit))
			{
				case Ref::VALUE:
					want.push_back({ ref.cp, from, i - from + 1 });
					from = i + 1;
					break;
				case Ref::ERROR: // what was rejected is passed on unit by unit
					for (; from <= i; from++)
						want.push_back({ (char32_t)(std::make_unsigned_t<Char>)units[from], from, 1 });
					break;
				default: break;
			}
		}
		complete = from;
	}
	const size_t stop_at = r.chance(0.3) ? 1 + r.below(n + 1) : ~size_t{};
	const bool reverse	 = r.chance(0.5);
	std::vector<Point> got;
	got.reserve(units.size() + 1);
	muu::utf_decode(std::basic_string_view<Char>{ units.data(), units.size() }, reverse,
					[&](char32_t cp, size_t at, size_t cnt) noexcept -> bool
					{
						got.push_back({ cp, at, cnt });
						return got.size() != stop_at;
					});
	if (reverse)
		std::reverse(want.begin(), want.end());
	if (stop_at && stop_at < want.size())
		want.resize(stop_at);
	Quiet q;
	sim_event(got.size(), n);
	if (!is("D01"))
		return;
	if (damaged && reverse)
	{
		// backwards, sequences cut off are not always told apart: but each unit is visited at most once, in order, and no further than asked for
		size_t end = units.size();
		if (got.size() > stop_at)
			sim_violation("whole", "utf_decode() of a damaged text in reverse goes on after it has been told to stop");
		for (const auto& g : got)
		{
			if (!g.n || g.at > end || g.n > end - g.at)
				sim_violation("whole", "utf_decode() of a damaged text in reverse visits %zu units at %zu where those before %zu are left", g.n, g.at, end);
			end = g.at;
		}
		return;
	}
	if (damaged)
		while (got.size() > want.size() && got.size() <= stop_at && got[want.size()].at >= complete)
			got.pop_back(); // whether units of a sequence cut off by the end of the text are passed on is left open
	if (damaged && sizeof(Char) == 1)
		for (size_t i = 0; i < std::min(got.size(), want.size()); i++)
			if (want[i].n == 1)
				got[i].cp &= 0xFF;
	if (got.size() != want.size())
		sim_violation("whole", "utf_decode() of %zu code points in %zu-byte units yields %zu instead of %zu%s", n, sizeof(Char), got.size(), want.size(), reverse ? " (in reverse)" : "");
	for (size_t i = 0; i < got.size(); i++)
		if (got[i].cp != want[i].cp || got[i].at != want[i].at || got[i].n != want[i].n)
			sim_violation("whole", "utf_decode() yields %x at %zu (%zu units of %zu bytes) instead of %x at %zu (%zu units)%s", (unsigned)got[i].cp, got[i].at, got[i].n, sizeof(Char), (unsigned)want[i].cp, want[i].at,
						  want[i].n, reverse ? " in reverse" : "");
}

// ------------------------------------------------------------------ uuids
using Id = std::array<uint8_t, 16>;
static Id id_of(const muu::uuid& u)
{
	Id o;
	for (size_t i = 0; i < 16; i++)
		o[i] = (uint8_t)u.bytes.value[i];
	return o;
}
static muu::uuid make_uuid(const Id& b)
{
	muu::uuid u{ nullptr };
	for (size_t i = 0; i < 16; i++)
		u.bytes.value[i] = (std::byte)b[i];
	return u;
}
static Id random_id(Rng& r)
{
	Id b;
	const int sort = (int)r.below(4);
	for (auto& v : b)
		v = sort == 0 ? 0 : sort == 1 && r.chance(0.5) ? (r.chance(0.5) ? 0 : 0xFF) : (uint8_t)r.next();
	if (sort == 0 && r.chance(0.8))
		b[r.below(16)] = (uint8_t)(1u << r.below(8));
	return b;
}
// exactly 32 hexadecimal digits; hyphens and whitespace only between octets; whitespace and one pair of braces around it
static bool ref_parse(const std::vector<uint32_t>& t, Id& out)
{
	auto ws	 = [](uint32_t c) { return (c >= 9 && c <= 13) || c == 32; };
	auto hex = [](uint32_t c) -> int { return c >= '0' && c <= '9' ? (int)(c - '0') : c >= 'a' && c <= 'f' ? (int)(c - 'a' + 10) : c >= 'A' && c <= 'F' ? (int)(c - 'A' + 10) : -1; };
	size_t b = 0, e = t.size();
	while (b < e && ws(t[b]))
		b++;
	while (e > b && ws(t[e - 1]))
		e--;
	if (b < e && t[b] == '{')
	{
		if (t[e - 1] != '}')
			return false;
		b++;
		e--;
		while (b < e && ws(t[b]))
			b++;
		while (e > b && ws(t[e - 1]))
			e--;
	}
	size_t n = 0;
	for (size_t i = b; i < e; i++)
	{
		const int h = hex(t[i]);
		if (h < 0)
		{
			if ((t[i] != '-' && !ws(t[i])) || n % 2 || !n || n == 32)
				return false;
			continue;
		}
		if (n == 32)
			return false;
		out[n / 2] = (uint8_t)(n % 2 ? out[n / 2] | h : h << 4);
		n++;
	}
	return n == 32;
}
template <typename Char>
static void send_uuid(const SimOp& o)
{
	using Unit = std::conditional_t<sizeof(Char) == 1, uint8_t, std::conditional_t<sizeof(Char) == 2, uint16_t, uint32_t>>;
	Rng r{ (uint64_t)o.d };
	Id want = random_id(r);
	muu::uuid id{ nullptr };
	switch (clampi(o.b, 0, 3))
	{
		case 0:
			id	 = muu::uuid::generate();
			want = id_of(id);
			break;
		case 1: // named
		{
			std::vector<uint8_t> name((size_t)(r.chance(0.9) ? r.below(100) : r.below(5000)));
			for (auto& c : name)
				c = (uint8_t)r.next();
			const muu::uuid ns = make_uuid(want);
			switch (r.below(3))
			{
				case 0: id = muu::uuid{ ns, name.data(), name.size() }; break;
				case 1: id = muu::uuid{ ns, std::string_view{ reinterpret_cast<const char*>(name.data()), name.size() } }; break;
				default: id = muu::uuid{ ns, std::u8string_view{ reinterpret_cast<const char8_t*>(name.data()), name.size() } }; break;
			}
			std::vector<uint8_t> all(want.begin(), want.end());
			all.insert(all.end(), name.begin(), name.end());
			uint8_t d[20];
			ref_sha1(all.data(), all.size(), d);
			memcpy(want.data(), d, 16);
			want[6] = (uint8_t)((want[6] & 15) | 0x50);
			want[8] = (uint8_t)((want[8] & 63) | 0x80);
			Quiet q;
			if (is("U02") && (id_of(id) != want || id.version() != muu::uuid_version::name_sha1 || id.variant() != muu::uuid_variant::standard))
				sim_violation("named", "the uuid named by %zu bytes in a name space is not the one RFC 4122 prescribes", name.size());
			break;
		}
		default: id = make_uuid(want); break;
	}
	// printed by the sender
	std::vector<uint32_t> text, canonical;
	if (r.chance(0.5))
	{
		std::ostringstream ss;
		ss << id;
		for (char c : ss.str())
			text.push_back((uint8_t)c);
	}
	else
	{
		std::wostringstream ss;
		ss << id;
		for (wchar_t c : ss.str())
			text.push_back((uint32_t)c);
	}
	for (size_t i = 0; i < 16; i++)
	{
		if (i == 4 || i == 6 || i == 8 || i == 10)
			canonical.push_back('-');
		canonical.push_back((uint8_t)"0123456789ABCDEF"[want[i] >> 4]);
		canonical.push_back((uint8_t)"0123456789ABCDEF"[want[i] & 15]);
	}
	{
		Quiet q;
		auto upper = text;
		for (auto& c : upper)
			if (c >= 'a' && c <= 'f')
				c -= 32;
		if (is("U02") && upper != canonical)
			sim_violation("printed", "a uuid's text is not its canonical form");
	}
	// rewritten by intermediaries
	static const uint32_t spaces[] = { ' ', '\t', '\n', '\r', '\v', '\f', ' ' };
	if (r.chance(0.5))
	{
		std::vector<uint32_t> t;
		const int cases = (int)r.below(3), seps = (int)r.below(4);
		const bool braces = r.chance(0.3), pad = r.chance(0.3);
		auto space = [&]
		{
			if (pad)
				for (size_t k = r.below(4); k--;)
					t.push_back(r.pick(spaces));
		};
		space();
		if (braces)
			t.push_back('{');
		space();
		size_t digits = 0;
		for (uint32_t c : text)
		{
			if (c == '-')
			{
				if (!seps)
					t.push_back('-');
				continue;
			}
			if (seps == 2 && digits && digits % 2 == 0)
				t.push_back('-');
			if (seps == 3 && digits && digits % 2 == 0)
				for (size_t k = r.below(3); k--;)
					t.push_back(r.chance(0.5) ? (uint32_t)'-' : r.pick(spaces));
			digits++;
			if (c >= 'A' && c <= 'F' && (cases == 1 || (cases == 2 && r.chance(0.5))))
				c += 32;
			t.push_back(c);
		}
		space();
		if (braces)
			t.push_back('}');
		space();
		text = t;
	}
	// by ones that do not know the grammar
	int damaged = 0;
	if (o.c == 4)
		for (size_t k = r.below(4); k--; damaged++)
		{
			static const uint32_t extra[] = { '{', '{', '}', '}', '-', ' ', '\t', '0', 'F', 'x' };
			const uint32_t c   = r.pick(extra);
			const size_t where = r.chance(0.35) ? 0 : r.chance(0.5) ? text.size() : r.below(text.size() + 1);
			if (r.chance(0.25) && !text.empty())
				text.erase(text.begin() + (std::ptrdiff_t)std::min(where, text.size() - 1));
			else
				text.insert(text.begin() + (std::ptrdiff_t)where, r.chance(0.4) ? 2 : 1, c);
		}
	// damaged in transit
	std::vector<Unit> units;
	const double hurt = o.c == 1 ? 0.01 : o.c == 2 ? 0.03 : o.c == 3 ? 0.2 : 0;
	for (uint32_t c : text)
	{
		Unit u		= (Unit)c;
		uint64_t f = sim_fault(FK_DEVICE, 7);
		if (!f && hurt && r.chance(hurt))
			f = 1 + r.below(7);
		damaged += f != 0;
		switch (f)
		{
			case 1: continue;													   // lost
			case 2: units.push_back(u); units.push_back(u); continue;			   // doubled
			case 3: u = (Unit)(u ^ (Unit)((Unit)1 << r.below(8 * sizeof(Unit)))); break; // a bit flips
			case 4: u = (Unit)r.next(); break;									   // noise
			case 5:																   // plausible, but something else
			{
				static const uint32_t like[] = { '-', '{', '}', ' ', 'g', 'G', '/', ':', '@', '`', '0', 'f', '(', 0, 0xB7, 0x2010, 0xFF10, 0x10030, 0x2028 };
				u = (Unit)r.pick(like);
				break;
			}
			case 6: // swapped with its neighbour
				if (!units.empty())
					std::swap(units.back(), u);
				break;
			case 7:
				if (r.chance(0.1))
					goto cut;
				break;
			default: break;
		}
		units.push_back(u);
	}
cut:
	if (damaged)
		sim_probe("uuid text damaged in transit");
	// read by the receiver from a buffer of just that size
	std::optional<muu::uuid> got;
	{
		std::unique_ptr<Char[]> buf{ new Char[units.empty() ? 1 : units.size()] };
		for (size_t i = 0; i < units.size(); i++)
			buf[i] = (Char)units[i];
		got = muu::uuid::parse(std::basic_string_view<Char>{ buf.get(), units.size() });
	}
	Quiet q;
	sim_event(got ? 1 + (uint64_t)got->bytes.value[15] : 0, units.size());
	if (!is("U02"))
		return;
	// text whose byte order is in doubt, or that ends in the middle of a code point, is left out
	if constexpr (sizeof(Char) > 1)
	{
		if (!units.empty() && (units[0] == 0xFEFF || units[0] == (sizeof(Char) == 2 ? 0xFFFEu : 0xFFFE0000u)))
			return;
		int lo = 0, hi = 0;
		for (size_t i = 0; i < units.size() && i < 16; i++)
		{
			lo += (units[i] & 0xFF) == 0;
			hi += (units[i] >> (8 * (sizeof(Char) - 1))) == 0;
		}
		if (lo > hi)
			return;
	}
	else if (units.size() >= 3 && units[0] == 0xEF && units[1] == 0xBB && units[2] == 0xBF)
		return;
	Ref ref;
	Ref::Out last = Ref::VALUE;
	std::vector<uint32_t> cps;
	for (auto u : units)
	{
		last = sizeof(Char) == 1 ? ref.unit8((unsigned)u) : sizeof(Char) == 2 ? ref.unit16((unsigned)u) : (ref.cp = (char32_t)u, Ref::VALUE);
		if (last == Ref::VALUE)
			cps.push_back((uint32_t)ref.cp);
		else if (last == Ref::ERROR)
			cps.push_back(0xFFFD);
	}
	if (last == Ref::MORE)
		return;
	Id v{};
	const bool ok = ref_parse(cps, v);
	if (ok != got.has_value())
		sim_violation("parsed", "a uuid's text of %zu units of %zu bytes, %d of them damaged on the way, is %s", units.size(), sizeof(Char), damaged, ok ? "refused although it is well-formed" : "accepted although it is ill-formed");
	if (ok && id_of(*got) != v)
		sim_violation("parsed", "a uuid sent as text arrives as a different one (%d units damaged)", damaged);
	if (!damaged && (!got || id_of(*got) != want))
		sim_violation("parsed", "a uuid sent as undamaged text does not arrive");
}
static void order_uuids(const SimOp& o)
{
	Rng r{ (uint64_t)o.d };
	const size_t n = (size_t)clampi(o.a, 1, 40);
	std::vector<Id> ids;
	std::vector<muu::uuid> us;
	for (size_t i = 0; i < n; i++)
	{
		Id b = !ids.empty() && r.chance(0.5) ? ids[r.below(ids.size())] : random_id(r);
		if (r.chance(0.4))
			b[r.below(16)] ^= (uint8_t)(1u << r.below(8));
		ids.push_back(b);
		auto u64 = [&](size_t at, size_t len) { uint64_t v = 0; for (size_t k = 0; k < len; k++) v = v << 8 | b[at + k]; return v; };
		switch (r.below(4))
		{
			case 0: us.push_back(make_uuid(b)); break;
			case 1: us.push_back(muu::uuid{ (uint32_t)u64(0, 4), (uint16_t)u64(4, 2), (uint16_t)u64(6, 2), b[8], b[9], u64(10, 6) | r.next() << 48 }); break;
			case 2: us.push_back(muu::uuid{ (uint32_t)u64(0, 4), (uint16_t)u64(4, 2), (uint16_t)u64(6, 2), (uint16_t)u64(8, 2), u64(10, 6) | r.next() << 48 }); break;
			default: us.push_back(muu::uuid{ (unsigned __int128)u64(0, 8) << 64 | u64(8, 8) }); break;
		}
	}
	std::vector<muu::uuid> sorted = us;
	std::sort(sorted.begin(), sorted.end());
	std::unordered_set<muu::uuid> set(us.begin(), us.end());
	if (r.chance(0.5))
		sim_yield();
	std::vector<Id> want = ids;
	std::sort(want.begin(), want.end());
	int bad = 0;
	for (size_t i = 0; i < n; i++)
	{
		const auto& u = us[i];
		const auto& b = ids[i];
		auto u64	  = [&](size_t at, size_t len) { uint64_t v = 0; for (size_t k = 0; k < len; k++) v = v << 8 | b[at + k]; return v; };
		if (id_of(u) != b)
			bad |= 1;
		if (u.time_low() != u64(0, 4) || u.time_mid() != u64(4, 2) || u.time_high_and_version() != u64(6, 2) || u.clock_seq_high_and_reserved() != b[8] || u.clock_seq_low() != b[9] || u.node() != u64(10, 6)
			|| static_cast<unsigned __int128>(u) != ((unsigned __int128)u64(0, 8) << 64 | u64(8, 8)))
			bad |= 2;
		bool any = false;
		for (auto v : b)
			any |= v != 0;
		if (static_cast<bool>(u) != any)
			bad |= 2;
		const unsigned ver = b[6] >> 4, var = b[8] >> 5;
		if (u.version() != (ver > 5 ? muu::uuid_version::unknown : (muu::uuid_version)ver))
			bad |= 4;
		if (u.variant() != (!var ? muu::uuid_variant::none : var < 4 ? muu::uuid_variant::reserved_ncs : var < 6 ? muu::uuid_variant::standard : var == 6 ? muu::uuid_variant::reserved_microsoft : muu::uuid_variant::reserved_future))
			bad |= 4;
		if (!set.count(u) || !set.count(make_uuid(b)) || std::hash<muu::uuid>{}(u) != std::hash<muu::uuid>{}(make_uuid(b)))
			bad |= 8;
		if (id_of(sorted[i]) != want[i])
			bad |= 16;
		for (size_t k = 0; k < n; k++)
		{
			const int c = ids[i] < ids[k] ? -1 : ids[i] == ids[k] ? 0 : 1, d = muu::uuid::compare(u, us[k]);
			if ((d > 0) - (d < 0) != c || (u < us[k]) != (c < 0) || (u <= us[k]) != (c <= 0) || (u > us[k]) != (c > 0) || (u >= us[k]) != (c >= 0) || (u == us[k]) != (c == 0) || (u != us[k]) != (c != 0))
				bad |= 32;
		}
	}
	std::sort(ids.begin(), ids.end());
	if ((size_t)(std::unique(ids.begin(), ids.end()) - ids.begin()) != set.size())
		bad |= 8;
	Quiet q;
	sim_event((uint64_t)bad, n);
	if (is("U02") && bad)
		sim_violation("order", "uuids: %s%s%s%s%s%s", bad & 1 ? "put together wrongly " : "", bad & 2 ? "taken apart wrongly " : "", bad & 4 ? "version or variant wrong " : "", bad & 8 ? "not found by hash " : "",
					  bad & 16 ? "sorted wrongly " : "", bad & 32 ? "compared wrongly" : "");
}

// ------------------------------------------------------------------ runs
static void client(int k)
{
	size_t n;
	{
		Quiet q;
		n = X->ops[k].size();
	}
	for (size_t i = 0; i < n; i++)
	{
		SimOp o;
		{
			Quiet q;
			o = X->ops[k][i];
		}
		const int64_t h = clampi(o.a, 0, 3);
		switch (o.kind)
		{
			case OP_HASH:
				h == 0 ? hash<muu::sha1>(o) : h == 1 ? hash<muu::fnv1a<32>>(o) : h == 2 ? hash<muu::fnv1a<64>>(o) : hash<muu::fnv1a<128>>(o);
				break;
			case OP_TEXT:
				h == 0 ? hash_text<muu::sha1>(o) : h == 1 ? hash_text<muu::fnv1a<32>>(o) : h == 2 ? hash_text<muu::fnv1a<64>>(o) : hash_text<muu::fnv1a<128>>(o);
				break;
			case OP_UUID:
				switch (clampi(o.a, 0, 4))
				{
					case 0: send_uuid<char>(o); break;
					case 1: send_uuid<char8_t>(o); break;
					case 2: send_uuid<char16_t>(o); break;
					case 3: send_uuid<char32_t>(o); break;
					default: send_uuid<wchar_t>(o); break;
				}
				break;
			case OP_ORDER: order_uuids(o); break;
			case OP_LONG: h == 0 ? hash_long<muu::sha1>(o) : h == 1 ? hash_long<muu::fnv1a<32>>(o) : h == 2 ? hash_long<muu::fnv1a<64>>(o) : hash_long<muu::fnv1a<128>>(o); break;
			case OP_DECODE: h & 1 ? decode<muu::utf16_decoder, uint16_t>(o) : decode<muu::utf8_decoder, uint8_t>(o); break;
			case OP_WHOLE: h == 0 ? (r_bit(o.d) ? whole<char>(o) : whole<char8_t>(o)) : h == 1 ? whole<char16_t>(o) : (r_bit(o.d) ? whole<char32_t>(o) : whole<wchar_t>(o)); break;
		}
	}
}
static void begin(const Scenario& sc)
{
	X				= new State;
	X->sc			= sc;
	const int64_t n = clampi(sc.get("clients", 1), 1, CLIENTS);
	for (auto& o : sc.ops)
		X->ops[clampi(o.thr, 0, n - 1)].push_back(o);
	sim_race_mode(1);
}
static void body()
{
	int n;
	{
		Quiet q;
		n = (int)clampi(X->sc.get("clients", 1), 1, CLIENTS);
	}
	std::vector<std::thread> th;
	for (int k = 1; k < n; k++)
		th.emplace_back([k] { client(k); });
	client(0);
	for (auto& t : th)
		t.join();
}
static void end(int)
{
	delete X;
	X = nullptr;
}
static int stuck(std::string& why)
{
	why = "a stream is never consumed";
	return 1;
}

static const Workload wl = { SIM_WL_NAME, gen, begin, body, end, stuck, op_names, OP_COUNT };
extern "C" __attribute__((visibility("default"))) const Workload* sim_workload()
{
	return &wl;
}

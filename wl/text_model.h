// What text is: code points, their encodings, and how it is generated. Shared by the workloads on text.
#pragma once
#include "../sim/rt.h"
#include <string>
#include <vector>

using Text = std::vector<uint32_t>;
static bool is_space(uint32_t c)
{
	switch (c)
	{
		case ' ':
		case '\t':
		case '\n':
		case '\r':
		case 0x0B:
		case 0x0C:
		case 0x85:
		case 0xA0:
		case 0x1680:
		case 0x2028:
		case 0x2029:
		case 0x202F:
		case 0x205F:
		case 0x3000: return true;
		default: return c >= 0x2000 && c <= 0x200A;
	}
}
static Text trimmed(const Text& t)
{
	size_t a = 0, b = t.size();
	while (a < b && is_space(t[a]))
		a++;
	while (b > a && is_space(t[b - 1]))
		b--;
	return Text(t.begin() + (long)a, t.begin() + (long)b);
}
// the library guesses the byte order of text without a byte order mark from the zero bytes among its first 16 units
static bool looks_swapped(const Text& t)
{
	int low = 0, high = 0, units = 0;
	auto unit = [&](uint32_t u)
	{
		if (units++ < 16)
			low += !(u & 0xFF), high += !(u >> 8);
	};
	for (uint32_t c : t)
	{
		if (c < 0x10000)
			unit(c);
		else
			unit(0xD800 + ((c - 0x10000) >> 10)), unit(0xDC00 + (c & 0x3FF));
	}
	int low32 = 0, n32 = 0;
	for (uint32_t c : t)
		if (n32 < 16)
			n32++, low32 += !(c & 0xFF);
	return low > high || low32 >= (n32 ? n32 : 1);
}
static uint32_t a_code_point(Rng& r)
{
	static const uint32_t edge[] = { 0, 0, 1, 0x7E, 0x7F, 0x80, 0x81, 0xE4, 0xFF, 0x100, 0x7FE, 0x7FF, 0x800, 0x801, 0xFFF, 0x1000, 0x20AC, 0x3042, 0x6F22, 0xD7FE, 0xD7FF, 0xE000, 0xE001, 0xFFFC, 0xFFFD, 0x10000, 0x10001, 0x10437, 0x1F600, 0x2FFFF, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFE, 0x10FFFF };
	static const uint32_t space[] = { ' ', ' ', '\t', '\n', '\r', 0x85, 0xA0, 0x1680, 0x2003, 0x2028, 0x205F, 0x3000 };
	switch (r.below(8))
	{
		case 0: return r.pick(edge);
		case 1: return r.pick(space);
		case 2:
		{
			uint32_t c = (uint32_t)r.range(0xA1, r.chance(0.5) ? 0xFFF0 : 0x10FFFF);
			return c >= 0xD800 && c <= 0xDFFF ? 0x20AC : c == 0xFEFF || c == 0xFFFE ? 'x' : c;
		}
		default: return (uint32_t)r.range(0x21, 0x7E);
	}
}
// a seed for a_text(): mostly of short texts, sometimes of one of hundreds or thousands, rarely of tens of thousands of code points
static constexpr int64_t SEED_LONG = 2000000, SEED_HUGE = 4000000;
static int64_t text_seed(Rng& r)
{
	return r.chance(0.0003) ? r.range(SEED_HUGE, SEED_HUGE + 999999) : r.chance(0.003) ? r.range(SEED_LONG, SEED_LONG + 999999) : r.range(1, 1000000);
}
// how many times more steps it may take
static int64_t text_steps(int64_t seed)
{
	return seed >= SEED_HUGE ? 200 : seed >= SEED_LONG ? 20 : 1;
}
static Text a_text(int64_t seed)
{
	Text t;
	if (!seed)
		return t;
	Rng r((uint64_t)seed * 0x9E37 + 5);
	static const int64_t lens[] = { 0, 1, 1, 2, 3, 4, 5, 7, 8, 11, 15, 16, 17, 22, 23, 31, 32, 40, 100 };
	const int64_t n				= seed >= SEED_HUGE ? 65500 + r.range(0, 100) : seed >= SEED_LONG ? (r.chance(0.5) ? 250 + r.range(0, 12) : r.range(101, 3000)) : r.pick(lens);
	const int kind				= (int)r.below(6); // 0: plain ASCII, 1: only exotic, 2: only white space, otherwise mixed
	for (int64_t i = 0; i < n; i++)
	{
		uint32_t c;
		do
			c = kind == 0 ? (uint32_t)r.range(0x21, 0x7E) : a_code_point(r);
		while ((kind == 1 && c < 0x80) || (kind == 2 && !is_space(c)));
		t.push_back(c);
	}
	// surrounded by white space
	if (kind > 2 && r.chance(0.5))
	{
		for (int64_t k = r.range(0, 4); k-- > 0;)
			t.insert(t.begin(), r.chance(0.7) ? ' ' : 0x2003);
		for (int64_t k = r.range(0, 4); k-- > 0;)
			t.push_back(r.chance(0.7) ? ' ' : 0x3000);
	}
	while (looks_swapped(t) || looks_swapped(trimmed(t)))
	{
		if (t.empty() || trimmed(t).empty())
			return Text(t.size(), ' ');
		// more letters than anything else, at the front of what remains after trimming
		size_t a = 0;
		while (is_space(t[a]))
			a++;
		t.insert(t.begin() + (long)a, 'k');
		if (a)
			t.erase(t.begin());
	}
	return t;
}
template <typename C>
static std::vector<C> encode(const Text& t)
{
	std::vector<C> o;
	for (uint32_t c : t)
	{
		if constexpr (sizeof(C) == 1)
		{
			if (c < 0x80)
				o.push_back((C)c);
			else if (c < 0x800)
				o.push_back((C)(0xC0 + c / 64)), o.push_back((C)(0x80 + c % 64));
			else if (c < 0x10000)
				o.push_back((C)(0xE0 + c / 4096)), o.push_back((C)(0x80 + c / 64 % 64)), o.push_back((C)(0x80 + c % 64));
			else
				o.push_back((C)(0xF0 + c / 262144)), o.push_back((C)(0x80 + c / 4096 % 64)), o.push_back((C)(0x80 + c / 64 % 64)), o.push_back((C)(0x80 + c % 64));
		}
		else if constexpr (sizeof(C) == 2)
		{
			if (c < 0x10000)
				o.push_back((C)c);
			else
				o.push_back((C)(0xD800 + (c - 0x10000) / 1024)), o.push_back((C)(0xDC00 + (c - 0x10000) % 1024));
		}
		else
			o.push_back((C)c);
	}
	return o;
}
// not text at all
template <typename C>
static std::vector<C> garbage(int64_t seed)
{
	Rng r((uint64_t)seed * 0x51ED + 9);
	std::vector<C> o;
	static const uint64_t odd[] = { 0, 0xFEFF, 0xFFFE, 0xFFFE0000u, 0xD800, 0xDC00, 0xDFFF, 0xED, 0xF0, 0xF8, 0xFF, 0x80, 0xEF, 0xBB, 0xBF, 0x110000, 0xFFFFFFFFu };
	for (int64_t n = r.range(1, r.chance(0.5) ? 2 : 30); n-- > 0;)
		o.push_back((C)(r.chance(0.6) ? r.pick(odd) : r.next()));
	return o;
}

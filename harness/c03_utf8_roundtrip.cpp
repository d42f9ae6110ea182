// C03: UTF-8 encoding/decoding round trip and layout.
#include <utki/unicode.hpp>

#include "mc.hpp"

using namespace mc;

namespace {
// reference encoder: data driven (table of [limit, lead marker, number of continuation bytes])
std::string ref_encode(uint32_t c)
{
	static const struct {
		uint32_t limit;
		unsigned lead;
		int cont;
	} t[] = {
		{0x80, 0, 0},
		{0x800, 0xc0, 1},
		{0x10000, 0xe0, 2},
		{0x200000, 0xf0, 3},
		{0x4000000, 0xf8, 4},
		{0x80000000u, 0xfc, 5}
	};
	for (auto& r : t) {
		if (c < r.limit) {
			std::string s;
			s.push_back(char(r.lead + (c >> (6 * r.cont))));
			for (int k = r.cont - 1; k >= 0; --k) {
				s.push_back(char(0x80 + ((c >> (6 * k)) % 64)));
			}
			return s;
		}
	}
	return {};
}

inline void check_one(uint32_t c)
{
	auto a = utki::to_utf8(char32_t(c));
	// layout, without allocations since this is the hot loop
	unsigned cont;
	unsigned lead;
	if (c < 0x80) {
		cont = 0, lead = 0;
	} else if (c < 0x800) {
		cont = 1, lead = 0xc0;
	} else if (c < 0x10000) {
		cont = 2, lead = 0xe0;
	} else if (c < 0x200000) {
		cont = 3, lead = 0xf0;
	} else if (c < 0x4000000) {
		cont = 4, lead = 0xf8;
	} else {
		cont = 5, lead = 0xfc;
	}
	MC_CHECK(uint8_t(a[0]) == (lead | (c >> (6 * cont))), "lead byte of 0x%x is 0x%x", c, uint8_t(a[0]));
	for (unsigned k = 1; k <= cont; ++k) {
		MC_CHECK(
			uint8_t(a[k]) == (0x80 | ((c >> (6 * (cont - k))) & 0x3f)),
			"byte %u of 0x%x is 0x%x",
			k,
			c,
			uint8_t(a[k])
		);
	}
	MC_CHECK(a[cont + 1] == 0, "encoding of 0x%x is not zero terminated after %u bytes", c, cont + 1);
	if (c == 0) {
		return;
	}
	// decode, as C-string and as exact span
	{
		utki::utf8_iterator i(a.data());
		MC_CHECK(i.character() == char32_t(c), "0x%x decoded from C-string as 0x%x", c, unsigned(i.character()));
		MC_CHECK(!i.is_end(), "0x%x", c);
		++i;
		MC_CHECK(i.is_end(), "something after 0x%x: 0x%x", c, unsigned(i.character()));
	}
	{
		utki::utf8_iterator i(std::string_view(a.data(), cont + 1));
		MC_CHECK(i.character() == char32_t(c), "0x%x decoded from view as 0x%x", c, unsigned(i.character()));
		++i;
		MC_CHECK(i.is_end(), "something after 0x%x: 0x%x", c, unsigned(i.character()));
	}
}

std::string fmt(const std::u32string& s)
{
	std::string r;
	char b[16];
	size_t k = 0;
	for (auto c : s) {
		snprintf(b, sizeof(b), "U+%X ", unsigned(c));
		r += b;
		if (++k == 32) {
			r += "...";
			break;
		}
	}
	return r;
}

void check_string(const std::u32string& u)
{
	std::string exp;
	for (auto c : u) {
		exp += ref_encode(c);
	}
	auto enc = utki::to_utf8(u);
	MC_CHECK(enc == exp, "to_utf8(%s) = %s expected %s", fmt(u).c_str(), quote(enc).c_str(), quote(exp).c_str());
	MC_CHECK(utki::to_utf8(utki::span<const char32_t>(u.data(), u.size())) == exp, "span %s", fmt(u).c_str());

	MC_CHECK(utki::to_utf32(exp) == u, "std::string %s", fmt(u).c_str());
	MC_CHECK(utki::to_utf32(exp.c_str()) == u, "C-string %s", fmt(u).c_str());
	// exactly sized heap buffer, no terminator
	std::vector<char> buf(exp.begin(), exp.end());
	std::string_view sv(buf.data(), buf.size());
	MC_CHECK(utki::to_utf32(sv) == u, "view %s", fmt(u).c_str());
	MC_CHECK(utki::to_utf32(utki::span<const char>(buf.data(), buf.size())) == u, "span %s", fmt(u).c_str());
	std::vector<uint8_t> ubuf(exp.begin(), exp.end());
	MC_CHECK(utki::to_utf32(utki::span<const uint8_t>(ubuf.data(), ubuf.size())) == u, "uspan %s", fmt(u).c_str());
	MC_CHECK(utki::to_utf32(utki::utf8_iterator(sv)) == u, "iterator %s", fmt(u).c_str());

	// stepping iterator, and copies of it, see every character in order
	utki::utf8_iterator i(utki::span<const uint8_t>(ubuf.data(), ubuf.size()));
	for (size_t k = 0; k != u.size(); ++k) {
		MC_CHECK(!i.is_end(), "at %zu of %s", k, fmt(u).c_str());
		MC_CHECK(i.character() == u[k], "at %zu of %s", k, fmt(u).c_str());
		auto copy = i;
		auto& r = ++i;
		MC_CHECK(&r == &i, "prefix increment returns itself");
		MC_CHECK(copy.character() == u[k], "copy changed at %zu of %s", k, fmt(u).c_str());
	}
	MC_CHECK(i.is_end(), "%s", fmt(u).c_str());
	steps(9);
}
} // namespace

// every code point value
MC_SUITE(all_code_points)
{
	bool full = std::string_view(config_name).substr(0, 4) != "asan";
	const uint32_t blocks = 1 << 15;
	uint32_t b = choose(blocks);
	const uint32_t size = 0x80000000u / blocks; // 65536
	uint64_t n = 0;
	note("block 0x%x..0x%x", b * size, b * size + size - 1);
	for (uint32_t k = 0; k != size; ++k) {
		uint32_t c = b * size + k;
		if (!full && b > 0x22) {
			// sanitized build: block boundaries and one value per 1021
			if (k >= 64 && k < size - 64 && k % 1021 != 0) {
				continue;
			}
		}
		where("code point", c);
		check_one(c);
		++n;
	}
	steps(n);
	state(b);
}

// values which have no encoding produce empty string
MC_SUITE(not_encodable)
{
	uint32_t b = choose(1 << 12);
	const uint32_t size = 0x80000000u >> 12;
	for (uint32_t k = 0; k < size; k += (k < 70 || k > size - 70) ? 1 : 61) {
		uint32_t c = 0x80000000u + b * size + k;
		auto a = utki::to_utf8(char32_t(c));
		MC_CHECK(a[0] == 0, "0x%x encoded as non-empty string", c);
		steps();
	}
	note("block at 0x%x", 0x80000000u + b * size);
	state(b);
}

// all the strings over boundary code points
MC_SUITE(strings)
{
	static const char32_t alpha[] = {
		0x1,
		0x41,
		0x7f,
		0x80,
		0x7ff,
		0x800,
		0xd800,
		0xffff,
		0x10000,
		0x10ffff,
		0x1fffff,
		0x200000,
		0x3ffffff,
		0x4000000,
		0x7fffffff
	};
	unsigned len = choose(by_tier(5u, 6u));
	std::u32string u;
	for (unsigned i = 0; i != len; ++i) {
		u.push_back(pick(alpha));
	}
	note("%s", fmt(u).c_str());
	check_string(u);
	state(hasher().add_range(u).h);
}

// encoding string which contains unencodable or zero code points: those contribute nothing, others are kept
MC_SUITE(strings_with_unencodable)
{
	static const char32_t alpha[] = {0x41, 0x7ff, 0x7fffffff, 0x80000000, 0xffffffff, 0x20ac};
	unsigned len = choose(6);
	std::u32string u;
	std::string exp;
	for (unsigned i = 0; i != len; ++i) {
		u.push_back(pick(alpha));
		exp += ref_encode(u.back());
	}
	note("%s", fmt(u).c_str());
	MC_CHECK(utki::to_utf8(u) == exp, "%s", fmt(u).c_str());
	steps();
	state(hasher().add_range(u).h);
}

// long strings of all lengths
MC_SUITE(lengths)
{
	const uint32_t max = by_tier(1400u, 6000u);
	uint32_t len = choose(max + 1);
	unsigned shape = choose(7);
	std::u32string u;
	static const char32_t cyc[] = {0x41, 0xe9, 0x20ac, 0x1f600, 0x250000, 0x5000000};
	for (uint32_t i = 0; i != len; ++i) {
		u.push_back(shape < 6 ? char32_t(cyc[shape] + i % 16) : cyc[i % 6]);
	}
	note("length %u shape %u", len, shape);
	check_string(u);
	state(hasher().add(len).add(shape).h);
}

MC_SUITE(huge)
{
	static const uint32_t lens[] = {4095, 4096, 4097, 8191, 8192, 16384, 32767, 32768, 65535, 65536, 65537, 131072};
	uint32_t len = pick(lens);
	unsigned off = choose(6);
	std::u32string u;
	static const char32_t cyc[] = {0x41, 0xe9, 0x20ac, 0x1f600, 0x250000, 0x5000000};
	for (uint32_t i = 0; i != len; ++i) {
		u.push_back(cyc[(i + off) % 6]);
	}
	note("length %u", len);
	check_string(u);
	state(hasher().add(len).add(off).h);
}

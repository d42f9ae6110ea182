// C05: base64 decoding returns exactly the encoded bytes, padded or not.
#include <utki/base64.hpp>

#include <memory>

#include "mc.hpp"

using namespace mc;

namespace {
const char alphabet[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

// reference encoder (RFC 4648), bit by bit
std::string encode(const std::vector<uint8_t>& d, bool pad)
{
	std::string r;
	size_t bits = d.size() * 8;
	for (size_t b = 0; b < bits; b += 6) {
		unsigned v = 0;
		for (size_t k = b; k != b + 6; ++k) {
			v = v * 2 + (k < bits ? (d[k / 8] >> (7 - k % 8)) & 1 : 0);
		}
		r.push_back(alphabet[v]);
	}
	if (pad) {
		while (r.size() % 4) {
			r.push_back('=');
		}
	}
	return r;
}

std::string hex(const std::vector<uint8_t>& v)
{
	return quote(std::string_view(reinterpret_cast<const char*>(v.data()), v.size()));
}

void check(const std::vector<uint8_t>& d)
{
	for (bool pad : {true, false}) {
		std::string e = encode(d, pad);
		std::unique_ptr<char[]> p(new char[e.size()]);
		memcpy(p.get(), e.data(), e.size());
		std::vector<uint8_t> r = utki::base64_decode(std::string_view(p.get(), e.size()));
		MC_CHECK(r == d, "decode(%s) = %s, expected %s", quote(e).c_str(), hex(r).c_str(), hex(d).c_str());
		steps();
	}
	mc::hasher h;
	h.add_range(d);
	state(h.h);
	note("%s -> %s", encode(d, true).c_str(), hex(d).c_str());
}
} // namespace

// all byte strings of length 0..2; length 3: all in thorough, otherwise all pairs of positions
MC_SUITE(all_short)
{
	unsigned len = choose(3);
	std::vector<uint8_t> d;
	for (unsigned i = 0; i != len; ++i) {
		d.push_back(uint8_t(choose(256)));
	}
	check(d);
}

// every one of 2^24 complete quads
MC_SUITE(all_quads)
{
	uint32_t hi = choose(256);
	uint32_t mid = choose(256);
	bool full = std::string_view(config_name).substr(0, 4) != "asan" || thorough();
	std::string e(4, 'A');
	for (uint32_t lo = 0; lo < 256; lo += full ? 1 : 15) {
		uint32_t q = (hi << 16) | (mid << 8) | lo;
		for (int k = 0; k != 4; ++k) {
			e[k] = alphabet[(q >> (18 - 6 * k)) & 63];
		}
		auto r = utki::base64_decode(e);
		MC_CHECK(r.size() == 3 && r[0] == hi && r[1] == mid && r[2] == lo, "decode(%s) = %s", e.c_str(), hex(r).c_str());
		steps();
	}
	note("quads of bytes %x %x **", hi, mid);
	state(hasher().add(hi).add(mid).h);
}

// strings over boundary bytes
MC_SUITE(boundary_bytes)
{
	static const uint8_t a[] = {0, 1, 0x3f, 0x7f, 0x80, 0xfb, 0xff};
	unsigned len = choose(by_tier(7u, 9u));
	std::vector<uint8_t> d;
	for (unsigned i = 0; i != len; ++i) {
		d.push_back(pick(a));
	}
	check(d);
}

// all lengths, different contents: every character of the alphabet at every position of the last quads
MC_SUITE(lengths)
{
	uint32_t len = choose(by_tier(1100u, 5000u));
	unsigned shape = choose(5);
	std::vector<uint8_t> d(len);
	uint32_t s = shape * 7919 + len;
	for (uint32_t i = 0; i != len; ++i) {
		d[i] = shape == 0 ? 0 : shape == 1 ? 0xff : shape == 2 ? uint8_t(i) : uint8_t(lcg(s));
	}
	check(d);
}

MC_SUITE(huge)
{
	static const uint32_t lens[] = {
		4094, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 32767, 32768, 49151, 49152, 65534, 65535, 65536, 65537, 131071, 200000
	};
	uint32_t len = pick(lens) + choose(3);
	std::vector<uint8_t> d(len);
	uint32_t s = len;
	for (auto& b : d) {
		b = uint8_t(lcg(s));
	}
	check(d);
}

// an independent call is not affected by the calls made before
MC_SUITE(call_sequences)
{
	static const std::vector<std::vector<uint8_t>> v = {
		{},
		{0xff},
		{1, 2},
		{0xfb, 0xef, 0xbe},
		{1, 2, 3, 4},
		std::vector<uint8_t>(100, 0xa5)
	};
	for (int k = 0; k != 4; ++k) {
		check(pick(v));
	}
}

// C08: (de)serialization of fixed-width numbers: byte layout, exact number of written bytes, round trip.
#include <utki/utility.hpp>

#include <cstring>
#include <memory>

#include "mc.hpp"

using namespace mc;

namespace {
constexpr size_t guard = 8;

bool full_build()
{
	return std::string_view(config_name).substr(0, 4) != "asan";
}

template <class T>
void check_layout(const uint8_t* out, T v, bool be, const char* what)
{
	for (unsigned k = 0; k != sizeof(T); ++k) {
		unsigned shift = 8 * (be ? sizeof(T) - 1 - k : k);
		MC_CHECK(
			out[k] == uint8_t(uint64_t(v) >> shift),
			"%s: byte %u of 0x%llx is 0x%x",
			what,
			k,
			(unsigned long long)v,
			out[k]
		);
	}
}

template <class T, class S, class D>
inline void one(T v, bool be, S ser, D des, const char* what, unsigned offset = 0, uint8_t fill = 0xa5)
{
	uint8_t buf[guard * 3 + sizeof(T)];
	memset(buf, fill, sizeof(buf));
	uint8_t* out = buf + guard + offset;
	uint8_t* r = ser(v, out);
	MC_CHECK(r == out + sizeof(T), "%s: returned pointer is at %td", what, r - out);
	check_layout(out, v, be, what);
	for (uint8_t* p = buf; p != out; ++p) {
		MC_CHECK(*p == fill, "%s wrote before the buffer", what);
	}
	for (uint8_t* p = out + sizeof(T); p != buf + sizeof(buf); ++p) {
		MC_CHECK(*p == fill, "%s wrote after the buffer", what);
	}
	T back = des(const_cast<const uint8_t*>(out));
	MC_CHECK(back == v, "%s: 0x%llx deserialized as 0x%llx", what, (unsigned long long)v, (unsigned long long)back);
}

void all_u16(uint16_t v, unsigned off)
{
	one(v, false, utki::serialize16le, utki::deserialize16le, "16le", off);
	one(v, true, utki::serialize16be, utki::deserialize16be, "16be", off);
	one(v, false, utki::serialize_le<uint16_t>, utki::deserialize_le<uint16_t>, "le<16>", off);
	one(v, true, utki::serialize_be<uint16_t>, utki::deserialize_be<uint16_t>, "be<16>", off);
	steps(4);
}

void all_u32(uint32_t v, unsigned off)
{
	one(v, false, utki::serialize32le, utki::deserialize32le, "32le", off);
	one(v, true, utki::serialize32be, utki::deserialize32be, "32be", off);
	one(v, false, utki::serialize_le<uint32_t>, utki::deserialize_le<uint32_t>, "le<32>", off);
	one(v, true, utki::serialize_be<uint32_t>, utki::deserialize_be<uint32_t>, "be<32>", off);
	steps(4);
}

void flt(uint32_t bits, unsigned off)
{
	float f;
	memcpy(&f, &bits, 4);
	for (bool be : {false, true}) {
		uint8_t buf[guard * 3 + 4];
		memset(buf, 0x5a, sizeof(buf));
		uint8_t* out = buf + guard + off;
		uint8_t* r = be ? utki::serialize_float_be(f, out) : utki::serialize_float_le(f, out);
		MC_CHECK(r == out + 4, "float: returned pointer is at %td", r - out);
		check_layout(out, bits, be, "float");
		MC_CHECK(out[-1] == 0x5a && out[4] == 0x5a, "float: wrote outside");
		float b = be ? utki::deserialize_float_be(out) : utki::deserialize_float_le(out);
		uint32_t bb;
		memcpy(&bb, &b, 4);
		MC_CHECK(bb == bits, "float 0x%x deserialized as 0x%x", bits, bb);
	}
	steps(2);
}

template <class U>
void all_u64(U v, unsigned off)
{
	one(v, false, utki::serialize_le<U>, utki::deserialize_le<U>, "le<64>", off);
	one(v, true, utki::serialize_be<U>, utki::deserialize_be<U>, "be<64>", off);
	one(uint64_t(v), false, utki::serialize64le, utki::deserialize64le, "64le", off);
	one(uint64_t(v), true, utki::serialize64be, utki::deserialize64be, "64be", off);
	steps(4);
}
} // namespace

MC_SUITE(all_u8_u16)
{
	unsigned hi = choose(256);
	unsigned off = choose(8);
	for (unsigned lo = 0; lo != 256; ++lo) {
		all_u16(uint16_t(hi << 8 | lo), off);
	}
	one(uint8_t(hi), false, utki::serialize_le<uint8_t>, utki::deserialize_le<uint8_t>, "le<8>", off);
	one(uint8_t(hi), true, utki::serialize_be<uint8_t>, utki::deserialize_be<uint8_t>, "be<8>", off);
	state(hasher().add(hi).add(off).h);
	note("0x%x** at offset %u", hi, off);
}

// every 32 bit pattern, as integer and as float
MC_SUITE(all_u32_float)
{
	uint32_t b = choose(1 << 14);
	const uint32_t size = 1 << 18;
	bool full = full_build();
	note("0x%x + 18 bits", b << 18);
	unsigned off = b % 8;
	// sanitized build: ends of the block and one value per 8191; quick release: ends and one per 7; thorough: all
	const uint32_t ends = full ? 256 : 32;
	const uint32_t stride = !full ? 8191 : thorough() ? 1 : 7;
	for (uint32_t k = 0; k < size; k += (k < ends || k >= size - ends) ? 1 : (k + stride > size - ends ? size - ends - k : stride)) {
		uint32_t v = (b << 18) | k;
		where("u32", v);
		all_u32(v, off);
		flt(v, off);
	}
	state(b);
}

// 64 bit: two bytes take all/boundary values over uniform background
MC_SUITE(u64)
{
	unsigned i = choose(8);
	unsigned j = choose(8);
	static const uint64_t bgs[] = {0, ~0ull, 0x8080808080808080ull, 0x0123456789abcdefull};
	uint64_t bg = pick(bgs);
	for (unsigned x = 0; x != 256; ++x) {
		for (unsigned y : {0u, 1u, 0x7fu, 0x80u, 0xffu, x}) {
			uint64_t v = bg & ~(0xffull << (8 * i)) & ~(0xffull << (8 * j));
			v |= uint64_t(x) << (8 * i);
			if (i != j) {
				v |= uint64_t(y) << (8 * j);
			}
			all_u64<uint64_t>(v, (i + j) % 8);
			all_u64<unsigned long long>(v, x % 8);
			state(v);
		}
	}
	note("bytes %u,%u over 0x%llx", i, j, (unsigned long long)bg);
}

// sequences: the returned pointer is where the next value goes; everything reads back
MC_SUITE(sequences)
{
	unsigned depth = by_tier(5u, 6u);
	size_t total = 0;
	std::vector<unsigned> ops;
	static const size_t w[] = {2, 4, 8, 4, 2, 4, 8, 4, 1};
	for (unsigned i = 0; i != depth; ++i) {
		ops.push_back(choose(9));
		total += w[ops.back()];
	}
	std::unique_ptr<uint8_t[]> p(new uint8_t[total]);
	uint8_t* o = p.get();
	auto val = [](unsigned i) {
		return 0x9182736455463728ull * (2 * i + 1) ^ 0x8000000080008001ull;
	};
	auto fval = [](unsigned i) {
		return -1.5f * float(i + 1);
	};
	for (unsigned i = 0; i != depth; ++i) {
		uint64_t v = val(i);
		switch (ops[i]) {
			case 0: o = utki::serialize16le(uint16_t(v), o); break;
			case 1: o = utki::serialize32le(uint32_t(v), o); break;
			case 2: o = utki::serialize64le(v, o); break;
			case 3: o = utki::serialize_float_le(fval(i), o); break;
			case 4: o = utki::serialize16be(uint16_t(v), o); break;
			case 5: o = utki::serialize32be(uint32_t(v), o); break;
			case 6: o = utki::serialize64be(v, o); break;
			case 7: o = utki::serialize_float_be(fval(i), o); break;
			default: o = utki::serialize_le(uint8_t(v), o); break;
		}
		note("%u", ops[i]);
	}
	MC_CHECK(o == p.get() + total, "total size");
	const uint8_t* q = p.get();
	for (unsigned i = 0; i != depth; ++i) {
		uint64_t v = val(i);
		bool ok = false;
		switch (ops[i]) {
			case 0: ok = utki::deserialize16le(q) == uint16_t(v); break;
			case 1: ok = utki::deserialize32le(q) == uint32_t(v); break;
			case 2: ok = utki::deserialize64le(q) == v; break;
			case 3: ok = utki::deserialize_float_le(q) == fval(i); break;
			case 4: ok = utki::deserialize16be(q) == uint16_t(v); break;
			case 5: ok = utki::deserialize32be(q) == uint32_t(v); break;
			case 6: ok = utki::deserialize64be(q) == v; break;
			case 7: ok = utki::deserialize_float_be(q) == fval(i); break;
			default: ok = utki::deserialize_le<uint8_t>(q) == uint8_t(v); break;
		}
		MC_CHECK(ok, "value %u (op %u) did not read back", i, ops[i]);
		q += w[ops[i]];
		steps();
	}
	state(hasher().add_range(ops).h);
}

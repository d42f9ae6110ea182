// C12: integers: text -> number and number -> text conversions.
#include <utki/string.hpp>

#include <memory>
#include <stdexcept>

#include "mc.hpp"
#include "odd_locale.hpp"

using namespace mc;

namespace {
using u128 = unsigned __int128;

bool space(char c)
{
	return c != 0 && strchr(" \n\t\r\v\f", c) != nullptr;
}

int digit(char c)
{
	if (c >= '0' && c <= '9') {
		return c - '0';
	}
	if (c >= 'a' && c <= 'f') {
		return c - 'a' + 10;
	}
	if (c >= 'A' && c <= 'F') {
		return c - 'A' + 10;
	}
	return 99;
}

struct expected {
	bool thrown = false;
	bool neg = false;
	bool overflow = false;
	u128 mag = 0;
	size_t end = 0;
};

// reference reader
template <class T>
expected ref_read(std::string_view s)
{
	expected r;
	size_t i = 0;
	while (i != s.size() && space(s[i])) {
		++i;
	}
	unsigned base = 10;
	if (std::is_unsigned_v<T>) {
		if (i != s.size() && s[i] == '0') {
			// "0x" + hex digit, "0b" + binary digit, "0" + octal digit; lone 0 otherwise
			size_t j = i + 1;
			if (j < s.size() && s[j] == 'x' && j + 1 < s.size() && digit(s[j + 1]) < 16) {
				base = 16;
				i = j + 1;
			} else if (j < s.size() && s[j] == 'b' && j + 1 < s.size() && digit(s[j + 1]) < 2) {
				base = 2;
				i = j + 1;
			} else if (j < s.size() && digit(s[j]) < 8) {
				base = 8;
				i = j;
			} else if (j < s.size() && digit(s[j]) < 10) {
				i = j; // 8 or 9: decimal
			} else {
				r.end = j;
				return r;
			}
		}
	} else {
		if (i != s.size() && s[i] == '-') {
			r.neg = true;
			++i;
		}
	}
	if (i == s.size() || digit(s[i]) >= int(base)) {
		r.thrown = true;
		return r;
	}
	u128 limit = u128(std::numeric_limits<T>::max()) + (r.neg ? 1 : 0);
	while (i != s.size() && digit(s[i]) < int(base)) {
		if (!r.overflow) {
			r.mag = r.mag * base + unsigned(digit(s[i]));
			if (r.mag > limit) {
				r.overflow = true;
			}
		}
		++i;
	}
	r.end = i;
	return r;
}

template <class T>
void check_read(const std::string& s)
{
	std::unique_ptr<char[]> mem(new char[s.size()]);
	memcpy(mem.get(), s.data(), s.size());
	std::string_view v(mem.get(), s.size());
	auto e = ref_read<T>(v);
	utki::string_parser p(v);
	try {
		T r = p.template read_number<T>();
		MC_CHECK(!e.thrown, "read_number<%zu%s>(%s) did not throw", sizeof(T), std::is_signed_v<T> ? "s" : "u", quote(s).c_str());
		// out of range numbers are documented to read as 0
		T exp = e.overflow ? T(0) : e.neg ? T(-T(e.mag - 1) - 1) : T(e.mag);
		if (e.neg && e.mag == 0) {
			exp = 0;
		}
		MC_CHECK(
			r == exp,
			"read_number<%zu%s>(%s) = %lld expected %lld",
			sizeof(T),
			std::is_signed_v<T> ? "s" : "u",
			quote(s).c_str(),
			(long long)r,
			(long long)exp
		);
		MC_CHECK(
			p.get_view() == v.substr(e.end),
			"read_number<%zu%s>(%s) stopped at %s, expected %s",
			sizeof(T),
			std::is_signed_v<T> ? "s" : "u",
			quote(s).c_str(),
			quote(p.get_view()).c_str(),
			quote(v.substr(e.end)).c_str()
		);
	} catch (std::invalid_argument&) {
		MC_CHECK(e.thrown, "read_number<%zu%s>(%s) threw", sizeof(T), std::is_signed_v<T> ? "s" : "u", quote(s).c_str());
	}
	steps();
}

void check_read_all(const std::string& s)
{
	check_read<int8_t>(s);
	check_read<uint8_t>(s);
	check_read<int16_t>(s);
	check_read<uint16_t>(s);
	check_read<int32_t>(s);
	check_read<uint32_t>(s);
	check_read<int64_t>(s);
	check_read<uint64_t>(s);
	check_read<long long>(s);
	check_read<unsigned long long>(s);
	state(hash_str(s));
	note("%s", quote(s).c_str());
}

template <class T>
std::string ref_print(T v, unsigned base)
{
	bool neg = v < 0;
	u128 m = neg ? u128(-(__int128)v) : u128(v);
	std::string d;
	do {
		d.insert(d.begin(), "0123456789abcdef"[unsigned(m % base)]);
		m /= base;
	} while (m);
	std::string prefix;
	if (std::is_unsigned_v<T>) {
		prefix = base == 2 ? "0b" : base == 8 ? "0" : base == 16 ? "0x" : "";
	}
	return (neg ? "-" : "") + prefix + d;
}

template <class T>
void check_print(T v)
{
	static const struct {
		utki::integer_base b;
		unsigned n;
	} bases[] = {
		{utki::integer_base::bin, 2},
		{utki::integer_base::oct, 8},
		{utki::integer_base::dec, 10},
		{utki::integer_base::hex, 16}
	};
	for (auto& b : bases) {
		auto s = utki::to_string(v, b.b);
		auto e = ref_print(v, b.n);
		MC_CHECK(s == e, "to_string(%s, %u) = %s", ref_print(v, 10).c_str(), b.n, quote(s).c_str());
		MC_CHECK(utki::to_int(b.b) == int(b.n), "to_int");
		if (std::is_unsigned_v<T> || b.n == 10) {
			// what is printed reads back
			for (const char* tail : {"", " ", ",1", "z"}) {
				std::string t = s + tail;
				utki::string_parser p(t);
				T r = p.template read_number<T>();
				MC_CHECK(r == v, "%s read back as %s", quote(t).c_str(), ref_print(r, 10).c_str());
				MC_CHECK(p.get_view() == tail, "%s: left %s", quote(t).c_str(), quote(p.get_view()).c_str());
				steps();
			}
		}
		steps();
	}
	MC_CHECK(utki::to_string(v) == ref_print(v, 10), "default base is decimal");
}

template <class T>
void boundaries()
{
	// around every power of 2, 8, 10, 16
	std::vector<T> vals;
	using U = std::make_unsigned_t<T>;
	for (unsigned base : {2u, 10u}) {
		u128 p = 1;
		while (p <= u128(std::numeric_limits<U>::max())) {
			for (int d = -2; d <= 2; ++d) {
				vals.push_back(T(U(p) + U(d)));
				vals.push_back(T(U(0) - U(p) + U(d)));
			}
			p *= base;
		}
	}
	vals.push_back(std::numeric_limits<T>::min());
	vals.push_back(std::numeric_limits<T>::max());
	auto v = vals[choose(uint32_t(vals.size()))];
	check_print(v);
	state(hasher().add(uint64_t(v)).add(sizeof(T)).add(std::is_signed_v<T>).h);
	note("%s", ref_print(v, 10).c_str());

	// and the strings around: one digit more, out of range by one
	for (unsigned base : {2u, 8u, 10u, 16u}) {
		std::string s = ref_print(v, base);
		check_read<T>(s);
		check_read<T>(" " + s + "0");
		check_read<T>(s + "1x");
		if (s.back() < '9') {
			std::string t = s;
			++t.back();
			check_read<T>(t);
		}
		if (std::is_unsigned_v<T> && base == 16) {
			std::string t = s;
			for (auto& c : t) {
				c = c == 'x' ? 'x' : char(toupper(c));
			}
			check_read<T>(t); // upper case digits
		}
	}
}
} // namespace

MC_SUITE(read_all_strings)
{
	static const char a[] = {'0', '1', '7', '9', 'a', 'F', 'x', 'b', '-', ' ', '+'};
	unsigned len = choose(by_tier(6u, 7u));
	std::string s;
	for (unsigned i = 0; i != len; ++i) {
		s.push_back(pick(a));
	}
	check_read_all(s);
}

MC_SUITE(read_after_prefix)
{
	static const std::string pre[] = {"", "0", "0x", "0b", "00", " ", "\t\n", "-", "-0", "+", "0X", "0B", "\v\f\r ", "1", "0x1", "0b1", "08"};
	std::string s = pick(pre);
	s.push_back(char(choose(256)));
	if (choose(2)) {
		static const char t[] = {49, 103, 56, 50};
		s.push_back(pick(t));
	}
	check_read_all(s);
}

MC_SUITE(all_8_and_16_bit_values)
{
	unsigned hi = choose(256);
	for (unsigned lo = 0; lo != 256; ++lo) {
		uint16_t v = uint16_t(hi << 8 | lo);
		check_print<uint16_t>(v);
		check_print<int16_t>(int16_t(v));
	}
	check_print<uint8_t>(uint8_t(hi));
	check_print<int8_t>(int8_t(hi));
	state(hi);
	note("0x%x**", hi);
}

MC_SUITE(boundaries_32)
{
	boundaries<uint32_t>();
}
MC_SUITE(boundaries_i32)
{
	boundaries<int32_t>();
}
MC_SUITE(boundaries_64)
{
	boundaries<uint64_t>();
}
MC_SUITE(boundaries_i64)
{
	boundaries<int64_t>();
}
MC_SUITE(boundaries_8)
{
	boundaries<uint8_t>();
}
MC_SUITE(boundaries_16)
{
	boundaries<int16_t>();
}

// long digit strings: leading zeros and overflow at every length
MC_SUITE(long_digit_strings)
{
	unsigned len = choose(by_tier(300u, 1100u)) + 1;
	static const char d[] = {'0', '1', '7', '9', 'f'};
	static const std::string pre[] = {"", "0x", "0b", "0", "-", "   "};
	std::string s = pick(pre) + std::string(len, pick(d));
	unsigned tail = choose(3);
	s += tail == 0 ? "" : tail == 1 ? "1" : " 2";
	check_read_all(s);
}

// 32 bit values by stride over the whole range
MC_SUITE(u32_sweep)
{
	uint32_t b = choose(4096);
	uint32_t stride = by_tier(65521u, 4093u);
	for (uint64_t v = uint64_t(b) << 20; v < (uint64_t(b) + 1) << 20; v += stride) {
		check_print<uint32_t>(uint32_t(v));
		check_print<int32_t>(int32_t(v));
	}
	state(b);
	note("block %u", b);
}

// several numbers read one after another
MC_SUITE(number_sequences)
{
	static const std::string tok[] = {"0", "7", "12", "0x1F", "0b101", "017", "255", "65536", "4294967296"};
	std::string s;
	std::vector<std::string> toks;
	static const char* sep[] = {" ", ",", " , ", "\n"};
	for (int i = 0; i != 3; ++i) {
		toks.push_back(pick(tok));
		s += toks.back() + pick(sep);
	}
	utki::string_parser p(s);
	for (auto& t : toks) {
		auto e = ref_read<uint32_t>(t);
		uint32_t r = p.read_number<uint32_t>();
		MC_CHECK(r == (e.overflow ? 0 : uint32_t(e.mag)), "%s in %s read as %u", t.c_str(), quote(s).c_str(), r);
		p.skip_whitespaces_and_comma();
		steps();
	}
	MC_CHECK(p.empty(), "%s", quote(s).c_str());
	state(hash_str(s));
	note("%s", quote(s).c_str());
}

// longer than any counter of digits
MC_SUITE(huge_digit_strings)
{
	static const size_t sizes[] = {4097, 32769, 65535, 65537, 131073};
	size_t n = pick(sizes);
	static const char d[] = {'0', '1', '9', 'f'};
	static const std::string pre[] = {"", "0x", "0b", "-", "   "};
	std::string s = pick(pre) + std::string(n, pick(d));
	unsigned tail = choose(3);
	s += tail == 0 ? "" : tail == 1 ? "1" : " 2";
	check_read_all(s);
}

// the global locale does not matter
MC_SUITE(another_locale)
{
	odd_locale l;
	static const char a[] = {'0', '1', '7', 'a', 'x', 'b', '-', ' ', '_', ',', '.'};
	unsigned len = choose(by_tier(5u, 6u));
	std::string s;
	for (unsigned i = 0; i != len; ++i) {
		s.push_back(pick(a));
	}
	check_read_all(s);
	uint64_t v = 0x9e3779b97f4a7c15ull * hash_str(s);
	check_print<uint64_t>(v);
	check_print<int64_t>(int64_t(v));
	check_print<uint32_t>(uint32_t(v));
	check_print<int32_t>(int32_t(v));
	check_print<uint16_t>(uint16_t(v));
	check_print<uint8_t>(uint8_t(v));
}

// C13: decimal text is converted to the nearest float/double; the extent of the parsed text is right.
#include <utki/string.hpp>

#include <cfenv>
#include <charconv>
#include <cmath>
#include <cstdlib>
#include <memory>
#include <stdexcept>

#include "mc.hpp"
#include "odd_locale.hpp"

using namespace mc;

namespace {
template <class T>
uint64_t bits(T v)
{
	uint64_t r = 0;
	memcpy(&r, &v, sizeof(v));
	return r;
}

template <class T>
bool same(T a, T b)
{
	return (a != a && b != b) || bits(a) == bits(b);
}

locale_t c_locale()
{
	static locale_t l = newlocale(LC_ALL_MASK, "C", locale_t(0));
	return l;
}

template <class T>
T c_parse(const char* s)
{
	if constexpr (std::is_same_v<T, float>) {
		return strtof_l(s, nullptr, c_locale());
	} else {
		return strtod_l(s, nullptr, c_locale());
	}
}

struct buffer {
	std::unique_ptr<char[]> p;
	size_t n;
	buffer(const std::string& s) :
		p(new char[s.size()]),
		n(s.size())
	{
		memcpy(p.get(), s.data(), n);
	}
};

// special values are not cross checked with strtod (their spelling there is richer)
bool plain(std::string_view s)
{
	return s.find_first_not_of("0123456789.eE+-") == std::string_view::npos;
}

template <class T>
void check_fmt(const std::string& s, utki::chars_format uf, std::chars_format sf, const char* what)
{
	buffer b(s);
	T v = T(42);
	T e = T(42);
	auto r = utki::from_chars(b.p.get(), b.p.get() + b.n, v, uf);
	auto x = std::from_chars(b.p.get(), b.p.get() + b.n, e, sf);
	MC_CHECK(
		r.ec == x.ec,
		"%s from_chars<%zu>(%s): error %d expected %d",
		what,
		sizeof(T),
		quote(s).c_str(),
		int(r.ec),
		int(x.ec)
	);
	MC_CHECK(
		r.ptr == x.ptr,
		"%s from_chars<%zu>(%s): stopped at %td expected %td",
		what,
		sizeof(T),
		quote(s).c_str(),
		r.ptr - b.p.get(),
		x.ptr - b.p.get()
	);
	if (r.ec == std::errc()) {
		MC_CHECK(same(v, e), "%s from_chars<%zu>(%s) = %.17g expected %.17g", what, sizeof(T), quote(s).c_str(), double(v), double(e));
		std::string m(static_cast<const char*>(b.p.get()), r.ptr);
		if (plain(m)) {
			T c = c_parse<T>(m.c_str());
			MC_CHECK(same(v, c), "%s from_chars<%zu>(%s) = %.17g, C library: %.17g", what, sizeof(T), quote(s).c_str(), double(v), double(c));
		}
	} else if (r.ec == std::errc::invalid_argument) {
		MC_CHECK(same(v, T(42)), "%s from_chars<%zu>(%s): value changed though there is no number", what, sizeof(T), quote(s).c_str());
	}
	steps();
}

// long double: parsed with the precision of double
void check_long(const std::string& s, utki::chars_format uf, std::chars_format sf, const char* what)
{
	buffer b(s);
	long double v = 42;
	double e = 42;
	auto r = utki::from_chars(b.p.get(), b.p.get() + b.n, v, uf);
	auto x = std::from_chars(b.p.get(), b.p.get() + b.n, e, sf);
	MC_CHECK(r.ec == x.ec, "%s from_chars<long double>(%s): error %d expected %d", what, quote(s).c_str(), int(r.ec), int(x.ec));
	MC_CHECK(
		r.ptr == x.ptr,
		"%s from_chars<long double>(%s): stopped at %td expected %td",
		what,
		quote(s).c_str(),
		r.ptr - b.p.get(),
		x.ptr - b.p.get()
	);
	if (r.ec == std::errc()) {
		// anything from double precision up is right
		MC_CHECK(same(double(v), e), "%s from_chars<long double>(%s) = %.17Lg expected %.17g", what, quote(s).c_str(), v, e);
	} else if (r.ec == std::errc::invalid_argument) {
		MC_CHECK(v == 42, "%s from_chars<long double>(%s): value changed though there is no number", what, quote(s).c_str());
	}
	steps();
}

void check_all_fmts(const std::string& s)
{
	check_long(s, utki::chars_format::general, std::chars_format::general, "general");
	check_long(s, utki::chars_format::fixed, std::chars_format::fixed, "fixed");
	check_long(s, utki::chars_format::scientific, std::chars_format::scientific, "scientific");
	check_fmt<float>(s, utki::chars_format::general, std::chars_format::general, "general");
	check_fmt<double>(s, utki::chars_format::general, std::chars_format::general, "general");
	check_fmt<float>(s, utki::chars_format::fixed, std::chars_format::fixed, "fixed");
	check_fmt<double>(s, utki::chars_format::fixed, std::chars_format::fixed, "fixed");
	check_fmt<float>(s, utki::chars_format::scientific, std::chars_format::scientific, "scientific");
	check_fmt<double>(s, utki::chars_format::scientific, std::chars_format::scientific, "scientific");
	state(hash_str(s));
	note("%s", quote(s).c_str());
}

template <class T>
void check_read(const std::string& s)
{
	// string_parser::read_number(): skips whitespace; out of range reads as 0; invalid throws
	size_t ws = 0;
	while (ws != s.size() && strchr(" \n\t\r\v\f", s[ws]) && s[ws]) {
		++ws;
	}
	buffer b(s);
	using ref_t = std::conditional_t<std::is_same_v<T, float>, float, double>; // long double is parsed with double precision
	ref_t e = 0;
	auto x = std::from_chars(b.p.get() + ws, b.p.get() + b.n, e);
	utki::string_parser p(std::string_view(b.p.get(), b.n));
	try {
		T r = p.template read_number<T>();
		MC_CHECK(x.ec != std::errc::invalid_argument, "read_number<%zu>(%s) did not throw", sizeof(T), quote(s).c_str());
		if (x.ec == std::errc::result_out_of_range) {
			e = 0;
		}
		MC_CHECK(same(ref_t(r), e), "read_number<%zu>(%s) = %.17g expected %.17g", sizeof(T), quote(s).c_str(), double(r), double(e));
		MC_CHECK(
			p.get_view() == std::string_view(x.ptr, size_t(b.p.get() + b.n - x.ptr)),
			"read_number<%zu>(%s) stopped at %s",
			sizeof(T),
			quote(s).c_str(),
			quote(p.get_view()).c_str()
		);
	} catch (std::invalid_argument&) {
		MC_CHECK(x.ec == std::errc::invalid_argument, "read_number<%zu>(%s) threw", sizeof(T), quote(s).c_str());
	}
	steps();
}

void check_text(const std::string& s)
{
	check_all_fmts(s);
	check_read<float>(s);
	check_read<double>(s);
	check_read<long double>(s);
}

// exact decimal expansion of |m * 2^e| (big decimal arithmetic)
std::string exact_decimal(uint64_t m, int e)
{
	// digits little endian; integer part and fraction handled via scaling: m*2^e, e<0: m*5^-e / 10^-e
	std::vector<uint8_t> d;
	while (m) {
		d.push_back(uint8_t(m % 10));
		m /= 10;
	}
	auto mul = [&](unsigned k) {
		unsigned c = 0;
		for (auto& x : d) {
			c += x * k;
			x = uint8_t(c % 10);
			c /= 10;
		}
		while (c) {
			d.push_back(uint8_t(c % 10));
			c /= 10;
		}
	};
	for (int i = 0; i < e; ++i) {
		mul(2);
	}
	for (int i = 0; i < -e; ++i) {
		mul(5);
	}
	std::string s;
	int frac = e < 0 ? -e : 0;
	while (int(d.size()) <= frac) {
		d.push_back(0);
	}
	for (int i = int(d.size()) - 1; i >= 0; --i) {
		s.push_back(char('0' + d[size_t(i)]));
		if (i == frac && frac) {
			s.push_back('.');
		}
	}
	return s;
}
} // namespace

// all short strings
MC_SUITE(all_strings)
{
	static const char a[] = {'0', '1', '9', '.', 'e', '-', '+', ' '};
	unsigned len = choose(by_tier(7u, 8u));
	std::string s;
	for (unsigned i = 0; i != len; ++i) {
		s.push_back(pick(a));
	}
	check_text(s);
}

MC_SUITE(special_words)
{
	static const std::string w[] = {
		"inf", "INF", "Inf", "infinity", "INFINITY", "infinit", "infx", "in", "i", "nan", "NAN", "nAn", "na", "nan()", "nan(", "nan(1)", "nan(ab_1)", "nan(-)", "n", "e5", ".", ".e1", "1e", "1e+", "1e-", "0x10", "1_0", "1,5"
	};
	static const std::string pre[] = {"", "-", "+", " ", "--", "0"};
	static const std::string post[] = {"", " ", "x", "1", ")"};
	check_text(pick(pre) + pick(w) + pick(post));
}

// mantissa x exponent grid
MC_SUITE(exponents)
{
	static const std::string m[] = {
		"0", "1", "9", "123", "1.5", "9.999999", "4.9", "2.4703282292062327", "2.4703282292062328", "1.7976931348623157", "1.7976931348623158", "1.7976931348623159",
		"3.4028234", "3.4028235", "3.4028236", "1.1754943", "1.40129846", "0.7", "7.0064923216240853", "7.0064923216240854", "2.2250738585072011", "2.2250738585072014",
		"9007199254740993", "9007199254740992.5", "16777217", "0.000001", "123456789012345678901234567890", "8.5", "00012.5000"
	};
	int e = int(choose(by_tier(760u, 1400u))) - int(by_tier(380u, 700u));
	std::string s = (choose(2) ? "-" : "") + pick(m) + "e" + std::to_string(e);
	check_text(s);
}

// huge and odd exponents
MC_SUITE(odd_exponents)
{
	static const std::string e[] = {
		"e0", "e00", "e+0", "e-0", "e0000000000000000000000000000001", "e99999", "e-99999", "e2147483647", "e2147483648", "e-2147483648", "e-2147483649",
		"e9223372036854775807", "e9223372036854775808", "e-9223372036854775808", "e99999999999999999999999", "e-99999999999999999999999", "E5", "E-5", "E+05", "e", "e+", "e-x", "e1e1", "e1.5"
	};
	static const std::string m[] = {"0", "1", "0.0", "0.1", ".5", "5.", "123456789", "0.00000000000000000000000000000000000000001", "10000000000000000000000000000000000000000000"};
	check_text(pick(m) + pick(e));
}

// halfway points between neighbouring floats: exact, one ulp of decimal above and below
MC_SUITE(float_midpoints)
{
	uint32_t expo = choose(255);
	static const uint32_t mant[] = {0, 1, 2, 3, 0x400000, 0x3fffff, 0x7ffffe, 0x7fffff, 0x2aaaaa, 0x555555, 0x123456};
	uint32_t m = pick(mant);
	uint64_t mm = expo ? (m | 0x800000) : m;
	int e = (expo ? int(expo) : 1) - 150;
	std::string s = exact_decimal(mm * 2 + 1, e - 1); // midpoint
	if (s.find('.') == std::string::npos) {
		s += ".0";
	}
	check_all_fmts(s);
	check_all_fmts(s + "0000000000000000000000000001");
	std::string below = s;
	if (below.back() == '0') {
		// integer midpoint: decrement the integer by printing (2*mid - 1) / 2
		below = exact_decimal((mm * 2 + 1) * 2 - 1, e - 2);
	} else {
		--below.back();
		below += "9999999999";
	}
	check_all_fmts(below);
	check_read<float>(s);
	note("expo %u mantissa %x", expo, m);
}

MC_SUITE(double_midpoints)
{
	uint32_t step = by_tier(3u, 1u);
	uint32_t expo = choose(2046 / step + 1) * step;
	static const uint64_t mant[] = {0, 1, 0xfffffffffffff, 0xffffffffffffe, 0x8000000000000, 0x5555555555555};
	uint64_t m = pick(mant);
	uint64_t mm = expo ? (m | 0x10000000000000) : m;
	int e = (expo ? int(expo) : 1) - 1075;
	std::string s = exact_decimal(mm * 2 + 1, e - 1);
	if (s.find('.') == std::string::npos) {
		s += ".0";
	}
	check_fmt<double>(s, utki::chars_format::general, std::chars_format::general, "general");
	check_fmt<double>(s + "00001", utki::chars_format::general, std::chars_format::general, "general");
	std::string below = s;
	if (below.back() != '0') {
		--below.back();
		below += "9999";
		check_fmt<double>(below, utki::chars_format::general, std::chars_format::general, "general");
	}
	check_read<double>(s);
	check_read<long double>(s);
	state(hasher().add(expo).add(m).h);
	note("expo %u mantissa %llx", expo, (unsigned long long)m);
}

// all the floats (thorough) or a stride of them (quick): shortest and 9-digit text reads back exactly
MC_SUITE(float_round_trip)
{
	uint32_t b = choose(1 << 13);
	const uint32_t size = 1u << 18; // positive half
	bool asan = std::string_view(config_name).substr(0, 4) == "asan";
	uint32_t stride = thorough() ? (asan ? 97 : 1) : (asan ? 1021 : 19);
	note("floats 0x%x...", b << 18);
	for (uint32_t k = 0; k < size; k += stride) {
		uint32_t u = (b << 18) + k;
		float f;
		memcpy(&f, &u, 4);
		if (!std::isfinite(f)) {
			continue;
		}
		char buf[64];
		auto r = std::to_chars(buf, buf + sizeof(buf), f);
		float v = 0;
		auto x = utki::from_chars(buf, r.ptr, v);
		MC_CHECK(x.ec == std::errc() && x.ptr == r.ptr && bits(v) == bits(f), "%.*s read as %.9g", int(r.ptr - buf), buf, double(v));
		double d = 0;
		double fd = double(f);
		r = std::to_chars(buf, buf + sizeof(buf), fd);
		x = utki::from_chars(buf, r.ptr, d);
		MC_CHECK(x.ec == std::errc() && x.ptr == r.ptr && bits(d) == bits(fd), "%.*s read as %.17g", int(r.ptr - buf), buf, d);
		steps(2);
	}
	state(b);
}

MC_SUITE(double_round_trip)
{
	uint32_t expo = choose(2047);
	uint32_t lo = choose(3);
	uint32_t seed = expo * 3 + lo;
	unsigned n = by_tier(60u, 2000u);
	for (unsigned k = 0; k != n; ++k) {
		uint64_t m = k < 16 ? k : k < 32 ? 0xfffffffffffffull - (k - 16) : k < 52 + 32 ? (1ull << (k - 32)) % 0x10000000000000 : 0;
		if (k >= 84 || lo == 2) {
			m = ((uint64_t(lcg(seed)) << 40) ^ (uint64_t(lcg(seed)) << 20) ^ lcg(seed)) & 0xfffffffffffffull;
		}
		uint64_t u = (uint64_t(lo == 1) << 63) | (uint64_t(expo) << 52) | m;
		double d;
		memcpy(&d, &u, 8);
		for (int how = 0; how != 3; ++how) {
			char buf[1200];
			int len;
			if (how == 0) {
				len = int(std::to_chars(buf, buf + sizeof(buf), d).ptr - buf);
			} else if (how == 1) {
				len = snprintf(buf, sizeof(buf), "%.17g", d);
			} else {
				len = snprintf(buf, sizeof(buf), "%.40e", d);
			}
			double v = 0;
			auto x = utki::from_chars(buf, buf + len, v);
			MC_CHECK(x.ec == std::errc() && x.ptr == buf + len && bits(v) == u, "%.*s read as %.17g", len, buf, v);
			steps();
		}
		state(u);
	}
	note("exponent %u", expo);
}

// long digit strings: number of digits around the thresholds of fast paths (19, 20, 114, 768, 769 ...)
MC_SUITE(long_digit_strings)
{
	unsigned len = choose(by_tier(820u, 2000u)) + 1;
	unsigned shape = choose(6);
	std::string s;
	switch (shape) {
		case 0:
			s = "1." + std::string(len, '0') + "1";
			break;
		case 1:
			s = std::string(len, '9');
			break;
		case 2:
			s = "0." + std::string(len, '0') + "5e" + std::to_string(len);
			break;
		case 3:
			s = "1" + std::string(len, '0') + "e-" + std::to_string(len);
			break;
		case 4:
			s = "9007199254740993." + std::string(len, '0');
			break;
		default:
			s = "16777217." + std::string(len, '0') + "1";
			break;
	}
	check_text(s);
}

// hexadecimal format. See known_findings.txt
MC_SUITE(hex_format)
{
	static const char a[] = {'0', '1', '9', 'a', 'F', '.', 'p', '-', 'x'};
	unsigned len = choose(5);
	std::string s;
	for (unsigned i = 0; i != len; ++i) {
		s.push_back(pick(a));
	}
	buffer b(s);
	note("hex %s", quote(s).c_str());
	double v = 42;
	double e = 42;
	auto r = utki::from_chars(b.p.get(), b.p.get() + b.n, v, utki::chars_format::hex);
	auto x = std::from_chars(b.p.get(), b.p.get() + b.n, e, std::chars_format::hex);
	steps();
	state(hash_str(s));
	if (r.ec == x.ec && r.ptr == x.ptr && (r.ec != std::errc() || same(v, e))) {
		return;
	}
	// recorded defect: hex format is parsed as if it was decimal without exponent
	double d = 42;
	auto y = std::from_chars(b.p.get(), b.p.get() + b.n, d, std::chars_format::fixed);
	bool is_known = r.ec == y.ec && r.ptr == y.ptr && (r.ec != std::errc() || same(v, d));
	MC_CHECK(is_known, "hex from_chars(%s) = %.17g, expected %.17g", quote(s).c_str(), v, e);
	known_finding("hex-as-decimal", "e.g. %s: parsed %td characters, expected %td", quote(s).c_str(), r.ptr - b.p.get(), x.ptr - b.p.get());
}

// the global locale does not matter
MC_SUITE(another_locale)
{
	odd_locale l;
	static const char a[] = {'0', '1', '9', '.', ',', 'e', '-', ' ', '_'};
	unsigned len = choose(by_tier(6u, 7u));
	std::string s;
	for (unsigned i = 0; i != len; ++i) {
		s.push_back(pick(a));
	}
	check_text(s);
}

MC_SUITE(another_locale_special)
{
	odd_locale l;
	static const char* const words[] = {"inf", "INF", "Inf", "infinity", "INFINITY", "iNFiNiTY", "nan", "NAN", "1E5", "1e5", "-INF", "+INF", "NaN(IJ)", "INFINIT", "\xfdnf", "\xddNF"};
	static const char* const tails[] = {"", "I", "i", ",5", " ", "\xfd"};
	const char* w = pick(words);
	check_text(std::string(w) + pick(tails));
}

namespace {
#include "hard_floats.inc"
} // namespace

// for each power of ten the numbers closest to the middle between two neighbouring values
MC_SUITE(nearly_halfway)
{
	constexpr unsigned num_d = sizeof(hard_doubles) / sizeof(hard_doubles[0]);
	constexpr unsigned num_f = sizeof(hard_singles) / sizeof(hard_singles[0]);
	unsigned i = choose(num_d + num_f);
	uint64_t w = i < num_d ? hard_doubles[i].w : hard_singles[i - num_d].w;
	int q = i < num_d ? hard_doubles[i].q : hard_singles[i - num_d].q;
	for (int d = -1; d <= 1; ++d) {
		std::string m = std::to_string(w + uint64_t(int64_t(d)));
		check_text(m + "e" + std::to_string(q));
		size_t n = m.size();
		check_text(m.substr(0, 1) + "." + m.substr(1) + "E" + std::to_string(q + int(n) - 1));
		check_text("-" + m.substr(0, n / 2) + "." + m.substr(n / 2) + "e" + std::to_string(q + int(n - n / 2)));
	}
}

namespace {
// writes the digits as a number whose value is digits * 10^exp10, the decimal point being after `point` digits (point may be outside)
std::string layout(const std::string& digits, int exp10, int point, bool always_exp)
{
	std::string s;
	int n = int(digits.size());
	if (point <= 0) {
		s = "0." + std::string(size_t(-point), '0') + digits;
	} else if (point >= n) {
		s = digits + std::string(size_t(point - n), '0');
	} else {
		s = digits.substr(0, size_t(point)) + "." + digits.substr(size_t(point));
	}
	int e = exp10 + n - point;
	if (e || always_exp) {
		s += "e" + std::to_string(e);
	}
	return s;
}

// splits exact decimal text into digits and power of ten
void to_digits(std::string s, std::string& digits, int& exp10)
{
	exp10 = 0;
	auto dot = s.find('.');
	if (dot != std::string::npos) {
		exp10 = -int(s.size() - dot - 1);
		s.erase(dot, 1);
	}
	s.erase(0, std::min(s.find_first_not_of('0'), s.size() - 1));
	while (s.size() > 1 && s.back() == '0') {
		s.pop_back();
		++exp10;
	}
	digits = s;
}

template <class T>
void check_one(const std::string& s)
{
	check_fmt<T>(s, utki::chars_format::general, std::chars_format::general, "general");
	check_read<T>(s);
	state(hash_str(s));
}

template <class T>
void check_written_long(uint64_t odd, int e)
{
	// odd * 2^e is exactly in the middle between two neighbouring values
	std::string d;
	int x;
	to_digits(exact_decimal(odd, e), d, x);
	// total number of the significant digits: around the number of digits the parser keeps
	static const int totals_d[] = {0, 700, 767, 768, 769, 770, 771, 788, 800, 1000};
	static const int totals_f[] = {0, 100, 112, 113, 114, 115, 116, 133, 150, 400};
	int total = std::is_same_v<T, float> ? pick(totals_f) : pick(totals_d);
	unsigned what = choose(4);
	int zeros = std::max(0, total - int(d.size()));
	std::string t = d;
	int tx = x;
	if (what) {
		if (what == 3) {
			// slightly less
			--t.back();
			t += std::string(size_t(zeros) + 1, '9');
			tx -= zeros + 1;
		} else {
			// slightly more, a digit far away
			t += std::string(size_t(zeros), '0') + (what == 1 ? "1" : "00000000000000000000000000001");
			tx -= int(t.size() - d.size());
		}
	} else {
		t += std::string(size_t(zeros), '0');
		tx -= zeros;
	}
	int n = int(t.size());
	const int points[] = {-5, 0, 1, 19, 20, n / 2, n - 30, n - 20, n - 8, n - 1, n, n + 3};
	int point = pick(points);
	note("%d digits, point at %d, variant %u of %llu * 2^%d", n, point, what, (unsigned long long)(odd), e);
	check_one<T>(layout(t, tx, point, false));
	if (what != 3) {
		// trailing zeros after the point
		std::string s = layout(t, tx, n, false);
		auto exp = s.find('e');
		if (exp == std::string::npos) {
			exp = s.size();
		}
		check_one<T>(s.substr(0, exp) + ".0" + s.substr(exp));
		check_one<T>(s.substr(0, exp) + ".0000000000000000000000000000000001" + s.substr(exp));
		check_one<T>(s.substr(0, exp) + "." + s.substr(exp));
	}
}
} // namespace

// the middle between two values written with more digits than the parser keeps, all layouts of the digits
MC_SUITE(double_long_layouts)
{
	static const int es[] = {-1075, -1074, -1060, -1022, -700, -300, -60, -20, -1, 0, 3, 40, 300, 900, 970};
	static const uint64_t odds[] = {0x20000000000001, 0x3fffffffffffff, 0x2aaaaaaaaaaaab, 0x20000000000003};
	int e = pick(es);
	uint64_t odd = pick(odds);
	if (e <= -1060) {
		odd >>= 14;
		odd |= 1;
		if (e == -1075) {
			odd &= 3;
		} else {
			e = -1075;
		}
	}
	check_written_long<double>(odd, e);
}

MC_SUITE(float_long_layouts)
{
	static const int es[] = {-150, -149, -126, -80, -30, -10, -1, 0, 3, 40, 80, 103};
	static const uint64_t odds[] = {0x1000001, 0x1ffffff, 0x1555555, 0x1000003};
	int e = pick(es);
	uint64_t odd = pick(odds);
	if (e <= -149) {
		odd >>= 9;
		odd |= 1;
		if (e == -150) {
			odd &= 3;
		} else {
			e = -150;
		}
	}
	check_written_long<float>(odd, e);
}

namespace {
template <class T>
void check_ties()
{
	// every binary exponent for which the middle between two values has up to 19 significant digits
	constexpr int mant = std::is_same_v<T, float> ? 24 : 53;
	int e = int(choose(100)) - 40;
	static const int64_t shifts[] = {1, 3, 5, 7, 0x5555, 0xaaab, -1, -3, -5, -7};
	int64_t sh = pick(shifts);
	uint64_t odd = (sh > 0 ? (uint64_t(1) << mant) : (uint64_t(2) << mant)) + uint64_t(sh);
	// the middle which is divisible by big power of five has a short text
	static const int fives[] = {0, 1, 2, 3, 5, 8, 10, 11, 17, 20, 22};
	int five = pick(fives);
	uint64_t p5 = 1;
	for (int i = 0; i != five; ++i) {
		p5 *= 5;
		if (p5 > odd) {
			return;
		}
	}
	uint64_t q = odd / p5;
	q |= 1;
	odd = q * p5;
	if ((odd >> mant) != 1) {
		q -= 2;
		odd = q * p5;
		if ((odd >> mant) != 1) {
			return;
		}
	}
	std::string d;
	int x;
	to_digits(exact_decimal(odd, e), d, x);
	note("%llu * 2^%d", (unsigned long long)odd, e);
	if (d.size() > 20) {
		return;
	}
	for (int k = -1; k <= 1; ++k) {
		std::string t = d;
		t.back() = char(t.back() + k);
		if (t.back() < '0' || t.back() > '9') {
			continue;
		}
		for (int zeros = 0; zeros != 4; ++zeros) {
			check_one<T>(layout(t, x - zeros * 0, int(t.size()) + zeros, true));
			check_one<T>(layout(t + std::string(size_t(zeros), '0'), x - zeros, int(t.size()) + zeros, true));
		}
		check_one<T>(layout(t, x, int(t.size()), false));
		check_one<T>(layout(t, x, 1, true));
		check_one<T>("-" + layout(t, x, int(t.size()) / 2, true));
	}
}
} // namespace

MC_SUITE(double_ties)
{
	check_ties<double>();
}

MC_SUITE(float_ties)
{
	check_ties<float>();
}

// around the border between subnormal and normal numbers, and around the greatest number
MC_SUITE(range_borders)
{
	static const std::string m[] = {
		"2.22507385850720", "1.797693134862315", "4.94065645841246", "2.47032822920623", // double
		"1.17549", "3.40282", "1.40129", "7.00649" // float
	};
	static const std::string e[] = {"e-308", "e308", "e-324", "e-38", "e38", "e-45", "e-46"};
	unsigned k = choose(10000);
	char buf[16];
	snprintf(buf, sizeof(buf), "%04u", k);
	check_text(pick(m) + buf + pick(e));
}

// long run of zeros compensated by the exponent
MC_SUITE(compensated_zeros)
{
	static const size_t ns[] = {90, 99, 100, 101, 300, 999, 1000, 1001, 5000, 9999, 10000, 10001, 65535, 65536, 99999, 100000, 123456, 1000000, 1234567};
	static const std::string m[] = {"1", "15", "9007199254740993", "16777217", "12345678901234567890123", "0"};
	static const int rest[] = {-330, -308, -30, -5, 0, 5, 30, 300, 308, 309};
	size_t n = pick(ns);
	std::string d = pick(m);
	int r = pick(rest);
	if (n > 70000 && r != 0 && r != 5 && !thorough()) {
		return;
	}
	note("%s with %zu zeros times 10^%d", d.c_str(), n, r);
	auto check = [&](const std::string& s) {
		check_one<double>(s);
		check_one<float>(s);
	};
	check("0." + std::string(n, '0') + d + "e" + std::to_string(int(n) + r));
	check(d + std::string(n, '0') + "e" + std::to_string(r - int(n)));
	check(std::string(n, '0') + d + "e" + std::to_string(r));
	check(d + "." + std::string(n, '0') + "e" + std::to_string(r));
	check(d + "e" + (r < 0 ? "-" : "+") + std::string(n, '0') + std::to_string(r < 0 ? -r : r));
}

// the result is the nearest number in whatever rounding mode the program is
MC_SUITE(rounding_modes)
{
	static const int modes[] = {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
	static const char* const names[] = {"upward", "downward", "toward zero"};
	unsigned mode = choose(3);
	static const std::string m[] = {
		"1", "3", "9", "123", "1.5", "9.999999", "0.1", "0.7", "33", "9007199254740991", "9007199254740993", "16777217", "16777215", "123456789012345678901234567890", "8.5", "4.7e0", "1234567.125", "7205759403792793"
	};
	static const std::string sign[] = {"", "-"};
	std::string t = pick(sign) + pick(m);
	int e = int(choose(by_tier(100u, 700u))) - int(by_tier(50u, 350u));
	if (t.find('e') != std::string::npos) {
		t.resize(t.find('e'));
		t += "000";
	}
	std::string s = t + "e" + std::to_string(e);
	note("%s, rounding %s", s.c_str(), names[mode]);
	double ed = c_parse<double>(s.c_str());
	float ef = c_parse<float>(s.c_str());
	double d = 42;
	float f = 42;
	float pf = 42;
	double pd = 42;
	fesetround(modes[mode]);
	auto rd = utki::from_chars(s.data(), s.data() + s.size(), d);
	auto rf = utki::from_chars(s.data(), s.data() + s.size(), f);
	pd = utki::string_parser(s).read_number<double>();
	pf = utki::string_parser(s).read_number<float>();
	fesetround(FE_TONEAREST);
	MC_CHECK(rd.ptr == s.data() + s.size() && rf.ptr == s.data() + s.size(), "%s is not parsed to the end", s.c_str());
	if (rd.ec == std::errc()) {
		MC_CHECK(same(d, ed), "%s read as %.17g instead of %.17g when rounding %s", s.c_str(), d, ed, names[mode]);
		MC_CHECK(same(pd, ed), "%s read as %.17g instead of %.17g when rounding %s", s.c_str(), pd, ed, names[mode]);
	} else {
		MC_CHECK(ed == 0 || !std::isfinite(ed), "%s is not out of range", s.c_str());
	}
	if (rf.ec == std::errc()) {
		MC_CHECK(same(f, ef), "%s read as %.9g instead of %.9g when rounding %s", s.c_str(), double(f), double(ef), names[mode]);
		MC_CHECK(same(pf, ef), "%s read as %.9g instead of %.9g when rounding %s", s.c_str(), double(pf), double(ef), names[mode]);
	} else {
		MC_CHECK(ef == 0 || !std::isfinite(ef), "%s is not out of range", s.c_str());
	}
	steps(4);
	state(hasher().add(hash_str(s)).add(mode).h);
}

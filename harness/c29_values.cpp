// C29: versions order and print as (major, minor) pairs, powers/signs/angle conversions are those of arithmetic,
// and a set of visitors always receives the alternative which is really stored.
#include "mc.hpp"

#include <cmath>
#include <limits>
#include <sstream>
#include <string>
#include <tuple>
#include <variant>

#include <utki/math.hpp>
#include <utki/type_traits.hpp>
#include <utki/variant.hpp>
#include <utki/version.hpp>

using namespace mc;

#ifdef major
#	undef major
#endif
#ifdef minor
#	undef minor
#endif

namespace {
const std::vector<uint16_t>& halves()
{
	static const std::vector<uint16_t> v = []() {
		std::vector<uint16_t> r;
		if (thorough()) {
			for (unsigned i = 0; i <= 65535; i += (i < 300 || i > 65200) ? 1 : 97) {
				r.push_back(uint16_t(i));
			}
		} else {
			for (unsigned i : {0, 1, 2, 3, 9, 10, 11, 99, 100, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 999, 1000, 9999, 10000,
							   32766, 32767, 32768, 32769, 65279, 65280, 65533, 65534, 65535})
			{
				r.push_back(uint16_t(i));
			}
		}
		return r;
	}();
	return v;
}

utki::version_duplet make(uint16_t a, uint16_t b)
{
	utki::version_duplet v;
	v.major = a;
	v.minor = b;
	return v;
}

void check_pair(uint16_t a, uint16_t b, uint16_t c, uint16_t d)
{
	auto l = make(a, b);
	auto r = make(c, d);
	auto lt = std::make_pair(a, b) < std::make_pair(c, d);
	MC_CHECK((l < r) == lt, "%u.%u < %u.%u gives %d", a, b, c, d, int(l < r));
	MC_CHECK((l >= r) == !lt, "%u.%u >= %u.%u gives %d", a, b, c, d, int(l >= r));
	MC_CHECK((l.to_uint32_t() < r.to_uint32_t()) == lt, "combined numbers of %u.%u and %u.%u are ordered differently", a, b, c, d);
}
} // namespace

// all pairs of versions over representative halves
MC_SUITE(version_order)
{
	// the thorough tier enumerates thousands of values, pairs of versions are restricted to the neighbourhood
	uint16_t a = pick(halves());
	uint16_t b = pick(halves());
	note("version %u.%u", a, b);
	where("version", a, b);
	MC_CHECK(make(a, b).to_uint32_t() == uint32_t(a) * 65536u + b, "%u.%u combined is %u", a, b, make(a, b).to_uint32_t());
	uint64_t n = 0;
	if (thorough()) {
		for (uint16_t c : {uint16_t(a - 1), a, uint16_t(a + 1), uint16_t(a + 256), uint16_t(a ^ 0x8000), b, uint16_t(0), uint16_t(65535)}) {
			for (uint16_t d : {uint16_t(b - 1), b, uint16_t(b + 1), uint16_t(b + 256), uint16_t(b ^ 0x8000), a, uint16_t(0), uint16_t(65535)}) {
				check_pair(a, b, c, d);
				++n;
			}
		}
	} else {
		for (auto c : halves()) {
			for (auto d : halves()) {
				check_pair(a, b, c, d);
				++n;
			}
		}
	}
	steps(n);
	state(hasher().add(a).add(b).h);
}

// combined number and text of every version having either half arbitrary
MC_SUITE(version_text)
{
	uint32_t block = choose(256);
	bool first = choose(2);
	uint16_t other = pick(std::vector<uint16_t>{0, 1, 255, 256, 32768, 65535});
	where("version text", block, other);
	for (uint32_t i = 0; i != 256; ++i) {
		uint16_t x = uint16_t(block * 256 + i);
		auto v = first ? make(x, other) : make(other, x);
		MC_CHECK(v.to_uint32_t() == uint32_t(v.major) * 65536u + v.minor, "%u.%u combined is %u", v.major, v.minor, v.to_uint32_t());
		std::ostringstream ss;
		ss << v;
		std::string exp = std::to_string(v.major) + "." + std::to_string(v.minor);
		MC_CHECK(ss.str() == exp, "%u.%u prints as %s", v.major, v.minor, quote(ss.str()).c_str());
		check_pair(v.major, v.minor, uint16_t(v.major), uint16_t(v.minor + 1));
		check_pair(v.major, v.minor, uint16_t(v.major + 1), uint16_t(v.minor));
		check_pair(v.major, v.minor, v.major, v.minor);
		steps(5);
	}
	state(hasher().add(block).add(first).add(other).h);
}

namespace {
template <class T>
void check_sign(T n)
{
	T s = utki::sign(n);
	T exp = n < T(0) ? T(-1) : T(1);
	MC_CHECK(s == exp, "sign(%s) is %s", std::to_string(n).c_str(), std::to_string(s).c_str());
}

template <class T>
T power(T x, int e)
{
	using wide = std::conditional_t<(sizeof(T) < sizeof(int)), int64_t, T>;
	wide r = 1;
	for (int i = 0; i != e; ++i) {
		r = T(wide(r) * wide(x));
	}
	return T(r);
}

// integer powers whose exact value, intermediate results included, fits
template <class T>
void check_powers(T x)
{
	long double lim = (long double)(std::numeric_limits<T>::max());
	auto fits = [&](int e) {
		return std::fabs(std::pow((long double)(x), (long double)(e))) <= lim * 0.999L;
	};
	auto ck = [&](int e, T got) {
		T exp = power(x, e);
		MC_CHECK(got == exp, "%s^%d is %s", std::to_string(x).c_str(), e, std::to_string(got).c_str());
		steps();
	};
	if (fits(2)) {
		ck(2, utki::pow2(x));
	}
	if (fits(3)) {
		ck(3, utki::pow3(x));
	}
	if (fits(4)) {
		ck(4, utki::pow4(x));
	}
	if (fits(5)) {
		ck(5, utki::pow5(x));
	}
	if (fits(6)) {
		ck(6, utki::pow6(x));
	}
}

template <class T>
bool near(T a, T b, T rel)
{
	if (a == b) {
		return true;
	}
	if (std::isnan(a) || std::isnan(b)) {
		return std::isnan(a) && std::isnan(b);
	}
	return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b));
}

template <class T>
void check_real(T x)
{
	const T rel = std::numeric_limits<T>::epsilon() * 8;
	auto s = utki::sign(x);
	MC_CHECK(std::isnan(x) || s == (x < 0 ? T(-1) : T(1)), "sign(%g) = %g", double(x), double(s));
	// where neither overflows nor underflows
	if (std::fabs(x) < T(1e6) && (x == 0 || std::fabs(x) > T(1e-6))) {
		const T got[] = {utki::pow2(x), utki::pow3(x), utki::pow4(x), utki::pow5(x), utki::pow6(x)};
		for (int e = 2; e <= 6; ++e) {
			T exp = T(std::pow((long double)(x), (long double)(e)));
			MC_CHECK(near(got[e - 2], exp, rel), "%.17g^%d = %.17g instead of %.17g", double(x), e, double(got[e - 2]), double(exp));
		}
	}
	const long double pi = 3.14159265358979323846264338327950288419717L;
	if (std::fabs(x) < T(1e30) && (x == 0 || std::fabs(x) > T(1e-30))) {
		T r = utki::deg_to_rad(x);
		T d = utki::rad_to_deg(x);
		MC_CHECK(near(r, T((long double)(x) / 180.0L * pi), rel), "deg_to_rad(%.17g) = %.17g", double(x), double(r));
		MC_CHECK(near(d, T((long double)(x) / pi * 180.0L), rel), "rad_to_deg(%.17g) = %.17g", double(x), double(d));
		MC_CHECK(near(utki::rad_to_deg(r), x, rel), "degrees -> radians -> degrees: %.17g -> %.17g", double(x), double(utki::rad_to_deg(r)));
		MC_CHECK(near(utki::deg_to_rad(d), x, rel), "radians -> degrees -> radians: %.17g -> %.17g", double(x), double(utki::deg_to_rad(d)));
		MC_CHECK(std::signbit(r) == std::signbit(x) && std::signbit(d) == std::signbit(x), "angle %g changes sign", double(x));
	}
	steps(10);
}
} // namespace

// every value of 8 and 16 bit types
MC_SUITE(math_small)
{
	uint32_t block = choose(256);
	where("math_small", block);
	check_sign(int8_t(block));
	check_powers(int8_t(block));
	check_powers(uint8_t(block));
	check_sign(uint8_t(block));
	for (uint32_t i = 0; i != 256; ++i) {
		uint16_t u = uint16_t(block * 256 + i);
		check_sign(int16_t(u));
		check_sign(u);
		check_powers(u);
		check_powers(int16_t(u));
		check_sign(int32_t(int16_t(u)));
		check_sign(int32_t(int16_t(u)) * 65536);
		check_sign(int64_t(int16_t(u)) * (int64_t(1) << 47));
		check_powers(int32_t(int16_t(u)));
		check_powers(int64_t(int16_t(u)));
		check_powers(int64_t(u) * 40000 + 7);
		check_powers(uint32_t(u));
		check_powers(uint64_t(u));
		// as reals with fraction
		check_real(double(int16_t(u)) / 16);
		check_real(float(int16_t(u)) / 16);
		steps(10);
	}
	state(block);
}

// reals of every exponent and of both signs
MC_SUITE(math_reals)
{
	int e = int(choose(2098 / 8)) * 8 - 1074;
	bool neg = choose(2);
	for (int k = 0; k != 8; ++k) {
		for (double m : {1.0, 1.0 + 0x1p-52, 1.25, 1.5, 1.75, 1.9999, 2.0 - 0x1p-52}) {
			double x = std::ldexp(neg ? -m : m, e + k);
			where("math_reals", uint64_t(e + k + 2000));
			if (std::isfinite(x)) {
				check_real(x);
				float f = float(x);
				if (std::isfinite(f)) {
					check_real(f);
				}
			}
		}
	}
	check_real(neg ? -0.0 : 0.0);
	double inf = std::numeric_limits<double>::infinity();
	MC_CHECK(utki::sign(neg ? -inf : inf) == (neg ? -1 : 1), "sign of infinity");
	MC_CHECK(utki::sign(neg ? std::numeric_limits<int64_t>::min() : std::numeric_limits<int64_t>::max()) == (neg ? -1 : 1), "sign of extreme");
	MC_CHECK(utki::sign(neg ? std::numeric_limits<int32_t>::min() : std::numeric_limits<int32_t>::max()) == (neg ? -1 : 1), "sign of extreme");
	MC_CHECK(std::fabs(utki::pi - 3.14159265358979323846) < 1e-15 && std::fabs(utki::two_pi - 6.28318530717958647692) < 1e-15, "pi");
	MC_CHECK(std::fabs(utki::log_2 - 0.693147180559945309417) < 1e-15, "ln(2)");
	state(hasher().add(uint64_t(e + 5000)).add(neg).h);
}

// ---- variants

namespace {
struct base_item {
	int v;
};

struct derived_item : base_item {};

using var_type = std::variant<int, bool, double, std::string, char, std::monostate, base_item, derived_item>;

var_type make_var(int kind, int val)
{
	switch (kind) {
		case 0:
			return var_type(std::in_place_type<int>, val);
		case 1:
			return var_type(std::in_place_type<bool>, val % 2 != 0);
		case 2:
			return var_type(std::in_place_type<double>, val + 0.25);
		case 3:
			return var_type(std::in_place_type<std::string>, "s" + std::to_string(val));
		case 4:
			return var_type(std::in_place_type<char>, char('a' + val));
		case 5:
			return var_type(std::monostate{});
		case 6:
			return var_type(base_item{val});
		default:
			return var_type(derived_item{{val}});
	}
}

std::string expected_text(int kind, int val)
{
	switch (kind) {
		case 0:
			return "int:" + std::to_string(val);
		case 1:
			return std::string("bool:") + (val % 2 ? "1" : "0");
		case 2:
			return "double:" + std::to_string(val + 0.25);
		case 3:
			return "string:s" + std::to_string(val);
		case 4:
			return std::string("char:") + char('a' + val);
		case 5:
			return "mono";
		case 6:
			return "base:" + std::to_string(val);
		default:
			return "derived:" + std::to_string(val);
	}
}
} // namespace

// all sequences of stored alternatives: each visitor gets the stored one, unchanged, exactly once
MC_SUITE(overloaded_visit)
{
	int depth = by_tier(4, 5);
	std::vector<int> seq;
	for (int i = 0; i != depth; ++i) {
		int k = int(choose(9));
		if (k == 8) {
			break;
		}
		seq.push_back(k);
	}
	where("overloaded");
	std::string log;
	std::string exp;
	int generic = 0;
	int calls = 0;
	// order of visitors in the list does not matter
	auto vis_1 = utki::overloaded{
		[&](int v) {
			++calls;
			return "int:" + std::to_string(v);
		},
		[&](bool v) {
			++calls;
			return std::string("bool:") + (v ? "1" : "0");
		},
		[&](double v) {
			++calls;
			return "double:" + std::to_string(v);
		},
		[&](const std::string& v) {
			++calls;
			return "string:" + v;
		},
		[&](char v) {
			++calls;
			return std::string("char:") + v;
		},
		[&](std::monostate) {
			++calls;
			return std::string("mono");
		},
		[&](const base_item& v) {
			++calls;
			return "base:" + std::to_string(v.v);
		},
		[&](const derived_item& v) {
			++calls;
			return "derived:" + std::to_string(v.v);
		}
	};
	auto vis_2 = utki::overloaded{
		[&](auto&&) {
			++generic;
			return std::string("generic");
		},
		[&](double v) {
			return "double:" + std::to_string(v);
		},
		[&](const std::string& v) {
			return "string:" + v;
		}
	};
	// state of the visitors is kept among visits
	auto counter = utki::overloaded{
		[n = 0](const int&) mutable {
			return ++n;
		},
		[n = 100](const std::string&) mutable {
			return ++n;
		},
		[](const auto&) mutable {
			return -1;
		}
	};
	int n_int = 0;
	int n_str = 100;
	var_type v;
	for (size_t i = 0; i != seq.size(); ++i) {
		int val = int(i) * 3 + 1;
		v = make_var(seq[i], val);
		std::string e = expected_text(seq[i], val);
		calls = 0;
		std::string g = std::visit(vis_1, v);
		MC_CHECK(g == e && calls == 1, "visitor got %s instead of %s, %d calls", g.c_str(), e.c_str(), calls);
		generic = 0;
		const var_type& cv = v;
		std::string g2 = std::visit(vis_2, cv);
		if (seq[i] == 2 || seq[i] == 3) {
			MC_CHECK(g2 == e && generic == 0, "specific visitor got %s instead of %s", g2.c_str(), e.c_str());
		} else {
			MC_CHECK(g2 == "generic" && generic == 1, "generic visitor was not called for %s", e.c_str());
		}
		int c = std::visit(counter, v);
		int ec = seq[i] == 0 ? ++n_int : (seq[i] == 3 ? ++n_str : -1);
		MC_CHECK(c == ec, "visitors' own state: %d instead of %d", c, ec);
		// index by type agrees with what is stored
		size_t idx = 99;
		switch (seq[i]) {
			case 0:
				idx = utki::index_of_v<int, var_type>;
				break;
			case 1:
				idx = utki::index_of_v<bool, var_type>;
				break;
			case 2:
				idx = utki::index_of_v<double, var_type>;
				break;
			case 3:
				idx = utki::index_of_v<std::string, var_type>;
				break;
			case 4:
				idx = utki::index_of_v<char, var_type>;
				break;
			case 5:
				idx = utki::index_of_v<std::monostate, var_type>;
				break;
			case 6:
				idx = utki::index_of_v<base_item, var_type>;
				break;
			default:
				idx = utki::index_of<derived_item, var_type>::value;
				break;
		}
		MC_CHECK(idx == v.index(), "index of %s is %zu while the stored index is %zu", e.c_str(), idx, v.index());
		steps(4);
	}
	hasher h;
	for (int k : seq) {
		h.add(k);
	}
	state(h.h);
}

// ---- widths

namespace {
template <size_t n>
void check_width()
{
	using u = typename utki::uint_size<n>::type;
	using s = typename utki::int_size<n>::type;
	// smallest of the power-of-two sizes which holds n bytes
	size_t want = 1;
	while (want < n) {
		want *= 2;
	}
	MC_CHECK(sizeof(u) == want && std::is_unsigned_v<u> && std::is_integral_v<u>, "unsigned type for %zu bytes has %zu", n, sizeof(u));
	MC_CHECK(sizeof(s) == want && std::is_signed_v<s> && std::is_integral_v<s>, "signed type for %zu bytes has %zu", n, sizeof(s));
	uint64_t max = n == 8 ? ~uint64_t(0) : (uint64_t(1) << (8 * n)) - 1;
	MC_CHECK(uint64_t(u(max)) == max, "unsigned type does not hold %zu bytes", n);
	int64_t smin = n == 8 ? std::numeric_limits<int64_t>::min() : -(int64_t(1) << (8 * n - 1));
	MC_CHECK(int64_t(s(smin)) == smin && int64_t(s(-(smin + 1))) == -(smin + 1), "signed type does not hold %zu bytes", n);
	steps(4);
}

enum u_enum { ue_a, ue_b };
enum class s_enum { a, b };
enum u8_enum : uint8_t { u8_a };
enum class s8_enum : uint8_t { a };

struct with_type {
	using type = long;
};

struct without_type {};

struct private_type {
private:
	using type = long;
};

template <class... T>
struct pack {};

template <class T>
struct single {};
} // namespace

MC_SUITE(type_queries)
{
	where("type queries");
	check_width<1>();
	check_width<2>();
	check_width<3>();
	check_width<4>();
	check_width<5>();
	check_width<6>();
	check_width<7>();
	check_width<8>();

	MC_CHECK(!utki::is_scoped_enum_v<u_enum> && utki::is_scoped_enum_v<s_enum>, "is_scoped_enum");
	MC_CHECK(!utki::is_scoped_enum_v<u8_enum> && utki::is_scoped_enum_v<s8_enum>, "is_scoped_enum with underlying type");
	MC_CHECK(!utki::is_scoped_enum_v<int> && !utki::is_scoped_enum_v<with_type> && !utki::is_scoped_enum_v<void>, "is_scoped_enum of non-enum");

	MC_CHECK((std::is_same_v<utki::type_or_void_t<with_type>, long>), "type_or_void");
	MC_CHECK((std::is_same_v<utki::type_or_void_t<without_type>, void>), "type_or_void");
	MC_CHECK((std::is_same_v<utki::type_or_void_t<private_type>, void>), "type_or_void");
	MC_CHECK(utki::is_type_defined<with_type>::value && !utki::is_type_defined<without_type>::value, "is_type_defined");

	MC_CHECK((utki::is_specialization_of_v<pack, pack<>> && utki::is_specialization_of_v<pack, pack<int, char>>), "is_specialization_of");
	MC_CHECK((!utki::is_specialization_of_v<pack, single<int>> && !utki::is_specialization_of_v<single, pack<int>>), "is_specialization_of");
	MC_CHECK((utki::is_specialization_of_v<single, single<pack<int>>> && !utki::is_specialization_of_v<pack, single<pack<int>>>), "is_specialization_of nested");
	MC_CHECK((utki::is_specialization_of_v<std::vector, std::vector<int>> && !utki::is_specialization_of_v<std::vector, int>), "is_specialization_of");
	MC_CHECK((!utki::is_specialization_of_v<std::basic_string, std::vector<char>>), "is_specialization_of");

	MC_CHECK((std::is_same_v<utki::remove_const_pointer_t<const int*>, int>), "remove_const_pointer");
	MC_CHECK((std::is_same_v<utki::remove_const_pointer_t<int*>, int>), "remove_const_pointer");
	MC_CHECK((std::is_same_v<utki::remove_const_pointer_t<const int* const>, int>), "remove_const_pointer");
	MC_CHECK((std::is_same_v<utki::remove_const_reference_t<const int&>, int>), "remove_const_reference");
	MC_CHECK((std::is_same_v<utki::remove_const_reference_t<int&&>, int>), "remove_const_reference");
	MC_CHECK((std::is_same_v<utki::remove_const_reference_t<const int>, int>), "remove_const_reference");

	MC_CHECK(utki::byte_bits == 8 && utki::nibble_bits == 4 && utki::byte_mask == 0xff && utki::lower_nibble_mask == 0xf && utki::upper_nibble_mask == 0xf0, "bits");
	const int masks[] = {
		utki::bit_0_mask,
		utki::bit_1_mask,
		utki::bit_2_mask,
		utki::bit_3_mask,
		utki::bit_4_mask,
		utki::bit_5_mask,
		utki::bit_6_mask,
		utki::bit_7_mask
	};
	for (int i = 0; i != 8; ++i) {
		MC_CHECK(masks[i] == 1 << i, "mask of bit %d", i);
	}
	steps(30);
	state(1);
}

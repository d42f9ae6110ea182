// C26: a span designates exactly the elements it was made of; everything derived from it stays within.
#include <utki/span.hpp>
#include <utki/utility.hpp>

#include <algorithm>
#include <array>
#include <cmath>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include "mc.hpp"

using namespace mc;

namespace {
// check everything which can be asked about a span, against pointer and size
template <class T>
void check(utki::span<T> s, const T* p, size_t n, const char* what)
{
	const auto& cs = s;
	MC_CHECK(s.size() == n, "%s: size() is %zu, expected %zu", what, s.size(), n);
	MC_CHECK(s.empty() == (n == 0), "%s: empty() of %zu elements", what, n);
	MC_CHECK(s.size_bytes() == n * sizeof(T), "%s: size_bytes() is %zu", what, s.size_bytes());
	if (n) {
		MC_CHECK(s.data() == p, "%s: data() is elsewhere", what);
		MC_CHECK(&s.front() == p && &cs.front() == p, "%s: front()", what);
		MC_CHECK(&s.back() == p + n - 1 && &cs.back() == p + n - 1, "%s: back()", what);
		MC_CHECK(&*s.begin() == p && &*s.cbegin() == p, "%s: begin()", what);
	}
	MC_CHECK(s.end() - s.begin() == ptrdiff_t(n) && s.cend() - s.cbegin() == ptrdiff_t(n), "%s: end()", what);
	MC_CHECK(utki::end_pointer(s) == s.data() + n, "%s: end_pointer()", what);
	size_t i = 0;
	for (auto& x : s) {
		MC_CHECK(i < n && &x == p + i, "%s: iteration at %zu", what, i);
		MC_CHECK(&s[i] == p + i && &cs[i] == p + i, "%s: [%zu]", what, i);
		MC_CHECK(&s.at(i) == p + i && &cs.at(i) == p + i, "%s: at(%zu)", what, i);
		++i;
	}
	MC_CHECK(i == n, "%s: iteration ended at %zu", what, i);
	for (auto r = s.rbegin(); r != s.rend(); ++r) {
		MC_CHECK(i > 0 && &*r == p + i - 1, "%s: reverse iteration at %zu", what, i);
		--i;
	}
	MC_CHECK(i == 0, "%s: reverse iteration ended at %zu", what, i);
	i = n;
	for (auto r = cs.crbegin(); r != cs.crend(); ++r) {
		MC_CHECK(i > 0 && &*r == p + i - 1, "%s: constant reverse iteration at %zu", what, i);
		--i;
	}
	MC_CHECK(i == 0, "%s: constant reverse iteration ended at %zu", what, i);
	static const size_t over[] = {0, 1, 2, 1000, size_t(-1) / 2, size_t(-1)};
	for (size_t o : over) {
		size_t k = o > size_t(-1) - n ? o : n + o;
		for (int c = 0; c != 2; ++c) {
			bool thrown = false;
			try {
				const T& x = c ? cs.at(k) : s.at(k);
				(void)&x;
			} catch (std::out_of_range&) {
				thrown = true;
			}
			MC_CHECK(thrown, "%s: at(%zu) of %zu elements did not throw", what, k, n);
		}
	}
	utki::span<T> copy(s), assigned;
	assigned = s;
	MC_CHECK(copy.data() == s.data() && copy.size() == n && assigned.data() == s.data() && assigned.size() == n, "%s: copy", what);
	utki::span<const T> c2 = s;
	MC_CHECK(c2.data() == s.data() && c2.size() == n, "%s: conversion to constant", what);
	steps();
}

template <class T>
void all_subspans(unsigned n)
{
	std::unique_ptr<T[]> m(new T[n]);
	for (unsigned i = 0; i != n; ++i) {
		m[i] = T(i + 1);
	}
	utki::span<T> s(m.get(), n);
	check(s, m.get(), n, "span(pointer, size)");
	check(utki::make_span(m.get(), n), m.get(), n, "make_span(pointer, size)");
	for (size_t off = 0; off <= n; ++off) {
		check(s.subspan(off), m.get() + off, n - off, "subspan(offset)");
		for (size_t cnt = 0; off + cnt <= n; ++cnt) {
			auto sub = s.subspan(off, cnt);
			check(sub, m.get() + off, cnt, "subspan(offset, count)");
			// subspans compose
			for (size_t o2 = 0; o2 <= cnt; ++o2) {
				auto a = sub.subspan(o2);
				MC_CHECK(a.size() == cnt - o2 && a.data() == m.get() + off + o2, "subspan of subspan");
			}
			auto v = utki::make_vector(sub);
			MC_CHECK(v.size() == cnt && std::equal(v.begin(), v.end(), m.get() + off), "make_vector()");
			// which addresses are within
			for (size_t q = 0; q <= n; ++q) {
				bool e = q >= off && q < off + cnt;
				MC_CHECK(utki::overlaps(sub, m.get() + q) == e, "overlaps(): element %zu and span [%zu, +%zu)", q, off, cnt);
				utki::span<const T> csub = sub;
				MC_CHECK(utki::overlaps(csub, m.get() + q) == e, "overlaps() of constant: element %zu and span [%zu, +%zu)", q, off, cnt);
			}
		}
	}
	// writes go to the elements
	for (unsigned i = 0; i != n; ++i) {
		s[i] = T(i * 2 + 7);
		s.at(i) = T(s.at(i) + 1);
		MC_CHECK(m[i] == T(i * 2 + 8), "write through the span");
	}
	state(hasher().add(sizeof(T)).add(n).h);
}
} // namespace

MC_SUITE(subspans)
{
	unsigned n = choose(by_tier(12u, 20u));
	note("%u elements", n);
	switch (choose(4)) {
		case 0:
			return all_subspans<char>(n);
		case 1:
			return all_subspans<uint16_t>(n);
		case 2:
			return all_subspans<int>(n);
		case 3:
			return all_subspans<double>(n);
	}
}

namespace {
template <size_t n>
void from_array()
{
	std::array<int, n> a{};
	for (size_t i = 0; i != n; ++i) {
		a[i] = int(i);
	}
	const auto& ca = a;
	check<int>(utki::span<int>(a), a.data(), n, "span(array)");
	check<const int>(utki::span<const int>(a), a.data(), n, "span<const>(array)");
	check<const int>(utki::span<const int>(ca), a.data(), n, "span(const array)");
	check<int>(utki::make_span(a), a.data(), n, "make_span(array)");
	check<const int>(utki::make_span(ca), a.data(), n, "make_span(const array)");
}

template <class T>
void from_containers(unsigned n)
{
	std::vector<T> v(n);
	for (unsigned i = 0; i != n; ++i) {
		v[i] = T(i + 1);
	}
	const auto& cv = v;
	check<T>(utki::span<T>(v), v.data(), n, "span(vector)");
	check<const T>(utki::span<const T>(v), v.data(), n, "span<const>(vector)");
	check<const T>(utki::span<const T>(cv), v.data(), n, "span(const vector)");
	check<T>(utki::make_span(v), v.data(), n, "make_span(vector)");
	check<const T>(utki::make_span(cv), v.data(), n, "make_span(const vector)");
	auto copy = utki::make_vector(utki::make_span(cv));
	MC_CHECK(copy == v, "make_vector(make_span(vector))");
}

template <class C>
void from_strings(unsigned n)
{
	std::basic_string<C> s;
	for (unsigned i = 0; i != n; ++i) {
		s.push_back(C('a' + i % 26));
	}
	const auto& cs = s;
	std::basic_string_view<C> sv(s);
	check<C>(utki::span<C>(s), s.data(), n, "span(string)");
	check<const C>(utki::span<const C>(cs), s.data(), n, "span(const string)");
	check<const C>(utki::span<const C>(sv), s.data(), n, "span(string_view)");
	check<C>(utki::make_span(s), s.data(), n, "make_span(string)");
	check<const C>(utki::make_span(cs), s.data(), n, "make_span(const string)");
	check<const C>(utki::make_span(sv), s.data(), n, "make_span(string_view)");
}
} // namespace

// made of all kinds of things
MC_SUITE(sources)
{
	unsigned n = choose(by_tier(70u, 300u));
	from_containers<char>(n);
	from_containers<int>(n);
	from_containers<long double>(n);
	from_strings<char>(n);
	from_strings<wchar_t>(n);
	from_strings<char16_t>(n);
	from_strings<char32_t>(n);
	// zero terminated strings: up to the zero and no further
	std::unique_ptr<char[]> z(new char[n + 1]);
	for (unsigned i = 0; i != n; ++i) {
		z[i] = char('a' + i % 26);
	}
	z[n] = '\0';
	const char* cz = z.get();
	check<const char>(utki::make_span(cz), cz, n, "make_span(zero terminated)");
	check<const char>(utki::span<const char>(cz), cz, n, "span(zero terminated)");
	// bytes and characters
	utki::span<char> sc(z.get(), n);
	auto u = utki::to_uint8_t(sc);
	check<uint8_t>(u, reinterpret_cast<uint8_t*>(z.get()), n, "to_uint8_t()");
	auto cu = utki::to_uint8_t(utki::span<const char>(sc));
	check<const uint8_t>(cu, reinterpret_cast<uint8_t*>(z.get()), n, "to_uint8_t(const)");
	check<char>(utki::to_char(u), z.get(), n, "to_char()");
	check<const char>(utki::to_char(cu), z.get(), n, "to_char(const)");
	std::ostringstream o;
	o << sc;
	MC_CHECK(o.str() == std::string(cz), "printed as %s", o.str().c_str());
	switch (n) {
		case 0:
			from_array<0>();
			check<int>(utki::span<int>(), nullptr, 0, "span()");
			check<const char>(utki::span<const char>(nullptr, 0), nullptr, 0, "span(nullptr, 0)");
			break;
		case 1:
			from_array<1>();
			break;
		case 2:
			from_array<2>();
			break;
		case 3:
			from_array<17>();
			break;
	}
	auto il = [](utki::span<const int> s) {
		MC_CHECK(s.size() == 4 && s[0] == 4 && s[1] == 3 && s[2] == 2 && s[3] == 1, "span{...}");
		return s.size();
	};
	il({4, 3, 2, 1});
	auto total = [](utki::span<const int> s) {
		int r = 0;
		for (int x : s) {
			r += x;
		}
		return r;
	};
	MC_CHECK(total(utki::make_span({1, 2, 3})) == 6, "make_span({...})");
	state(n);
}

// comparison by contents
MC_SUITE(deep_comparison)
{
	unsigned na = choose(by_tier(6u, 7u)), nb = choose(by_tier(6u, 7u));
	std::vector<int> a, b;
	for (unsigned i = 0; i != na; ++i) {
		a.push_back(int(choose(3)) - 1);
	}
	for (unsigned i = 0; i != nb; ++i) {
		b.push_back(int(choose(3)) - 1);
	}
	// exact size blocks
	std::unique_ptr<int[]> ma(new int[na]);
	std::unique_ptr<int[]> mb(new int[nb]);
	std::copy(a.begin(), a.end(), ma.get());
	std::copy(b.begin(), b.end(), mb.get());
	utki::span<int> sa(ma.get(), na);
	utki::span<const int> sb(mb.get(), nb);
	MC_CHECK(utki::deep_equals(sa, sb) == (a == b), "deep_equals");
	MC_CHECK(utki::deep_not_equals(sa, sb) == (a != b), "deep_not_equals");
	MC_CHECK(utki::deep_less_than(sa, sb) == (a < b), "deep_less_than");
	MC_CHECK(utki::deep_greater_than(sa, sb) == (a > b), "deep_greater_than");
	MC_CHECK(utki::deep_less_or_equals(sa, sb) == (a <= b), "deep_less_or_equals");
	MC_CHECK(utki::deep_greater_or_equals(sa, sb) == (a >= b), "deep_greater_or_equals");
	steps(6);
	state(hasher().add_range(a).add_range(b).h);
	note("%u and %u elements", na, nb);
	if (na == nb) {
		std::ostringstream o, e;
		o << sa;
		for (int x : a) {
			e << x;
		}
		MC_CHECK(o.str() == e.str(), "printed");
		MC_CHECK(utki::deep_equals(sa, utki::span<int>(ma.get(), na)), "equal to itself");
		MC_CHECK(!utki::deep_less_than(sa, sa), "not less than itself");
	}
}

// different element types compare by value
MC_SUITE(mixed_comparison)
{
	unsigned n = choose(5), m = choose(5);
	std::string a;
	std::vector<int> b;
	for (unsigned i = 0; i != n; ++i) {
		a.push_back(char('a' + choose(2)));
	}
	for (unsigned i = 0; i != m; ++i) {
		b.push_back('a' + int(choose(2)));
	}
	std::vector<int> ai(a.begin(), a.end());
	auto sa = utki::make_span(a);
	auto sb = utki::make_span(b);
	MC_CHECK(utki::deep_equals(sa, sb) == (ai == b) && utki::deep_equals(sb, sa) == (ai == b), "mixed deep_equals");
	MC_CHECK(utki::deep_less_than(sa, sb) == (ai < b) && utki::deep_less_than(sb, sa) == (b < ai), "mixed deep_less_than");
	steps(4);
	state(hasher().add(hash_str(a)).add_range(b).h);
}

namespace {
struct caseless {
	char c;
	bool operator==(const caseless& o) const
	{
		return (c | 0x20) == (o.c | 0x20);
	}
	bool operator<(const caseless& o) const
	{
		return (c | 0x20) < (o.c | 0x20);
	}
};

template <class A, class B>
void compare_all(const std::vector<A>& a, const std::vector<B>& b, const char* what)
{
	auto sa = utki::make_span(a);
	auto sb = utki::make_span(b);
	bool eq = std::equal(a.begin(), a.end(), b.begin(), b.end());
	bool lt = std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
	bool gt = std::lexicographical_compare(b.begin(), b.end(), a.begin(), a.end());
	MC_CHECK(utki::deep_equals(sa, sb) == eq, "%s: deep_equals is not %d", what, int(eq));
	MC_CHECK(utki::deep_less_than(sa, sb) == lt, "%s: deep_less_than is not %d", what, int(lt));
	MC_CHECK(utki::deep_less_than(sb, sa) == gt, "%s: swapped deep_less_than is not %d", what, int(gt));
	steps(3);
}

template <class T>
std::vector<T> choose_elements(unsigned n, const std::vector<T>& from)
{
	std::vector<T> r;
	for (unsigned i = 0; i != n; ++i) {
		r.push_back(pick(from));
	}
	return r;
}
} // namespace

// elements are compared as values: the same value can have different representations and the other way round
MC_SUITE(values_not_bytes)
{
	unsigned n = choose(3) + 1, m = choose(2) ? n : choose(3) + 1;
	unsigned kind = choose(6);
	note("%u and %u elements, kind %u", n, m, kind);
	switch (kind) {
		case 0: {
			static const std::vector<double> pool = {0.0, -0.0, std::nan(""), 1.0};
			auto a = choose_elements(n, pool);
			compare_all(a, choose_elements(m, pool), "double");
			break;
		}
		case 1: {
			static const std::vector<float> fp = {0.0f, -0.0f, 1.0f, 16777217.0f};
			static const std::vector<int> ip = {0, 1, 0x3f800000, 16777216};
			auto a = choose_elements(n, fp);
			compare_all(a, choose_elements(m, ip), "float and int");
			break;
		}
		case 2: {
			static const std::vector<caseless> pool = {{'a'}, {'A'}, {'b'}, {'B'}};
			auto a = choose_elements(n, pool);
			compare_all(a, choose_elements(m, pool), "own operator==");
			break;
		}
		case 3: {
			static const std::vector<std::string> pool = {"", "a", "a string which does not fit into the object", std::string("a\0b", 3)};
			auto a = choose_elements(n, pool);
			compare_all(a, choose_elements(m, pool), "strings");
			break;
		}
		case 4: {
			static const std::vector<int8_t> sp = {0, -1, 127, -128};
			static const std::vector<uint8_t> up = {0, 255, 127, 128};
			auto a = choose_elements(n, sp);
			compare_all(a, choose_elements(m, up), "signed and unsigned");
			break;
		}
		default: {
			static const std::vector<uint32_t> pool = {1, 256, 0x1000000, 0x80000000u};
			auto a = choose_elements(n, pool);
			compare_all(a, choose_elements(m, pool), "order of bytes");
			break;
		}
	}
	state(kind * 16 + n * 4 + m);
}

// big spans
MC_SUITE(scale)
{
	static const size_t sizes[] = {255, 256, 257, 1000, 32768, 65535, 65536, 65537, 140000};
	size_t n = pick(sizes);
	unsigned type = choose(3);
	auto go = [&](auto zero) {
		using T = decltype(zero);
		std::unique_ptr<T[]> m(new T[n]);
		for (size_t i = 0; i != n; ++i) {
			m[i] = T(i * 7 + i / 253);
		}
		utki::span<T> s(m.get(), n);
		check(s, m.get(), n, "big span");
		for (size_t off : {size_t(0), size_t(1), size_t(127), size_t(254), size_t(255), n / 2, n - 256 + (n < 256), n - 1, n}) {
			if (off > n) {
				continue;
			}
			check(s.subspan(off), m.get() + off, n - off, "subspan(offset) of a big span");
			for (size_t cnt : {size_t(0), size_t(1), size_t(255), size_t(256), size_t(65536), n / 2, n - off}) {
				if (cnt <= n - off) {
					auto sub = s.subspan(off, cnt);
					MC_CHECK(sub.size() == cnt && (cnt == 0 || sub.data() == m.get() + off), "subspan(%zu, %zu) of %zu", off, cnt, n);
					for (size_t q : {size_t(0), off, off + cnt, off + cnt / 2, off + 256, n / 2, n - 1}) {
						if (q < n) {
							MC_CHECK(utki::overlaps(sub, m.get() + q) == (q >= off && q < off + cnt), "overlaps(): element %zu and span [%zu, +%zu)", q, off, cnt);
						}
					}
					steps();
				}
			}
		}
		// contents: differences in one place
		std::vector<T> c(m.get(), m.get() + n);
		auto sc = utki::make_span(c);
		MC_CHECK(utki::deep_equals(s, sc) && !utki::deep_less_than(s, sc) && !utki::deep_less_than(sc, s), "equal contents");
		MC_CHECK(utki::make_vector(s) == c, "make_vector()");
		for (size_t q : {size_t(0), size_t(254), size_t(255), n / 2, n - 2, n - 1}) {
			if (q >= n) {
				continue;
			}
			T old = c[q];
			c[q] = T(0);
			m[q] = T(1);
			MC_CHECK(!utki::deep_equals(s, sc) && utki::deep_less_than(sc, s) && !utki::deep_less_than(s, sc), "difference at %zu of %zu", q, n);
			c[q] = m[q] = old;
			steps();
		}
		auto shorter = sc.subspan(0, n - 1);
		MC_CHECK(!utki::deep_equals(s, shorter) && utki::deep_less_than(shorter, s) && !utki::deep_less_than(s, shorter), "shorter by one");
	};
	if (type == 0) {
		go(uint8_t(0));
	} else if (type == 1) {
		go(int(0));
	} else {
		go(double(0));
	}
	state(n * 4 + type);
	note("%zu elements", n);
}

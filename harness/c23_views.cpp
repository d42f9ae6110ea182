// C23: enumeration ranges, enumeration arrays, zip / reverse / skip views and the small range helpers visit exactly what they should.
#include <utki/enum_array.hpp>
#include <utki/enum_iterable.hpp>
#include <utki/utility.hpp>
#include <utki/views.hpp>

#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "mc.hpp"

using namespace mc;

namespace {
template <class under, unsigned long n>
struct en {
	enum class type : under { first = 0, enum_size = under(n) };
};

template <class E>
void iterable(size_t n)
{
	const auto& v = utki::enum_iterable_v<E>;
	MC_CHECK(v.size() == n, "size of enumeration range is %zu, expected %zu", v.size(), n);
	size_t i = 0;
	for (auto e : v) {
		MC_CHECK(i < n, "enumeration range of %zu items does not end", n);
		MC_CHECK(size_t(e) == i, "item %zu of enumeration range is %zu", i, size_t(e));
		++i;
		if (i % 1024 == 0) {
			tick();
		}
	}
	MC_CHECK(i == n, "enumeration range ended at %zu of %zu", i, n);
	i = 0;
	for (auto b = v.cbegin(); b != v.cend(); ++b) {
		MC_CHECK(i < n && size_t(*b) == i, "constant iteration at %zu", i);
		++i;
	}
	MC_CHECK(i == n, "constant iteration ended at %zu of %zu", i, n);
	for (auto b = v.rbegin(); b.base() != v.rend().base(); ++b) {
		MC_CHECK(i > 0, "reverse iteration does not end");
		--i;
		MC_CHECK(size_t(*b) == i, "reverse iteration gives %zu instead of %zu", size_t(*b), i);
	}
	MC_CHECK(i == 0, "reverse iteration ended at %zu", i);
	i = n;
	for (auto b = v.crbegin(); b.base() != v.crend().base(); ++b) {
		MC_CHECK(i > 0, "constant reverse iteration does not end");
		--i;
		MC_CHECK(size_t(*b) == i, "constant reverse iteration gives %zu instead of %zu", size_t(*b), i);
	}
	MC_CHECK(i == 0, "constant reverse iteration ended at %zu", i);
	steps(4 * n);
	state(n);
}

template <class E>
void array(size_t n)
{
	utki::enum_array<int, E> a{};
	MC_CHECK(a.size() == n, "size of enumeration array is %zu, expected %zu", a.size(), n);
	for (size_t i = 0; i != n; ++i) {
		a[E(i)] = int(i * 3 + 1);
		MC_CHECK(&a[E(i)] == a.data() + i && &a[i] == a.data() + i, "element %zu is elsewhere", i);
	}
	const auto& c = a;
	for (size_t i = 0; i != n; ++i) {
		MC_CHECK(c[E(i)] == int(i * 3 + 1) && &c[E(i)] == a.data() + i, "element %zu", i);
	}
	size_t i = 0;
	for (auto&& [e, k] : a.zip_with_enum()) {
		MC_CHECK(i < n, "zip_with_enum() does not end");
		MC_CHECK(&e == a.data() + i, "zip_with_enum(): element %zu is another", i);
		MC_CHECK(size_t(k) == i, "zip_with_enum(): item %zu is %zu", i, size_t(k));
		e = -int(i);
		++i;
	}
	MC_CHECK(i == n, "zip_with_enum() ended at %zu of %zu", i, n);
	i = 0;
	for (auto&& [e, k] : c.zip_with_enum()) {
		MC_CHECK(i < n, "constant zip_with_enum() does not end");
		MC_CHECK(&e == a.data() + i && e == -int(i), "constant zip_with_enum(): element %zu is another", i);
		MC_CHECK(size_t(k) == i, "constant zip_with_enum(): item %zu is %zu", i, size_t(k));
		++i;
	}
	MC_CHECK(i == n, "constant zip_with_enum() ended at %zu of %zu", i, n);
	steps(4 * n);
}

template <class U, unsigned long n>
void both()
{
	using E = typename en<U, n>::type;
	note("%lu items in %zu bytes", n, sizeof(U));
	iterable<E>(n);
	if constexpr (n > 0) {
		array<E>(n);
	}
}
} // namespace

MC_SUITE(enumerations)
{
	switch (choose(24)) {
		case 0:
			return both<int, 1>();
		case 1:
			return both<int, 2>();
		case 2:
			return both<int, 3>();
		case 3:
			return both<int, 10>();
		case 4:
			return both<uint8_t, 1>();
		case 5:
			return both<uint8_t, 127>();
		case 6:
			return both<uint8_t, 128>();
		case 7:
			return both<uint8_t, 129>();
		case 8:
			return both<uint8_t, 200>();
		case 9:
			return both<uint8_t, 254>();
		case 10:
			return both<uint8_t, 255>();
		case 11:
			return both<int8_t, 100>();
		case 12:
			return both<int8_t, 127>();
		case 13:
			return both<uint16_t, 256>();
		case 14:
			return both<uint16_t, 32767>();
		case 15:
			return both<uint16_t, 32768>();
		case 16:
			return both<uint16_t, 32769>();
		case 17:
			return both<uint16_t, 65535>();
		case 18:
			return both<int16_t, 32767>();
		case 19:
			return both<unsigned, 300>();
		case 20:
			return both<unsigned, 70000>();
		case 21:
			return both<uint64_t, 1000>();
		case 22:
			return both<int, 0>();
		case 23:
			return both<uint8_t, 7>();
	}
}

namespace {
template <class C>
C fill(unsigned n, int base)
{
	C c;
	for (unsigned i = 0; i != n; ++i) {
		c.insert(c.end(), typename C::value_type(base + int(i)));
	}
	return c;
}

template <class A, class B>
void zip2(unsigned na, unsigned nb)
{
	auto a = fill<A>(na, 100);
	const auto b = fill<B>(nb, 1000);
	unsigned exp = std::min(na, nb);
	std::vector<int> ea(a.begin(), a.end()), eb(b.begin(), b.end());
	unsigned i = 0;
	for (auto&& [x, y] : utki::views::zip(a, b)) {
		MC_CHECK(i < exp, "zip of %u and %u does not end at the shortest", na, nb);
		MC_CHECK(int(x) == ea[i] && int(y) == eb[i], "zip of %u and %u: pair %u is (%d, %d)", na, nb, i, int(x), int(y));
		++i;
		steps();
	}
	MC_CHECK(i == exp, "zip of %u and %u ended at %u", na, nb, i);
	i = 0;
	const auto& ca = a;
	auto z = utki::views::zip(b, ca);
	for (auto&& [y, x] : z) {
		MC_CHECK(i < exp, "zip of %u and %u does not end at the shortest", nb, na);
		MC_CHECK(int(x) == ea[i] && int(y) == eb[i], "zip of %u and %u: pair %u", nb, na, i);
		++i;
	}
	MC_CHECK(i == exp, "zip of %u and %u ended at %u", nb, na, i);
}
} // namespace

// zip of every pair of container kinds and lengths ends at the shortest one
MC_SUITE(zip_pairs)
{
	unsigned k = choose(9);
	unsigned na = choose(by_tier(9u, 20u)), nb = choose(by_tier(9u, 20u));
	note("zip of %u and %u elements, containers %u", na, nb, k);
	state(hasher().add(k).add(na).add(nb).h);
	switch (k) {
		case 0:
			return zip2<std::vector<int>, std::vector<int>>(na, nb);
		case 1:
			return zip2<std::vector<int>, std::list<int>>(na, nb);
		case 2:
			return zip2<std::list<int>, std::vector<char16_t>>(na, nb);
		case 3:
			return zip2<std::deque<long>, std::list<int>>(na, nb);
		case 4:
			return zip2<std::list<int>, std::list<int>>(na, nb);
		case 5:
			return zip2<std::u16string, std::vector<int>>(na, nb);
		case 6:
			return zip2<std::deque<int>, std::deque<int>>(na, nb);
		case 7:
			return zip2<std::vector<int>, std::set<int>>(na, nb);
		case 8:
			return zip2<std::list<long>, std::multiset<long>>(na, nb);
	}
}

// three and four collections, references to the elements
MC_SUITE(zip_many)
{
	unsigned m = by_tier(6u, 9u);
	unsigned n[4] = {choose(m), choose(m), choose(m), choose(m)};
	auto a = fill<std::vector<int>>(n[0], 0);
	auto b = fill<std::list<long>>(n[1], 100);
	const auto c = fill<std::deque<int>>(n[2], 200);
	std::vector<std::unique_ptr<int>> d;
	for (unsigned i = 0; i != n[3]; ++i) {
		d.push_back(std::make_unique<int>(int(i) + 300));
	}
	unsigned exp = std::min(std::min(n[0], n[1]), std::min(n[2], n[3]));
	auto bi = b.begin();
	unsigned i = 0;
	for (auto&& [x, y, z, w] : utki::views::zip(a, b, c, d)) {
		MC_CHECK(i < exp, "zip of %u %u %u %u does not end at the shortest", n[0], n[1], n[2], n[3]);
		MC_CHECK(&x == &a[i] && &y == &*bi && &z == &c[i] && &w == &d[i], "zip: tuple %u does not refer to the elements", i);
		x += 1000;
		y = -1;
		w.reset();
		++i;
		++bi;
		steps();
	}
	MC_CHECK(i == exp, "zip of %u %u %u %u ended at %u", n[0], n[1], n[2], n[3], i);
	bi = b.begin();
	for (unsigned k = 0; k != 9; ++k) {
		if (k < n[0]) {
			MC_CHECK(a[k] == int(k) + (k < exp ? 1000 : 0), "element %u of the vector", k);
		}
		if (k < n[1]) {
			MC_CHECK(*bi == (k < exp ? -1 : long(k) + 100), "element %u of the list", k);
			++bi;
		}
		if (k < n[3]) {
			MC_CHECK((d[k] == nullptr) == (k < exp), "element %u of pointers", k);
		}
	}
	unsigned exp3 = std::min(n[0], std::min(n[1], n[2]));
	i = 0;
	auto v3 = utki::views::zip(c, b, a);
	for (auto&& t : v3) {
		MC_CHECK(i < exp3 && &std::get<2>(t) == &a[i] && &std::get<0>(t) == &c[i], "zip of three at %u", i);
		++i;
	}
	MC_CHECK(i == exp3, "zip of three ended at %u", i);
	// one collection
	i = 0;
	for (auto&& [x] : utki::views::zip(a)) {
		MC_CHECK(i < n[0] && &x == &a[i], "zip of one at %u", i);
		++i;
	}
	MC_CHECK(i == n[0], "zip of one ended at %u", i);
	state(hasher().add(n[0]).add(n[1]).add(n[2]).add(n[3]).h);
}

namespace {
template <size_t k, class C>
void skip(C& c, const std::vector<int>& e)
{
	if (e.size() < k) {
		return;
	}
	size_t i = k;
	for (auto&& x : utki::skip_front<k>(c)) {
		MC_CHECK(i < e.size() && x == e[i], "skip_front<%zu> of %zu elements: element %zu", k, e.size(), i);
		++i;
		steps();
	}
	MC_CHECK(i == e.size(), "skip_front<%zu> of %zu elements ended at %zu", k, e.size(), i);
}

template <class C>
void reverse_and_skip(unsigned n)
{
	auto c = fill<C>(n, 5);
	std::vector<int> e(c.begin(), c.end());
	size_t i = n;
	for (auto&& x : utki::views::reverse(c)) {
		MC_CHECK(i > 0, "reverse view does not end");
		--i;
		MC_CHECK(x == e[i], "reverse view of %u elements: %zu from the beginning", n, i);
		steps();
	}
	MC_CHECK(i == 0, "reverse view ended early");
	const auto& cc = c;
	i = n;
	for (auto&& x : utki::views::reverse(cc)) {
		MC_CHECK(i > 0, "reverse view does not end");
		--i;
		MC_CHECK(x == e[i], "reverse view of constant collection");
	}
	MC_CHECK(i == 0, "reverse view of constant collection ended early");
	skip<0>(c, e);
	skip<1>(c, e);
	skip<2>(c, e);
	skip<3>(cc, e);
	skip<7>(c, e);
	skip<20>(cc, e);
}
} // namespace

MC_SUITE(reverse_and_skip_views)
{
	unsigned k = choose(5);
	unsigned n = choose(by_tier(24u, 60u));
	note("%u elements", n);
	state(hasher().add(k).add(n).h);
	switch (k) {
		case 0:
			return reverse_and_skip<std::vector<int>>(n);
		case 1:
			return reverse_and_skip<std::list<int>>(n);
		case 2:
			return reverse_and_skip<std::deque<int>>(n);
		case 3:
			return reverse_and_skip<std::set<int>>(n);
		case 4: {
			int arr[] = {9, 8, 7, 6, 5};
			std::vector<int> got;
			for (auto x : utki::views::reverse(arr)) {
				got.push_back(x);
			}
			MC_CHECK(got == std::vector<int>({5, 6, 7, 8, 9}), "reverse view of an array");
			// elements are changed through the view
			std::vector<int> v(n, 1);
			int j = 0;
			for (auto& x : utki::views::reverse(v)) {
				x = j++;
			}
			for (unsigned i = 0; i != n; ++i) {
				MC_CHECK(v[i] == int(n - 1 - i), "element written through the view");
			}
			return;
		}
	}
}

namespace {
// iterator with a very short difference type
template <class D>
struct tiny {
	using iterator_category = std::random_access_iterator_tag;
	using difference_type = D;
	using value_type = int;
	using pointer = const int*;
	using reference = const int&;
	long pos = 0;

	tiny& operator+=(difference_type d)
	{
		pos += d;
		return *this;
	}
	tiny& operator-=(difference_type d)
	{
		pos -= d;
		return *this;
	}
	tiny& operator++()
	{
		++pos;
		return *this;
	}
	tiny& operator--()
	{
		--pos;
		return *this;
	}
	difference_type operator-(const tiny& o) const
	{
		return difference_type(pos - o.pos);
	}
	bool operator==(const tiny& o) const
	{
		return pos == o.pos;
	}
	bool operator!=(const tiny& o) const
	{
		return pos != o.pos;
	}
	reference operator*() const
	{
		static int x;
		return x;
	}
};

template <class D>
void tiny_steps(size_t n)
{
	tiny<D> i;
	i.pos = 5;
	MC_CHECK(utki::next(i, n).pos == 5 + long(n), "next() by %zu went by %ld", n, utki::next(i, n).pos - 5);
	MC_CHECK(utki::prev(i, n).pos == 5 - long(n), "prev() by %zu went by %ld", n, 5 - utki::prev(i, n).pos);
	MC_CHECK(i.pos == 5, "iterator itself was moved");
	steps(2);
}
} // namespace

MC_SUITE(next_and_prev)
{
	unsigned n = choose(by_tier(1200u, 5000u));
	tiny_steps<int8_t>(n);
	tiny_steps<int16_t>(n);
	tiny_steps<long>(n);
	static const size_t big[] = {32766, 32767, 32768, 65534, 65535, 65536, 98301, 98302, 1000003};
	if (n < 9) {
		tiny_steps<int16_t>(big[n]);
		tiny_steps<int32_t>(big[n]);
		tiny_steps<int32_t>(big[n] + (size_t(1) << 31));
		tiny_steps<int32_t>(big[n] + (size_t(1) << 33));
		tiny_steps<long>(big[n] + (size_t(1) << 40));
		tiny_steps<int8_t>(big[n]);
	}
	if (n < 200) {
		std::list<int> l = fill<std::list<int>>(200, 0);
		MC_CHECK(*utki::next(l.begin(), n) == int(n), "next() in a list");
		MC_CHECK(*utki::prev(l.end(), n + 1) == int(199 - n), "prev() in a list");
		std::vector<int> v = fill<std::vector<int>>(200, 0);
		MC_CHECK(*utki::next(v.begin(), n) == int(n), "next() in a vector");
		MC_CHECK(*utki::prev(v.end(), n + 1) == int(199 - n), "prev() in a vector");
		std::forward_list<int> f(v.begin(), v.end());
		MC_CHECK(*utki::next(f.begin(), n) == int(n), "next() in a forward list");
		MC_CHECK(utki::end_pointer(v) == v.data() + v.size(), "end_pointer()");
		std::vector<int> w(v.begin(), v.begin() + n);
		const auto& cw = w;
		MC_CHECK(utki::end_pointer(cw) == cw.data() + n, "end_pointer() of constant");
		std::string str(n, 'x');
		MC_CHECK(utki::end_pointer(str) == str.data() + n, "end_pointer() of a string");
		MC_CHECK(utki::end_pointer(std::string_view(str)) == str.data() + n, "end_pointer() of a string view");
	}
	state(n);
}

MC_SUITE(contains_and_flip)
{
	unsigned n = choose(by_tier(6u, 7u));
	std::vector<int> v;
	for (unsigned i = 0; i != n; ++i) {
		v.push_back(int(choose(5)));
	}
	std::list<int> l(v.begin(), v.end());
	std::set<int> s(v.begin(), v.end());
	std::map<int, int> m;
	std::unordered_map<int, int> u;
	std::map<int, int, std::greater<int>> g;
	for (unsigned i = 0; i != n; ++i) {
		m.emplace(int(i), v[i]);
		u.emplace(v[i], -1);
		g.emplace(int(i), v[i]);
	}
	std::vector<std::string> vs;
	for (int x : v) {
		vs.push_back(std::to_string(x));
	}
	for (int x = -1; x != 7; ++x) {
		bool e = std::count(v.begin(), v.end(), x) != 0;
		MC_CHECK(utki::contains(v, x) == e, "contains() of vector");
		MC_CHECK(utki::contains(l, x) == e, "contains() of list");
		MC_CHECK(utki::contains(s, x) == e, "contains() of set");
		MC_CHECK(utki::contains(u, x) == e, "contains() of unordered map looks for the key");
		MC_CHECK(utki::contains(m, x) == (x >= 0 && x < int(n)), "contains() of map looks for the key");
		MC_CHECK(utki::contains(g, x) == (x >= 0 && x < int(n)), "contains() of map with comparator");
		MC_CHECK(utki::contains(vs, std::to_string(x)) == e, "contains() of vector of strings");
		steps(7);
	}
	static const int arr[] = {4, 2, 9};
	MC_CHECK(utki::contains(arr, 9) && utki::contains(arr, 4) && !utki::contains(arr, 3), "contains() of array");
	// flipping: the values are unique
	std::map<int, std::string> um;
	for (unsigned i = 0; i != n; ++i) {
		um.emplace(v[i], "value " + std::to_string(v[i] * 7 % 5));
	}
	auto f = utki::flip_map(um);
	MC_CHECK(f.size() == um.size(), "flipped map has %zu elements instead of %zu", f.size(), um.size());
	for (auto& [k, x] : um) {
		auto i = f.find(x);
		MC_CHECK(i != f.end() && i->second == k, "flipped map lost an element");
	}
	auto ff = utki::flip_map(f);
	MC_CHECK(ff == um, "map flipped twice differs");
	auto fg = utki::flip_map<std::greater<std::string>>(um);
	MC_CHECK(fg.size() == um.size(), "flipped map with comparator");
	auto j = fg.begin();
	for (auto i = f.rbegin(); i != f.rend(); ++i, ++j) {
		MC_CHECK(*i == *j, "flipped map with comparator: order");
	}
	// values which are not unique: every value is present with one of its keys
	auto fm = utki::flip_map(m);
	for (auto& [k, x] : m) {
		auto i = fm.find(x);
		MC_CHECK(i != fm.end() && m.at(i->second) == x, "flipped map with not unique values");
	}
	MC_CHECK(fm.size() == s.size(), "flipped map with not unique values: size");
	auto p = utki::flip_pair(std::make_pair(int(n), std::string("x")));
	MC_CHECK(p.first == "x" && p.second == int(n), "flipped pair");
	steps(6);
	state(hasher().add_range(v).h);
	using seq = utki::offset_sequence_t<5, std::make_index_sequence<4>>;
	MC_CHECK((std::is_same_v<seq, std::index_sequence<5, 6, 7, 8>>), "offset sequence");
	using seq0 = utki::offset_sequence_t<0, std::index_sequence<3, 1, 1>>;
	MC_CHECK((std::is_same_v<seq0, std::index_sequence<3, 1, 1>>), "offset sequence by zero");
	using seqe = utki::offset_sequence_t<3, std::index_sequence<>>;
	MC_CHECK((std::is_same_v<seqe, std::index_sequence<>>), "offset empty sequence");
}

// long collections
MC_SUITE(scale)
{
	static const unsigned sizes[] = {255, 256, 257, 1000, 32769, 65535, 65537, 140000};
	unsigned na = pick(sizes), nb = pick(sizes);
	note("%u and %u elements", na, nb);
	state(hasher().add(na).add(nb).h);
	zip2<std::vector<int>, std::list<int>>(na, nb);
	auto a = fill<std::vector<int>>(na, 0);
	auto b = fill<std::list<int>>(nb, 0);
	int e = int(na);
	for (auto& x : utki::views::reverse(a)) {
		--e;
		MC_CHECK(x == e, "reverse: %d instead of %d", x, e);
	}
	MC_CHECK(e == 0, "reverse ended at %d", e);
	for (auto& x : utki::skip_front<200>(b)) {
		MC_CHECK(x == e + 200, "skip_front: %d instead of %d", x, e + 200);
		++e;
	}
	MC_CHECK(e == int(nb) - 200, "skip_front ended at %d", e);
	for (unsigned d : {0u, 1u, 127u, 128u, na - 1, na, na / 2}) {
		MC_CHECK(utki::next(a.begin(), d) == a.begin() + d, "next by %u", d);
		MC_CHECK(utki::prev(a.end(), d) == a.end() - d, "prev by %u", d);
	}
	for (unsigned d : {0u, 200u, nb - 1}) {
		MC_CHECK(*utki::next(b.begin(), d) == int(d), "next by %u in the list", d);
		MC_CHECK(*utki::prev(b.end(), d + 1) == int(nb - d - 1), "prev by %u in the list", d + 1);
	}
	MC_CHECK(utki::next(b.begin(), nb) == b.end(), "next to the end");
	steps(10);
}

// C25: sorting gives an ordered permutation for every input and every strict weak order, at run time and at compile time.
#include <utki/sort.hpp>

#include <pthread.h>

#include <algorithm>
#include <array>
#include <cstring>
#include <deque>
#include <functional>
#include <string>
#include <vector>

#include "mc.hpp"

using namespace mc;

namespace {
struct item {
	int key;
	int id;
	std::string text;
	item(int key = -1, int id = -1) :
		key(key),
		id(id),
		text("text of the item " + std::to_string(id))
	{}
	bool intact() const
	{
		return text == "text of the item " + std::to_string(id);
	}
};

// the comparator may only be given elements which are there
struct cmp {
	int mode;
	uint64_t* count;
	bool operator()(const item& a, const item& b) const
	{
		MC_CHECK(a.intact() && b.intact(), "comparator is given a moved-from element");
		++*count;
		switch (mode) {
			case 0:
				return a.key < b.key;
			case 1:
				return a.key > b.key;
			case 2: // one class of equivalence
				return false;
			case 3: // groups
				return a.key / 2 < b.key / 2;
			default: // total order by key and then id
				return a.key != b.key ? a.key < b.key : a.id > b.id;
		}
	}
};

void check(const std::vector<item>& in, const item* b, const item* e, const cmp& c, size_t limit_calls)
{
	size_t n = in.size();
	MC_CHECK(size_t(e - b) == n, "harness");
	std::vector<char> seen(n);
	for (size_t i = 0; i != n; ++i) {
		MC_CHECK(b[i].intact(), "element %zu of %zu lost its contents", i, n);
		MC_CHECK(b[i].id >= 0 && size_t(b[i].id) < n && !seen[size_t(b[i].id)], "element %d is there twice or from nowhere", b[i].id);
		seen[size_t(b[i].id)] = 1;
		MC_CHECK(b[i].key == in[size_t(b[i].id)].key, "element %d changed", b[i].id);
		if (i) {
			MC_CHECK(!c(b[i], b[i - 1]), "not ordered at %zu of %zu, order %d", i, n, c.mode);
		}
	}
	steps();
}

void run(const std::vector<int>& keys)
{
	std::vector<item> in;
	for (size_t i = 0; i != keys.size(); ++i) {
		in.emplace_back(keys[i], int(i));
	}
	for (int mode = 0; mode != 5; ++mode) {
		// surrounded by guard elements
		std::vector<item> v;
		v.emplace_back(1000, 5000);
		v.insert(v.end(), in.begin(), in.end());
		v.emplace_back(-1000, 6000);
		uint64_t count = 0;
		cmp c{mode, &count};
		utki::sort(v.begin() + 1, v.end() - 1, c);
		check(in, v.data() + 1, v.data() + v.size() - 1, c, 0);
		MC_CHECK(v.front().id == 5000 && v.back().id == 6000 && v.front().intact() && v.back().intact(), "elements outside of the range changed");
	}
	// default order, raw pointers, other iterators
	std::vector<int> e = keys;
	std::sort(e.begin(), e.end());
	std::vector<int> a = keys;
	utki::sort(a.begin(), a.end());
	MC_CHECK(a == e, "vector of int is not sorted");
	a = keys;
	utki::sort(a.data(), a.data() + a.size());
	MC_CHECK(a == e, "array of int is not sorted");
	std::deque<long> d(keys.begin(), keys.end());
	utki::sort(d.begin(), d.end());
	MC_CHECK(std::equal(d.begin(), d.end(), e.begin(), e.end()), "deque is not sorted");
	a = keys;
	utki::sort(a.rbegin(), a.rend());
	std::vector<int> re(e.rbegin(), e.rend());
	MC_CHECK(a == re, "reverse range is not sorted");
	a = keys;
	utki::sort(a.begin(), a.end(), std::greater<>());
	MC_CHECK(a == re, "not sorted by greater");
	std::vector<std::string> s, es;
	for (int k : keys) {
		s.push_back("string with number " + std::to_string(k));
	}
	es = s;
	std::sort(es.begin(), es.end());
	utki::sort(s.begin(), s.end());
	MC_CHECK(s == es, "strings are not sorted");
	steps(6);
}
} // namespace

// all the inputs up to the bound, with all kinds of repetition
MC_SUITE(all_inputs)
{
	unsigned n = choose(by_tier(7u, 8u));
	std::vector<int> keys;
	for (unsigned i = 0; i != n; ++i) {
		keys.push_back(int(choose(n > 6 ? 4 : n < 3 ? 3 : n)));
	}
	state(hasher().add_range(keys).h);
	note("%u elements", n);
	run(keys);
}

// all the permutations
MC_SUITE(all_permutations)
{
	unsigned n = by_tier(8u, 9u);
	std::vector<int> pool, keys;
	for (unsigned i = 0; i != n; ++i) {
		pool.push_back(int(i));
	}
	while (!pool.empty()) {
		unsigned k = choose(unsigned(pool.size()));
		keys.push_back(pool[k]);
		pool.erase(pool.begin() + k);
	}
	std::vector<int> e(keys.size());
	for (unsigned i = 0; i != n; ++i) {
		e[i] = int(i);
	}
	std::vector<int> a = keys;
	utki::sort(a.begin(), a.end());
	MC_CHECK(a == e, "permutation is not sorted");
	a = keys;
	utki::sort(a.begin(), a.end(), [](int x, int y) { return x / 3 < y / 3; });
	for (unsigned i = 1; i < n; ++i) {
		MC_CHECK(a[i - 1] / 3 <= a[i] / 3, "not ordered by groups");
	}
	std::sort(a.begin(), a.end());
	MC_CHECK(a == e, "elements are lost");
	steps(2);
	state(hasher().add_range(keys).h);
}

// zero-one principle like: all the binary inputs
MC_SUITE(binary_inputs)
{
	unsigned n = choose(by_tier(13u, 16u)) + 1;
	std::vector<int> keys;
	int ones = 0;
	for (unsigned i = 0; i != n; ++i) {
		keys.push_back(int(choose(2)));
		ones += keys.back();
	}
	std::vector<int> a = keys;
	utki::sort(a.begin(), a.end());
	for (unsigned i = 0; i != n; ++i) {
		MC_CHECK(a[i] == (int(i) >= int(n) - ones), "binary input is not sorted");
	}
	steps();
	state(hasher().add_range(keys).h);
}

MC_SUITE(long_inputs)
{
	unsigned n = choose(by_tier(sanitized() ? 150u : 300u, 1000u));
	unsigned pat = choose(9);
	std::vector<int> keys;
	uint32_t seed = pat * 1000 + n;
	for (unsigned i = 0; i != n; ++i) {
		switch (pat) {
			case 0:
				keys.push_back(int(i));
				break;
			case 1:
				keys.push_back(-int(i));
				break;
			case 2:
				keys.push_back(5);
				break;
			case 3:
				keys.push_back(int(i % 2));
				break;
			case 4:
				keys.push_back(int(std::min(i, n - i)));
				break;
			case 5:
				keys.push_back(int(std::max(i, n - i)));
				break;
			case 6:
				keys.push_back(int(lcg(seed) % 10));
				break;
			case 7:
				keys.push_back(int(lcg(seed)));
				break;
			case 8:
				keys.push_back(int((i * 37) % (n ? n : 1)) - int(n / 2));
				break;
		}
	}
	state(n * 16 + pat);
	run(keys);
}

namespace {
int pattern(unsigned pat, unsigned i, unsigned n, uint32_t& seed)
{
	switch (pat) {
		case 0:
			return int(i);
		case 1:
			return -int(i);
		case 2: // organ pipe, a bad case for the pivot in the middle
			return int(std::min(i, n - i) / 64);
		case 3:
			return int(lcg(seed) % 1000);
		case 4:
			return int(lcg(seed) ^ (lcg(seed) << 16));
		case 5: // sawtooth
			return int(i % 513);
		default: // sorted, but the last one
			return i + 1 == n ? -1 : int(i);
	}
}
} // namespace

// sizes around which 16 bit and 17 bit counters end, and beyond
MC_SUITE(big_inputs)
{
	static const unsigned sizes[] = {32767, 32769, 65535, 65537, 131073, 200000, 1100000};
	unsigned n = sizes[choose(by_tier(sanitized() ? 5u : 6u, 7u))];
	unsigned pat = choose(7);
	std::vector<int> a(n), e;
	uint32_t seed = n + pat;
	for (unsigned i = 0; i != n; ++i) {
		a[i] = pattern(pat, i, n, seed);
	}
	e = a;
	std::sort(e.begin(), e.end());
	utki::sort(a.begin(), a.end());
	MC_CHECK(a == e, "%u elements of pattern %u are not sorted", n, pat);
	steps();
	state(hasher().add(n).add(pat).h);
	note("%u elements, pattern %u", n, pat);
}

// Space taken on the stack must not grow with the number of elements: it is exhausted otherwise.
namespace {
struct fat {
	int key;
	char payload[2000];
};
struct stack_job {
	std::vector<fat> v;
	bool done = false;
};
} // namespace

MC_SUITE(small_stack)
{
	if (sanitized()) {
		state(0);
		return; // has own needs for the stack
	}
	unsigned n = 1000u << choose(3);
	unsigned shape = choose(4);
	stack_job j;
	j.v.resize(n);
	for (unsigned i = 0; i != n; ++i) {
		j.v[i].key = shape == 0 ? int(std::min(i, n - i)) : shape == 1 ? int(std::max(i, n - i)) : shape == 2 ? int(i) : -int(i);
		std::memset(j.v[i].payload, j.v[i].key & 0x7f, sizeof(j.v[i].payload));
	}
	pthread_attr_t attr;
	pthread_attr_init(&attr);
	pthread_attr_setstacksize(&attr, 512 * 1024);
	pthread_t t;
	int rc = pthread_create(&t, &attr, [](void* p) -> void* {
		auto& j = *static_cast<stack_job*>(p);
		utki::sort(j.v.begin(), j.v.end(), [](const fat& a, const fat& b) { return a.key < b.key; });
		j.done = true;
		return nullptr;
	}, &j);
	MC_CHECK(rc == 0, "harness: no thread");
	pthread_join(t, nullptr);
	pthread_attr_destroy(&attr);
	MC_CHECK(j.done, "sort did not finish");
	for (unsigned i = 0; i != n; ++i) {
		MC_CHECK(j.v[i].payload[0] == (j.v[i].key & 0x7f) && j.v[i].payload[1999] == (j.v[i].key & 0x7f), "element %u is torn", i);
		MC_CHECK(i == 0 || j.v[i - 1].key <= j.v[i].key, "not ordered at %u", i);
	}
	steps();
	state(n * 4 + shape);
	note("%u elements of 2 KB, shape %u, 512 KB of stack", n, shape);
}

// when the compiler rejects this, the rest is checked without it, see check.py
#ifndef MC_FALLBACK
namespace {
template <size_t n, unsigned seed>
constexpr std::array<int, n> sorted_at_compile_time()
{
	std::array<int, n> a{};
	unsigned s = seed;
	for (size_t i = 0; i != n; ++i) {
		s = s * 1103515245u + 12345u;
		a[i] = seed == 0 ? int(i) : seed == 1 ? -int(i) : seed == 2 ? int(i < n - i ? i : n - i) : int((s >> 16) % (seed * 3));
	}
	utki::sort(a.begin(), a.end());
	return a;
}
template <size_t n, unsigned seed>
bool ct()
{
	// evaluated by the compiler
	constexpr auto a = sorted_at_compile_time<n, seed>();
	// the same at run time by the standard library
	std::array<int, n> b{};
	unsigned s = seed;
	for (size_t i = 0; i != n; ++i) {
		s = s * 1103515245u + 12345u;
		b[i] = seed == 0 ? int(i) : seed == 1 ? -int(i) : seed == 2 ? int(i < n - i ? i : n - i) : int((s >> 16) % (seed * 3));
	}
	std::sort(b.begin(), b.end());
	return a == b;
}
template <unsigned seed>
void ct_all()
{
	MC_CHECK((ct<1, seed>()), "compile time sort of 1");
	MC_CHECK((ct<2, seed>()), "compile time sort of 2");
	MC_CHECK((ct<3, seed>()), "compile time sort of 3");
	MC_CHECK((ct<5, seed>()), "compile time sort of 5");
	MC_CHECK((ct<8, seed>()), "compile time sort of 8");
	MC_CHECK((ct<16, seed>()), "compile time sort of 16");
	MC_CHECK((ct<17, seed>()), "compile time sort of 17");
	MC_CHECK((ct<40, seed>()), "compile time sort of 40");
	steps(8);
}
} // namespace

MC_SUITE(compile_time)
{
	state(1);
	ct_all<0>();
	ct_all<1>();
	ct_all<2>();
	ct_all<3>();
	ct_all<7>();
	ct_all<50>();
#	ifndef __clang__ // its default limit of steps is lower
	MC_CHECK((ct<300, 2>()), "compile time sort of 300, bad order");
	MC_CHECK((ct<300, 0>()), "compile time sort of 300, sorted");
	MC_CHECK((ct<300, 50>()), "compile time sort of 300");
	steps(3);
#	endif
}
#endif

// C22: a set of flags behaves as a mathematical set of enumeration items, whatever the size of the enumeration.
#include <utki/flags.hpp>

#include <sstream>
#include <string>

#include "mc.hpp"

using namespace mc;

namespace {
template <unsigned n>
struct en {
	enum class type : unsigned { first = 0, enum_size = n };
};
template <unsigned n>
struct small_en {
	enum class type : uint8_t { first = 0, enum_size = n };
};

using bits = std::vector<bool>;

std::string str(const bits& b)
{
	std::string r;
	for (size_t i = b.size(); i--;) {
		r += b[i] ? '1' : '0';
	}
	return r;
}

template <class E>
void check(const utki::flags<E>& f, const bits& b, const char* what)
{
	MC_CHECK(f.size() == b.size(), "%s: size() is %zu for %zu items", what, f.size(), b.size());
	bool any = false, all = true;
	for (size_t i = 0; i != b.size(); ++i) {
		MC_CHECK(f.get(E(i)) == b[i], "%s: get(%zu) is %d, expected %d in %s", what, i, int(f.get(E(i))), int(b[i]), str(b).c_str());
		MC_CHECK(f[E(i)] == b[i], "%s: [%zu] is %d", what, i, int(f[E(i)]));
		any |= b[i];
		all &= b[i];
	}
	MC_CHECK(f.is_clear() == !any, "%s: is_clear() of %s", what, str(b).c_str());
	MC_CHECK(f.is_set() == all, "%s: is_set() of %s", what, str(b).c_str());
	steps();
}

template <class E>
utki::flags<E> build(const bits& b)
{
	utki::flags<E> f;
	for (size_t i = 0; i != b.size(); ++i) {
		if (b[i]) {
			f.set(E(i));
		}
	}
	return f;
}

template <class F>
bits map2(const bits& a, const bits& b, F f)
{
	bits r(a.size());
	for (size_t i = 0; i != a.size(); ++i) {
		r[i] = f(a[i], b[i]);
	}
	return r;
}

template <class E>
void algebra(const bits& a, const bits& b)
{
	using F = utki::flags<E>;
	const F fa = build<E>(a), fb = build<E>(b);
	check(fa, a, "built");
	check(fb, b, "built");
	auto x_and = map2(a, b, [](bool x, bool y) { return x && y; });
	auto x_or = map2(a, b, [](bool x, bool y) { return x || y; });
	auto x_xor = map2(a, b, [](bool x, bool y) { return x != y; });
	auto x_not = map2(a, a, [](bool x, bool) { return !x; });
	check(fa & fb, x_and, "&");
	check(fa | fb, x_or, "|");
	check(fa ^ fb, x_xor, "^");
	check(~fa, x_not, "~");
	MC_CHECK((fa == fb) == (a == b) && (fa != fb) == (a != b), "equality of %s and %s", str(a).c_str(), str(b).c_str());
	MC_CHECK(fa == fa && !(fa != fa), "equality to itself");
	{
		F t = fa;
		F& r = t &= fb;
		MC_CHECK(&r == &t, "&= returns another object");
		check(t, x_and, "&=");
	}
	{
		F t = fa;
		F& r = t |= fb;
		MC_CHECK(&r == &t, "|= returns another object");
		check(t, x_or, "|=");
	}
	{
		F t = fa;
		F& r = t ^= fb;
		MC_CHECK(&r == &t, "^= returns another object");
		check(t, x_xor, "^=");
	}
	{
		F t = fa;
		F& r = t.invert();
		MC_CHECK(&r == &t, "invert() returns another object");
		check(t, x_not, "invert()");
		check(t.invert(), a, "invert() twice");
	}
	{
		F t = fa;
		t &= t;
		check(t, a, "&= itself");
		t |= t;
		check(t, a, "|= itself");
		t ^= t;
		check(t, bits(a.size()), "^= itself");
	}
	// laws
	MC_CHECK(~(fa & fb) == (~fa | ~fb), "De Morgan");
	MC_CHECK(((fa ^ fb) ^ fb) == fa, "xor twice");
	// operands are intact
	check(fa, a, "left operand");
	check(fb, b, "right operand");
	std::ostringstream o;
	o << fa;
	MC_CHECK(o.str() == str(a), "printed as %s, expected %s", o.str().c_str(), str(a).c_str());
}

// per item operations on any set
template <class E>
void items(const bits& a)
{
	using F = utki::flags<E>;
	for (size_t i = 0; i != a.size(); ++i) {
		bits on = a, off = a;
		on[i] = true;
		off[i] = false;
		F t = build<E>(a);
		F& r1 = t.set(E(i));
		MC_CHECK(&r1 == &t, "set() returns another object");
		check(t, on, "set(item)");
		t = build<E>(a);
		check(t.set(E(i), true), on, "set(item, true)");
		t = build<E>(a);
		check(t.set(E(i), false), off, "set(item, false)");
		t = build<E>(a);
		F& r2 = t.clear(E(i));
		MC_CHECK(&r2 == &t, "clear() returns another object");
		check(t, off, "clear(item)");
		t = build<E>(a);
		t[E(i)] = true;
		check(t, on, "[item] = true");
		t[E(i)] = false;
		check(t, off, "[item] = false");
		check(build<E>(a) | E(i), on, "| item");
		bits only(a.size());
		only[i] = true;
		check(F(E(i)), only, "flags(item)");
		F il{E(i)};
		check(il, only, "flags{item}");
	}
	F t = build<E>(a);
	check(t.set(), bits(a.size(), true), "set()");
	t = build<E>(a);
	check(t.set(true), bits(a.size(), true), "set(true)");
	t = build<E>(a);
	check(t.set(false), bits(a.size(), false), "set(false)");
	t = build<E>(a);
	check(t.clear(), bits(a.size(), false), "clear()");
	check(F(), bits(a.size(), false), "flags()");
	check(F(true), bits(a.size(), true), "flags(true)");
	check(F(false), bits(a.size(), false), "flags(false)");
	F copy(t);
	check(copy, bits(a.size(), false), "copy");
}

// pairs of items
template <class E>
void pairs(size_t n)
{
	using F = utki::flags<E>;
	for (size_t i = 0; i != n; ++i) {
		// all of the pairs in small ones, and the ones around machine word boundaries in big ones
		for (size_t j = 0; j < n; j += n > 64 && !thorough() && j % 32 == 1 ? 30 : 1) {
			bits b(n);
			b[i] = b[j] = true;
			check(F{E(i), E(j)}, b, "flags{item, item}");
			check(E(i) | E(j), b, "item | item");
			check(utki::make_flags({E(i), E(j)}), b, "make_flags");
		}
		tick();
	}
}

template <class E>
void exhaustive(unsigned n)
{
	bits a(n), b(n);
	for (unsigned i = 0; i != n; ++i) {
		a[i] = choose(2);
	}
	for (unsigned i = 0; i != n; ++i) {
		b[i] = choose(2);
	}
	state(hasher().add_range(a).add_range(b).h);
	note("%s %s", str(a).c_str(), str(b).c_str());
	algebra<E>(a, b);
	if (a == b) {
		items<E>(a);
		if (a == bits(n)) {
			pairs<E>(n);
		}
	}
}

// boundary patterns for big enumerations
bits pattern(unsigned k, unsigned n)
{
	bits b(n);
	uint32_t seed = k;
	for (unsigned i = 0; i != n; ++i) {
		bool v = false;
		switch (k) {
			case 0:
				v = false;
				break;
			case 1:
				v = true;
				break;
			case 2:
				v = i == 0;
				break;
			case 3:
				v = i == n - 1;
				break;
			case 4:
				v = i != n - 1;
				break;
			case 5:
				v = i != 0;
				break;
			case 6:
				v = i % 2;
				break;
			case 7:
				v = i % 2 == 0;
				break;
			case 8:
				v = i < n / 2;
				break;
			case 9:
				v = i >= 32;
				break;
			case 10:
				v = i >= 64;
				break;
			case 11:
				v = i == 31 || i == 32 || i == 63 || i == 64;
				break;
			default:
				v = (lcg(seed) >> 5) & 1;
				break;
		}
		b[i] = v;
	}
	return b;
}

template <class E>
void big(unsigned n)
{
	unsigned ka = choose(16), kb = choose(16);
	auto a = pattern(ka, n), b = pattern(kb, n);
	state(hasher().add(n).add(ka).add(kb).h);
	algebra<E>(a, b);
	if (ka == kb) {
		items<E>(a);
		if (ka == 0) {
			pairs<E>(n);
		}
	}
}
} // namespace

MC_SUITE(small_enumerations)
{
	switch (choose(by_tier(6u, 7u))) {
		case 0:
			exhaustive<en<1>::type>(1);
			break;
		case 1:
			exhaustive<en<2>::type>(2);
			break;
		case 2:
			exhaustive<en<3>::type>(3);
			break;
		case 3:
			exhaustive<en<5>::type>(5);
			break;
		case 4:
			exhaustive<small_en<7>::type>(7);
			break;
		case 5:
			exhaustive<small_en<8>::type>(8);
			break;
		case 6:
			exhaustive<en<10>::type>(10);
			break;
	}
}

MC_SUITE(big_enumerations)
{
	switch (choose(13)) {
		case 0:
			return big<en<9>::type>(9);
		case 1:
			return big<en<16>::type>(16);
		case 2:
			return big<en<31>::type>(31);
		case 3:
			return big<en<32>::type>(32);
		case 4:
			return big<en<33>::type>(33);
		case 5:
			return big<en<63>::type>(63);
		case 6:
			return big<en<64>::type>(64);
		case 7:
			return big<en<65>::type>(65);
		case 8:
			return big<en<100>::type>(100);
		case 9:
			return big<en<127>::type>(127);
		case 10:
			return big<en<128>::type>(128);
		case 11:
			return big<small_en<255>::type>(255);
		case 12:
			return big<en<130>::type>(130);
	}
}

// every history of modifications
MC_SUITE(histories)
{
	constexpr unsigned n = 65;
	using E = en<n>::type;
	static const unsigned idx[] = {0, 31, 32, 63, 64};
	utki::flags<E> f, g;
	bits a(n), b(n);
	unsigned depth = by_tier(4u, 5u);
	for (unsigned i = 0; i != depth; ++i) {
		unsigned op = choose(4 * 5 + 9);
		if (op < 20) {
			unsigned k = idx[op % 5];
			switch (op / 5) {
				case 0:
					f.set(E(k));
					a[k] = true;
					break;
				case 1:
					f.clear(E(k));
					a[k] = false;
					break;
				case 2:
					f[E(k)].flip();
					a[k] = !a[k];
					break;
				case 3:
					f = f | E(k);
					a[k] = true;
					break;
			}
		} else {
			switch (op - 20) {
				case 0:
					f.invert();
					a = map2(a, a, [](bool x, bool) { return !x; });
					break;
				case 1:
					f.set(true);
					a = bits(n, true);
					break;
				case 2:
					f.clear();
					a = bits(n);
					break;
				case 3:
					g = f;
					b = a;
					break;
				case 4:
					f &= g;
					a = map2(a, b, [](bool x, bool y) { return x && y; });
					break;
				case 5:
					f |= g;
					a = map2(a, b, [](bool x, bool y) { return x || y; });
					break;
				case 6:
					f ^= g;
					a = map2(a, b, [](bool x, bool y) { return x != y; });
					break;
				case 7:
					f = ~g;
					a = map2(b, b, [](bool x, bool) { return !x; });
					break;
				case 8:
					std::swap(f, g);
					std::swap(a, b);
					break;
			}
		}
		state(hasher().add_range(a).add_range(b).h);
	}
	check(f, a, "history");
	check(g, b, "history");
	MC_CHECK((f == g) == (a == b), "equality");
}

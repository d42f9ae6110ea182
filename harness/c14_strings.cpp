// C14: split, join, trim, cat, starts_with, ends_with, make_string(buffers).
#include <utki/string.hpp>

#include <array>
#include <deque>
#include <list>
#include <memory>

#include "mc.hpp"
#include "odd_locale.hpp"

using namespace mc;

namespace {
template <class C>
using str = std::basic_string<C>;

template <class C>
bool space(C c)
{
	return c == C(' ') || (c >= C('\t') && c <= C('\r'));
}

template <class C>
std::vector<str<C>> ref_split(const str<C>& s, C d)
{
	std::vector<str<C>> r(1);
	for (C c : s) {
		if (c == d) {
			r.emplace_back();
		} else {
			r.back().push_back(c);
		}
	}
	return r;
}

std::vector<std::string> ref_words(const std::string& s)
{
	std::vector<std::string> r;
	std::string w;
	for (char c : s) {
		if (space(c)) {
			if (!w.empty()) {
				r.push_back(w);
			}
			w.clear();
		} else {
			w.push_back(c);
		}
	}
	if (!w.empty()) {
		r.push_back(w);
	}
	return r;
}

template <class C>
std::string q(const str<C>& s)
{
	std::string r;
	for (auto c : s) {
		r.push_back(char(c));
	}
	return quote(r);
}

template <class C>
void check_split(const str<C>& s, C d)
{
	auto e = ref_split(s, d);
	// exactly sized buffer
	std::unique_ptr<C[]> mem(new C[s.size()]);
	std::copy(s.begin(), s.end(), mem.get());
	std::basic_string_view<C> v(mem.get(), s.size());

	auto r = utki::split(v, d);
	MC_CHECK(r == e, "split(%s, '%c') has %zu parts, expected %zu", q(s).c_str(), char(d), r.size(), e.size());
	MC_CHECK(utki::split(s, d) == e, "split(std::string %s)", q(s).c_str());
	if (s.find(C(0)) == str<C>::npos) {
		MC_CHECK(utki::split(s.c_str(), d) == e, "split(C-string %s)", q(s).c_str());
	}
	// joining gives the original
	MC_CHECK(utki::join(r, d) == s, "join(split(%s)) = %s", q(s).c_str(), q(utki::join(r, d)).c_str());
	std::list<str<C>> l(r.begin(), r.end());
	MC_CHECK(utki::join(l, d) == s, "join of list");
	steps(5);
}

template <class C>
void check_trim(const str<C>& s)
{
	size_t b = 0;
	while (b != s.size() && space(s[b])) {
		++b;
	}
	size_t e = s.size();
	while (e != b && space(s[e - 1])) {
		--e;
	}
	size_t eb = s.size(); // trim_back alone
	while (eb != 0 && space(s[eb - 1])) {
		--eb;
	}
	std::unique_ptr<C[]> mem(new C[s.size()]);
	std::copy(s.begin(), s.end(), mem.get());
	std::basic_string_view<C> v(mem.get(), s.size());
	auto f = utki::trim_front(v);
	auto k = utki::trim_back(v);
	auto t = utki::trim(v);
	MC_CHECK(f == v.substr(b), "trim_front(%s)", q(s).c_str());
	MC_CHECK(k == v.substr(0, eb), "trim_back(%s)", q(s).c_str());
	MC_CHECK(t == v.substr(b, e - b), "trim(%s)", q(s).c_str());
	if (!t.empty()) {
		MC_CHECK(t.data() == mem.get() + b && f.data() == mem.get() + b && k.data() == mem.get(), "trim returns a part of the string");
	}
	MC_CHECK(utki::trim_front(s) == f && utki::trim_back(s) == k && utki::trim(s) == t, "trim of std::string %s", q(s).c_str());
	steps(6);
	if constexpr (std::is_same_v<C, char>) {
		if (s.find('\0') == std::string::npos) {
			MC_CHECK(
				utki::trim_front(s.c_str()) == f && utki::trim_back(s.c_str()) == k && utki::trim(s.c_str()) == t,
				"trim of C-string %s",
				q(s).c_str()
			);
			steps(3);
		}
	}
}

void check_char(const std::string& s)
{
	check_split<char>(s, ',');
	check_trim<char>(s);
	std::unique_ptr<char[]> mem(new char[s.size()]);
	memcpy(mem.get(), s.data(), s.size());
	MC_CHECK(utki::split(std::string_view(mem.get(), s.size())) == ref_words(s), "split(%s) to words", quote(s).c_str());
	steps();
	state(hash_str(s));
	note("%s", quote(s).c_str());
}

template <class C>
str<C> widen(const std::string& s, uint32_t add = 0)
{
	str<C> r;
	for (unsigned char c : s) {
		r.push_back(C(c == 'a' ? c + add : c));
	}
	return r;
}

std::string choose_string(unsigned max, const std::string& alphabet)
{
	unsigned len = choose(max + 1);
	std::string s;
	for (unsigned i = 0; i != len; ++i) {
		s.push_back(alphabet[choose(uint32_t(alphabet.size()))]);
	}
	return s;
}
} // namespace

MC_SUITE(all_strings)
{
	check_char(choose_string(by_tier(7u, 9u), "a, \n"));
}

MC_SUITE(all_characters)
{
	std::string s = choose_string(2, std::string("a ,"));
	s.push_back(char(choose(256)));
	s += choose_string(2, "a ,");
	check_char(s);
}

// each character as the delimiter
MC_SUITE(all_delimiters)
{
	char d = char(choose(256));
	std::string al{d, char(d + 1), 'q'};
	std::string s = choose_string(4, al);
	check_split<char>(s, d);
	state(hasher().add(hash_str(s)).add(uint8_t(d)).h);
	note("%s by 0x%x", quote(s).c_str(), uint8_t(d));
}

MC_SUITE(wide_strings)
{
	auto s = choose_string(by_tier(5u, 6u), "a, ");
	static const uint32_t add[] = {0, 0x100 - 'a' + ' ', 0x2c00};
	uint32_t a = pick(add);
	check_split<wchar_t>(widen<wchar_t>(s, a), L',');
	check_split<char16_t>(widen<char16_t>(s, a), u',');
	check_split<char32_t>(widen<char32_t>(s, a), U',');
	check_trim<wchar_t>(widen<wchar_t>(s, a));
	check_trim<char16_t>(widen<char16_t>(s, a));
	check_trim<char32_t>(widen<char32_t>(s, a));
#ifdef __cpp_char8_t
	check_split<char8_t>(widen<char8_t>(s, a), u8',');
	check_trim<char8_t>(widen<char8_t>(s, a));
#endif
	state(hasher().add(hash_str(s)).add(a).h);
	note("%s +%x", quote(s).c_str(), a);
}

MC_SUITE(join_lists)
{
	static const std::vector<std::string> parts = {"", "a", ",", "bc d"};
	unsigned n = choose(by_tier(7u, 8u));
	std::vector<std::string> v;
	std::string e;
	for (unsigned i = 0; i != n; ++i) {
		v.push_back(pick(parts));
		e += (i ? "," : "") + v.back();
	}
	MC_CHECK(utki::join(v, ',') == e, "join gives %s expected %s", quote(utki::join(v, ',')).c_str(), quote(e).c_str());
	MC_CHECK(utki::join(std::list<std::string>(v.begin(), v.end()), ',') == e, "join list");
	MC_CHECK(utki::join(std::deque<std::string>(v.begin(), v.end()), ',') == e, "join deque");
	std::vector<std::string_view> sv(v.begin(), v.end());
	MC_CHECK(utki::join(sv, ',') == e, "join string_views");
	steps(4);
	state(hasher().add(hash_str(e)).add(n).h);
	note("%s", quote(e).c_str());
}

MC_SUITE(prefix_suffix)
{
	auto s = choose_string(by_tier(8u, 9u), "ab");
	auto p = choose_string(by_tier(5u, 6u), "ab");
	bool st = s.size() >= p.size() && memcmp(s.data(), p.data(), p.size()) == 0;
	bool en = s.size() >= p.size() && memcmp(s.data() + s.size() - p.size(), p.data(), p.size()) == 0;
	std::unique_ptr<char[]> ms(new char[s.size()]);
	std::unique_ptr<char[]> mp(new char[p.size()]);
	memcpy(ms.get(), s.data(), s.size());
	memcpy(mp.get(), p.data(), p.size());
	std::string_view vs(ms.get(), s.size()), vp(mp.get(), p.size());
	MC_CHECK(utki::starts_with(vs, vp) == st, "starts_with(%s, %s)", s.c_str(), p.c_str());
	MC_CHECK(utki::ends_with(vs, vp) == en, "ends_with(%s, %s)", s.c_str(), p.c_str());
	steps(2);
	state(hasher().add(hash_str(s)).add(hash_str(p)).h);
	note("%s %s", quote(s).c_str(), quote(p).c_str());
}

MC_SUITE(prefix_suffix_characters)
{
	char c = char(choose(256));
	char d = char(choose(256));
	std::string s{c, 'x', d};
	MC_CHECK(utki::starts_with(s, std::string(1, d)) == (c == d), "starts_with 0x%x 0x%x", uint8_t(c), uint8_t(d));
	MC_CHECK(utki::ends_with(s, std::string(1, c)) == (c == d), "ends_with 0x%x 0x%x", uint8_t(c), uint8_t(d));
	MC_CHECK(utki::starts_with(s, s) && utki::ends_with(s, s), "itself");
	steps(4);
	state(hasher().add(uint8_t(c)).add(uint8_t(d)).h);
	note("0x%x 0x%x", uint8_t(c), uint8_t(d));
}

MC_SUITE(lengths)
{
	unsigned n = choose(by_tier(1100u, 4200u));
	unsigned shape = choose(6);
	std::string s;
	switch (shape) {
		case 0:
			s = std::string(n, ',');
			break;
		case 1:
			s = std::string(n, ' ');
			break;
		case 2:
			s = std::string(n, 'a');
			break;
		case 3:
			for (unsigned i = 0; i != n; ++i) {
				s += i % 3 == 2 ? ", " : "a";
			}
			break;
		case 4:
			s = std::string(n, ' ') + "a" + std::string(n, '\t') + "b" + std::string(n, '\n');
			break;
		default:
			s = "," + std::string(n, 'a') + "," + std::string(n, 'b');
			break;
	}
	check_char(s);
	MC_CHECK(utki::starts_with(s, s.substr(0, n / 2)) && utki::ends_with(s, s.substr(n / 2)), "prefix/suffix");
	std::string t = s;
	if (n > 2) {
		t[n / 2] = '\x01';
		MC_CHECK(!utki::starts_with(s, t.substr(0, n / 2 + 1)) && !utki::ends_with(s, t.substr(n / 2)), "prefix/suffix with a difference");
	}
	steps(2);
}

// cat() concatenates printed forms of all arguments in order
MC_SUITE(cat)
{
	static const std::vector<std::string> parts = {"", "a", "xyz", std::string("q\0r", 3)};
	auto& a = pick(parts);
	auto& b = pick(parts);
	int i = std::vector<int>{0, -1, 2147483647, -2147483647 - 1}[choose(4)];
	char c = char(choose(256));
	MC_CHECK(utki::cat(a) == a, "one");
	MC_CHECK(utki::cat(a, b) == a + b, "two");
	MC_CHECK(utki::cat(a, i, c, std::string_view(b), "lit") == a + std::to_string(i) + std::string(1, c) + b + "lit", "five");
	MC_CHECK(utki::cat(i, i) == std::to_string(i) + std::to_string(i), "ints");
	MC_CHECK(utki::cat(b, ' ', a, ' ', b, ' ', true, 'z', 5u, -5L) == b + " " + a + " " + b + " 1z5-5", "ten");
	steps(5);
	state(hasher().add(hash_str(a)).add(hash_str(b)).add(uint64_t(i)).add(uint8_t(c)).h);
	note("%s %s %d 0x%x", quote(a).c_str(), quote(b).c_str(), i, uint8_t(c));
}

// make_string()/make_string_view() of buffers keep all the bytes
MC_SUITE(from_buffers)
{
	std::string s = choose_string(3, std::string("a\0\xff", 3));
	if (choose(2)) {
		s += std::string(choose(1200), 'z');
	}
	std::vector<char> vc(s.begin(), s.end());
	std::vector<uint8_t> vu(s.begin(), s.end());
	MC_CHECK(utki::make_string(vc) == s, "vector<char>");
	MC_CHECK(utki::make_string(vu) == s, "vector<uint8_t>");
	MC_CHECK(utki::make_string(utki::make_span(vc)) == s, "span<char>");
	MC_CHECK(utki::make_string(utki::make_span(vu)) == s, "span<uint8_t>");
	auto v1 = utki::make_string_view(utki::span<const char>(vc.data(), vc.size()));
	auto v2 = utki::make_string_view(utki::span<const uint8_t>(vu.data(), vu.size()));
	MC_CHECK(v1 == s && (s.empty() || v1.data() == vc.data()), "view<char>");
	MC_CHECK(v2 == s && (s.empty() || v2.data() == reinterpret_cast<const char*>(vu.data())), "view<uint8_t>");
	std::array<char, 5> ac{'a', 0, 'b', char(0xff), 'c'};
	std::array<uint8_t, 5> au{'a', 0, 'b', 0xff, 'c'};
	MC_CHECK(utki::make_string(ac) == std::string(ac.data(), 5), "array<char>");
	MC_CHECK(utki::make_string(au) == std::string(ac.data(), 5), "array<uint8_t>");
	steps(8);
	state(hash_str(s));
	note("%s", quote(s).c_str());
}

// sizes around which 8, 16 and 17 bit counters end
MC_SUITE(huge)
{
	static const size_t sizes[] = {4095, 4097, 32769, 65535, 65537, 131073, 1000003};
	size_t n = sizes[choose(sanitized() ? 6 : 7)];
	unsigned shape = choose(8);
	std::string s;
	switch (shape) {
		case 0: // long parts
			s = std::string(n, 'a') + "," + std::string(n, 'b') + " c";
			break;
		case 1: // a lot of empty parts
			s = std::string(n, ',');
			break;
		case 2:
			s = std::string(n, ' ');
			break;
		case 3: // a lot of words
			while (s.size() < n) {
				s += "word, ";
			}
			break;
		case 4: // spaces around
			s = std::string(n, ' ') + "x" + std::string(n + 1, '\t');
			break;
		case 5: // delimiters at the ends only
			s = "," + std::string(n, 'q') + ",";
			break;
		case 6: // spaces inside only
			s = "x" + std::string(n, ' ') + "y";
			break;
		default:
			for (size_t i = 0; i != n; ++i) {
				s += char(i * 7 + i / 251);
			}
			break;
	}
	check_char(s);
	// differences in the last and in the first character only
	std::string l = s, f = s;
	l.back() ^= 1;
	f.front() ^= 1;
	MC_CHECK(utki::starts_with(s, s) && utki::ends_with(s, s), "the whole is the prefix and the suffix");
	MC_CHECK(!utki::starts_with(s, l) && !utki::ends_with(s, f), "difference at the far end");
	MC_CHECK(!utki::starts_with(s, s + 'x') && !utki::ends_with(s, 'x' + s), "longer one");
	MC_CHECK(utki::starts_with(s + 'x', s) && utki::ends_with('x' + s, s), "shorter one");
	std::vector<char> vc(s.begin(), s.end());
	MC_CHECK(utki::make_string(vc) == s, "make_string of vector");
	MC_CHECK(utki::cat(s, ' ', 5, s) == s + " 5" + s, "cat");
	steps(6);
	state(hasher().add(n).add(shape).h);
}

// the global locale does not matter
MC_SUITE(another_locale)
{
	odd_locale l;
	std::string s = choose_string(by_tier(5, 6), "ab ,\t\x85");
	check_char(s);
	check_split<wchar_t>(widen<wchar_t>(s), L',');
	check_trim<wchar_t>(widen<wchar_t>(s));
	MC_CHECK(utki::starts_with(s + "b", s) && utki::ends_with("b" + s, s), "prefix and suffix");
}

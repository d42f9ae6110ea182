// C11: string_parser is a cursor: every operation consumes exactly the characters it says and never leaves the string.
#include <utki/string.hpp>

#include <memory>
#include <stdexcept>

#include "mc.hpp"
#include "odd_locale.hpp"

using namespace mc;

namespace {
bool space(char c)
{
	return strchr(" \n\t\r\v\f", c) != nullptr && c != 0;
}

struct machine {
	std::unique_ptr<char[]> mem;
	std::string s; // model: whole string
	size_t pos = 0;
	utki::string_parser p;

	machine(const std::string& s) :
		mem(new char[s.size()]),
		s(s),
		p(std::string_view(mem.get(), s.size()))
	{
		memcpy(mem.get(), s.data(), s.size());
	}

	std::string_view rest() const
	{
		return std::string_view(s).substr(pos);
	}

	void check(const char* op)
	{
		MC_CHECK(
			p.get_view() == this->rest(),
			"after %s on %s: remaining %s expected %s",
			op,
			quote(s).c_str(),
			quote(p.get_view()).c_str(),
			quote(this->rest()).c_str()
		);
		MC_CHECK(p.size() == s.size() - pos, "%s: size", op);
		MC_CHECK(p.empty() == (pos == s.size()), "%s: empty", op);
		if (pos != s.size()) {
			MC_CHECK(p.get_view().data() == mem.get() + pos, "%s: view is not a part of the original string", op);
		}
		steps();
		state(hasher().add(hash_str(s)).add(pos).h);
	}

	void expect(std::string_view got, size_t begin, size_t len, const char* op)
	{
		MC_CHECK(
			got == std::string_view(s).substr(begin, len),
			"%s on %s at %zu returned %s",
			op,
			quote(s).c_str(),
			begin,
			quote(got).c_str()
		);
		if (len) {
			MC_CHECK(got.data() == mem.get() + begin, "%s: result is not a view of the original string", op);
		}
	}

	template <class F>
	size_t scan(F stop) const
	{
		size_t i = pos;
		while (i != s.size() && !stop(s[i])) {
			++i;
		}
		return i;
	}

	static constexpr unsigned num_ops = 19;

	void op(unsigned k, char until)
	{
		note("op%u('%c')@%zu", k, until >= ' ' && until < 127 ? until : '?', pos);
		where("op", k, uint8_t(until), pos);
		switch (k) {
			case 0:
				p.skip_whitespaces();
				pos = this->scan([](char c) { return !space(c); });
				return this->check("skip_whitespaces");
			case 1: {
				p.skip_whitespaces_and_comma();
				bool comma = false;
				pos = this->scan([&](char c) {
					if (c == ',' && !comma) {
						comma = true;
						return false;
					}
					return !space(c);
				});
				return this->check("skip_whitespaces_and_comma");
			}
			case 2: {
				p.skip_inclusive_until(until);
				pos = this->scan([&](char c) { return c == until; });
				if (pos != s.size()) {
					++pos;
				}
				return this->check("skip_inclusive_until");
			}
			case 3:
			case 4:
			case 5: {
				std::string set = k == 3 ? std::string() : k == 4 ? std::string(1, until) : std::string{'b', until, ' '};
				auto r = p.skip_inclusive_until_one_of(utki::span<const char>(set.data(), set.size()));
				pos = this->scan([&](char c) { return set.find(c) != std::string::npos; });
				char e = '\0';
				if (pos != s.size()) {
					e = s[pos];
					++pos;
				}
				MC_CHECK(r == e, "skip_inclusive_until_one_of returned 0x%x expected 0x%x", uint8_t(r), uint8_t(e));
				return this->check("skip_inclusive_until_one_of");
			}
			case 6: {
				auto r = p.read_word();
				size_t e = this->scan([](char c) { return space(c); });
				this->expect(r, pos, e - pos, "read_word");
				pos = e;
				return this->check("read_word");
			}
			case 7: {
				auto r = p.read_word_until(until);
				size_t e = this->scan([&](char c) { return space(c) || c == until; });
				this->expect(r, pos, e - pos, "read_word_until");
				pos = e;
				return this->check("read_word_until");
			}
			case 8: {
				auto r = p.read_chars_until(until);
				size_t e = this->scan([&](char c) { return c == until; });
				this->expect(r, pos, e - pos, "read_chars_until");
				pos = e;
				return this->check("read_chars_until");
			}
			case 9:
			case 10: {
				try {
					char c = k == 9 ? p.read_char() : p.peek_char();
					MC_CHECK(pos != s.size(), "read/peek at the end succeeded");
					MC_CHECK(c == s[pos], "read/peek char");
					if (k == 9) {
						++pos;
					}
				} catch (std::invalid_argument&) {
					MC_CHECK(pos == s.size(), "read/peek char threw at %zu of %s", pos, quote(s).c_str());
				}
				return this->check("read_char/peek_char");
			}
			case 11:
			case 12:
			case 13:
			case 14: {
				size_t left = s.size() - pos;
				size_t n = k == 11 ? 0 : k == 12 ? left : k == 13 ? (left ? left - 1 : 0) : size_t(-1);
				try {
					char c = p.peek_char(n);
					MC_CHECK(n < left, "peek_char(%zu) with %zu left succeeded", n, left);
					MC_CHECK(c == s[pos + n], "peek_char(%zu)", n);
				} catch (std::invalid_argument&) {
					MC_CHECK(n >= left, "peek_char(%zu) with %zu left threw", n, left);
				}
				return this->check("peek_char(n)");
			}
			default: {
				size_t left = s.size() - pos;
				size_t n = k == 15 ? 0 : k == 16 ? 1 : k == 17 ? left + 1 : 2;
				if (k == 18 && until == '\0') {
					n = size_t(-1);
				}
				auto r = p.read_chars(n);
				size_t m = n < left ? n : left;
				this->expect(r, pos, m, "read_chars");
				pos += m;
				return this->check("read_chars");
			}
		}
	}
};
} // namespace

// all strings x all sequences of two operations
MC_SUITE(op_pairs)
{
	static const char a[] = {'a', 'b', ' ', ','};
	unsigned len = choose(by_tier(6u, 7u));
	std::string s;
	for (unsigned i = 0; i != len; ++i) {
		s.push_back(pick(a));
	}
	note("%s", quote(s).c_str());
	machine m(s);
	for (int i = 0; i != 2; ++i) {
		unsigned k = choose(machine::num_ops);
		m.op(k, 'b');
	}
}

// longer sequences over a fixed set of strings
MC_SUITE(op_sequences)
{
	static const std::string strs[] = {" a ,b", ",, b", "ab\tb\n", "b", "", " \v\f\r\n\t", "a, ,b b"};
	machine m(pick(strs));
	note("%s", quote(m.s).c_str());
	unsigned depth = by_tier(4u, 5u);
	for (unsigned i = 0; i != depth; ++i) {
		unsigned k = choose(machine::num_ops);
		m.op(k, 'b');
	}
}

// every character value, in every role
MC_SUITE(all_characters)
{
	char c = char(choose(256));
	unsigned k = choose(machine::num_ops);
	static const std::string pat[] = {"C", "aC", "Ca", "a Cb", " C,C,b", "CCC", "x,C C"};
	std::string s = pick(pat);
	for (auto& x : s) {
		if (x == 'C') {
			x = c;
		}
	}
	unsigned u = choose(3);
	char until = u == 0 ? c : u == 1 ? 'b' : '\0';
	note("%s", quote(s).c_str());
	machine m(s);
	m.op(k, until);
	m.op(k, until);
	MC_CHECK(utki::string_parser::is_space(c) == space(c), "is_space(0x%x)", uint8_t(c));
	steps();
}

// counts and indices which do not fit narrower types
MC_SUITE(huge_counts)
{
	static const size_t ns[] = {
		1, 2, 3, 4, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 0x7fffffff, 0x80000000, 0xffffffff, //
		0x100000000, 0x100000001, 0x100000002, 0x7fffffffffffffff, 0x8000000000000000, 0x8000000000000001, size_t(-2), size_t(-1)
	};
	static const unsigned lens[] = {0, 1, 2, 3, 200, 256, 300, 65536, 65540};
	size_t n = pick(ns);
	unsigned len = pick(lens);
	unsigned before = choose(2); // characters read before that
	std::string s;
	for (unsigned i = 0; i != len; ++i) {
		s.push_back(char('a' + i % 23));
	}
	if (before > len) {
		return;
	}
	state(n * 100000 + len * 2 + before);
	std::unique_ptr<char[]> mem(new char[len]);
	std::copy(s.begin(), s.end(), mem.get());
	utki::string_parser p(std::string_view(mem.get(), len));
	if (before) {
		p.read_char();
	}
	size_t left = len - before;
	std::string_view rest = std::string_view(s).substr(before);
	bool ok = true;
	char c = 0;
	try {
		c = p.peek_char(n);
	} catch (std::invalid_argument&) {
		ok = false;
	}
	MC_CHECK(ok == (n < left), "peek_char(%zu) with %zu left %s", n, left, ok ? "succeeded" : "threw");
	MC_CHECK(!ok || c == rest[n], "peek_char(%zu) with %zu left is 0x%x", n, left, uint8_t(c));
	MC_CHECK(p.get_view() == rest, "peek_char(%zu) changed the position", n);
	auto r = p.read_chars(n);
	size_t m = n < left ? n : left;
	MC_CHECK(r == rest.substr(0, m), "read_chars(%zu) with %zu left gave %zu characters", n, left, r.size());
	MC_CHECK(p.get_view() == rest.substr(m), "read_chars(%zu) with %zu left: %zu remain", n, left, p.get_view().size());
	steps(2);
}

// long strings
MC_SUITE(lengths)
{
	static const unsigned lens[] = {1, 2, 7, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4096, 5000};
	unsigned len = pick(lens);
	unsigned k = choose(machine::num_ops);
	unsigned shape = choose(5);
	std::string s;
	switch (shape) {
		case 0:
			s = std::string(len, ' ') + "xb";
			break;
		case 1:
			s = std::string(len, 'x') + "bx";
			break;
		case 2:
			s = std::string(len, 'x') + " b";
			break;
		case 3:
			s = std::string(len, ' ') + "," + std::string(len, '\n') + ",b";
			break;
		default:
			s = std::string(len, 'b');
			break;
	}
	machine m(s);
	m.op(k, 'b');
	m.op(k, 'b');
	m.op(9, 'b');
	note("len %u shape %u", len, shape);
}

// copy of the parser is independent
MC_SUITE(copies)
{
	machine m("ab ,b cd");
	unsigned k = choose(machine::num_ops);
	m.op(choose(machine::num_ops), 'b');
	auto copy = m.p;
	auto before = copy.get_view();
	m.op(k, 'b');
	MC_CHECK(copy.get_view() == before, "copy changed");
	steps();
}

// the global locale does not matter
MC_SUITE(another_locale)
{
	odd_locale l;
	static const char a[] = {'a', 'b', ' ', ',', '\t', 'x', '\xa0'};
	unsigned len = choose(by_tier(5u, 6u));
	std::string s;
	for (unsigned i = 0; i != len; ++i) {
		s.push_back(pick(a));
	}
	note("%s", quote(s).c_str());
	machine m(s);
	m.op(choose(machine::num_ops), 'b');
	m.op(choose(machine::num_ops), 'b');
	for (int c = 0; c != 256; ++c) {
		MC_CHECK(utki::string_parser::is_space(char(c)) == space(char(c)), "is_space(0x%x)", unsigned(c));
	}
}

// C15: word wrapping never exceeds the width, never loses or reorders text, and breaks lines where it should.
#include <utki/string.hpp>

#include <memory>

#include "mc.hpp"

using namespace mc;

namespace {
std::string visible(std::string_view s)
{
	std::string r;
	for (char c : s) {
		if (c != ' ' && c != '\n') {
			r.push_back(c);
		}
	}
	return r;
}

std::string show(const std::vector<std::string>& v)
{
	std::string r;
	for (auto& l : v) {
		r += "[" + l + "]";
	}
	return r.size() > 600 ? r.substr(0, 600) + "..." : r;
}

std::vector<std::string> wrap(const std::string& s, unsigned w)
{
	std::unique_ptr<char[]> m(new char[s.size()]);
	memcpy(m.get(), s.data(), s.size());
	return utki::word_wrap(std::string_view(m.get(), s.size()), w);
}

// Reference: each paragraph (text between line feeds) is wrapped on its own.
// A line is filled up to the width. When the next character does not fit:
//  - in the middle of a word which is not the first word of the line: the break goes before the word, the space before it is dropped
//  - in the middle of the first word: the word is cut at the width
//  - at a space run which follows a word: the break replaces the first space of the run
//  - at a space run which started the line: the spaces so far are dropped
// The tail: trailing space run after the last word is dropped (last paragraph), space-only tail gives no line.
std::vector<std::string> ref_wrap(const std::string& s, unsigned width)
{
	if (width == 0) {
		return {s};
	}
	std::vector<std::string> out;
	size_t start = 0;
	for (;;) {
		size_t nl = s.find('\n', start);
		bool last = nl == std::string::npos;
		std::string p = s.substr(start, last ? std::string::npos : nl - start);
		// p: paragraph
		size_t b = 0; // line begin
		size_t run = 0; // begin of the current run of spaces or of non-spaces
		bool word = false; // a word has ended on this line
		for (size_t i = 0; i != p.size(); ++i) {
			if (i - b == width) {
				if (p[run] == ' ') {
					if (word) {
						out.push_back(p.substr(b, run - b));
						b = run + 1;
					} else {
						b = run = i;
					}
				} else if (word) {
					out.push_back(p.substr(b, run - 1 - b));
					b = run;
				} else {
					out.push_back(p.substr(b, i - b));
					b = run = i;
				}
				word = false;
			}
			bool sp = p[i] == ' ';
			if (sp != (p[run] == ' ')) {
				if (sp) {
					word = true;
				}
				run = i;
			}
		}
		if (!last) {
			out.push_back(p.substr(b));
			start = nl + 1;
			continue;
		}
		if (run < p.size() && p[run] == ' ') {
			if (word) {
				out.push_back(p.substr(b, run - b));
			}
		} else {
			out.push_back(p.substr(b));
		}
		return out;
	}
}

void check(const std::string& s, unsigned w)
{
	auto r = wrap(s, w);
	steps();
	if (w == 0) {
		MC_CHECK(r.size() == 1 && r[0] == s, "width 0 changes %s", quote(s).c_str());
		return;
	}
	std::string all;
	for (auto& l : r) {
		MC_CHECK(l.size() <= w, "line %s is longer than %u in word_wrap(%s)", quote(l).c_str(), w, quote(s).c_str());
		MC_CHECK(l.find('\n') == std::string::npos, "line feed in a line of word_wrap(%s, %u)", quote(s).c_str(), w);
		all += visible(l);
	}
	MC_CHECK(all == visible(s), "text lost or reordered by word_wrap(%s, %u): %s", quote(s).c_str(), w, show(r).c_str());
	auto e = ref_wrap(s, w);
	MC_CHECK(r == e, "word_wrap(%s, %u) = %s expected %s", quote(s).c_str(), w, show(r).c_str(), show(e).c_str());
	state(hasher().add(hash_str(s)).add(w).h);
	note("word_wrap(%s, %u) = %s", quote(s).c_str(), w, show(r).c_str());
}
} // namespace

MC_SUITE(all_texts)
{
	static const char a[] = {'a', ' ', '\n'};
	unsigned len = choose(by_tier(11u, 13u));
	std::string s;
	for (unsigned i = 0; i != len; ++i) {
		s.push_back(pick(a));
	}
	// distinguishable letters so that reordering is seen
	char c = 'a';
	for (auto& x : s) {
		if (x == 'a') {
			x = c++;
		}
	}
	for (unsigned w = 0; w <= 6; ++w) {
		check(s, w);
	}
}

// regular text: words shorter than the width separated by single spaces
MC_SUITE(regular_text)
{
	unsigned n = choose(by_tier(7u, 8u)) + 1;
	unsigned w = choose(9) + 2;
	std::string s;
	char c = 'a';
	for (unsigned i = 0; i != n; ++i) {
		unsigned len = choose(w - 1 < 3 ? w - 1 : 3) + 1;
		s += (i ? " " : "") + std::string(len, c++);
	}
	// no word is longer than a line here, so no word may be cut
	for (auto& l : wrap(s, w)) {
		for (size_t b = 0; b < l.size();) {
			size_t e = std::min(l.find(' ', b), l.size());
			std::string x = l.substr(b, e - b);
			if (!x.empty()) {
				MC_CHECK((" " + s + " ").find(" " + x + " ") != std::string::npos, "word_wrap(%s, %u) cut the word: %s", quote(s).c_str(), w, quote(x).c_str());
			}
			b = e + 1;
		}
	}
	steps();
	check(s, w);
}

// other characters (tabs, non-ASCII bytes, zero) are ordinary text
MC_SUITE(all_characters)
{
	char x = char(choose(256));
	static const std::string pat[] = {"X", "aX b", "X X", "ab XX cd", " X", "X\nX ", "XXXXX X"};
	std::string s = pick(pat);
	for (auto& c : s) {
		if (c == 'X') {
			c = x;
		}
	}
	for (unsigned w = 0; w <= 4; ++w) {
		check(s, w);
	}
}

// long texts and all widths
MC_SUITE(long_texts)
{
	unsigned shape = choose(8);
	unsigned w = choose(by_tier(300u, 1100u));
	std::string s;
	uint32_t seed = shape + 1;
	switch (shape) {
		case 0:
			s = std::string(1000, 'a');
			break;
		case 1:
			s = std::string(1000, ' ');
			break;
		case 2:
			s = std::string(300, '\n');
			break;
		default:
			for (unsigned i = 0; i != 400; ++i) {
				unsigned l = lcg(seed) % (shape * 2) + 1;
				s += std::string(l, char('a' + i % 26));
				s += shape == 7 ? std::string(lcg(seed) % 3 + 1, ' ') : lcg(seed) % 17 == 0 ? "\n" : " ";
			}
			break;
	}
	check(s, w);
	static const unsigned wide[] = {255, 256, 257, 511, 512, 1023, 1024, 1025, 4096, 65535, 65536, 65537, 0x7fffffff, 0x80000000, 0xffffffff};
	check(s, wide[w % 15]);
}

// single words of every length around the width
MC_SUITE(word_vs_width)
{
	unsigned w = choose(40) + 1;
	unsigned len = choose(by_tier(90u, 140u));
	unsigned pre = choose(4);
	unsigned post = choose(3);
	static const std::string p[] = {"", "x ", " ", "xy  "};
	static const std::string q[] = {"", " z", "\nz"};
	std::string s = p[pre] + std::string(len, 'w') + q[post];
	check(s, w);
}

// texts longer than 16 bit counters go
MC_SUITE(huge_texts)
{
	static const size_t sizes[] = {5000, 32768, 65535, 65537, 150000};
	size_t n = pick(sizes);
	unsigned shape = choose(6);
	std::string s;
	uint32_t seed = shape + 77;
	while (s.size() < n) {
		switch (shape) {
			case 0: // one word
				s += 'w';
				break;
			case 1: // spaces
				s += ' ';
				break;
			case 2: // empty lines
				s += '\n';
				break;
			case 3: // usual text
				s += std::string(lcg(seed) % 9 + 1, char('a' + s.size() % 26)) + ' ';
				break;
			case 4: // lines
				s += std::string(lcg(seed) % 30, char('a' + s.size() % 26)) + (lcg(seed) % 3 ? " " : "\n");
				break;
			default: // long words
				s += std::string(lcg(seed) % 3000, char('a' + s.size() % 26)) + "  ";
				break;
		}
	}
	for (unsigned w : {1u, 2u, 7u, 80u, 1000u, 32767u, 32768u, 65535u, 65536u, 65537u, 100000u, 0xffffffffu}) {
		check(s, w);
	}
	note("%zu characters", n);
}

// C04: decoding of arbitrary (malformed, truncated) bytes is safe, terminates, and all entry points agree.
#include <utki/unicode.hpp>

#include <memory>

#include "mc.hpp"

using namespace mc;

namespace {
// heap buffer of exactly the needed size (so that address sanitizer sees any access outside of it)
struct exact {
	std::unique_ptr<char[]> p;
	size_t n;
	exact(std::string_view s, bool terminate) :
		p(new char[s.size() + (terminate ? 1 : 0)]),
		n(s.size())
	{
		memcpy(p.get(), s.data(), n);
		if (terminate) {
			p[n] = 0;
		}
	}
	std::string_view view() const
	{
		return {p.get(), n};
	}
};

std::u32string walk(utki::utf8_iterator i, size_t limit, const std::string& s)
{
	std::u32string r;
	for (; !i.is_end(); ++i) {
		r.push_back(i.character());
		MC_CHECK(r.size() <= limit, "decoded more characters than there are bytes in %s", quote(s).c_str());
	}
	// advancing further at the end must remain harmless for spans: still at end
	return r;
}

void check_bytes(const std::string& s)
{
	exact e(s, false);
	auto expected = walk(utki::utf8_iterator(e.view()), s.size(), s);

	auto ub = utki::span<const uint8_t>(reinterpret_cast<const uint8_t*>(e.p.get()), e.n);
	MC_CHECK(walk(utki::utf8_iterator(ub), s.size(), s) == expected, "iterator over span differs on %s", quote(s).c_str());
	MC_CHECK(utki::to_utf32(ub) == expected, "span<uint8_t> differs on %s", quote(s).c_str());
	MC_CHECK(utki::to_utf32(utki::span<const char>(e.p.get(), e.n)) == expected, "span<char> differs on %s", quote(s).c_str());
	MC_CHECK(utki::to_utf32(e.view()) == expected, "string_view differs on %s", quote(s).c_str());
	MC_CHECK(utki::to_utf32(utki::utf8_iterator(e.view())) == expected, "to_utf32(iterator) differs on %s", quote(s).c_str());
	steps(6);

	// C-string entry points see the bytes up to the first zero byte
	{
		exact z(s, true);
		auto cs = utki::to_utf32(z.p.get());
		MC_CHECK(cs.size() <= strlen(z.p.get()), "%s", quote(s).c_str());
		MC_CHECK(walk(utki::utf8_iterator(z.p.get()), s.size(), s) == cs, "C-string iterator differs on %s", quote(s).c_str());
		std::string heap(s);
		heap.shrink_to_fit();
		MC_CHECK(utki::to_utf32(heap) == cs, "std::string differs from its C-string on %s", quote(s).c_str());
		if (s.find('\0') == std::string::npos) {
			MC_CHECK(cs == expected, "C-string differs from string_view on %s", quote(s).c_str());
		}
		steps(3);
	}
	state(hash_str(s));
}

const uint8_t classes[] = {
	0x00, 0x01, 0x41, 0x7f, 0x80, 0xa5, 0xbf, 0xc0, 0xc3, 0xdf, 0xe0, 0xef, 0xf0, 0xf7, 0xf8, 0xfb, 0xfc, 0xfd, 0xfe, 0xff
};
} // namespace

// all the byte strings of length <= 2 (quick) / 3 (thorough)
MC_SUITE(all_short_byte_strings)
{
	std::string s;
	unsigned len = choose(by_tier(3u, 4u));
	for (unsigned i = 0; i != len; ++i) {
		s.push_back(char(choose(256)));
	}
	note("%s", quote(s).c_str());
	check_bytes(s);
}

// all the strings over one representative per byte class
MC_SUITE(class_strings)
{
	std::string s;
	unsigned len = choose(by_tier(5u, 6u));
	for (unsigned i = 0; i != len; ++i) {
		s.push_back(char(pick(classes)));
	}
	note("%s", quote(s).c_str());
	check_bytes(s);
}

// every lead byte followed by 0..8 bytes of small alphabet: all truncation points of all sequence lengths
MC_SUITE(lead_and_tail)
{
	static const uint8_t tail[] = {0x80, 0xbf, 0x41, 0xc3};
	std::string s;
	if (choose(2)) {
		s = "a";
	}
	s.push_back(char(choose(256)));
	unsigned len = choose(by_tier(6u, 9u));
	for (unsigned i = 0; i != len; ++i) {
		s.push_back(char(pick(tail)));
	}
	note("%s", quote(s).c_str());
	check_bytes(s);
}

// well formed text truncated at every byte: exactly the complete characters are returned
MC_SUITE(truncated_text)
{
	static const char32_t alpha[] = {0x41, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x1fffff, 0x200000, 0x3ffffff, 0x4000000, 0x7fffffff};
	unsigned len = choose(by_tier(4u, 5u)) + 1;
	std::u32string u;
	for (unsigned i = 0; i != len; ++i) {
		u.push_back(pick(alpha));
	}
	// independent encoding
	std::string enc;
	std::vector<size_t> ends;
	for (auto c : u) {
		int cont = c < 0x80 ? 0 : c < 0x800 ? 1 : c < 0x10000 ? 2 : c < 0x200000 ? 3 : c < 0x4000000 ? 4 : 5;
		static const unsigned lead[] = {0, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc};
		enc.push_back(char(lead[cont] + (c >> (6 * cont))));
		for (int k = cont - 1; k >= 0; --k) {
			enc.push_back(char(0x80 + ((c >> (6 * k)) & 63)));
		}
		ends.push_back(enc.size());
	}
	// cut inside of the last character only: the other cuts are covered by shorter strings
	size_t from = len > 1 ? ends[len - 2] : 0;
	for (size_t cut = from; cut <= enc.size(); ++cut) {
		std::string s = enc.substr(0, cut);
		size_t complete = 0;
		while (complete < len && ends[complete] <= cut) {
			++complete;
		}
		exact e(s, false);
		MC_CHECK(
			utki::to_utf32(e.view()) == u.substr(0, complete),
			"truncated %s: complete characters are not preserved",
			quote(s).c_str()
		);
		exact z(s, true);
		MC_CHECK(
			utki::to_utf32(z.p.get()) == u.substr(0, complete),
			"truncated C-string %s: complete characters are not preserved",
			quote(s).c_str()
		);
		steps(2);
		state(hash_str(s));
		note("%s", quote(s).c_str());
	}
}

// long inputs: every byte value repeated, and valid text with one bad byte at every position
MC_SUITE(long_inputs)
{
	unsigned shape = choose(256);
	static const uint32_t lens[] = {7, 8, 9, 15, 16, 17, 63, 64, 65, 255, 256, 257, 1023, 1024, 1025, 4097};
	uint32_t len = pick(lens);
	std::string s(len, char(shape));
	note("%u x 0x%x", len, shape);
	check_bytes(s);
}

MC_SUITE(one_bad_byte)
{
	uint32_t at = choose(120);
	uint8_t bad = pick(classes);
	std::string s;
	while (s.size() < 120) {
		s += "a\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80\xf8\x88\x80\x80\x80\xfc\x84\x80\x80\x80\x80";
	}
	s.resize(choose(2) ? 120 : at + 1);
	s[at] = char(bad);
	note("bad byte 0x%x at %u", bad, at);
	check_bytes(s);
}

// default constructed and empty inputs
MC_SUITE(empty)
{
	MC_CHECK(utki::to_utf32("").empty(), "");
	MC_CHECK(utki::to_utf32(std::string()).empty(), "");
	MC_CHECK(utki::to_utf32(std::string_view()).empty(), "");
	MC_CHECK(utki::to_utf32(utki::span<const uint8_t>()).empty(), "");
	MC_CHECK(utki::utf8_iterator(std::string_view()).is_end(), "");
	MC_CHECK(utki::utf8_iterator("").is_end(), "");
	MC_CHECK(utki::utf8_iterator().is_end(), "");
	steps(7);
	state(1);
	note("empty inputs");
}

MC_SUITE(huge_inputs)
{
	static const uint8_t bytes[] = {0x00, 0x01, 0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xc3, 0xe2, 0xf0, 0xf8, 0xfc, 0xfe, 0xff};
	static const uint32_t lens[] = {32769, 65535, 65537, 131073};
	uint32_t len = pick(lens);
	uint8_t b = pick(bytes);
	std::string s(len, char(b));
	unsigned tail = choose(3);
	s += tail == 0 ? "" : tail == 1 ? "\xe2" : "\xf0\x9f\x98";
	note("%u x 0x%x", len, b);
	check_bytes(s);
}

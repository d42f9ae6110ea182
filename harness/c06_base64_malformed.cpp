// C06: decoding of malformed base64 never touches memory outside of the input: returns something bounded or throws
// std::invalid_argument.
#include <utki/base64.hpp>

#include <memory>
#include <stdexcept>

#include "mc.hpp"

using namespace mc;

namespace {
const std::string_view good = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

void check(const std::string& s)
{
	// several fills around of the view: outcome must depend on the characters of the view only
	struct result {
		bool thrown = false;
		std::vector<uint8_t> v;
	} r[3];
	for (int k = 0; k != 3; ++k) {
		std::unique_ptr<char[]> p;
		std::string_view v;
		if (k == 0) {
			p.reset(new char[s.size()]); // exact size: sanitizer sees reads outside
			memcpy(p.get(), s.data(), s.size());
			v = std::string_view(p.get(), s.size());
		} else {
			// larger buffer: result may not depend on what surrounds the view
			p.reset(new char[s.size() + 16]);
			memset(p.get(), k == 1 ? 'z' : '=', s.size() + 16);
			memcpy(p.get() + 8, s.data(), s.size());
			v = std::string_view(p.get() + 8, s.size());
		}
		try {
			r[k].v = utki::base64_decode(v);
		} catch (std::invalid_argument&) {
			r[k].thrown = true;
		}
		steps();
	}
	for (int k = 1; k != 3; ++k) {
		MC_CHECK(
			r[0].thrown == r[k].thrown && r[0].v == r[k].v,
			"result of decoding %s depends on the memory outside of the string",
			quote(s).c_str()
		);
	}
	// a quad never produces more than 3 bytes
	MC_CHECK(r[0].v.size() <= (s.size() + 3) / 4 * 3, "%s decoded to %zu bytes", quote(s).c_str(), r[0].v.size());

	// one trailing character carries only 6 bits: it cannot be decoded to anything
	if (s.size() % 4 == 1 && s.find('=') == std::string::npos) {
		bool all_good = s.find_first_not_of(good) == std::string::npos;
		MC_CHECK(!all_good || r[0].thrown, "incomplete %s accepted", quote(s).c_str());
	}
	state(hash_str(s));
	note("%s -> %s", quote(s).c_str(), r[0].thrown ? "invalid_argument" : "bytes");
}
} // namespace

MC_SUITE(all_bytes_short)
{
	std::string s;
	unsigned len = choose(by_tier(3u, 4u));
	for (unsigned i = 0; i != len; ++i) {
		s.push_back(char(choose(256)));
	}
	check(s);
}

MC_SUITE(class_strings)
{
	static const char a[] = {'A', '/', '=', '\0', '-', '\x7f', '\x80', '\xff', ' '};
	std::string s;
	unsigned len = choose(by_tier(7u, 8u));
	for (unsigned i = 0; i != len; ++i) {
		s.push_back(pick(a));
	}
	check(s);
}

MC_SUITE(padding_patterns)
{
	static const char a[] = {'Q', '='};
	std::string s;
	unsigned len = choose(by_tier(15u, 18u));
	for (unsigned i = 0; i != len; ++i) {
		s.push_back(pick(a));
	}
	check(s);
}

// every byte value at every position of strings of every residue
MC_SUITE(one_bad_byte)
{
	unsigned len = choose(14) + 1;
	unsigned at = choose(len);
	unsigned pad = choose(4);
	std::string s(len, 'Q');
	s[at] = char(choose(256));
	s.append(pad, '=');
	check(s);
}

MC_SUITE(long_inputs)
{
	uint32_t len = choose(by_tier(1030u, 4100u));
	static const char a[] = {'=', '\xff', 'Q', '\0'};
	std::string s(len, pick(a));
	unsigned tail = choose(4);
	s.append(tail, '=');
	check(s);
}

MC_SUITE(huge_inputs)
{
	static const uint32_t lens[] = {32769, 65535, 65536, 65537, 131073, 1000003};
	uint32_t len = pick(lens);
	static const char a[] = {'=', '\xff', 'Q', '\0', '/'};
	std::string s(len, pick(a));
	unsigned tail = choose(5);
	s.append(tail, '=');
	if (tail == 4) {
		s.back() = '\x80';
	}
	check(s);
}

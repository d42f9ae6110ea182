// C16: printf-like formatting gives exactly what the C library gives, whatever the length; indentation strings.
#include <utki/string.hpp>

#include <cerrno>
#include <cstdarg>
#include <cwchar>
#include <memory>

#include "mc.hpp"

using namespace mc;

namespace {
std::string ref_format(const char* f, ...)
{
	va_list a;
	va_start(a, f);
	char* p = nullptr;
	int n = vasprintf(&p, f, a);
	va_end(a);
	std::string r(p, size_t(n));
	free(p);
	return r;
}

// several passes over one va_list copy
std::string via_va_list(const char* f, ...)
{
	va_list a;
	va_start(a, f);
	auto r = utki::make_string_va_list(f, a);
	va_end(a);
	return r;
}

void same(const std::string& r, const std::string& e, const char* what)
{
	MC_CHECK(r.size() == e.size(), "%s: %zu characters, expected %zu", what, r.size(), e.size());
	MC_CHECK(r == e, "%s: contents differ: %s", what, quote(r).c_str());
	MC_CHECK(r.c_str()[r.size()] == '\0', "%s: not terminated", what);
	steps();
}
} // namespace

// every length; the length comes from different kinds of arguments
MC_SUITE(all_lengths)
{
	unsigned n = choose(by_tier(4200u, 20000u));
	std::string body(n, '\0');
	uint32_t seed = n;
	for (auto& c : body) {
		c = char('!' + lcg(seed) % 90);
	}
	same(utki::make_string("%s", body.c_str()), body, "%s");
	same(utki::make_string("%.*s|", int(n), (body + "tail").c_str()), body + "|", "%.*s");
	same(utki::make_string("%*d", int(n), 7), ref_format("%*d", int(n), 7), "%*d");
	same(utki::make_string("%s%d %c %s %08.3f %lu", body.c_str(), -5, 'q', "end", 3.25, 18446744073709551615ul), body + "-5 q end 0003.250 18446744073709551615", "mixed");
	same(via_va_list("%d%s%d%s", 1, body.c_str(), 2, "x"), "1" + body + "2x", "va_list");
	state(n);
	note("length %u", n);
}

MC_SUITE(huge_lengths)
{
	static const unsigned lens[] = {8191, 8192, 16383, 16384, 32766, 32767, 32768, 65534, 65535, 65536, 65537, 100000, 131071, 131072, 1048575, 1048576, 3000000};
	unsigned n = pick(lens);
	std::string body(n, 'x');
	body[n / 2] = 'y';
	same(utki::make_string("%s|%d", body.c_str(), 42), body + "|42", "%s");
	same(utki::make_string("%0*d", int(n), 42), ref_format("%0*d", int(n), 42), "%0*d");
	state(n);
	note("length %u", n);
}

MC_SUITE(literal_formats)
{
	unsigned n = choose(by_tier(2200u, 4200u));
	std::string f(n, 'f');
	same(utki::make_string(f.c_str()), f, "literal");
	std::string g;
	for (unsigned i = 0; i != n; ++i) {
		g += "%%";
	}
	same(utki::make_string(g.c_str()), std::string(n, '%'), "percents");
	state(n);
	note("length %u", n);
}

// embedded zero characters
MC_SUITE(zero_characters)
{
	unsigned pre = choose(1100);
	std::string p(pre, 'p');
	std::string e = p + std::string(1, '\0') + "tail";
	same(utki::make_string("%s%c%s", p.c_str(), 0, "tail"), e, "%c with 0");
	state(pre);
	note("zero at %u", pre);
}

// conversion specifiers
MC_SUITE(specifiers)
{
	static const char* fi[] = {"%d", "%5d", "%-5d|", "%05d", "%+d", "% d", "%x", "%X", "%#x", "%o", "%u", "%c", "%.3d", "%hhd", "%hd"};
	static const int vi[] = {0, 1, -1, 42, 127, 128, -129, 32768, 2147483647, -2147483647 - 1};
	static const char* fd[] = {"%f", "%.0f", "%e", "%g", "%10.2f", "%-10.1e|", "%a", "%+.17g"};
	static const double vd[] = {0, -0.0, 1.5, -2.25, 1e300, 1e-300, 123456789.125};
	unsigned k = choose(2);
	if (k == 0) {
		auto f = pick(fi);
		auto v = pick(vi);
		same(utki::make_string(f, v), ref_format(f, v), f);
		note("%s %d", f, v);
		state(hasher().add(hash_str(f)).add(uint64_t(v)).h);
	} else {
		auto f = pick(fd);
		auto v = pick(vd);
		same(utki::make_string(f, v), ref_format(f, v), f);
		note("%s %g", f, v);
		state(hasher().add(hash_str(f)).add(uint64_t(v * 1000)).h);
	}
	same(utki::make_string("%s", ""), "", "empty");
	same(utki::make_string("%s%s%s", "", "a", ""), "a", "empty parts");
	same(utki::make_string("%lld %zu %p", -9223372036854775807ll, size_t(-1), (void*)0x1234), ref_format("%lld %zu %p", -9223372036854775807ll, size_t(-1), (void*)0x1234), "64 bit");
}

// results of independent calls don't affect each other
MC_SUITE(call_sequences)
{
	static const unsigned lens[] = {0, 1, 1022, 1023, 1024, 1025, 3000};
	std::vector<std::string> res;
	std::vector<std::string> exp;
	for (int i = 0; i != 3; ++i) {
		unsigned n = pick(lens);
		std::string b(n, char('a' + i));
		res.push_back(utki::make_string("%s:%d", b.c_str(), i));
		exp.push_back(b + ":" + std::to_string(i));
		state(hasher().add(n).add(i).h);
		note("%u", n);
	}
	for (int i = 0; i != 3; ++i) {
		same(res[i], exp[i], "sequence");
	}
}

// The C library cannot format the text: an error is reported, whatever was printed before the failing part,
// and the following calls are not affected.
MC_SUITE(failures)
{
	static const unsigned lens[] = {0, 1, 100, 1022, 1023, 1024, 1025, 2500};
	unsigned k = choose(5);
	unsigned n = pick(lens);
	unsigned m = k == 3 ? 1 : pick(lens); // failure 3 is slow
	std::string a(n, 'a'), b(m, 'b');
	static const wchar_t bad[] = {L'x', wchar_t(0x7fffff00), 0};
	static const wchar_t good[] = L"wide";
	bool thrown = false;
	std::string r;
	try {
		switch (k) {
			case 0:
				r = utki::make_string("%s%ls%s", a.c_str(), bad, b.c_str());
				break;
			case 1:
				r = utki::make_string("%s%lc%s", a.c_str(), wint_t(0x7fffff00), b.c_str());
				break;
			case 2:
				r = via_va_list("%s%ls%s", a.c_str(), bad, b.c_str());
				break;
			case 3:
				// the size of the text doesn't fit int
				r = utki::make_string("%s%*d%*d%s", a.c_str(), 2147483647, 1, 2147483647, 1, b.c_str());
				break;
			default:
				r = utki::make_string("%s%ls%s", a.c_str(), good, b.c_str());
				break;
		}
	} catch (std::exception&) {
		thrown = true;
	}
	MC_CHECK(thrown == (k != 4), "failure %u is %s: %s", k, thrown ? "reported" : "not reported", quote(r.substr(0, 100)).c_str());
	if (k == 4) {
		same(r, a + "wide" + b, "%ls");
	}
	same(utki::make_string("%s%s", b.c_str(), a.c_str()), b + a, "call after a failure");
	state((n * 10000 + m) * 10 + k);
	note("failure %u after %u, before %u", k, n, m);
}

// arguments picked by position, error text of errno as it is at the call, arguments of the caller stay usable
namespace {
std::string both_halves(const char* f, ...)
{
	va_list a, b;
	va_start(a, f);
	va_copy(b, a);
	auto r = utki::make_string_va_list(f, a);
	r += '|';
	r += utki::make_string_va_list(f, b);
	va_end(b);
	va_end(a);
	return r;
}
} // namespace

MC_SUITE(positions_and_copies)
{
	static const unsigned lens[] = {0, 1, 1021, 1022, 1023, 1024, 1025, 2500};
	unsigned n = pick(lens);
	unsigned e = choose(4);
	static const int errs[] = {0, ENOENT, EINVAL, ERANGE};
	std::string a(n, 'a');
	same(utki::make_string("%2$s-%1$d-%2$.3s", 12, a.c_str()), a + "-12-" + a.substr(0, 3), "positions");
	auto one = a + ",7,2.5,x";
	same(both_halves("%s,%d,%g,%c", a.c_str(), 7, 2.5, 'x'), one + "|" + one, "copies of arguments");
	errno = errs[e];
	auto r = utki::make_string("%s%m", a.c_str());
	same(r, a + strerror(errs[e]), "%m");
	state(n * 10 + e);
	note("length %u errno %d", n, errs[e]);
}

MC_SUITE(indentation)
{
	unsigned d = choose(by_tier(300u, 1100u));
	for (unsigned s = 0; s != 40; ++s) {
		std::string e = s == 0 ? std::string(d, '\t') : std::string(size_t(d) * s, ' ');
		same(utki::make_indentation(d, s), e, "make_indentation");
	}
	same(utki::make_indentation(d), std::string(d, '\t'), "make_indentation");
	state(d);
	note("depth %u", d);
}

// depth * size which doesn't fit 32 bits
MC_SUITE(indentation_overflow)
{
	// 65536 * 65536 == 2^32: needs 4 GB, only done in thorough tier by one worker
	unsigned k = choose(4);
	state(k);
	if (k == 3) {
		// longer than any string can be
		bool ok = false;
		try {
			utki::make_indentation(0xffffffff, 0xffffffff);
		} catch (std::exception&) {
			ok = true;
		}
		MC_CHECK(ok, "make_indentation() of more characters than a string can have");
	} else if (k == 0) {
		same(utki::make_indentation(65535, 100), std::string(6553500, ' '), "large");
	} else if (k == 1) {
		same(utki::make_indentation(0, 0xffffffff), "", "0 * max");
		same(utki::make_indentation(1, 70000), std::string(70000, ' '), "1 * 70000");
		same(utki::make_indentation(70000, 0), std::string(70000, '\t'), "tabs");
	} else if (thorough()) {
		bool ok = false;
		try {
			auto s = utki::make_indentation(65536, 65536);
			ok = s.size() == size_t(1) << 32;
		} catch (std::bad_alloc&) {
			ok = true; // tried to allocate that much
		}
		MC_CHECK(ok, "make_indentation(65536, 65536)");
	}
	note("%u", k);
}

// C27: the description of an exception tells about every level of its cause chain, outermost first, however the chain was built.
#include <utki/exception.hpp>

#include <exception>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

#include "mc.hpp"

namespace probe {
// exception types with names which are easy to find
struct unknown_object {
	int x = 5;
};
struct custom_error : std::exception {
	std::string msg;
	custom_error(std::string m) :
		msg(std::move(m))
	{}
	const char* what() const noexcept override
	{
		return msg.c_str();
	}
};
struct custom_utki_error : utki::exception {
	std::string msg;
	custom_utki_error(std::string m) :
		msg(std::move(m))
	{}
	const char* what() const noexcept override
	{
		return msg.c_str();
	}
};
} // namespace probe

using namespace mc;

namespace {
enum type_kind { t_logic, t_runtime, t_custom, t_utki, t_unknown, t_int, n_types };
enum how { h_std, h_utki };

struct level {
	type_kind t;
	how h; // how it is put on top of the previous level (not used for the innermost one)
	std::string msg;
};

const char* type_name(type_kind t)
{
	switch (t) {
		case t_logic:
			return "std::logic_error";
		case t_runtime:
			return "std::runtime_error";
		case t_custom:
			return "probe::custom_error";
		case t_utki:
			return "probe::custom_utki_error";
		case t_unknown:
			return "probe::unknown_object";
		default:
			return "int";
	}
}

bool has_what(type_kind t)
{
	return t <= t_utki;
}

[[noreturn]] void throw_plain(const level& l)
{
	switch (l.t) {
		case t_logic:
			throw std::logic_error(l.msg);
		case t_runtime:
			throw std::runtime_error(l.msg);
		case t_custom:
			throw probe::custom_error(l.msg);
		case t_utki:
			throw probe::custom_utki_error(l.msg);
		case t_unknown:
			throw probe::unknown_object();
		default:
			throw 13;
	}
}

template <class E>
void nest(const level& l, E e)
{
	if (l.h == h_std) {
		std::throw_with_nested(std::move(e));
	} else if constexpr (std::is_base_of_v<std::exception, E>) {
		utki::throw_with_nested(std::move(e));
	} else {
		std::throw_with_nested(std::move(e));
	}
}

void throw_nested(const level& l)
{
	switch (l.t) {
		case t_logic:
			nest(l, std::logic_error(l.msg));
			break;
		case t_runtime:
			nest(l, std::runtime_error(l.msg));
			break;
		case t_custom:
			nest(l, probe::custom_error(l.msg));
			break;
		case t_utki:
			nest(l, probe::custom_utki_error(l.msg));
			break;
		case t_unknown:
			nest(l, probe::unknown_object());
			break;
		default:
			throw_plain(l);
	}
	MC_CHECK(false, "throw_with_nested() returned");
}

// levels[0] is the innermost one
void throw_chain(const std::vector<level>& v, size_t n)
{
	if (n == 1) {
		throw_plain(v[0]);
	}
	try {
		throw_chain(v, n - 1);
	} catch (...) {
		throw_nested(v[n - 1]);
	}
}

std::vector<std::string> lines(const std::string& s)
{
	std::vector<std::string> r(1);
	for (char c : s) {
		if (c == '\n') {
			r.emplace_back();
		} else {
			r.back().push_back(c);
		}
	}
	return r;
}

bool starts(const std::string& s, const std::string& p)
{
	return s.compare(0, p.size(), p) == 0;
}
bool ends(const std::string& s, const std::string& p)
{
	return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0;
}

// one line per level, outermost first, each with the indentation, the type and the message
void check_lines(const std::vector<level>& v, std::vector<std::string> got, const std::string& ind, const char* what)
{
	MC_CHECK(got.size() == v.size(), "%s: %zu lines for %zu levels", what, got.size(), v.size());
	for (size_t i = 0; i != v.size(); ++i) {
		const level& l = v[v.size() - 1 - i];
		const std::string& s = got[i];
		MC_CHECK(starts(s, ind), "%s: line %zu is not indented: %s", what, i, quote(s).c_str());
		MC_CHECK(!starts(s.substr(ind.size()), " ") && !starts(s.substr(ind.size()), "- "), "%s: line %zu is indented twice: %s", what, i, quote(s).c_str());
		auto tp = s.find(type_name(l.t));
		MC_CHECK(tp != std::string::npos, "%s: line %zu does not tell the type %s: %s", what, i, type_name(l.t), quote(s).c_str());
		if (has_what(l.t)) {
			MC_CHECK(ends(s, ": " + l.msg), "%s: line %zu does not tell the message %s: %s", what, i, quote(l.msg).c_str(), quote(s).c_str());
		}
		bool plain = i + 1 == v.size() || l.h == h_utki;
		if (plain) {
			std::string e = ind + type_name(l.t) + (has_what(l.t) ? ": " + l.msg : "");
			MC_CHECK(s == e, "%s: line %zu is %s, expected %s", what, i, quote(s).c_str(), quote(e).c_str());
		}
		steps();
	}
}

// all the levels are mentioned in order (mixed chains)
void check_order(const std::vector<level>& v, const std::string& s, const char* what)
{
	size_t pos = 0;
	for (size_t i = v.size(); i--;) {
		size_t t = s.find(type_name(v[i].t), pos);
		MC_CHECK(t != std::string::npos, "%s: level %zu (%s) is not told in order: %s", what, i, type_name(v[i].t), quote(s).c_str());
		pos = t + strlen(type_name(v[i].t));
		if (has_what(v[i].t)) {
			size_t m = s.find(v[i].msg, pos);
			MC_CHECK(m != std::string::npos, "%s: message of level %zu is lost: %s", what, i, quote(s).c_str());
			pos = m + v[i].msg.size();
		}
		steps();
	}
}

// whatever is being handled
void check_current(const std::vector<level>& v, bool mixed, const std::string& ind)
{
	std::string s = utki::current_exception_to_string(ind);
	if (mixed) {
		check_order(v, s, "current_exception_to_string()");
	} else {
		check_lines(v, lines(s), ind, "current_exception_to_string()");
		check_lines(v, lines(utki::current_exception_to_string()), "", "current_exception_to_string() without indentation");
	}
	MC_CHECK(std::current_exception() != nullptr, "current exception is gone");
}

void check_chain(const std::vector<level>& v, const std::string& ind)
{
	bool any_std = false, any_utki = false;
	for (size_t i = 1; i < v.size(); ++i) {
		bool effective_utki = v[i].h == h_utki && has_what(v[i].t);
		any_std |= !effective_utki;
		any_utki |= effective_utki;
	}
	bool mixed = any_std && any_utki;
	bool top_utki = v.size() > 1 && v.back().h == h_utki && has_what(v.back().t);
	bool caught = false;
	try {
		throw_chain(v, v.size());
	} catch (utki::exception& e) {
		caught = true;
		std::string s = e.to_string(ind);
		if (mixed) {
			check_order(v, s, "to_string() member");
		} else {
			check_lines(v, lines(s), ind, "to_string() member");
		}
		MC_CHECK(e.to_string(ind) == s, "to_string() differs when called again");
		MC_CHECK(top_utki || v.back().t == t_utki, "caught as another type");
		check_current(v, mixed, ind);
		if (top_utki) {
			// has to stay valid as long as the exception is not changed
			const char* kept = e.what();
			std::string w = e.what();
			if (mixed) {
				check_order(v, w, "what()");
			} else {
				auto l = lines(w);
				MC_CHECK(l.size() == v.size() + 1, "what() has %zu lines for %zu levels", l.size(), v.size());
				l.erase(l.begin());
				check_lines(v, l, "- ", "what()");
			}
			MC_CHECK(e.what() == w, "what() differs when called again");
			const std::exception& se = e;
			MC_CHECK(w == kept, "the text which was given by what() is gone: %s", quote(kept).c_str());
			std::string ss = utki::to_string(se, ind);
			MC_CHECK(starts(ss, ind), "to_string() function: not indented");
			check_order(v, ss, "to_string() function");
			if (!mixed) {
				std::string s0 = e.to_string();
				check_lines(v, lines(s0), "", "to_string() without indentation");
			}
			MC_CHECK(w == kept, "the text which was given by what() is gone: %s", quote(kept).c_str());
		} else {
			const std::exception& se = e;
			MC_CHECK(utki::to_string(se, ind) == s, "function and member to_string() differ");
		}
	} catch (std::exception& e) {
		caught = true;
		std::string s = utki::to_string(e, ind);
		if (mixed) {
			check_order(v, s, "to_string()");
		} else {
			check_lines(v, lines(s), ind, "to_string()");
			check_lines(v, lines(utki::to_string(e)), "", "to_string() without indentation");
		}
		check_current(v, mixed, ind);
		std::string w = e.what();
		MC_CHECK(w == v.back().msg, "what() of a plain exception changed");
	} catch (...) {
		caught = true;
		check_current(v, mixed, ind);
	}
	MC_CHECK(caught, "nothing was thrown");
}
} // namespace

// all the chains
MC_SUITE(all_chains)
{
	static const std::string inds[] = {"", "  ", "- "};
	unsigned n = choose(by_tier(4u, 5u)) + 1;
	std::string ind = pick(inds);
	std::vector<level> v;
	for (unsigned i = 0; i != n; ++i) {
		level l;
		l.t = type_kind(choose(i == 0 ? unsigned(n_types) : unsigned(t_int)));
		l.h = i == 0 || !has_what(l.t) ? h_std : how(choose(2));
		l.msg = "message of the level number " + std::to_string(i) + ".";
		v.push_back(l);
	}
	check_chain(v, ind);
	hasher h;
	for (auto& l : v) {
		h.add(unsigned(l.t) * 2 + l.h);
	}
	state(h.add(hash_str(ind)).h);
	note("%u levels", n);
}

// messages of all kinds and lengths
MC_SUITE(messages)
{
	unsigned span = by_tier(600u, 3000u);
	static const unsigned lengths[] = {1023, 4095, 4096, 4097, 8193, 32769, 65535, 65537, 131073, 1000003};
	unsigned len = choose(span + 10);
	if (len >= span) {
		len = lengths[len - span];
	}
	how h = how(choose(2));
	static const std::string inds[] = {"", "    ", std::string(100, ' ')};
	std::string ind = pick(inds);
	std::vector<level> v;
	for (unsigned i = 0; i != 3; ++i) {
		std::string m;
		uint32_t seed = len + i;
		for (unsigned k = 0; k != len; ++k) {
			m.push_back(char('!' + lcg(seed) % 90));
		}
		v.push_back({t_runtime, h, m});
	}
	bool ok = false;
	try {
		throw_chain(v, v.size());
	} catch (utki::exception& e) {
		auto l = lines(e.to_string(ind));
		MC_CHECK(l.size() == 3, "lines: %zu", l.size());
		for (unsigned i = 0; i != 3; ++i) {
			MC_CHECK(l[i] == ind + "std::runtime_error: " + v[2 - i].msg, "message of %u characters is changed", len);
		}
		ok = h == h_utki;
	} catch (std::exception& e) {
		auto l = lines(utki::to_string(e, ind));
		MC_CHECK(l.size() == 3, "lines: %zu", l.size());
		for (unsigned i = 0; i != 3; ++i) {
			MC_CHECK(starts(l[i], ind) && ends(l[i], ": " + v[2 - i].msg), "message of %u characters is changed", len);
		}
		ok = h == h_std;
	}
	MC_CHECK(ok, "caught as another type");
	steps(3);
	state(len * 2 + h);
}

// deep chains
MC_SUITE(deep_chains)
{
	unsigned n = choose(by_tier(40u, 120u)) + 1;
	unsigned kind = choose(3);
	std::vector<level> v;
	for (unsigned i = 0; i != n; ++i) {
		v.push_back({i % 2 ? t_logic : t_custom, kind == 0 ? h_std : h_utki, "level <" + std::to_string(i) + ">"});
		if (kind == 2 && i == 0) {
			v.back().t = t_unknown;
		}
	}
	// outermost type must not be the same as what differs
	check_chain(v, "\t");
	state(n * 4 + kind);
}

// deep chains with long messages
MC_SUITE(bulky_chains)
{
	unsigned n = 2 + 13 * choose(4);
	unsigned len = choose(2) ? 20000 : 3000;
	unsigned kind = choose(2);
	std::vector<level> v;
	for (unsigned i = 0; i != n; ++i) {
		v.push_back({i % 2 ? t_logic : t_custom, kind == 0 ? h_std : h_utki, "level " + std::to_string(i) + std::string(len, char('a' + i % 26)) + "!"});
	}
	check_chain(v, "  ");
	state(n * 4 + kind + len);
	note("%u levels, %u characters each", n, len);
}

namespace {
struct empty_nested : std::runtime_error, std::nested_exception {
	empty_nested() :
		std::runtime_error("with empty nested exception")
	{}
};
struct not_std_empty_nested : std::nested_exception {};
} // namespace

// exceptions with no cause, copies, rethrown ones
MC_SUITE(special)
{
	switch (choose(7)) {
		case 0: {
			bool thrown = false;
			try {
				utki::current_exception_to_string();
			} catch (std::logic_error&) {
				thrown = true;
			}
			MC_CHECK(thrown, "no current exception");
			break;
		}
		case 1:
			try {
				throw empty_nested();
			} catch (std::exception& e) {
				auto s = utki::to_string(e, "  ");
				MC_CHECK(ends(s, ": with empty nested exception") && lines(s).size() == 1, "empty nested: %s", quote(s).c_str());
			}
			break;
		case 2:
			try {
				throw not_std_empty_nested();
			} catch (...) {
				auto s = utki::current_exception_to_string("  ");
				MC_CHECK(starts(s, "  ") && lines(s).size() == 1, "empty nested: %s", quote(s).c_str());
			}
			break;
		case 3: {
			// kept after the handler is left
			std::exception_ptr p;
			try {
				throw_chain({{t_unknown, h_std, ""}, {t_logic, h_utki, "first"}, {t_custom, h_utki, "second"}}, 3);
			} catch (...) {
				p = std::current_exception();
			}
			for (int i = 0; i != 3; ++i) {
				try {
					std::rethrow_exception(p);
				} catch (std::exception& e) {
					auto l = lines(e.what());
					MC_CHECK(l.size() == 4 && l[1] == "- probe::custom_error: second" && l[2] == "- std::logic_error: first" && l[3] == "- probe::unknown_object", "kept exception");
				}
			}
			break;
		}
		case 4: {
			// not being handled at the moment
			std::logic_error e("stored");
			MC_CHECK(utki::to_string(static_cast<const std::exception&>(e), "> ") == "> std::logic_error: stored", "stored exception");
			std::bad_alloc b;
			MC_CHECK(starts(utki::to_string(static_cast<const std::exception&>(b)), "std::bad_alloc: "), "bad_alloc");
			break;
		}
		case 5: {
			// one exception handled inside of the handling of another
			try {
				throw 5;
			} catch (...) {
				auto before = utki::current_exception_to_string("a");
				try {
					throw_chain({{t_logic, h_std, "x"}, {t_unknown, h_std, ""}}, 2);
				} catch (...) {
					auto s = utki::current_exception_to_string("b");
					MC_CHECK(lines(s).size() == 2 && ends(lines(s)[1], "std::logic_error: x"), "inner: %s", quote(s).c_str());
				}
				MC_CHECK(before == "aint" && utki::current_exception_to_string("a") == before, "outer: %s", quote(before).c_str());
			}
			break;
		}
		case 6: {
			// empty message
			try {
				throw_chain({{t_logic, h_std, ""}, {t_runtime, h_utki, ""}}, 2);
			} catch (utki::exception& e) {
				MC_CHECK(e.to_string("") == "std::runtime_error: \nstd::logic_error: ", "empty messages: %s", quote(e.to_string("")).c_str());
			}
			break;
		}
	}
	steps();
	state(1);
}

namespace probe {
template <class T>
struct templ {
	struct inner {};
};
enum class e_type {};
void func(int, const char*) {}
struct base {
	virtual ~base() = default;
};
struct derived : base {};
} // namespace probe

MC_SUITE(type_names)
{
	auto is = [](const std::type_info& t, const char* e) {
		auto s = utki::demangle(t);
		MC_CHECK(s == e, "demangled as %s, expected %s", s.c_str(), e);
		steps();
	};
	state(choose(2));
	is(typeid(int), "int");
	is(typeid(unsigned char), "unsigned char");
	is(typeid(const char*), "char const*");
	is(typeid(probe::templ<int>), "probe::templ<int>");
	is(typeid(probe::templ<probe::templ<char*>>::inner), "probe::templ<probe::templ<char*> >::inner");
	is(typeid(probe::e_type), "probe::e_type");
	is(typeid(&probe::func), "void (*)(int, char const*)");
	is(typeid(std::runtime_error), "std::runtime_error");
	is(typeid(int[4]), "int [4]");
	is(typeid(void), "void");
	probe::derived d;
	probe::base& b = d;
	is(typeid(b), "probe::derived");
	is(typeid(std::pair<int, long>), "std::pair<int, long>");
}

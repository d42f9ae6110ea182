// C30: library calls made at the same time by different threads on their own data give what they give when made alone.
#include "mc.hpp"
#include "sched.hpp"

#include <array>
#include <exception>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <variant>
#include <vector>

#include <utki/base64.hpp>
#include <utki/deserializer.hpp>
#include <utki/enum_array.hpp>
#include <utki/enum_iterable.hpp>
#include <utki/exception.hpp>
#include <utki/flags.hpp>
#include <utki/linq.hpp>
#include <utki/math.hpp>
#include <utki/shared.hpp>
#include <utki/shared_ref.hpp>
#include <utki/signal.hpp>
#include <utki/sort.hpp>
#include <utki/span.hpp>
#include <utki/string.hpp>
#include <utki/tree.hpp>
#include <utki/unicode.hpp>
#include <utki/unique_ref.hpp>
#include <utki/utility.hpp>
#include <utki/variant.hpp>
#include <utki/version.hpp>
#include <utki/views.hpp>

using namespace mc;

namespace {
// each call is given a variant number, so that the two threads work on different data
struct call {
	const char* name;
	std::string (*f)(int v);
	const char* expected[2];
};

std::string hex(utki::span<const uint8_t> d)
{
	static const char* const digits = "0123456789abcdef";
	std::string r;
	for (auto b : d) {
		r.push_back(digits[b >> 4]);
		r.push_back(digits[b & 15]);
	}
	return r;
}

std::string num(unsigned long long x)
{
	std::string r;
	do {
		r.insert(r.begin(), char('0' + x % 10));
		x /= 10;
	} while (x);
	return r;
}

enum class item : uint8_t { a, b, c, d, e, enum_size };

struct error_a : public std::runtime_error {
	using std::runtime_error::runtime_error;
};

struct node_base : public utki::shared {
	virtual int get() const
	{
		return 1;
	}
};
struct node : public node_base {
	int x;
	node(int x) :
		x(x)
	{}
	int get() const override
	{
		return this->x;
	}
	bool operator==(const node& o) const
	{
		return x == o.x;
	}
};

std::string after(const std::string& s, const char* what)
{
	return s.find(what) == std::string::npos ? std::string("no ") + what + " in: " + s : std::string(what);
}

const call calls[] = {
	{"to_utf32",
	 [](int v) {
		 auto s = utki::to_utf32(std::string(v ? "a\xc3\xa9\xe2\x82\xac" : "\xf0\x9f\x98\x80zz"));
		 std::string r;
		 for (auto c : s) {
			 r += num(c) + ",";
		 }
		 return r;
	 },
	 {"128512,122,122,", "97,233,8364,"}},
	{"to_utf32(c-string)",
	 [](int v) {
		 std::string r;
		 for (utki::utf8_iterator i(v ? "\xe2\x82\xac" : "xy"); !i.is_end(); ++i) {
			 r += num(i.character()) + ",";
		 }
		 return r;
	 },
	 {"120,121,", "8364,"}},
	{"to_utf8",
	 [](int v) {
		 return utki::to_utf8(std::u32string(v ? U"\u20ac" : U"ab\u00e9")) + "/" + std::string(utki::to_utf8(v ? U'\u0416' : U'q').data());
	 },
	 {"ab\xc3\xa9/q", "\xe2\x82\xac/\xd0\x96"}},
	{"base64_decode",
	 [](int v) {
		 auto d = utki::base64_decode(v ? "/+8=" : "SGVsbG8");
		 return hex(utki::make_span(d));
	 },
	 {"48656c6c6f", "ffef"}},
	{"base64_decode(bad)",
	 [](int v) {
		 try {
			 auto d = utki::base64_decode(v ? "QUJD\x80QUJ" : "QUJDRE*G");
			 return std::string("ok");
		 } catch (const std::invalid_argument& e) {
			 return std::string("ok");
		 }
	 },
	 {"ok", "ok"}},
	{"serialize",
	 [](int v) {
		 std::array<uint8_t, 14> b{};
		 auto p = utki::serialize16le(v ? 0x1234 : 0xabcd, b.data());
		 p = utki::serialize32be(v ? 0xdeadbeef : 0x01020304, p);
		 p = utki::serialize64le(v ? 5 : 0x1122334455667788ull, p);
		 return hex(utki::make_span(b)) + num(utki::deserialize16le(b.data())) + "," + num(utki::deserialize32be(b.data() + 2));
	 },
	 {"cdab01020304887766554433221143981,16909060", "3412deadbeef05000000000000004660,3735928559"}},
	{"deserializer",
	 [](int v) {
		 std::vector<uint8_t> d = v ? std::vector<uint8_t>{1, 2, 3, 4, 5} : std::vector<uint8_t>{'x', 'y', 9, 0, 7};
		 utki::deserializer ds(utki::make_span(d));
		 std::string r;
		 if (v) {
			 r += num(ds.read_uint32_be());
		 } else {
			 r += ds.read_string(2);
			 r += num(ds.read_uint16_le());
		 }
		 try {
			 ds.read_uint64_le();
		 } catch (const std::exception&) {
			 r += "!";
		 }
		 return r + num(ds.size());
	 },
	 {"xy9!1", "16909060!1"}},
	{"to_string(int)",
	 [](int v) {
		 return v ? utki::to_string(uint32_t(0xdeadbeef), utki::integer_base::hex) + utki::to_string(-17)
				  : utki::to_string(uint16_t(5), utki::integer_base::bin) + utki::to_string(uint64_t(777), utki::integer_base::oct);
	 },
	 {"0b10101411", "0xdeadbeef-17"}},
	{"read_number(int)",
	 [](int v) {
		 utki::string_parser p(v ? "  0x1f rest" : "-42,17");
		 if (v) {
			 auto x = p.read_number<uint32_t>();
			 return num(x) + std::string(p.get_view());
		 }
		 int x = p.read_number<int>();
		 p.skip_whitespaces_and_comma();
		 int y = p.read_number<int>();
		 return num(unsigned(-x)) + "+" + num(unsigned(y));
	 },
	 {"42+17", "31 rest"}},
	{"read_number(float)",
	 [](int v) {
		 utki::string_parser p(v ? "1.5e3z" : "-0.25 8");
		 double d = p.read_number<double>();
		 float f = v ? 0 : p.read_number<float>();
		 return std::string(d == (v ? 1500.0 : -0.25) && f == (v ? 0.0f : 8.0f) ? "yes" : "no") + std::string(p.get_view());
	 },
	 {"yes", "yesz"}},
	{"string_parser",
	 [](int v) {
		 utki::string_parser p(v ? "one two;three" : " k=v;rest");
		 std::string r;
		 if (v) {
			 r += std::string(p.read_word()) + "|";
			 p.skip_whitespaces();
			 r += std::string(p.read_chars_until(';')) + "|";
			 p.read_char();
			 r += std::string(p.read_word());
		 } else {
			 p.skip_whitespaces();
			 r += std::string(p.read_word_until('=')) + "|";
			 p.skip_inclusive_until(';');
			 r += std::string(p.get_view());
		 }
		 return r;
	 },
	 {"k|rest", "one|two|three"}},
	{"split+join",
	 [](int v) {
		 auto s = utki::split(std::string_view(v ? "a,b,,c" : "x y"), v ? ',' : ' ');
		 return num(s.size()) + utki::join(s, v ? ';' : '_');
	 },
	 {"2x_y", "4a;b;;c"}},
	{"split(words)",
	 [](int v) {
		 auto s = utki::split(std::string_view(v ? " p\tq  r\n" : "lone"));
		 std::string r;
		 for (auto& x : s) {
			 r += "<" + x + ">";
		 }
		 return r;
	 },
	 {"<lone>", "<p><q><r>"}},
	{"word_wrap",
	 [](int v) {
		 auto s = utki::word_wrap(v ? "aa bb cc" : "hello big world", v ? 5 : 9);
		 std::string r;
		 for (auto& x : s) {
			 r += "<" + x + ">";
		 }
		 return r;
	 },
	 {"<hello><big world>", "<aa><bb cc>"}},
	{"trim",
	 [](int v) {
		 std::string s(v ? "  \tw w " : "zz\n");
		 return "<" + std::string(utki::trim(s)) + "><" + std::string(utki::trim_front(s)) + ">" +
			 (utki::ends_with(s, v ? "w " : "\n") && utki::starts_with(s, v ? "  " : "zz") ? "+" : "-");
	 },
	 {"<zz><zz\n>+", "<w w><w w >+"}},
	{"make_string",
	 [](int v) {
		 return utki::make_string("%s-%d/%c", v ? "first" : "2nd", v ? 11 : -7, v ? 'x' : 'y') + utki::make_indentation(v ? 1 : 2, 3);
	 },
	 {"2nd--7/y      ", "first-11/x   "}},
	{"make_string(long)",
	 [](int v) {
		 // longer than any internal buffer
		 auto s = utki::make_string("%*d|", v ? 1500 : 1600, v ? 3 : 4);
		 return num(s.size()) + s.substr(s.size() - 4) + s.substr(0, 2);
	 },
	 {"1601  4|  ", "1501  3|  "}},
	{"cat",
	 [](int v) {
		 return utki::cat(v ? "q" : "ww", v ? 42 : 17, v ? '!' : '?', v ? 1.5 : 0.25);
	 },
	 {"ww17?0.25", "q42!1.5"}},
	{"exception text",
	 [](int v) {
		 try {
			 try {
				 throw error_a(v ? "cause one" : "reason two");
			 } catch (...) {
				 utki::throw_with_nested(std::logic_error(v ? "outer one" : "outer two"));
			 }
		 } catch (...) {
			 auto s = utki::current_exception_to_string();
			 return after(s, v ? "outer one" : "outer two") + ";" + after(s, v ? "cause one" : "reason two") + ";" +
				 after(s, "logic_error") + ";" + after(s, "error_a");
		 }
		 return std::string();
	 },
	 {"outer two;reason two;logic_error;error_a", "outer one;cause one;logic_error;error_a"}},
	{"tree",
	 [](int v) {
		 using tr = utki::tree<int>;
		 tr::container_type t = {tr(1, {tr(2), tr(3, {tr(4)})}), tr(5)};
		 auto w = utki::make_traversal(t);
		 auto i = w.begin();
		 ++i;
		 if (v) {
			 i = w.erase(i);
		 } else {
			 i = w.insert(i, tr(9));
		 }
		 std::string r;
		 for (auto& n : w) {
			 r += num(unsigned(n.value));
		 }
		 return r + "@" + num(unsigned(i->value));
	 },
	 {"192345@9", "1345@3"}},
	{"signal",
	 [](int v) {
		 utki::signal<int, std::string> s;
		 std::string r;
		 auto c = s.connect([&r](int x, std::string y) {
			 r += y + num(unsigned(x));
		 });
		 s.connect([&r](int x, std::string y) {
			 r += "+" + y;
		 });
		 s.emit(v + 1, v ? "one" : "zero");
		 s.disconnect(c);
		 s.emit(v, "last");
		 return r;
	 },
	 {"zero1+zero+last", "one2+one+last"}},
	{"flags",
	 [](int v) {
		 utki::flags<item> f(v ? item::b : item::e);
		 f.set(item::a).invert();
		 auto g = f | utki::flags<item>{item::a, item::c};
		 std::ostringstream o;
		 o << f << ' ' << (g ^ f) << (g.is_set() ? 'S' : 'n');
		 return o.str();
	 },
	 {"01110 00001n", "11100 00001n"}},
	{"enumeration",
	 [](int v) {
		 std::string r;
		 utki::enum_array<int, item> a{};
		 for (auto i : utki::enum_iterable_v<item>) {
			 a[i] = int(i) + v;
		 }
		 std::vector<int> o{7, 8, 9};
		 for (auto&& p : utki::views::zip(a, o)) {
			 r += num(unsigned(std::get<0>(p))) + num(unsigned(std::get<1>(p)));
		 }
		 return r;
	 },
	 {"071829", "172839"}},
	{"linq",
	 [](int v) {
		 struct el {
			 int x;
		 };
		 std::vector<el> a = v ? std::vector<el>{{5}, {2}, {8}, {1}} : std::vector<el>{{4}, {4}, {3}};
		 auto g = utki::linq(a)
					  .where([](const auto& e) {
						  return e.x != 8;
					  })
					  .order_by([](const auto& e) -> const auto& {
						  return e.x;
					  })
					  .select([](auto e) {
						  return e.x * 2;
					  })
					  .get();
		 std::string r;
		 for (int x : g) {
			 r += num(unsigned(x)) + ",";
		 }
		 return r;
	 },
	 {"6,8,8,", "2,4,10,"}},
	{"sort",
	 [](int v) {
		 std::vector<int> a = v ? std::vector<int>{3, 1, 2, 5, 4, 3} : std::vector<int>{9, 7, 8, 9, 1, 0, 2};
		 utki::sort(a.begin(), a.end(), [](int x, int y) {
			 return x < y;
		 });
		 std::string r;
		 for (int x : a) {
			 r += num(unsigned(x));
		 }
		 return r;
	 },
	 {"0127899", "123345"}},
	{"version",
	 [](int v) {
		 utki::version_duplet a{uint16_t(1 + v), 3}, b{uint16_t(1 + v), 4};
		 std::ostringstream o;
		 o << a << (a < b ? '<' : '>') << b;
		 return o.str();
	 },
	 {"1.3<1.4", "2.3<2.4"}},
	{"references",
	 [](int v) {
		 utki::shared_ref<node_base> r = utki::make_shared<node>(v ? 77 : 12);
		 auto c = utki::dynamic_reference_cast<node>(r);
		 auto w = utki::make_weak(r);
		 auto s = utki::make_shared_from(c.get());
		 auto u = utki::make_unique<std::string>(v ? "1" : "2");
		 return num(unsigned(s.get().get())) + (w.lock() ? "w" : "-") + u.get();
	 },
	 {"12w2", "77w1"}},
	{"scope_exit",
	 [](int v) {
		 std::string r;
		 {
			 utki::scope_exit a([&r, v] {
				 r += v ? "A" : "a";
			 });
			 utki::scope_exit b([&r] {
				 r += "b";
			 });
			 if (v) {
				 b.release();
			 }
		 }
		 return r;
	 },
	 {"ba", "A"}},
	{"variant+span",
	 [](int v) {
		 std::variant<int, std::string> x;
		 if (v) {
			 x = std::string("str");
		 } else {
			 x = 31;
		 }
		 auto s = std::visit(
			 utki::overloaded{
				 [](int i) {
					 return "i" + num(unsigned(i));
				 },
				 [](const std::string& s) {
					 return "s" + s;
				 }
			 },
			 x
		 );
		 auto sp = utki::make_span(s);
		 return utki::make_string(sp.subspan(1)) + (utki::deep_equals(sp, utki::make_span(s)) ? "=" : "#") + num(unsigned(utki::pow3(v + 2)));
	 },
	 {"31=8", "str=27"}},
};

// without optimisation everything is a function call, switch only at accesses to static memory then
#ifdef __OPTIMIZE__
constexpr bool optimized = true;
#else
constexpr bool optimized = false;
#endif

constexpr unsigned num_calls = sizeof(calls) / sizeof(calls[0]);

void pair(const sched::options& o, unsigned i, unsigned j, bool twice)
{
	std::string a, b, a2;
	note("%s together with %s", calls[i].name, calls[j].name);
	sched::run(
		o,
		{[&] {
			 a = calls[i].f(0);
			 if (twice) {
				 a2 = calls[j].f(0);
			 }
		 },
		 [&] {
			 b = calls[j].f(1);
		 }},
		nullptr,
		[&] {
			MC_CHECK(a == calls[i].expected[0], "%s gave %s instead of %s, while %s was called in another thread", calls[i].name, quote(a).c_str(), quote(calls[i].expected[0]).c_str(), calls[j].name);
			MC_CHECK(b == calls[j].expected[1], "%s gave %s instead of %s, while %s was called in another thread", calls[j].name, quote(b).c_str(), quote(calls[j].expected[1]).c_str(), calls[i].name);
			MC_CHECK(!twice || a2 == calls[j].expected[0], "%s gave %s instead of %s, while %s was called in another thread", calls[j].name, quote(a2).c_str(), quote(calls[j].expected[0]).c_str(), calls[j].name);
		}
	);
}
} // namespace

namespace {
// objects which are only read, by both threads
struct shared_data {
	std::exception_ptr stacked;
	std::exception_ptr deep;
	utki::tree<int> tree = utki::tree<int>(1, {utki::tree<int>(2, {utki::tree<int>(3)}), utki::tree<int>(4)});
	utki::flags<item> flags{item::b, item::d};
	utki::shared_ref<node> ref = utki::make_shared<node>(77);
	utki::unique_ref<std::string> uref = utki::make_unique<std::string>("uuu");
	std::vector<int> ints{5, 3, 9};
	std::vector<std::string> words{"one", "to", "three"};
	utki::string_parser parser{"one 2"};
	utki::signal<int> signal;
	utki::enum_array<int, item> array{};
	std::array<uint8_t, 4> bytes{{1, 2, 3, 4}};
	utki::deserializer des{bytes};

	shared_data()
	{
		this->array[item::c] = 6;
		try {
			try {
				throw error_a("inner");
			} catch (...) {
				utki::throw_with_nested(std::logic_error("outer"));
			}
		} catch (...) {
			this->stacked = std::current_exception();
		}
		try {
			try {
				std::rethrow_exception(this->stacked);
			} catch (...) {
				utki::throw_with_nested(std::runtime_error("top"));
			}
		} catch (...) {
			this->deep = std::current_exception();
		}
	}
};

template <class func>
std::string with_exception(const std::exception_ptr& p, func f)
{
	try {
		std::rethrow_exception(p);
	} catch (utki::exception& e) {
		return f(e);
	} catch (...) {
	}
	return "not caught";
}

struct reading {
	const char* name;
	std::string (*f)(const shared_data& d);
};

const reading readings[] = {
	{"what()",
	 [](const shared_data& d) {
		 return with_exception(d.stacked, [](utki::exception& e) {
			 const char* t = e.what();
			 std::string r(t);
			 return r + "#" + e.what() + "#" + t;
		 });
	 }},
	{"what() of a deep chain",
	 [](const shared_data& d) {
		 return with_exception(d.deep, [](utki::exception& e) {
			 return std::string(e.what());
		 });
	 }},
	{"to_string() of an exception",
	 [](const shared_data& d) {
		 return with_exception(d.stacked, [](utki::exception& e) {
			 return e.to_string("  ");
		 });
	 }},
	{"copying of an exception",
	 [](const shared_data& d) {
		 return with_exception(d.stacked, [](utki::exception& e) {
			 auto s = dynamic_cast<utki::stacked_exception<std::logic_error>*>(&e);
			 if (!s) {
				 return std::string("other type");
			 }
			 auto copy = *s;
			 return std::string(copy.what());
		 });
	 }},
	{"tree",
	 [](const shared_data& d) {
		 auto t = utki::make_traversal(d.tree.children);
		 std::string r;
		 for (auto& n : t) {
			 r += num(unsigned(n.value));
		 }
		 std::vector<size_t> index{0, 0};
		 auto copy = d.tree;
		 return r + num(unsigned(t[index].value)) + (t.is_valid(index) ? "v" : "i") + (copy == d.tree ? "=" : "#");
	 }},
	{"flags",
	 [](const shared_data& d) {
		 auto f = ~d.flags;
		 return std::string(d.flags.get(item::b) ? "b" : "-") + (f[item::b] ? "b" : "-") + (d.flags.is_clear() ? "c" : "-") + num(d.flags.size());
	 }},
	{"references",
	 [](const shared_data& d) {
		 auto c = d.ref;
		 utki::shared_ref<node_base> b = d.ref;
		 auto w = utki::make_weak(d.ref);
		 auto s = utki::make_shared_from(d.ref.get());
		 return num(unsigned(c.get().get() + b.get().get())) + d.uref.get() + (w.lock() ? "l" : "e") + (s == c ? "=" : "#");
	 }},
	{"collections",
	 [](const shared_data& d) {
		 auto v = utki::linq(d.words)
					  .where([](const std::string& s) {
						  return s.size() > 2;
					  })
					  .get();
		 std::string r = utki::join(v, '.');
		 for (auto& i : utki::views::reverse(d.ints)) {
			 r += num(unsigned(i));
		 }
		 return r + num(unsigned(d.array[item::c])) + (utki::contains(d.ints, 9) ? "9" : "-") + num(utki::make_span(d.ints).size());
	 }},
	{"cursors",
	 [](const shared_data& d) {
		 auto p = d.parser;
		 auto e = d.des;
		 auto w = std::string(p.read_word());
		 return w + num(e.read_uint16_le()) + (d.parser.empty() ? "e" : "-") + (d.des.empty() ? "e" : "-") + num(d.signal.size());
	 }},
};

constexpr unsigned num_readings = sizeof(readings) / sizeof(readings[0]);
} // namespace

// both threads read the same objects, which nobody changes
MC_SUITE(shared_objects)
{
	where("concurrent reading");
	unsigned i = choose(num_readings);
	unsigned j = choose(num_readings);
	sched::options o;
	o.fine = true;
	o.entries = optimized;
	o.preemptions = by_tier(1, 2);
	o.spin_limit = 1000;
	o.step_limit = 1000000;
	note("%s together with %s", readings[i].name, readings[j].name);
	std::string expected[2];
	{
		shared_data d;
		expected[0] = readings[i].f(d);
		expected[1] = readings[j].f(d);
	}
	const shared_data d;
	std::string a, b;
	sched::run(
		o,
		{[&] {
			 a = readings[i].f(d);
		 },
		 [&] {
			 b = readings[j].f(d);
		 }},
		nullptr,
		[&] {
			MC_CHECK(a == expected[0], "%s gave %s instead of %s, while another thread was reading: %s", readings[i].name,
				quote(a).c_str(), quote(expected[0]).c_str(), readings[j].name);
			MC_CHECK(b == expected[1], "%s gave %s instead of %s, while another thread was reading: %s", readings[j].name,
				quote(b).c_str(), quote(expected[1]).c_str(), readings[i].name);
		}
	);
}

// the calls alone give what is expected (so that what follows is about concurrency)
MC_SUITE(alone)
{
	unsigned i = choose(num_calls);
	int v = int(choose(2));
	note("%s", calls[i].name);
	auto r = calls[i].f(v);
	MC_CHECK(r == calls[i].expected[v], "%s gave %s instead of %s", calls[i].name, quote(r).c_str(), quote(calls[i].expected[v]).c_str());
	steps();
	state(i * 2 + unsigned(v));
}

// the same call in both threads
MC_SUITE(same_call)
{
	where("concurrent calls");
	unsigned i = choose(num_calls);
	sched::options o;
	o.fine = true;
	o.entries = optimized;
	o.preemptions = by_tier(2, 3);
	o.spin_limit = 1000;
	o.step_limit = 1000000;
	pair(o, i, i, false);
}

// every two calls
MC_SUITE(pairs)
{
	where("concurrent calls");
	unsigned k = choose(num_calls * num_calls);
	sched::options o;
	o.fine = true;
	o.entries = optimized;
	o.preemptions = by_tier(1, 2);
	o.spin_limit = 1000;
	o.step_limit = 1000000;
	pair(o, k / num_calls, k % num_calls, true);
}

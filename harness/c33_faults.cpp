// C33: whatever step of an operation fails (allocation of memory, or copying, comparing or calling something which
// belongs to the user), the failure comes out to the caller and nothing is leaked, lost or damaged.
//
// Every allocation and every call to code of the user is a fault point. For each operation and each input all the fault
// points are failed in turn: only the k-th one, and all of them starting from the k-th.
#include <utki/base64.hpp>
#include <utki/deserializer.hpp>
#include <utki/exception.hpp>
#include <utki/linq.hpp>
#include <utki/shared.hpp>
#include <utki/shared_ref.hpp>
#include <utki/signal.hpp>
#include <utki/sort.hpp>
#include <utki/span.hpp>
#include <utki/string.hpp>
#include <utki/tree.hpp>
#include <utki/unicode.hpp>
#include <utki/unique_ref.hpp>
#include <utki/utility.hpp>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdlib>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

#include "mc.hpp"

using namespace mc;

// ---------------------------------------------------------------- fault injection

namespace {
// volatile, because compilers assume that operator new does not touch variables of the program
volatile bool armed = false; // fault points are live
volatile bool track = false; // count blocks of memory
volatile bool from_then_on = false; // all the fault points after the failed one fail too
volatile uint64_t fail_at = 0;
volatile uint64_t points = 0;
volatile bool fired = false;
volatile long blocks = 0;
// set when a fault is injected, visible in the parent process
volatile bool* shared_fired = nullptr;

struct injected {
	uint64_t n;
};

bool fault_point()
{
	if (!armed) {
		return false;
	}
	points = points + 1;
	if (from_then_on ? points >= fail_at : points == fail_at) {
		fired = true;
		if (shared_fired) {
			*shared_fired = true;
		}
		return true;
	}
	return false;
}

// fault point in code of the user
void user_fault_point()
{
	if (fault_point()) {
		throw injected{points};
	}
}

constexpr size_t header = 16;

void* get_memory(size_t n) noexcept
{
	if (fault_point()) {
		return nullptr;
	}
	auto p = static_cast<unsigned char*>(std::malloc(n + header));
	if (!p) {
		return nullptr;
	}
	p[0] = track ? 1 : 0;
	if (track) {
		blocks = blocks + 1;
	}
	return p + header;
}

void give_back(void* v) noexcept
{
	if (!v) {
		return;
	}
	auto p = static_cast<unsigned char*>(v) - header;
	if (p[0]) {
		blocks = blocks - 1;
	}
	std::free(p);
}
} // namespace

void* operator new(size_t n)
{
	if (auto p = get_memory(n)) {
		return p;
	}
	throw std::bad_alloc();
}

void* operator new[](size_t n)
{
	if (auto p = get_memory(n)) {
		return p;
	}
	throw std::bad_alloc();
}

void* operator new(size_t n, const std::nothrow_t&) noexcept
{
	return get_memory(n);
}

void* operator new[](size_t n, const std::nothrow_t&) noexcept
{
	return get_memory(n);
}

void operator delete(void* p) noexcept
{
	give_back(p);
}

void operator delete[](void* p) noexcept
{
	give_back(p);
}

void operator delete(void* p, size_t) noexcept
{
	give_back(p);
}

void operator delete[](void* p, size_t) noexcept
{
	give_back(p);
}

void operator delete(void* p, const std::nothrow_t&) noexcept
{
	give_back(p);
}

void operator delete[](void* p, const std::nothrow_t&) noexcept
{
	give_back(p);
}

namespace {

// value of the user: making, copying and comparing it can fail, moving can not
struct item {
	static long alive;
	const item* self;
	int v;

	item(int v = 0) :
		self(this),
		v(v)
	{
		user_fault_point();
		++alive;
	}

	item(const item& i) :
		self(this),
		v(i.v)
	{
		i.check();
		user_fault_point();
		++alive;
	}

	item(item&& i) noexcept :
		self(this),
		v(i.v)
	{
		i.check();
		i.v = -1;
		++alive;
	}

	item& operator=(const item& i)
	{
		check();
		i.check();
		user_fault_point();
		v = i.v;
		return *this;
	}

	item& operator=(item&& i) noexcept
	{
		check();
		i.check();
		auto n = i.v;
		i.v = -1;
		v = n;
		return *this;
	}

	~item()
	{
		check();
		self = nullptr;
		--alive;
	}

	void check() const
	{
		if (self != this) {
			armed = false;
			MC_CHECK(false, "an object which is not alive was used");
		}
	}

	bool operator==(const item& i) const
	{
		check();
		i.check();
		user_fault_point();
		return v == i.v;
	}

	bool operator<(const item& i) const
	{
		check();
		i.check();
		user_fault_point();
		return v < i.v;
	}
};

long item::alive = 0;

struct disarm {
	~disarm()
	{
		armed = false;
	}
};

enum result { finished, failed };

// what the fault points of the current attempt have to do
struct attempt_t {
	const char* name;
	uint64_t k;
	bool all;

	// perform the operation under test
	template <class func>
	result operator()(func f) const
	{
		where(name, k, all);
		bool got = false;
		points = 0;
		fired = false;
		fail_at = k;
		from_then_on = all;
		try {
			disarm d;
			armed = true;
			f();
		} catch (const std::bad_alloc&) {
			got = true;
		} catch (const injected&) {
			got = true;
		} catch (const std::exception& e) {
			MC_CHECK(false, "%s: fault number %d (%s): other exception came out than that which was thrown: %s",
				name, int(k), all ? "and all later" : "only", e.what());
		} catch (...) {
			MC_CHECK(false, "%s: fault number %d (%s): other exception came out than that which was thrown",
				name, int(k), all ? "and all later" : "only");
		}
		MC_CHECK(fired || !got, "%s: exception without a fault", name);
		steps();
		return got ? failed : finished;
	}
};

// Perform the scenario for each possible fault. The scenario leaves nothing behind.
template <class func>
void each_fault(const char* name, func scenario)
{
	bool all = choose(2);
	note("%s, %s\n", name, all ? "all the steps fail starting from the k-th" : "only the k-th step fails");
	{
		// what is made once and kept does not count as leaked
		attempt_t none{name, ~uint64_t(0), false};
		scenario(none);
	}
	for (uint64_t k = 1;; ++k) {
		attempt_t a{name, k, all};
		long items_before = item::alive;
		track = true;
		blocks = 0;
		fired = false;
		bool was_fired = false;
		scenario(a);
		was_fired = fired;
		track = false;
		MC_CHECK(item::alive == items_before, "%s: fault number %d (%s): %ld objects of the user were leaked",
			name, int(k), all ? "and all later" : "only", item::alive - items_before);
		MC_CHECK(blocks == 0, "%s: fault number %d (%s): %ld blocks of memory were leaked",
			name, int(k), all ? "and all later" : "only", blocks);
		state(hasher().add(hash_str(name)).add(k).add(all).h);
		if (!was_fired) {
			break;
		}
		MC_CHECK(k < 100000, "%s: harness: too many fault points", name);
	}
}

// Operation which only gives a value: either that value or the failure, and it can be repeated.
template <class func, class value>
void each_fault_of_function(const char* name, func f, bool (*acceptable)(const value&))
{
	const value expected = f();
	each_fault(name, [&](const attempt_t& attempt) {
		std::optional<value> got;
		auto r = attempt([&]() {
			got.emplace(f());
		});
		MC_CHECK(r == failed || *got == expected || acceptable(*got),
			"%s: fault number %d (%s): value is wrong and there was no exception", name, int(attempt.k),
			attempt.all ? "and all later" : "only");
		got.reset();
		MC_CHECK(f() == expected, "%s: fault number %d: value is wrong after an earlier failure", name, int(attempt.k));
	});
}

template <class func>
void each_fault_of_function(const char* name, func f)
{
	using value = decltype(f());
	each_fault_of_function<func, value>(name, f, [](const value&) {
		return false;
	});
}

const size_t sizes_q[] = {0, 1, 2, 5, 16, 33, 600, 1100, 2500};
const size_t sizes_t[] = {0, 1, 2, 3, 4, 5, 8, 15, 16, 17, 31, 32, 33, 64, 511, 512, 513, 600, 1020, 1021, 1025, 1100, 2500, 5000};

size_t choose_size()
{
	return thorough() ? pick(sizes_t) : pick(sizes_q);
}

std::string text(size_t n)
{
	std::string s;
	for (size_t i = 0; i != n; ++i) {
		s += i % 7 == 6 ? ' ' : i % 19 == 17 ? '\n' : char('a' + i % 26);
	}
	return s;
}

std::string call_make_string_va(const char* f, ...)
{
	va_list args;
	va_start(args, f);
	struct ender {
		va_list& a;
		~ender()
		{
			va_end(a);
		}
	} e{args};
	return utki::make_string_va_list(f, args);
}

// result of a call which may throw an exception which is not a fault
template <class func>
std::string refusal(func f)
{
	try {
		f();
	} catch (const std::bad_alloc&) {
		throw;
	} catch (const injected&) {
		throw;
	} catch (const std::exception& e) {
		// description of the exception may have any text
		return "refused";
	}
	return "accepted";
}
} // namespace

// ---------------------------------------------------------------- strings

MC_SUITE(text_functions)
{
	auto what = choose(16);
	auto n = choose_size();
	const std::string s = text(n);
	switch (what) {
		case 0:
			each_fault_of_function("split(spaces)", [&]() {
				return utki::split(s);
			});
			break;
		case 1:
			each_fault_of_function("split(delimiter)", [&]() {
				return utki::split(std::string_view(s), 'c');
			});
			break;
		case 2:
			each_fault_of_function("word_wrap", [&]() {
				return utki::word_wrap(s, 9);
			});
			break;
		case 3:
			each_fault_of_function("make_string(format)", [&]() {
				return utki::make_string("%s, %d", s.c_str(), 13);
			});
			break;
		case 4:
			each_fault_of_function("make_string_va_list", [&]() {
				return call_make_string_va("[%s]%d", s.c_str(), 13);
			});
			break;
		case 5:
			each_fault_of_function("make_indentation", [&]() {
				return utki::make_indentation(unsigned(n), 3) + utki::make_indentation(unsigned(n), 0);
			});
			break;
		case 6:
			each_fault_of_function("cat", [&]() {
				return utki::cat(s, 13, 'c', std::string_view(s), "end");
			});
			break;
		case 7: {
			std::vector<std::string> parts(n < 40 ? n : 40, s);
			each_fault_of_function("join", [&]() {
				return utki::join(parts, ',');
			});
			break;
		}
		case 8:
			each_fault_of_function("to_string(number)", [&]() {
				return utki::to_string(uint64_t(0) - n, utki::integer_base::bin);
			});
			break;
		case 9:
			each_fault_of_function("to_utf32(text)", [&]() {
				return utki::to_utf32(s);
			});
			break;
		case 10: {
			std::u32string u;
			for (size_t i = 0; i != n; ++i) {
				u += char32_t(1 << (i % 21));
			}
			each_fault_of_function("to_utf8", [&]() {
				return utki::to_utf8(u);
			});
			break;
		}
		case 11:
			each_fault_of_function("to_utf32(bytes)", [&]() {
				return utki::to_utf32(utki::span<const uint8_t>(reinterpret_cast<const uint8_t*>(s.data()), s.size()));
			});
			break;
		case 12: {
			std::string b;
			for (size_t i = 0; i != n; ++i) {
				b += char('A' + i % 26);
			}
			while (b.size() % 4 == 1) {
				b.pop_back();
			}
			each_fault_of_function("base64_decode", [&]() {
				return utki::base64_decode(b);
			});
			break;
		}
		case 13:
			each_fault_of_function("base64_decode(malformed)", [&]() {
				return refusal([&]() {
					utki::base64_decode(s + "=A!");
				});
			});
			break;
		case 14:
			each_fault_of_function("make_vector", [&]() {
				return utki::make_vector(utki::make_span(s));
			});
			break;
		default:
			each_fault_of_function("make_string(span)", [&]() {
				return utki::make_string(utki::make_span(s));
			});
			break;
	}
}

MC_SUITE(text_of_other_characters)
{
	auto n = choose_size();
	if (n > 40) {
		n = 40;
	}
	std::u16string s;
	for (size_t i = 0; i != n; ++i) {
		s += char16_t(i % 5 == 3 ? ' ' : 0x400 + i);
	}
	if (choose(2)) {
		each_fault_of_function("split(delimiter) char16_t", [&]() {
			return utki::split(std::u16string_view(s), u' ');
		});
	} else {
		std::vector<std::wstring> w(n, std::wstring(n, L'w'));
		each_fault_of_function("join wchar_t", [&]() {
			return utki::join(w, L',');
		});
	}
}

// ---------------------------------------------------------------- reading

MC_SUITE(failing_reads)
{
	auto n = choose(6);
	const std::string s = std::string("12345xyz").substr(0, n);
	if (choose(2)) {
		static const char* names[] = {"read_char", "peek_char", "peek_char(n)", "read_number<int>", "read_number<uint8_t>",
			"read_number<double>", "read_number<float>"};
		auto op = choose(7);
		each_fault(names[op], [&](const attempt_t& attempt) {
			utki::string_parser p(s);
			std::optional<double> got;
			bool refused = false;
			auto call = [&]() {
				try {
					switch (op) {
						case 0:
							got = p.read_char();
							break;
						case 1:
							got = p.peek_char();
							break;
						case 2:
							got = p.peek_char(4);
							break;
						case 3:
							got = p.read_number<int>();
							break;
						case 4:
							got = p.read_number<uint8_t>();
							break;
						case 5:
							got = p.read_number<double>();
							break;
						default:
							got = p.read_number<float>();
							break;
					}
				} catch (const std::invalid_argument&) {
					refused = true;
				}
			};
			attempt(call);
			if (!got) {
				MC_CHECK(p.get_view() == s, "%s: position has changed by a failed read", names[op]);
			}
			refused = false;
			got.reset();
			p = utki::string_parser(s);
			call();
			MC_CHECK(got || (refused && p.get_view() == s), "%s: harness", names[op]);
		});
	} else {
		static const char* names[] = {"read_string", "read_span", "read_uint8", "read_uint16_le", "read_uint32_be",
			"read_uint64_le", "read_float_le", "skip"};
		auto op = choose(8);
		each_fault(names[op], [&](const attempt_t& attempt) {
			utki::deserializer d(utki::span<const uint8_t>(reinterpret_cast<const uint8_t*>(s.data()), s.size()));
			bool done = false;
			attempt([&]() {
				try {
					switch (op) {
						case 0:
							d.read_string(4);
							break;
						case 1:
							d.read_span(4);
							break;
						case 2:
							d.read_uint8();
							break;
						case 3:
							d.read_uint16_le();
							break;
						case 4:
							d.read_uint32_be();
							break;
						case 5:
							d.read_uint64_le();
							break;
						case 6:
							d.read_float_le();
							break;
						default:
							d.skip(4);
							break;
					}
					done = true;
				} catch (const std::invalid_argument&) {
				}
			});
			if (!done) {
				MC_CHECK(d.size() == s.size(), "%s: position has changed by a failed read", names[op]);
				if (!s.empty()) {
					MC_CHECK(d.read_uint8() == '1', "%s: position has changed by a failed read", names[op]);
				}
			}
		});
	}
}

// ---------------------------------------------------------------- trees

namespace {
template <class tree_type>
void append_shape(std::string& s, const typename tree_type::container_type& list)
{
	s += '(';
	for (const auto& t : list) {
		t.value.check();
		s += std::to_string(t.value.v);
		if (!t.children.empty()) {
			append_shape<tree_type>(s, t.children);
		} else {
			s += ' ';
		}
	}
	s += ')';
}

// forest with n children on each node of each of the levels
template <class tree_type>
typename tree_type::container_type make_forest(unsigned n, unsigned depth, int& counter)
{
	typename tree_type::container_type ret;
	for (unsigned i = 0; i != n; ++i) {
		ret.push_back(tree_type(item(++counter)));
		if (depth > 1) {
			ret.back().children = make_forest<tree_type>(n, depth - 1, counter);
		}
	}
	return ret;
}

template <class tree_type>
void tree_modifications(unsigned n, unsigned depth)
{
	using list_type = typename tree_type::container_type;
	using traversal_type = utki::traversal<list_type>;

	int counter = 0;
	const list_type origin = make_forest<tree_type>(n, depth, counter);

	unsigned op = choose(5);
	unsigned where_to = choose(unsigned(counter));
	bool spare = choose(2); // there is memory for one more node already

	auto prepare = [&](list_type& f) {
		f = origin;
		if constexpr (std::is_same_v<list_type, std::vector<tree_type>>) {
			if (spare) {
				f.reserve(f.size() + 1);
				for (auto& t : f) {
					t.children.reserve(t.children.size() + 1);
				}
			}
		}
	};
	auto shape = [](const list_type& f) {
		std::string s;
		append_shape<tree_type>(s, f);
		return s;
	};

	auto perform = [&](traversal_type t, typename traversal_type::iterator i, const tree_type& node, tree_type& movable) {
		switch (op) {
			case 0:
				t.insert(std::move(i), node);
				break;
			case 1:
				t.insert(std::move(i), std::move(movable));
				break;
			case 2:
				t.insert_after(std::move(i), node);
				break;
			case 3:
				t.insert_after(std::move(i), std::move(movable));
				break;
			default:
				t.erase(std::move(i));
				break;
		}
	};

	const tree_type node(item(100), {tree_type(item(101)), tree_type(item(102), {tree_type(item(103))})});

	static const char* names[] = {"tree insert(const&)", "tree insert(&&)", "tree insert_after(const&)",
		"tree insert_after(&&)", "tree erase"};

	const std::string before = shape(origin);
	std::string after;
	{
		list_type f;
		prepare(f);
		tree_type movable = node;
		traversal_type t(f);
		auto i = t.begin();
		std::advance(i, where_to);
		perform(t, i, node, movable);
		after = shape(f);
	}
	std::string node_before;
	append_shape<tree_type>(node_before, {node});

	each_fault(names[op], [&](const attempt_t& attempt) {
		list_type f;
		prepare(f);
		tree_type movable = node;
		traversal_type t(f);
		auto i = t.begin();
		std::advance(i, where_to);
		auto r = attempt([&]() {
			perform(t, i, node, movable);
		});
		auto now = shape(f);
		MC_CHECK(now == after || (r == failed && now == before),
			"%s: fault number %d (%s): tree %s turned into %s, what was to be done gives %s", names[op], int(attempt.k),
			attempt.all ? "and all later" : "only", before.c_str(), now.c_str(), after.c_str());
		std::string node_now;
		append_shape<tree_type>(node_now, {node});
		MC_CHECK(node_now == node_before, "%s: the node to copy from has changed", names[op]);
		if (now == before) {
			// the same goes well later
			movable = node;
			auto j = t.begin();
			std::advance(j, where_to);
			perform(t, j, node, movable);
			MC_CHECK(shape(f) == after, "%s: wrong result after an earlier failure", names[op]);
		}
	});
}

template <class tree_type>
void tree_building(unsigned n, unsigned depth)
{
	using list_type = typename tree_type::container_type;
	int counter = 0;
	const list_type origin = make_forest<tree_type>(n, depth, counter);
	auto shape = [](const list_type& f) {
		std::string s;
		append_shape<tree_type>(s, f);
		return s;
	};
	const std::string before = shape(origin);
	static const char* names[] = {"tree copy construction", "tree copy assignment", "tree(value, children)",
		"tree(children)", "tree(value, list of children)", "tree traversal there and back", "tree traversal by index",
		"tree comparison with a value"};
	unsigned op = choose(8);
	each_fault(names[op], [&](const attempt_t& attempt) {
		std::optional<tree_type> made;
		std::string expected;
		std::string got;
		list_type mutable_copy = origin;
		tree_type target(item(200), {tree_type(item(201))});
		result r = finished;
		switch (op) {
			case 0:
				r = attempt([&]() {
					list_type f = origin;
					disarm d;
					got = shape(f);
				});
				expected = before;
				break;
			case 1: {
				tree_type source(item(300), origin);
				r = attempt([&]() {
					target = source;
				});
				expected = shape({source});
				got = shape({target}); // valid in any case
				break;
			}
			case 2:
				r = attempt([&]() {
					made.emplace(item(1), origin);
				});
				expected = shape({tree_type(item(1), origin)});
				break;
			case 3:
				r = attempt([&]() {
					made.emplace(origin);
				});
				expected = shape({tree_type(origin)});
				break;
			case 4:
				r = attempt([&]() {
					made.emplace(tree_type(item(1), {tree_type(item(2)), tree_type(item(3), {tree_type(item(4))})}));
				});
				expected = "(1(2 3(4 )))";
				break;
			case 5: {
				utki::traversal<list_type> t(mutable_copy);
				int sum = 0;
				r = attempt([&]() {
					auto i = t.begin();
					for (; i != t.end(); ++i) {
						sum += i->value.v;
					}
					while (i != t.begin()) {
						--i;
						sum += i->value.v;
					}
				});
				expected = std::to_string(counter * (counter + 1));
				got = std::to_string(sum);
				break;
			}
			case 6:
				if constexpr (std::is_same_v<list_type, std::vector<tree_type>>) {
					utki::traversal<list_type> t(mutable_copy);
					int sum = 0;
					r = attempt([&]() {
						for (auto i = t.begin(); i != t.end(); ++i) {
							auto index = i.index();
							auto j = t.make_iterator(index);
							if (j == i && t.is_valid(index)) {
								sum += t[index].value.v;
							}
							const auto& c = t;
							auto k = c.make_const_iterator(index);
							sum += k->value.v;
						}
					});
					expected = std::to_string(counter * (counter + 1));
					got = std::to_string(sum);
				}
				break;
			default:
				r = attempt([&]() {
					int sum = 0;
					for (const auto& t : origin) {
						sum += t == item(1);
					}
					disarm d;
					got = std::to_string(sum);
				});
				expected = std::to_string(origin.empty() ? 0 : 1);
				break;
		}
		if (made) {
			got = shape({*made});
		}
		MC_CHECK(r == failed || got == expected, "%s: fault number %d: %s instead of %s", names[op], int(attempt.k),
			got.c_str(), expected.c_str());
		MC_CHECK(shape(origin) == before, "%s: source has changed", names[op]);
		MC_CHECK(shape(mutable_copy) == before, "%s: collection has changed", names[op]);
	});
}
} // namespace

MC_SUITE(trees)
{
	unsigned n = choose(3) + 1;
	unsigned depth = choose(by_tier(2u, 3u)) + 1;
	bool build = choose(2);
	switch (choose(3)) {
		case 0:
			build ? tree_building<utki::tree<item>>(n, depth) : tree_modifications<utki::tree<item>>(n, depth);
			break;
		case 1:
			build ? tree_building<utki::tree<item, std::list>>(n, depth)
				  : tree_modifications<utki::tree<item, std::list>>(n, depth);
			break;
		default:
			// moving a deque allocates memory, so with a deque not even the collection itself stays intact
			if (build) {
				tree_building<utki::tree<item, std::deque>>(n, depth);
			}
			break;
	}
}

// ---------------------------------------------------------------- signals

namespace {
struct callback {
	item i;
	std::vector<int>* log;
	int pad[8] = {};
	void operator()(item a, const item& b)
	{
		user_fault_point();
		i.check();
		disarm_log(a.v, b.v);
	}
	void disarm_log(int a, int b)
	{
		bool was = armed;
		armed = false;
		log->push_back(i.v * 100 + a * 10 + b);
		armed = was;
	}
};

struct no_asserts_on_exit {
	utki::signal<item, const item&>& s;
	std::vector<utki::signal<item, const item&>::connection>& c;
	~no_asserts_on_exit()
	{
		for (auto& i : c) {
			s.disconnect(i);
		}
	}
};
} // namespace

MC_SUITE(signals)
{
	using signal = utki::signal<item, const item&>;
	unsigned n = choose(by_tier(4u, 7u));
	bool connecting = choose(2);
	each_fault(connecting ? "signal connect" : "signal emit", [&](const attempt_t& attempt) {
		std::vector<int> log;
		log.reserve(100);
		signal s;
		std::vector<signal::connection> connections;
		no_asserts_on_exit g{s, connections};
		connections.reserve(20);
		for (unsigned i = 0; i != n; ++i) {
			connections.push_back(s.connect(callback{item(int(i) + 1), &log}));
		}
		item one(1);
		item two(2);
		std::vector<int> expected;
		for (unsigned i = 0; i != n; ++i) {
			expected.push_back((int(i) + 1) * 100 + 12);
		}
		if (connecting) {
			callback c{item(7), &log};
			std::optional<signal::connection> got;
			auto r = attempt([&]() {
				got = s.connect(c);
			});
			MC_CHECK((r == finished) == bool(got), "harness");
			if (got) {
				connections.push_back(*got);
				expected.push_back(712);
			}
			MC_CHECK(s.size() == connections.size(), "signal connect: fault number %d: %d callbacks instead of %d",
				int(attempt.k), int(s.size()), int(connections.size()));
		} else {
			auto r = attempt([&]() {
				s.emit(one, two);
			});
			MC_CHECK(s.size() == n, "signal emit: fault number %d: callbacks got lost", int(attempt.k));
			MC_CHECK(log.size() <= n && std::equal(log.begin(), log.end(), expected.begin()),
				"signal emit: fault number %d: wrong calls", int(attempt.k));
			MC_CHECK(r == failed || log == expected, "signal emit: fault number %d: calls got lost", int(attempt.k));
			log.clear();
		}
		s.emit(one, two);
		MC_CHECK(log == expected, "signal: wrong calls after an earlier failure");
		MC_CHECK(one.v == 1 && two.v == 2, "signal: arguments have changed");
	});
}

// ---------------------------------------------------------------- objects

namespace {
struct with_number {
	virtual ~with_number() = default;
	virtual int number() const = 0;
};

struct base : virtual utki::shared, with_number {};

template <class parent>
struct derived_of : parent {
	item a;
	std::string s;
	item b;
	derived_of(const item& a, const std::string& s, item b) :
		a(a),
		s(s),
		b(std::move(b))
	{
		user_fault_point();
	}
	int number() const override
	{
		return a.v * 1000 + int(s.size()) * 10 + b.v;
	}
};

using derived = derived_of<base>;
using owned = derived_of<with_number>;
} // namespace

MC_SUITE(owned_objects)
{
	auto op = choose(4);
	auto n = choose_size();
	if (n > 40) {
		n = 40;
	}
	const std::string s = text(n);
	static const char* names[] = {"make_shared", "make_unique", "make_shared, copies and casts", "shared_from"};
	each_fault(names[op], [&](const attempt_t& attempt) {
		const item a(1);
		const item b(2);
		int got = 0;
		const int expected = 1000 + int(n) * 10 + 2;
		result r = finished;
		switch (op) {
			case 0:
				r = attempt([&]() {
					utki::shared_ref<base> p = utki::make_shared<derived>(a, s, b);
					got = p.get().number();
				});
				break;
			case 1:
				r = attempt([&]() {
					utki::unique_ref<with_number> p = utki::make_unique<owned>(a, s, b);
					got = p.get().number();
				});
				break;
			case 2:
				r = attempt([&]() {
					auto p = utki::make_shared<derived>(a, s, b);
					std::vector<utki::shared_ref<base>> v;
					v.push_back(p);
					v.push_back(p);
					v.push_back(utki::make_shared<derived>(a, s, b));
					auto q = utki::dynamic_reference_cast<derived>(v.front());
					got = q.to_shared_ptr() == p.to_shared_ptr() ? v.back().get().number() : 0;
				});
				break;
			default:
				r = attempt([&]() {
					auto p = utki::make_shared<derived>(a, s, b);
					std::vector<std::weak_ptr<derived>> v;
					v.push_back(utki::make_weak(p));
					v.push_back(utki::make_weak_from(p.get()));
					auto q = utki::make_shared_from(p.get());
					got = v.back().lock() == p.to_shared_ptr() ? q.get().number() : 0;
				});
				break;
		}
		MC_CHECK(r == failed || got == expected, "%s: fault number %d: %d instead of %d", names[op], int(attempt.k), got,
			expected);
		MC_CHECK(a.v == 1 && b.v == 2, "%s: arguments have changed", names[op]);
	});
}

// ---------------------------------------------------------------- collections

namespace {
std::string values(const std::vector<item>& v)
{
	std::string s;
	for (const auto& i : v) {
		i.check();
		s += std::to_string(i.v) + " ";
	}
	return s;
}

struct by_value {
	const item& operator()(const item& i) const
	{
		user_fault_point();
		return i;
	}
};
} // namespace

MC_SUITE(queries)
{
	unsigned n = choose(by_tier(5u, 7u));
	unsigned pattern = choose(3);
	auto op = choose(5);
	bool temporary = choose(2);
	static const char* names[] = {"linq select", "linq select with index", "linq where", "linq group_by", "linq order_by"};
	std::vector<item> source;
	for (unsigned i = 0; i != n; ++i) {
		source.emplace_back(int(pattern == 0 ? i : pattern == 1 ? n - i : (i * 7) % 3) + 1);
	}
	const std::string before = values(source);

	auto query = [&](auto&& q) -> std::string {
		std::string got;
		switch (op) {
			case 0: {
				auto v = q.select([](const item& i) {
							  user_fault_point();
							  return item(i.v * 2);
						  }).get();
				disarm d;
				got = values(v);
				break;
			}
			case 1: {
				auto v = q.select([](const item& i, size_t n) {
							  user_fault_point();
							  return item(i.v * 2 + int(n));
						  }).get();
				disarm d;
				got = values(v);
				break;
			}
			case 2: {
				auto v = q.where([](const item& i) {
							  user_fault_point();
							  return i.v % 2 == 1;
						  }).get();
				disarm d;
				got = values(v);
				break;
			}
			case 3: {
				auto v = q.group_by([](const item& i) {
							  user_fault_point();
							  return item(i.v % 2);
						  }).get();
				disarm d;
				for (const auto& p : v) {
					got += std::to_string(p.first.v) + ":" + values(p.second);
				}
				break;
			}
			default: {
				auto v = q.order_by(by_value()).get();
				disarm d;
				got = values(v);
				break;
			}
		}
		return got;
	};

	const std::string expected = query(utki::linq(std::as_const(source)));
	each_fault(names[op], [&](const attempt_t& attempt) {
		std::vector<item> movable = source;
		std::string got;
		auto r = attempt([&]() {
			got = temporary ? query(utki::linq(std::move(movable))) : query(utki::linq(std::as_const(source)));
		});
		MC_CHECK(r == failed || got == expected, "%s: fault number %d: %s instead of %s", names[op], int(attempt.k),
			got.c_str(), expected.c_str());
		MC_CHECK(values(source) == before, "%s: fault number %d: the collection has changed", names[op], int(attempt.k));
		for (const auto& i : movable) {
			i.check();
		}
	});
}

MC_SUITE(sorting)
{
	unsigned n = choose(by_tier(6u, 9u));
	unsigned pattern = choose(4);
	std::vector<item> source;
	for (unsigned i = 0; i != n; ++i) {
		source.emplace_back(int(pattern == 0 ? i : pattern == 1 ? n - i : pattern == 2 ? (i * 7) % 3 : (i * 5) % 11));
	}
	each_fault("sort", [&](const attempt_t& attempt) {
		std::vector<item> v = source;
		auto r = attempt([&]() {
			utki::sort(v.begin(), v.end());
		});
		for (const auto& i : v) {
			i.check();
		}
		if (r == finished) {
			for (size_t i = 1; i < v.size(); ++i) {
				MC_CHECK(v[i - 1].v <= v[i].v, "sort: fault number %d: not sorted", int(attempt.k));
			}
		}
	});
}

MC_SUITE(maps)
{
	unsigned n = choose(by_tier(5u, 8u));
	std::map<item, item> source;
	for (unsigned i = 0; i != n; ++i) {
		source.emplace(item(int(i)), item(int(n - i) * 10));
	}
	each_fault("flip_map", [&](const attempt_t& attempt) {
		std::optional<std::map<item, item>> got;
		auto r = attempt([&]() {
			got.emplace(utki::flip_map(source));
		});
		if (r == finished) {
			MC_CHECK(got->size() == n, "flip_map: fault number %d: %d elements", int(attempt.k), int(got->size()));
			int i = int(n);
			for (const auto& p : *got) {
				--i;
				MC_CHECK(p.first.v == int(n - unsigned(i)) * 10 && p.second.v == i, "flip_map: wrong element");
			}
		}
		int i = 0;
		for (const auto& p : source) {
			MC_CHECK(p.first.v == i && p.second.v == (int(n) - i) * 10, "flip_map: source has changed");
			++i;
		}
	});
}

// ---------------------------------------------------------------- exceptions

namespace {
struct custom_error : std::runtime_error {
	item i;
	using std::runtime_error::runtime_error;
};

struct not_std {
	item i;
};

template <class func>
void throw_chain(unsigned kind, unsigned levels, func)
{
	try {
		if (levels != 0) {
			throw_chain(kind / 3, levels - 1, 0);
		} else {
			switch (kind % 3) {
				case 0:
					throw custom_error("the first cause, which is long enough to be allocated");
				case 1:
					throw std::logic_error("the first cause");
				default:
					throw not_std();
			}
		}
	} catch (const injected&) {
		throw;
	} catch (const std::bad_alloc&) {
		throw;
	} catch (...) {
		if (kind % 3 == 2) {
			std::throw_with_nested(std::runtime_error("a standard level of the chain"));
		} else if (kind % 3 == 1) {
			utki::throw_with_nested(custom_error("a level of the chain of some length"));
		} else {
			utki::throw_with_nested(std::logic_error("a level"));
		}
	}
}
} // namespace

namespace {
bool says_no_memory(const std::string& s)
{
	return s.find("bad_alloc") != std::string::npos || s.find("memory") != std::string::npos;
}
} // namespace

MC_SUITE(descriptions)
{
	unsigned levels = choose(by_tier(3u, 4u));
	unsigned kinds = 1;
	for (unsigned i = 0; i <= levels; ++i) {
		kinds *= 3;
	}
	unsigned kind = choose(kinds);
	unsigned op = choose(4);
	static const std::string inds[] = {"", "  - ", std::string(600, ' ')};
	std::string ind = inds[choose(3)];
	static const char* names[] = {"to_string(exception)", "current_exception_to_string", "throwing of a chain",
		"current_exception_to_string(indentation)"};

	auto describe = [&]() -> std::string {
		try {
			bool was = armed;
			if (op != 2) {
				armed = false;
			}
			struct rearm {
				bool was;
				~rearm()
				{
					armed = was;
				}
			} r{was};
			throw_chain(kind, levels, 0);
		} catch (const injected&) {
			throw;
		} catch (const std::bad_alloc&) {
			throw;
		} catch (const std::exception& e) {
			switch (op) {
				case 0:
					return utki::to_string(e, ind);
				case 1:
					return utki::current_exception_to_string();
				case 3:
					return utki::current_exception_to_string(ind);
				default: {
					bool was = armed;
					armed = false;
					auto s = utki::to_string(e);
					armed = was;
					return s;
				}
			}
		} catch (...) {
			return op == 3 ? utki::current_exception_to_string(ind) : utki::current_exception_to_string();
		}
		return {};
	};
	// what() of an exception cannot throw, so it can have no memory for telling the story and say that instead
	each_fault_of_function<decltype(describe), std::string>(names[op], describe, says_no_memory);
}

MC_SUITE(what_of_a_chain)
{
	// what() does not throw
	unsigned levels = choose(by_tier(3u, 4u)) + 1;
	unsigned kinds = 1;
	for (unsigned i = 0; i <= levels; ++i) {
		kinds *= 3;
	}
	unsigned kind = choose(kinds);
	if (kind % 3 == 2) {
		return;
	}
	std::string expected;
	try {
		throw_chain(kind, levels, 0);
	} catch (const std::exception& e) {
		expected = e.what();
	}
	each_fault("what()", [&](const attempt_t& attempt) {
		try {
			throw_chain(kind, levels, 0);
		} catch (const std::exception& e) {
			const char* got = nullptr;
			auto r = attempt([&]() {
				got = e.what();
			});
			MC_CHECK(r == finished && got, "what(): fault number %d", int(attempt.k));
			// when there is no memory for the description then it says so
			MC_CHECK(expected == got || (fired && (says_no_memory(got) || std::string(got).find(expected.substr(0, 10)) != 0)),
				"what(): fault number %d: part of the description is missing: %s", int(attempt.k), got);
			MC_CHECK(expected == e.what(), "what(): wrong after an earlier failure");
		}
	});
}

// ---------------------------------------------------------------- scope exit

MC_SUITE(scope_exits)
{
	bool release = choose(2);
	each_fault("scope_exit", [&](const attempt_t& attempt) {
		int calls = 0;
		bool made = false;
		item i(5);
		int pad[10] = {};
		attempt([&]() {
			utki::scope_exit e([&calls, i, pad]() {
				++calls;
				i.check();
				user_fault_point();
				(void)pad;
			});
			made = true;
			if (release) {
				auto f = e.release();
				f();
			}
		});
		// the function is called exactly once if the object got made
		MC_CHECK(calls == int(made), "scope_exit: fault number %d: the function was called %d times", int(attempt.k), calls);
	});
}

// ---------------------------------------------------------------- assertions

MC_SUITE(assertions)
{
	// a failed assertion stops the program, whatever fails while it is being reported
	if (!thorough()) {
		return;
	}
	unsigned size = pick({0u, 10u, 100u, 600u, 3000u});
	bool to_pipe = choose(2);
	if (!shared_fired) {
		auto m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		MC_CHECK(m != MAP_FAILED, "harness: mmap");
		shared_fired = static_cast<volatile bool*>(m);
	}
	bool all = choose(2);
	const std::string message(size, 'm');
	for (uint64_t k = 1;; ++k) {
		*shared_fired = false;
		int fds[2];
		MC_CHECK(pipe(fds) == 0, "harness: pipe");
		auto pid = fork();
		MC_CHECK(pid >= 0, "harness: fork");
		if (pid == 0) {
			for (int n : {SIGABRT, SIGSEGV, SIGALRM}) {
				signal(n, SIG_DFL);
			}
			alarm(60);
			int null = open("/dev/null", O_WRONLY);
			dup2(to_pipe ? fds[1] : null, 2);
			close(fds[0]);
			close(fds[1]);
			const std::function<void(std::ostream&)> print = [&message](std::ostream& o) {
				o << message;
				user_fault_point();
				o << std::string(message);
			};
			try {
				points = 0;
				fail_at = k;
				from_then_on = all;
				armed = true;
				utki::assert_always(false, print, utki::source_location(13, 1, "some_file_of_the_user.cpp"));
			} catch (...) {
				_exit(3);
			}
			_exit(4);
		}
		close(fds[1]);
		std::string out;
		char buf[4096];
		for (;;) {
			auto n = read(fds[0], buf, sizeof(buf));
			if (n <= 0) {
				break;
			}
			out.append(buf, size_t(n));
		}
		close(fds[0]);
		int status = 0;
		MC_CHECK(waitpid(pid, &status, 0) == pid, "harness: waitpid");
		steps();
		tick();
		MC_CHECK(WIFSIGNALED(status) && WTERMSIG(status) == SIGABRT,
			"failed assertion, fault number %d (%s): the program has not been aborted (%s %d)", int(k),
			all ? "and all later" : "only", WIFSIGNALED(status) ? "signal" : "exit",
			WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status));
		state(hasher().add(k).add(all).add(size).h);
		if (!*shared_fired) {
			MC_CHECK(!to_pipe || out.find("some_file_of_the_user.cpp:13") != std::string::npos, "no location in: %s",
				quote(out).c_str());
			break;
		}
		MC_CHECK(k < 10000, "harness: too many fault points");
	}
}

// C17: emitting a signal invokes exactly the connected callbacks, once each, in connection order, each with the emitted values.
#include <utki/signal.hpp>

#include <algorithm>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>

#include "mc.hpp"

using namespace mc;

namespace {
// argument type which shows being moved-from
struct tracked {
	static int alive;
	std::unique_ptr<int> v;
	tracked(int x) :
		v(new int(x))
	{
		++alive;
	}
	tracked(const tracked& o) :
		v(o.v ? new int(*o.v) : nullptr)
	{
		++alive;
	}
	tracked(tracked&& o) noexcept :
		v(std::move(o.v))
	{
		++alive;
	}
	tracked& operator=(const tracked&) = delete;
	~tracked()
	{
		--alive;
	}
	int get() const
	{
		return v ? *v : -1;
	}
};
int tracked::alive = 0;

// callbacks throw exceptions of all kinds
struct stop_emit {};
constexpr int num_exceptions = 5;
[[noreturn]] void throw_kind(int id)
{
	switch (id % num_exceptions) {
		case 0:
			throw stop_emit();
		case 1:
			throw std::bad_function_call();
		case 2:
			throw 2;
		case 3:
			throw std::runtime_error("3");
		default:
			throw std::bad_alloc();
	}
}

// calls the function, returns the kind of the exception it has thrown, -1 when none
template <class func>
int kind_of_exception(func f)
{
	try {
		f();
		return -1;
	} catch (stop_emit&) {
		return 0;
	} catch (std::bad_function_call&) {
		return 1;
	} catch (int i) {
		return i == 2 ? 2 : 100;
	} catch (std::runtime_error& e) {
		return std::string(e.what()) == "3" && typeid(e) == typeid(std::runtime_error) ? 3 : 101;
	} catch (std::bad_alloc&) {
		return 4;
	} catch (...) {
		return 102;
	}
}

enum class act : uint8_t {
	plain,
	mutates_arg, // changes and moves away its own copy of the arguments
	throws,
	connects, // connects one more plain callback, once
	disconnects_prev, // disconnects its nearest earlier neighbour, once
	disconnects_next, // disconnects its nearest later neighbour, once
	emits, // emits the same signal recursively, once
	n
};

// the reference model
struct ment {
	int id;
	act a;
	bool done; // the one time action is done
};
struct model {
	std::vector<ment> live;
	std::vector<int> log;
	std::vector<int> executing;
	int next_id = 0;

	size_t index_of(int id) const
	{
		for (size_t i = 0; i != live.size(); ++i) {
			if (live[i].id == id) {
				return i;
			}
		}
		return size_t(-1);
	}

	bool is_executing(int id) const
	{
		return std::count(executing.begin(), executing.end(), id) != 0;
	}

	// index of the callback which callback at k would disconnect now, or -1
	size_t victim(size_t k) const
	{
		if (live[k].done) {
			return size_t(-1);
		}
		size_t v = size_t(-1);
		if (live[k].a == act::disconnects_prev && k != 0) {
			v = k - 1;
		} else if (live[k].a == act::disconnects_next && k + 1 < live.size()) {
			v = k + 1;
		}
		// callbacks which are being executed are not disconnected
		return v != size_t(-1) && is_executing(live[v].id) ? size_t(-1) : v;
	}

	// returns false when a callback threw
	bool emit(int depth)
	{
		for (size_t k = 0; k < live.size(); ++k) {
			int id = live[k].id;
			log.push_back(id);
			executing.push_back(id);
			bool first = !live[k].done;
			bool ok = true;
			size_t v = victim(k);
			live[k].done = true;
			switch (live[k].a) {
				case act::throws:
					ok = false;
					break;
				case act::connects:
					if (first) {
						live.push_back({next_id++, act::plain, false});
					}
					break;
				case act::disconnects_prev:
				case act::disconnects_next:
					if (v != size_t(-1)) {
						live.erase(live.begin() + ptrdiff_t(v));
					}
					break;
				case act::emits:
					if (first && depth < 2) {
						ok = emit(depth + 1);
					}
					break;
				default:
					break;
			}
			executing.pop_back();
			if (!ok) {
				return false;
			}
			k = index_of(id);
		}
		return true;
	}
};

template <class sig_type>
struct world_base {
	model m; // state of the real thing as reported by callbacks
	std::vector<typename sig_type::connection> conns; // parallel to m.live
	sig_type s;

	void check_size()
	{
		MC_CHECK(s.size() == m.live.size(), "size() = %zu, %zu callbacks connected", s.size(), m.live.size());
		MC_CHECK(s.empty() == m.live.empty(), "empty() is wrong with %zu callbacks", m.live.size());
		steps();
	}

	void disconnect_at(size_t i)
	{
		auto c = conns[i];
		conns.erase(conns.begin() + ptrdiff_t(i));
		m.live.erase(m.live.begin() + ptrdiff_t(i));
		s.disconnect(c);
		check_size();
	}

	static std::string list(const std::vector<int>& v)
	{
		std::string r;
		for (int x : v) {
			r += std::to_string(x) + " ";
		}
		return r;
	}

	// compare with the prediction. Callbacks which were connected during the emission are invoked in the same emission.
	void compare(const model& e, int thrown, bool exp_thrown)
	{
		MC_CHECK((thrown >= 0) == exp_thrown, "exception of a callback %s", thrown >= 0 ? "appeared from nowhere" : "was swallowed");
		MC_CHECK(m.log == e.log, "invoked [%s], expected [%s]", list(m.log).c_str(), list(e.log).c_str());
		if (exp_thrown) {
			MC_CHECK(thrown == e.log.back() % num_exceptions, "exception of callback %d reached the emitter changed (%d)", e.log.back(), thrown);
		}
		std::vector<int> gl, el;
		for (auto& x : m.live) {
			gl.push_back(x.id);
		}
		for (auto& x : e.live) {
			el.push_back(x.id);
		}
		MC_CHECK(gl == el, "connected [%s], expected [%s]", list(gl).c_str(), list(el).c_str());
		check_size();
		m.log.clear();
	}

	uint64_t hash()
	{
		hasher h;
		for (auto& e : m.live) {
			h.add(uint64_t(e.a) * 2 + e.done);
		}
		return h.h;
	}

	void finish(unsigned order)
	{
		while (!m.live.empty()) {
			disconnect_at(order == 0 ? 0 : order == 1 ? m.live.size() - 1 : m.live.size() / 2);
		}
		MC_CHECK(s.empty(), "not empty after all were disconnected");
	}
};

using sig = utki::signal<std::string, tracked, int, const std::string&, int&>;

struct world : world_base<sig> {
	int depth = 0;
	int emit_no = 0;
	std::string exp_s;
	int exp_t = 0, exp_i = 0;
	const std::string* exp_cref = nullptr;
	int* exp_ref = nullptr;
	int total_calls = 0;

	void connect(act a)
	{
		int id = m.next_id++;
		// the captured payload must stay intact for as long as the callback is connected
		std::string payload = "callback number " + std::to_string(id) + " with a long enough payload";
		auto conn = s.connect([this, id, a, payload](std::string x, tracked t, int i, const std::string& cr, int& r) {
			MC_CHECK(payload == "callback number " + std::to_string(id) + " with a long enough payload", "payload of callback %d is corrupted", id);
			MC_CHECK(m.index_of(id) != size_t(-1), "callback %d is invoked, though it is disconnected", id);
			MC_CHECK(x == exp_s, "callback %d got string %s", id, quote(x).c_str());
			MC_CHECK(t.get() == exp_t, "callback %d got object %d instead of %d", id, t.get(), exp_t);
			MC_CHECK(i == exp_i, "callback %d got int %d", id, i);
			MC_CHECK(&cr == exp_cref && cr == "const ref argument", "callback %d got another const reference", id);
			MC_CHECK(&r == exp_ref, "callback %d got another reference", id);
			++r;
			++total_calls;
			m.log.push_back(id);
			m.executing.push_back(id);
			if (a == act::mutates_arg) {
				std::string taken = std::move(x);
				taken += "!";
				tracked t2(std::move(t));
				i = -7;
			}
			size_t k = m.index_of(id);
			bool first = !m.live[k].done;
			size_t v = m.victim(k);
			m.live[k].done = true;
			if (a == act::throws) {
				m.executing.pop_back();
				throw_kind(id);
			}
			if (a == act::connects && first) {
				connect(act::plain);
			} else if (v != size_t(-1)) {
				disconnect_at(v);
			} else if (a == act::emits && first && depth < 2) {
				int e = emit_raw();
				if (e >= 0) {
					m.executing.pop_back();
					throw_kind(e);
				}
			}
			m.executing.pop_back();
		});
		m.live.push_back({id, a, false});
		conns.push_back(conn);
		check_size();
	}

	// returns the kind of the exception thrown
	int emit_raw()
	{
		++depth;
		++emit_no;
		auto sv_s = exp_s;
		auto sv_t = exp_t, sv_i = exp_i;
		auto sv_c = exp_cref;
		auto sv_r = exp_ref;
		std::string arg = "a string which does not fit into small string buffer " + std::to_string(emit_no);
		const std::string orig = arg;
		const std::string cref = "const ref argument";
		int counter = 0;
		exp_s = arg;
		exp_t = 100 + emit_no;
		exp_i = emit_no;
		exp_cref = &cref;
		exp_ref = &counter;
		int thrown = kind_of_exception([&] {
			s.emit(arg, tracked(100 + emit_no), emit_no, cref, counter);
		});
		exp_s = sv_s;
		exp_t = sv_t;
		exp_i = sv_i;
		exp_cref = sv_c;
		exp_ref = sv_r;
		--depth;
		MC_CHECK(arg == orig, "emit() changed the caller's argument");
		return thrown;
	}

	void emit()
	{
		model e = m;
		e.log.clear();
		m.log.clear();
		bool exp_thrown = !e.emit(1);
		compare(e, emit_raw(), exp_thrown);
		MC_CHECK(tracked::alive == 0, "%d argument objects leaked", tracked::alive);
	}
};
} // namespace

// every sequence of connections, disconnections and emissions
MC_SUITE(histories)
{
	tracked::alive = 0;
	unsigned depth = by_tier(6u, 7u);
	// not destroyed when the engine abandons the execution in the middle: a signal has to be empty when destroyed
	auto w = new world();
	for (unsigned i = 0; i != depth; ++i) {
		unsigned n = unsigned(w->m.live.size());
		unsigned c = choose(2 + 4 + n);
		if (c == 0) {
			break;
		} else if (c == 1) {
			note("emit");
			w->emit();
		} else if (c < 6) {
			static const act acts[] = {act::plain, act::mutates_arg, act::throws, act::connects};
			note("connect kind %u", c - 2);
			w->connect(acts[c - 2]);
		} else {
			note("disconnect #%u", c - 6);
			w->disconnect_at(c - 6);
		}
		state(w->hash());
	}
	w->emit();
	w->finish(choose(3));
	delete w;
}

// every list of callbacks, including the ones which change the signal while it is being emitted
MC_SUITE(reentrant)
{
	tracked::alive = 0;
	unsigned n = choose(by_tier(5u, 6u)) + 1;
	// not destroyed when the engine abandons the execution in the middle: a signal has to be empty when destroyed
	auto w = new world();
	for (unsigned i = 0; i != n; ++i) {
		w->connect(act(choose(unsigned(act::n))));
	}
	for (unsigned i = 0; i != 3; ++i) {
		w->emit();
		state(w->hash());
	}
	note("%u callbacks, %d calls", n, w->total_calls);
	w->finish(choose(3));
	delete w;
}

namespace {
template <class arg, class make, class eq>
void arg_kind(unsigned n, make mk, eq same, const char* name)
{
	utki::signal<arg> s;
	std::vector<typename utki::signal<arg>::connection> conns;
	unsigned calls = 0;
	for (unsigned i = 0; i != n; ++i) {
		conns.push_back(s.connect([&, i](arg a) {
			MC_CHECK(calls % n == i, "%s: callback %u out of order", name, i);
			MC_CHECK(same(a), "%s: callback %u of %u got another value", name, i, n);
			++calls;
		}));
	}
	for (unsigned e = 0; e != 2; ++e) {
		mk([&](auto&& v) {
			s.emit(std::forward<decltype(v)>(v));
		});
		MC_CHECK(calls == n * (e + 1), "%s: %u calls by %u callbacks", name, calls, n);
		steps(n);
	}
	for (auto& c : conns) {
		s.disconnect(c);
	}
}
} // namespace

// every kind of argument type
MC_SUITE(argument_kinds)
{
	unsigned kind = choose(9);
	unsigned n = choose(6) + 1;
	state(kind * 100 + n);
	const std::string text = "text which is longer than any small string buffer";
	switch (kind) {
		case 0:
			arg_kind<std::string>(n, [&](auto e) { e(std::string(text)); }, [&](auto& a) {
				bool r = a == text;
				std::string taken = std::move(a);
				return r;
			}, "string");
			break;
		case 1:
			arg_kind<const std::string>(n, [&](auto e) { e(std::string(text)); }, [&](auto& a) { return a == text; }, "const string");
			break;
		case 2: {
			std::string o = text;
			arg_kind<std::string&>(n, [&](auto e) { e(o); }, [&](auto& a) { return &a == &o; }, "string&");
			break;
		}
		case 3:
			arg_kind<const std::string&>(n, [&](auto e) { e(std::string(text)); }, [&](auto& a) { return a == text; }, "const string&");
			break;
		case 4: {
			std::string o = text;
			arg_kind<std::string&&>(n, [&](auto e) { e(std::move(o)); }, [&](auto& a) { return &a == &o; }, "string&&");
			MC_CHECK(o == text, "string&&: nobody moved from the argument");
			break;
		}
		case 5:
			// an argument which cannot be copied: one callback
			arg_kind<std::unique_ptr<int>>(1, [&](auto e) { e(std::make_unique<int>(17)); }, [&](auto& a) { return a && *a == 17; }, "unique_ptr");
			break;
		case 6:
			arg_kind<std::shared_ptr<int>>(n, [&](auto e) { e(std::make_shared<int>(17)); }, [&](auto& a) {
				bool r = a && *a == 17;
				auto t = std::move(a);
				return r;
			}, "shared_ptr");
			break;
		case 7: {
			std::vector<int> v(100, 5);
			arg_kind<std::vector<int>>(n, [&](auto e) { e(v); }, [&](auto& a) {
				bool r = a == v && &a != &v;
				a.clear();
				return r;
			}, "vector");
			MC_CHECK(v == std::vector<int>(100, 5), "caller's vector changed");
			break;
		}
		case 8: {
			utki::signal<> s;
			unsigned calls = 0;
			std::vector<utki::signal<>::connection> conns;
			for (unsigned i = 0; i != n; ++i) {
				conns.push_back(s.connect([&, i]() {
					MC_CHECK(calls % n == i, "callback %u out of order", i);
					++calls;
				}));
			}
			s.emit();
			s.emit();
			MC_CHECK(calls == 2 * n, "%u calls", calls);
			for (auto& c : conns) {
				s.disconnect(c);
			}
			break;
		}
	}
}

// many connections: disconnecting any subset leaves exactly the others, in order
MC_SUITE(subsets)
{
	unsigned n = by_tier(11u, 14u);
	unsigned mask = 0;
	for (unsigned i = 0; i != n; ++i) {
		if (choose(2)) {
			mask |= 1u << i;
		}
	}
	utki::signal<int> s;
	std::vector<int> log;
	std::vector<utki::signal<int>::connection> conns;
	for (unsigned i = 0; i != n; ++i) {
		conns.push_back(s.connect([&log, i](int x) {
			log.push_back(int(i) * 10 + x);
		}));
	}
	std::vector<int> exp;
	for (unsigned i = n; i--;) {
		if (mask & (1u << i)) {
			s.disconnect(conns[i]);
			steps();
		} else {
			exp.insert(exp.begin(), int(i) * 10 + 3);
		}
	}
	s.emit(3);
	MC_CHECK(log == exp, "mask %x: wrong callbacks invoked", mask);
	MC_CHECK(s.size() == exp.size(), "mask %x: size is %zu", mask, s.size());
	state(mask);
	for (unsigned i = 0; i != n; ++i) {
		if (!(mask & (1u << i))) {
			s.disconnect(conns[i]);
		}
	}
	log.clear();
	s.emit(3);
	MC_CHECK(log.empty() && s.empty(), "callbacks remain after disconnecting all");
}

// a lot of callbacks; deep nesting of emissions
MC_SUITE(scale)
{
	static const unsigned counts[] = {17, 64, 65, 255, 256, 257, 1000, 1025, 4097, 32769, 65537, 140000};
	unsigned kind = choose(3);
	if (kind == 2) {
		// emissions nested
		static const int depths[] = {3, 10, 100, 255, 256, 257, 1000};
		int depth = pick(depths);
		note("%d nested emissions", depth);
		utki::signal<int> s;
		std::vector<int> log, exp;
		std::vector<utki::signal<int>::connection> conns;
		bool add = choose(2);
		conns.push_back(s.connect([&](int x) {
			log.push_back(x);
			if (x < depth) {
				s.emit(x + 1);
			} else if (add) {
				conns.push_back(s.connect([&](int x) {
					log.push_back(-1000000 - x);
				}));
			}
		}));
		conns.push_back(s.connect([&](int x) {
			log.push_back(-x);
		}));
		s.emit(1);
		for (int i = 1; i <= depth; ++i) {
			exp.push_back(i);
		}
		for (int i = depth; i; --i) {
			exp.push_back(-i);
			if (add) {
				exp.push_back(-1000000 - i);
			}
		}
		std::vector<int> seen = log;
		if (add) {
			// whether emissions which were already going on call the new callback is up to the signal
			exp.erase(std::remove_if(exp.begin(), exp.end(), [](int x) { return x < -1000000; }), exp.end());
			seen.erase(std::remove_if(seen.begin(), seen.end(), [](int x) { return x < -1000000; }), seen.end());
		}
		for (auto& c : conns) {
			s.disconnect(c);
		}
		MC_CHECK(seen == exp, "%d nested emissions: wrong calls, %zu instead of %zu", depth, seen.size(), exp.size());
		MC_CHECK(s.empty(), "callbacks remain");
		steps();
		state(unsigned(depth) * 2 + add);
		return;
	}
	unsigned n = counts[choose(by_tier(sanitized() ? 10u : 12u, 12u))];
	note("%u callbacks, kind %u", n, kind);
	auto sp = std::make_unique<utki::signal<const std::string&, int>>();
	auto& s = *sp;
	using sig = utki::signal<const std::string&, int>;
	std::vector<sig::connection> conns;
	std::vector<unsigned> log;
	const std::string text = "the argument";
	for (unsigned i = 0; i != n; ++i) {
		conns.push_back(s.connect([&log, &text, i](const std::string& t, int x) {
			MC_CHECK(&t == &text && x == 7, "callback %u got another argument", i);
			log.push_back(i);
		}));
		if (i % 4096 == 0 || i + 1 == n) {
			MC_CHECK(s.size() == i + 1, "size is %zu of %u", s.size(), i + 1);
		}
	}
	std::vector<char> live(n, 1);
	auto verify = [&](const char* what) {
		std::vector<unsigned> e;
		for (unsigned i = 0; i != n; ++i) {
			if (live[i]) {
				e.push_back(i);
			}
		}
		log.clear();
		s.emit(text, 7);
		if (log != e) {
			s.~sig();
			new (&s) sig();
		}
		MC_CHECK(log == e, "%u callbacks, %s: %zu calls, expected %zu (or in another order)", n, what, log.size(), e.size());
		MC_CHECK(s.size() == e.size() && s.empty() == e.empty(), "%u callbacks, %s: size is %zu", n, what, s.size());
		steps();
	};
	verify("all connected");
	// take away every third one, in the order of connection or from the end
	for (unsigned k = 0; k < n; k += 3) {
		unsigned i = kind == 0 ? k : (n - 1 - k);
		s.disconnect(conns[i]);
		live[i] = 0;
	}
	verify("every third is disconnected");
	// others come to the end
	for (unsigned i = 0; i != 10; ++i) {
		live.push_back(1);
		conns.push_back(s.connect([&log, n](const std::string&, int) {
			log.push_back(n);
		}));
		++n;
	}
	verify("ten added");
	for (unsigned i = 0; i + 1 < n; ++i) {
		if (live[i]) {
			s.disconnect(conns[i]);
			live[i] = 0;
		}
	}
	verify("the last one left");
	s.disconnect(conns[n - 1]);
	live[n - 1] = 0;
	verify("all disconnected");
	state(n * 2 + kind);
}

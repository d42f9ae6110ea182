// C21: the function given to a scope guard is run exactly once when the scope is left, whichever way it is left.
#include <utki/utility.hpp>

#include <functional>
#include <memory>
#include <stdexcept>
#include <string>

#include "mc.hpp"

using namespace mc;

namespace {
struct user_error {
	int x;
};

enum what { w_plain, w_throws_std, w_throws_int, w_empty, w_null, w_nested, w_big, w_unwinds, n_what };
enum action { a_none, a_release, a_release_and_call, a_release_twice, a_reset, n_action };
enum leave { l_end, l_return, l_throw, l_break, l_goto_continue, n_leave };

struct guard_spec {
	what w;
	action a;
};

std::vector<int> log_;

std::function<void()> make(int id, what w, std::shared_ptr<int> token)
{
	switch (w) {
		case w_plain:
			return [id, token] {
				MC_CHECK(*token == id, "captured state is gone");
				log_.push_back(id);
			};
		case w_throws_std:
			return [id, token] {
				log_.push_back(id);
				throw std::runtime_error("thrown from the guard function");
			};
		case w_throws_int:
			return [id, token] {
				log_.push_back(id);
				throw id;
			};
		case w_empty:
			return std::function<void()>();
		case w_null:
			return nullptr;
		case w_nested:
			return [id, token] {
				utki::scope_exit inner([id] {
					log_.push_back(id + 1000);
				});
				log_.push_back(id);
			};
		case w_unwinds: // throws and catches inside, so one more exception is in flight
			return [id, token] {
				log_.push_back(id);
				try {
					utki::scope_exit inner([id] {
						log_.push_back(id + 1000);
						try {
							utki::scope_exit innermost([id] {
								log_.push_back(id + 2000);
							});
							throw std::logic_error("innermost");
						} catch (std::logic_error&) {
							log_.push_back(id + 3000);
						}
					});
					throw user_error{id};
				} catch (user_error& e) {
					MC_CHECK(e.x == id, "another exception is caught inside of the guard function");
					log_.push_back(id + 4000);
				}
			};
		case w_big: {
			std::string big(300, 'x');
			long arr[20] = {id};
			return [id, token, big, arr] {
				MC_CHECK(big == std::string(300, 'x') && arr[0] == id && *token == id, "captured state is corrupted");
				log_.push_back(id);
			};
		}
		default:
			return nullptr;
	}
}

// expected log of the guard leaving scope
void expect(std::vector<int>& e, int id, what w)
{
	if (w == w_empty || w == w_null) {
		return;
	}
	e.push_back(id);
	if (w == w_nested) {
		e.push_back(id + 1000);
	}
	if (w == w_unwinds) {
		for (int k = 1; k != 5; ++k) {
			e.push_back(id + k * 1000);
		}
	}
}

struct runner {
	std::vector<guard_spec> specs;
	leave how;
	unsigned leave_at; // number of guards constructed before leaving
	std::vector<std::shared_ptr<int>> tokens;
	std::vector<int> exp_direct; // what is run by explicit calls

	int result = 0;

	int nest(unsigned i)
	{
		if (i == leave_at) {
			if (how == l_throw) {
				throw user_error{int(i)};
			}
			return 7;
		}
		int id = int(i) + 1;
		for (;;) {
			utki::scope_exit g(make(id, specs[i].w, tokens[i]));
			switch (specs[i].a) {
				case a_none:
					break;
				case a_release:
					g.release();
					break;
				case a_release_and_call: {
					auto f = g.release();
					MC_CHECK(bool(f) == (specs[i].w != w_empty && specs[i].w != w_null), "release() returned %s function", f ? "a" : "no");
					if (f) {
						size_t n = log_.size();
						try {
							f();
						} catch (...) {
						}
						MC_CHECK(log_.size() > n && log_[n] == id, "release() returned another function");
					}
					break;
				}
				case a_release_twice: {
					auto f = g.release();
					auto f2 = g.release();
					MC_CHECK(!f2, "second release() returned a function");
					break;
				}
				case a_reset:
					g.reset();
					break;
				default:
					break;
			}
			if (how == l_return) {
				return nest(i + 1);
			}
			int r = nest(i + 1);
			if (how == l_break) {
				result = r;
				break;
			}
			if (how == l_goto_continue) {
				result = r;
				goto out;
			}
			result = r;
			break;
		}
	out:
		return result;
	}
};
} // namespace

MC_SUITE(all_ways_out)
{
	unsigned n = choose(by_tier(3u, 3u)) + 1;
	runner r;
	std::vector<int> values;
	for (unsigned i = 0; i != n; ++i) {
		r.specs.push_back({what(choose(n_what)), action(choose(n_action))});
		r.tokens.push_back(std::make_shared<int>(int(i) + 1));
	}
	r.how = leave(choose(n_leave));
	r.leave_at = n;
	log_.clear();
	bool thrown = false;
	int res = 0;
	try {
		res = r.nest(0);
	} catch (user_error& e) {
		thrown = true;
		MC_CHECK(e.x == int(n), "another exception");
	} catch (...) {
		MC_CHECK(false, "exception of a guard function escaped");
	}
	MC_CHECK(thrown == (r.how == l_throw), "exception of the scope %s", thrown ? "appeared" : "was lost");
	MC_CHECK(thrown || res == 7, "returned value is lost");
	std::vector<int> e;
	for (unsigned i = 0; i != n; ++i) {
		if (r.specs[i].a == a_release_and_call) {
			expect(e, int(i) + 1, r.specs[i].w);
		}
	}
	for (unsigned i = n; i--;) {
		if (r.specs[i].a == a_none) {
			expect(e, int(i) + 1, r.specs[i].w);
		}
	}
	MC_CHECK(log_ == e, "functions run: %zu, expected %zu (or another order)", log_.size(), e.size());
	for (unsigned i = 0; i != n; ++i) {
		MC_CHECK(r.tokens[i].use_count() == 1, "function object of guard %u is not destroyed", i);
	}
	steps(n);
	hasher h;
	for (auto& s : r.specs) {
		h.add(unsigned(s.w) * 16 + unsigned(s.a));
	}
	state(h.add(unsigned(r.how)).h);
	note("%u guards, left by way %d, %zu functions run", n, int(r.how), log_.size());
}

// guards with dynamic lifetime: every order of construction, release and destruction
MC_SUITE(histories)
{
	constexpr unsigned slots = 3;
	std::unique_ptr<utki::scope_exit> g[slots];
	int armed[slots] = {}; // id of the armed function or 0
	what kind[slots] = {};
	int next = 1;
	log_.clear();
	std::vector<int> e;
	std::vector<std::shared_ptr<int>> tokens;
	std::vector<std::function<void()>> released;
	unsigned depth = by_tier(6u, 7u);
	for (unsigned i = 0; i != depth; ++i) {
		unsigned s = choose(slots);
		if (!g[s]) {
			static const what kinds[] = {w_plain, w_throws_int, w_empty, w_nested};
			what w = pick(kinds);
			tokens.push_back(std::make_shared<int>(next));
			g[s] = std::make_unique<utki::scope_exit>(make(next, w, tokens.back()));
			armed[s] = next;
			kind[s] = w;
			++next;
		} else if (choose(2)) {
			auto f = g[s]->release();
			bool exp = armed[s] && kind[s] != w_empty;
			MC_CHECK(bool(f) == exp, "release() of guard %d", armed[s]);
			armed[s] = 0;
			released.push_back(std::move(f));
		} else {
			g[s].reset();
			if (armed[s]) {
				expect(e, armed[s], kind[s]);
			}
			armed[s] = 0;
		}
		MC_CHECK(log_ == e, "step %u: %zu functions run, expected %zu", i, log_.size(), e.size());
		steps();
		hasher h;
		for (unsigned k = 0; k != slots; ++k) {
			h.add(!g[k] ? 0 : armed[k] ? 1 + unsigned(kind[k]) : 20);
		}
		state(h.h);
	}
	// released functions still work, guards left are run
	for (auto& f : released) {
		if (f) {
			size_t n = log_.size();
			try {
				f();
			} catch (...) {
			}
			MC_CHECK(log_.size() > n, "released function does nothing");
		}
	}
	log_.clear();
	e.clear();
	for (unsigned k = 0; k != slots; ++k) {
		if (g[k]) {
			g[k].reset();
			if (armed[k]) {
				expect(e, armed[k], kind[k]);
			}
		}
	}
	MC_CHECK(log_ == e, "the rest of guards: %zu functions run, expected %zu", log_.size(), e.size());
	released.clear();
	for (auto& t : tokens) {
		MC_CHECK(t.use_count() == 1, "function object is not destroyed");
	}
}

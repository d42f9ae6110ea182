// C31: owners of one object in several threads: the object lives until the last of them is gone, is destroyed exactly
// once, by a thread which has everything done by the other owners behind it, and a weak reference yields either the
// living object or nothing.
#include "mc.hpp"
#include "sched.hpp"

#include <memory>
#include <optional>
#include <string>

#include <utki/shared.hpp>
#include <utki/shared_ref.hpp>

using namespace mc;

namespace {
struct counters {
	int created;
	int destroyed;
};

counters* cnt = nullptr;

struct base : public utki::shared {
	int a = 11;
	int by_thread[4] = {}; // each thread writes own element

	base()
	{
		sched::untracked u;
		++cnt->created;
	}

	base(const base&) = delete;

	~base() override
	{
		// everything the owners have done is visible to the destroying thread
		int s = this->a;
		for (int i : this->by_thread) {
			s += i;
		}
		this->a = -s;
		sched::untracked u;
		++cnt->destroyed;
	}
};

struct derived : public virtual base {
	int d = 22;

	~derived() override
	{
		this->d = -22;
	}
};

struct other : public virtual base {
	int o = 33;
};

struct both : public derived, public other {};

using ref = utki::shared_ref<derived>;
using opt_ref = std::optional<ref>;

void use(derived& o)
{
	MC_CHECK(o.a == 11 && o.d == 22, "the object is not alive: %d %d", o.a, o.d);
	o.by_thread[sched::self()] += 1;
}

void check_alive()
{
	sched::untracked u;
	MC_CHECK(cnt->destroyed == 0, "the object is destroyed while there are owners");
}

enum op {
	copy_drop,
	drop,
	take_weak,
	lock_weak,
	from_object,
	to_base,
	cast,
	move_around,
	assign_copy,
	num_ops
};

const char* const op_name[num_ops] = {
	"copy and drop",
	"drop",
	"take weak",
	"lock weak",
	"make_shared_from",
	"convert to base",
	"dynamic cast",
	"move",
	"assign copy"
};

// one thread with its own references
struct actor {
	opt_ref own;
	std::weak_ptr<derived> weak;
	bool has_weak = false;

	void perform(int o)
	{
		sched::label(op_name[o]);
		switch (o) {
			case copy_drop:
				if (this->own) {
					ref c = this->own.value();
					use(c.get());
					check_alive();
				}
				break;
			case drop:
				if (this->own) {
					use(this->own.value());
					check_alive();
					this->own.reset();
				}
				break;
			case take_weak:
				if (this->own) {
					this->weak = utki::make_weak(this->own.value());
					this->has_weak = true;
				}
				break;
			case lock_weak:
				if (auto p = this->weak.lock()) {
					utki::shared_ref<derived> r(std::move(p));
					use(r);
					check_alive();
				} else {
					sched::untracked u;
					MC_CHECK(!this->own || !this->has_weak, "weak reference is empty while there is an owner");
				}
				break;
			case from_object:
				if (this->own) {
					auto r = utki::make_shared_from(this->own.value().get());
					use(r);
					auto w = utki::make_weak_from(r.get());
					MC_CHECK(&r.get() == &this->own.value().get(), "other object");
					check_alive();
				}
				break;
			case to_base:
				if (this->own) {
					utki::shared_ref<base> b = this->own.value();
					utki::shared_ref<const base> cb = b;
					MC_CHECK(cb.get().a == 11, "the object is not alive");
					check_alive();
				}
				break;
			case cast:
				if (this->own) {
					auto r = utki::dynamic_reference_cast<both>(this->own.value());
					MC_CHECK(r.get().o == 33, "the object is not alive");
					check_alive();
				}
				break;
			case move_around:
				if (this->own) {
					ref t = std::move(this->own.value());
					this->own.reset();
					check_alive();
					this->own.emplace(std::move(t));
					use(this->own.value());
				}
				break;
			default:
				if (this->own) {
					ref t = this->own.value();
					this->own.value() = t;
					t = this->own.value();
					t = std::move(this->own.value());
					this->own.value() = std::move(t);
					check_alive();
				}
				break;
		}
	}
};

void explore(const sched::options& so, int threads, int len, const std::vector<int>& alphabet, bool main_keeps)
{
	std::vector<std::vector<int>> scripts;
	std::vector<bool> weak_only;
	for (int t = 0; t != threads; ++t) {
		weak_only.push_back(choose(2));
		std::vector<int> s;
		for (int i = 0; i != len; ++i) {
			uint32_t k = weak_only.back() ? choose(2) : choose(uint32_t(alphabet.size() + 1));
			if (weak_only.back()) {
				if (k == 1) {
					break;
				}
				s.push_back(lock_weak);
			} else {
				if (k == alphabet.size()) {
					break;
				}
				s.push_back(alphabet[k]);
			}
		}
		scripts.push_back(s);
	}
	if (verbose) {
		for (int t = 0; t != threads; ++t) {
			std::string d;
			for (int o : scripts[size_t(t)]) {
				d += std::string(op_name[o]) + ", ";
			}
			note("thread %d (%s): %s", t + 1, weak_only[size_t(t)] ? "weak" : "owner", d.c_str());
		}
	}
	counters c = {};
	cnt = &c;
	std::vector<actor>* actors = nullptr;
	std::weak_ptr<base>* observer = nullptr;
	opt_ref* kept = nullptr;

	std::vector<std::function<void()>> th;
	for (int t = 0; t != threads; ++t) {
		th.push_back([&, t]() {
			auto& a = (*actors)[size_t(t)];
			for (int o : scripts[size_t(t)]) {
				a.perform(o);
			}
			sched::label("end");
			a.own.reset();
			a.weak.reset();
		});
	}
	sched::run(
		so,
		th,
		[&]() {
			actors = new std::vector<actor>(size_t(threads));
			kept = new opt_ref();
			ref r = utki::make_shared<both>();
			observer = new std::weak_ptr<base>(utki::make_weak<derived>(r));
			for (int t = 0; t != threads; ++t) {
				if (weak_only[size_t(t)]) {
					(*actors)[size_t(t)].weak = utki::make_weak(r);
				} else {
					(*actors)[size_t(t)].own = r;
				}
			}
			if (main_keeps) {
				*kept = r;
			}
		},
		[&]() {
			MC_CHECK(cnt->created == 1, "created %d times", cnt->created);
			if (main_keeps) {
				MC_CHECK(cnt->destroyed == 0, "destroyed while there is an owner");
				MC_CHECK(kept->value().get().a == 11 && kept->value().get().d == 22, "the object is not alive");
				MC_CHECK(kept->value().to_shared_ptr().use_count() == 1, "number of owners is %ld", kept->value().to_shared_ptr().use_count());
				kept->reset();
			}
			MC_CHECK(cnt->destroyed == 1, "all owners are gone, destroyed %d times", cnt->destroyed);
			MC_CHECK(observer->expired() && !observer->lock(), "weak reference is not empty after all owners are gone");
			delete observer;
			delete actors;
			delete kept;
		}
	);
}
} // namespace

MC_SUITE(two_threads)
{
	where("shared references in two threads");
	sched::options o;
	o.preemptions = by_tier(2, 3);
	bool keeps = choose(2);
	explore(o, 2, by_tier(1, 2), {copy_drop, drop, take_weak, lock_weak, from_object, to_base, cast, move_around, assign_copy}, keeps);
}

MC_SUITE(two_threads_long)
{
	where("shared references in two threads");
	sched::options o;
	o.preemptions = by_tier(1, 2);
	explore(o, 2, by_tier(2, 3), {copy_drop, drop, take_weak, lock_weak, from_object}, false);
}

MC_SUITE(three_threads)
{
	where("shared references in three threads");
	sched::options o;
	o.preemptions = by_tier(1, 3);
	explore(o, 3, 1, {copy_drop, drop, from_object}, false);
}

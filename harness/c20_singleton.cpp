// C20: at most one instance of a singleton exists; it is reachable exactly while it is alive.
#include <utki/singleton.hpp>

#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>

#include "mc.hpp"

using namespace mc;

namespace {
int live = 0;

struct fail_ctor {};

struct first : utki::singleton<first> {
	int v;
	std::string mem = "memory owned by the singleton object, longer than small string";
	first(int v = 0, bool fail = false) :
		v(v)
	{
		if (fail) {
			throw fail_ctor();
		}
		++live;
	}
	~first() override
	{
		--live;
	}
};

// another singleton type is independent. Singleton base is not at the beginning of the object.
struct pad {
	long x[3] = {1, 2, 3};
	virtual ~pad() = default;
};
struct second : pad, utki::singleton<second> {
	int v;
	second(int v = 0, bool fail = false) :
		v(v)
	{
		if (fail) {
			throw fail_ctor();
		}
		++live;
	}
	~second() override
	{
		--live;
	}
};

struct third : utki::intrusive_singleton<third> {
	friend class utki::intrusive_singleton<third>;
	int v;
	third(int v = 0, bool fail = false) :
		v(v)
	{
		if (fail) {
			throw fail_ctor();
		}
		++live;
	}
	~third() override
	{
		--live;
	}

private:
	static singleton_type::instance_type instance;
};
third::singleton_type::instance_type third::instance;

// a class derived from a singleton
struct derived_first : first {
	std::string more = "one more member with memory allocated, derived";
	derived_first(int v, bool fail) :
		first(v, false)
	{
		if (fail) {
			throw fail_ctor();
		}
	}
};

template <class T>
struct slot {
	// reference model
	bool created = false;
	int where = -1; // 0,1: heap slots, 2: automatic storage, 3: derived on heap
	int value = 0;
	std::unique_ptr<T> heap[2];
	std::optional<T> in_place;
	T* address = nullptr;
	std::unique_ptr<derived_first> der;

	void check(const char* name)
	{
		MC_CHECK(T::is_created() == created, "%s: is_created() is %d, must be %d", name, T::is_created(), created);
		if (created) {
			MC_CHECK(&T::inst() == address, "%s: inst() is another object", name);
			MC_CHECK(T::inst().v == value, "%s: value of the instance is %d instead of %d", name, T::inst().v, value);
		}
		steps();
	}

	// ops: 0,1 create in heap slot, 2 create in place, 3 create failing, 4 destroy, 5 change value
	void op(unsigned o, int v, const char* name)
	{
		bool thrown = false, failed = false;
		switch (o) {
			case 0:
			case 1:
			case 2:
			case 3:
				try {
					if (o < 2) {
						auto n = std::make_unique<T>(v);
						MC_CHECK(!created, "%s: second instance was created", name);
						heap[o] = std::move(n);
						address = heap[o].get();
						where = int(o);
					} else {
						in_place.emplace(v, o == 3);
						address = &*in_place;
						where = 2;
					}
					MC_CHECK(!created, "%s: second instance was created", name);
					created = true;
					value = v;
				} catch (std::logic_error& e) {
					thrown = true;
				} catch (fail_ctor&) {
					failed = true;
				}
				if (thrown) {
					MC_CHECK(created, "%s: creation failed, though there is no instance", name);
				}
				if (failed) {
					MC_CHECK(!created, "%s: constructor of a second instance was run", name);
				}
				break;
			case 4:
				if (created) {
					if (where < 2) {
						heap[where].reset();
					} else {
						in_place.reset();
					}
					created = false;
				}
				break;
			case 5:
				if (created) {
					T::inst().v = value = v;
				}
				break;
		}
	}

	~slot() {}
};
} // namespace

MC_SUITE(histories)
{
	live = 0;
	{
		slot<first> a;
		slot<second> b;
		slot<third> c;
		unsigned depth = sanitized() ? by_tier(4u, 5u) : by_tier(5u, 6u);
		for (unsigned i = 0; i != depth; ++i) {
			unsigned o = choose(6);
			unsigned t = choose(3);
			note("type %u op %u", t, o);
			if (t == 0) {
				bool was = a.created && o < 4;
				// in_place.emplace() would destroy the instance first, use another place
				if (o >= 2 && o <= 3 && a.created && a.where == 2) {
					o = 0;
				}
				if (o < 2 && a.created && a.where == int(o)) {
					o = 1 - o;
				}
				int before = a.created ? a.value : -1;
				a.op(o, int(i) + 10, "singleton");
				MC_CHECK(!was || a.value == before, "singleton: failed creation changed the instance");
			} else if (t == 1) {
				if (o >= 2 && o <= 3 && b.created && b.where == 2) {
					o = 0;
				}
				if (o < 2 && b.created && b.where == int(o)) {
					o = 1 - o;
				}
				b.op(o, int(i) + 10, "singleton with another base");
			} else {
				if (o >= 2 && o <= 3 && c.created && c.where == 2) {
					o = 0;
				}
				if (o < 2 && c.created && c.where == int(o)) {
					o = 1 - o;
				}
				c.op(o, int(i) + 10, "intrusive singleton");
			}
			a.check("singleton");
			b.check("singleton with another base");
			c.check("intrusive singleton");
			MC_CHECK(live == int(a.created) + int(b.created) + int(c.created), "%d objects alive", live);
			state(hasher().add(unsigned(a.created * (a.where + 2))).add(unsigned(b.created * (b.where + 2))).add(unsigned(c.created * (c.where + 2))).h);
		}
	}
	MC_CHECK(live == 0, "%d objects alive at the end", live);
	MC_CHECK(!first::is_created() && !second::is_created() && !third::is_created(), "still created at the end");
}

// singletons which are bases of other classes, whose construction fails at different points
MC_SUITE(derived)
{
	live = 0;
	unsigned depth = by_tier(6u, 8u);
	{
		std::unique_ptr<first> p;
		for (unsigned i = 0; i != depth; ++i) {
			unsigned o = choose(5);
			bool had = p != nullptr;
			first* addr = p.get();
			bool logic = false, failed = false;
			try {
				switch (o) {
					case 0: {
						auto n = std::make_unique<first>(int(i));
						MC_CHECK(!had, "second instance was created");
						p = std::move(n);
						break;
					}
					case 1: {
						auto n = std::make_unique<derived_first>(int(i), false);
						MC_CHECK(!had, "second instance was created");
						p = std::move(n);
						break;
					}
					case 2: {
						auto n = std::make_unique<derived_first>(int(i), true);
						MC_CHECK(false, "constructor did not throw");
						break;
					}
					case 3:
						p.reset();
						break;
					case 4: {
						// construct one in automatic storage and leave the scope
						first local(int(i) + 100);
						MC_CHECK(!had, "second instance was created");
						MC_CHECK(first::is_created() && &first::inst() == &local, "instance in automatic storage");
						break;
					}
				}
			} catch (std::logic_error&) {
				logic = true;
			} catch (fail_ctor&) {
				failed = true;
			}
			bool creates = o != 3;
			MC_CHECK(logic == (creates && had), "creation of a second instance %s", logic ? "wrongly refused" : "not refused");
			MC_CHECK(failed == (o == 2 && !had), "failing constructor");
			MC_CHECK(first::is_created() == (p != nullptr), "is_created() is %d", first::is_created());
			if (p) {
				MC_CHECK(&first::inst() == p.get(), "inst() is another object");
				if (had) {
					MC_CHECK(p.get() == addr, "instance has changed");
				}
			}
			MC_CHECK(live == (p ? 1 : 0), "%d objects alive", live);
			steps();
			state(hasher().add(p != nullptr).add(o).add(had).h);
		}
	}
	MC_CHECK(live == 0 && !first::is_created(), "instance remains");
}

// C19: unique references own exactly one live object at a time; objects are destroyed once, through their virtual destructors.
#include <utki/destructable.hpp>
#include <utki/unique_ref.hpp>

#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "mc.hpp"

using namespace mc;

namespace {
constexpr int max_objects = 32;
int alive[max_objects];
int num_created = 0;
int derived_dtors = 0, derived_created = 0;

struct base : utki::destructable {
	int id;
	std::string payload;
	base() :
		id(num_created++),
		payload("payload of the object number " + std::to_string(id))
	{
		MC_CHECK(id < max_objects, "harness: too many objects");
		alive[id] = 1;
	}
	base(const base&) = delete;
	~base() override
	{
		MC_CHECK(alive[id] == 1, "object %d destroyed twice", id);
		alive[id] = 2;
	}
	bool intact() const
	{
		return payload == "payload of the object number " + std::to_string(id);
	}
	bool operator<(const base& o) const
	{
		return id < o.id;
	}
	bool operator==(const base& o) const
	{
		return id == o.id;
	}
};

struct side {
	virtual ~side() = default;
	int s = 5;
};

struct derived : side, base {
	std::string more = "a member of the derived class which owns memory";
	derived()
	{
		++derived_created;
	}
	~derived() override
	{
		++derived_dtors;
	}
};

constexpr unsigned n_base = 3;

struct world {
	std::optional<utki::unique_ref<base>> b[n_base];
	std::optional<utki::unique_ref<derived>> d;
	std::optional<utki::unique_ref<const base>> c;
	std::unique_ptr<base> p;
	int mb[n_base] = {-1, -1, -1}, md = -1, mcb = -1, mp = -1;

	int owners(int id)
	{
		int n = 0;
		for (int x : mb) {
			n += x == id;
		}
		return n + (md == id) + (mcb == id) + (mp == id);
	}

	void lifetimes()
	{
		for (int i = 0; i != num_created; ++i) {
			int n = owners(i);
			MC_CHECK(n <= 1, "harness: %d owners", n);
			MC_CHECK(alive[i] == (n ? 1 : 2), "object %d has %d owners and is %s", i, n, alive[i] == 1 ? "alive" : "destroyed");
		}
	}

	// A move from one owner to another, the moved-from owner still exists, but it doesn't own anything anymore.
	// The object which was owned by the destination must be destroyed already.
	void moved(int& from, int& to)
	{
		to = from;
		from = -1;
		lifetimes();
	}

	void check()
	{
		lifetimes();
		auto one = [&](const base& o, int id, const char* what) {
			MC_CHECK(o.id == id, "%s refers to object %d instead of %d", what, o.id, id);
			MC_CHECK(o.intact(), "object %d is corrupted", id);
		};
		for (unsigned i = 0; i != n_base; ++i) {
			if (b[i]) {
				one(b[i]->get(), mb[i], "unique_ref<base>");
				base& r = *b[i];
				MC_CHECK(&r == &b[i]->get(), "conversion to reference");
			}
		}
		if (d) {
			one(d->get(), md, "unique_ref<derived>");
		}
		if (c) {
			one(c->get(), mcb, "unique_ref<const base>");
		}
		MC_CHECK(bool(p) == (mp >= 0), "unique_ptr is %s", p ? "set" : "null");
		if (p) {
			one(*p, mp, "unique_ptr");
		}
		steps();
	}

	uint64_t hash()
	{
		hasher h;
		for (unsigned i = 0; i != n_base; ++i) {
			h.add(mb[i] < 0 ? 0 : 1 + (dynamic_cast<const derived*>(&b[i]->get()) != nullptr));
		}
		return h.add(md < 0).add(mcb < 0).add(mp < 0).add(unsigned(num_created)).h;
	}
};

template <class opt, class ref>
void put(opt& o, ref&& x)
{
	if (o) {
		*o = std::forward<ref>(x);
	} else {
		o.emplace(std::forward<ref>(x));
	}
}
} // namespace

MC_SUITE(histories)
{
	num_created = 0;
	derived_created = derived_dtors = 0;
	memset(alive, 0, sizeof(alive));
	{
		world w;
		unsigned depth = sanitized() ? by_tier(5u, 6u) : by_tier(6u, 7u);
		for (unsigned step = 0; step != depth; ++step) {
			std::vector<std::pair<unsigned, unsigned>> en;
			for (unsigned o = 0; o != 16; ++o) {
				for (unsigned d = 0; d != n_base; ++d) {
					bool ok = true;
					switch (o) {
						case 2:
							ok = d == 0;
							break;
						case 3:
							ok = w.d.has_value();
							break;
						case 4:
							ok = w.b[(d + 1) % n_base].has_value();
							break;
						case 5:
							ok = w.b[(d + 2) % n_base].has_value();
							break;
						case 6:
						case 7:
						case 8:
						case 12:
							ok = w.b[d].has_value();
							break;
						case 9:
							ok = w.p != nullptr;
							break;
						case 10:
							ok = d == 0 && w.p;
							break;
						case 11:
							ok = d == 0 && w.c;
							break;
						case 13:
						case 15:
							ok = w.b[d] && w.b[(d + 1) % n_base];
							break;
						case 14:
							ok = w.b[d] && w.d;
							break;
					}
					if (ok) {
						en.emplace_back(o, d);
					}
				}
			}
			auto [op, dst] = en[choose(unsigned(en.size()))];
			unsigned s1 = (dst + 1) % n_base, s2 = (dst + 2) % n_base;
			switch (op) {
				case 0:
					note("b%u = make_unique<base>", dst);
					put(w.b[dst], utki::make_unique<base>());
					w.mb[dst] = num_created - 1;
					break;
				case 1:
					note("b%u = make_unique<derived>", dst);
					put(w.b[dst], utki::unique_ref<base>(utki::make_unique<derived>()));
					w.mb[dst] = num_created - 1;
					break;
				case 2:
					note("d = make_unique<derived>");
					put(w.d, utki::make_unique<derived>());
					w.md = num_created - 1;
					break;
				case 3:
					note("b%u = move(d)", dst);
					put(w.b[dst], utki::unique_ref<base>(std::move(*w.d)));
					w.moved(w.md, w.mb[dst]);
					w.d.reset();
					break;
				case 4:
				case 5: {
					unsigned src = op == 4 ? s1 : s2;
					note("b%u = move(b%u)", dst, src);
					auto addr = &w.b[src]->get();
					put(w.b[dst], std::move(*w.b[src]));
					w.moved(w.mb[src], w.mb[dst]);
					w.b[src].reset();
					MC_CHECK(&w.b[dst]->get() == addr, "the object was not moved as is");
					break;
				}
				case 6:
					note("b%u gone", dst);
					w.b[dst].reset();
					w.mb[dst] = -1;
					break;
				case 7: {
					note("p = b%u.to_unique_ptr()", dst);
					auto addr = &w.b[dst]->get();
					w.p = std::move(*w.b[dst]).to_unique_ptr();
					w.moved(w.mb[dst], w.mp);
					w.b[dst].reset();
					MC_CHECK(w.p.get() == addr, "to_unique_ptr() gave another object");
					break;
				}
				case 8:
					note("c = move(b%u)", dst);
					put(w.c, utki::unique_ref<const base>(std::move(*w.b[dst])));
					w.moved(w.mb[dst], w.mcb);
					w.b[dst].reset();
					break;
				case 9:
					note("b%u = unique_ref(move(p))", dst);
					put(w.b[dst], utki::unique_ref<base>(std::move(w.p)));
					w.mb[dst] = w.mp;
					w.mp = -1;
					break;
				case 10:
					note("p = null");
					w.p.reset();
					w.mp = -1;
					break;
				case 11:
					note("c gone");
					w.c.reset();
					w.mcb = -1;
					break;
				case 12: {
					note("b%u through temporary and back", dst);
					utki::unique_ref<base> t(std::move(*w.b[dst]));
					*w.b[dst] = std::move(t);
					break;
				}
				case 13:
					note("swap b%u b%u", dst, s1);
					std::swap(*w.b[dst], *w.b[s1]);
					std::swap(w.mb[dst], w.mb[s1]);
					break;
				case 14:
					note("b%u = move(d) with implicit conversion", dst);
					*w.b[dst] = std::move(*w.d);
					w.moved(w.md, w.mb[dst]);
					w.d.reset();
					break;
				case 15:
					note("b%u = move(b%u); b%u = make_unique<base>", dst, s1, s1);
					*w.b[dst] = std::move(*w.b[s1]);
					w.moved(w.mb[s1], w.mb[dst]);
					*w.b[s1] = utki::make_unique<base>();
					w.mb[s1] = num_created - 1;
					w.lifetimes();
					break;
			}
			for (unsigned i = 0; i != n_base; ++i) {
				for (unsigned j = 0; j != n_base; ++j) {
					if (w.b[i] && w.b[j]) {
						MC_CHECK((*w.b[i] == *w.b[j]) == (w.mb[i] == w.mb[j]), "equality of references");
						MC_CHECK((*w.b[i] == w.b[j]->get()) == (w.mb[i] == w.mb[j]), "equality of reference and object");
						MC_CHECK((*w.b[i] < w.b[j]->get()) == (w.mb[i] < w.mb[j]), "order of reference and object");
					}
				}
			}
			w.check();
			state(w.hash());
		}
	}
	for (int i = 0; i != num_created; ++i) {
		MC_CHECK(alive[i] == 2, "object %d outlived its owner", i);
	}
	MC_CHECK(derived_created == derived_dtors, "%d derived objects created, %d derived destructors run", derived_created, derived_dtors);
}

namespace {
struct args {
	std::string a, b;
	int* c;
	std::unique_ptr<int> d;
	args(const std::string& a, std::string&& b, int& c, std::unique_ptr<int> d) :
		a(a),
		b(std::move(b)),
		c(&c),
		d(std::move(d))
	{}
};

struct thrower {
	static int alive;
	std::string mem = "memory owned by the object, longer than small string";
	thrower(bool t)
	{
		if (t) {
			throw 5;
		}
		++alive;
	}
	~thrower()
	{
		--alive;
	}
};
int thrower::alive = 0;

// hierarchy rooted in destructable: destruction through the root runs everything, in order
std::string order;
struct h1 : utki::destructable {
	~h1() override
	{
		order += '1';
	}
};
struct h2 : h1 {
	std::string m = "long enough member string of the class, to allocate memory";
	~h2() override
	{
		order += '2';
	}
};
struct h3 : virtual h1 {
	~h3() override
	{
		order += '3';
	}
};
struct plain_iface {
	virtual void f() {}
	virtual ~plain_iface() = default;
};
struct h4 : plain_iface, h3 {
	std::string m = "long enough member string of the class, to allocate memory";
	~h4() override
	{
		order += '4';
	}
};

template <class T>
struct guarded : T {
	std::unique_ptr<int> x{new int(3)};
	~guarded() override
	{
		order += 'g';
	}
};
} // namespace

MC_SUITE(construction)
{
	unsigned len = choose(40);
	const std::string a(len, 'a');
	std::string b(len, 'b');
	int c = 0;
	auto r = utki::make_unique<args>(a, std::move(b), c, std::make_unique<int>(int(len)));
	MC_CHECK(r.get().a == a && a == std::string(len, 'a'), "const argument");
	MC_CHECK(r.get().b == std::string(len, 'b'), "moved argument");
	MC_CHECK(r.get().c == &c, "reference argument");
	MC_CHECK(r.get().d && *r.get().d == int(len), "move only argument");
	thrower::alive = 0;
	bool thrown = false;
	try {
		auto x = utki::make_unique<thrower>(len % 2 == 1);
		MC_CHECK(thrower::alive == 1, "one object alive");
	} catch (int) {
		thrown = true;
	}
	MC_CHECK(thrown == (len % 2 == 1), "exception of the constructor");
	MC_CHECK(thrower::alive == 0, "objects alive: %d", thrower::alive);
	MC_CHECK((!std::is_copy_constructible_v<utki::unique_ref<args>>), "must not be copyable");
	MC_CHECK((!std::is_copy_assignable_v<utki::unique_ref<args>>), "must not be copyable");
	MC_CHECK((!std::is_default_constructible_v<utki::unique_ref<args>>), "must not be null");
	MC_CHECK((!std::is_constructible_v<utki::unique_ref<h2>, utki::unique_ref<h1>>), "must not downcast");
	MC_CHECK((!std::is_constructible_v<utki::unique_ref<h2>, utki::unique_ref<const h2>>), "must not drop const");
	steps(7);
	state(len);
}

MC_SUITE(virtual_destruction)
{
	unsigned k = choose(8);
	unsigned how = choose(3);
	order.clear();
	utki::destructable* p = nullptr;
	const char* exp = "";
	switch (k) {
		case 0:
			p = new utki::destructable();
			exp = "";
			break;
		case 1:
			p = new h1();
			exp = "1";
			break;
		case 2:
			p = new h2();
			exp = "21";
			break;
		case 3:
			p = new h3();
			exp = "31";
			break;
		case 4:
			p = new h4();
			exp = "431";
			break;
		case 5:
			p = new guarded<h2>();
			exp = "g21";
			break;
		case 6:
			p = new guarded<h4>();
			exp = "g431";
			break;
		case 7:
			p = new guarded<utki::destructable>();
			exp = "g";
			break;
	}
	switch (how) {
		case 0:
			delete p;
			break;
		case 1: {
			std::unique_ptr<utki::destructable> u(p);
			break;
		}
		case 2: {
			utki::unique_ref<utki::destructable> u{std::unique_ptr<utki::destructable>(p)};
			break;
		}
	}
	MC_CHECK(order == exp, "destructors run: %s, expected %s", order.c_str(), exp);
	steps();
	state(k * 10 + how);
}

// references in ordered containers
MC_SUITE(ordered_set)
{
	unsigned n = choose(by_tier(6u, 7u)) + 1;
	num_created = 0;
	memset(alive, 0, sizeof(alive));
	struct val {
		int v;
		bool operator<(const val& o) const
		{
			return v < o.v;
		}
		bool operator==(const val& o) const
		{
			return v == o.v;
		}
	};
	auto cmp = [](const utki::unique_ref<val>& a, const utki::unique_ref<val>& b) {
		return a < b.get();
	};
	std::set<utki::unique_ref<val>, decltype(cmp)> s(cmp);
	std::set<int> e;
	for (unsigned i = 0; i != n; ++i) {
		int x = int(choose(n));
		auto r = utki::make_unique<val>(val{x});
		for (auto& y : s) {
			MC_CHECK((y == r) == (y.get().v == x), "equality");
			MC_CHECK((y < r.get()) == (y.get().v < x), "order");
		}
		MC_CHECK(s.insert(std::move(r)).second == e.insert(x).second, "insertion of %d", x);
		steps();
	}
	auto i = e.begin();
	MC_CHECK(s.size() == e.size(), "size of the set");
	for (auto& x : s) {
		MC_CHECK(x.get().v == *i, "order of the set");
		++i;
	}
	state(hasher().add_range(e).h);
}

// chains of owners: a reference gets its new value from the object which it owns itself, as when an element is taken out of
// a linked list
namespace {
struct chain_link : base {
	std::vector<utki::unique_ref<chain_link>> next;
};

struct special_chain_link : chain_link {};
} // namespace

MC_SUITE(chains)
{
	num_created = 0;
	memset(alive, 0, sizeof(alive));
	unsigned n = choose(by_tier(5u, 7u)) + 2;
	unsigned place = choose(n - 1);
	unsigned distance = choose(n - 1 - place) + 1;
	unsigned how = choose(3u);
	note("chain of %u, reference number %u = the one %u further, way %u\n", n, place, distance, how);
	{
		utki::unique_ref<chain_link> head = utki::make_unique<special_chain_link>();
		std::vector<utki::unique_ref<chain_link>*> refs{&head};
		while (refs.size() != n) {
			chain_link& l = refs.back()->get();
			l.next.push_back(refs.size() % 2 ? utki::unique_ref<chain_link>(utki::make_unique<chain_link>())
										  : utki::unique_ref<chain_link>(utki::make_unique<special_chain_link>()));
			refs.push_back(&l.next.front());
		}
		for (unsigned i = 0; i != n; ++i) {
			MC_CHECK(refs[i]->get().id == int(i), "harness: wrong chain");
		}
		auto& dst = *refs[place];
		auto& src = *refs[place + distance];
		switch (how) {
			case 0:
				dst = std::move(src);
				break;
			case 1:
				dst = utki::unique_ref<chain_link>(std::move(src));
				break;
			case 2:
				dst = utki::unique_ref<chain_link>(std::move(src).to_unique_ptr());
				break;
		}
		MC_CHECK(num_created == int(n), "objects were created");
		for (unsigned i = 0; i != n; ++i) {
			bool dropped = i >= place && i < place + distance;
			MC_CHECK(alive[i] == (dropped ? 2 : 1), "object %u is %s", i, dropped ? "not destroyed" : "destroyed");
		}
		auto* r = &head;
		for (unsigned i = 0; i != n; ++i) {
			if (i >= place && i < place + distance) {
				continue;
			}
			MC_CHECK(r->get().id == int(i) && r->get().intact(), "wrong object in place of number %u", i);
			if (i + 1 != n) {
				MC_CHECK(r->get().next.size() == 1, "the rest after number %u is lost", i);
				r = &r->get().next.front();
			} else {
				MC_CHECK(r->get().next.empty(), "something follows the last one");
			}
			steps();
		}
		state(hasher().add(n).add(place).add(distance).add(how).h);
	}
	for (unsigned i = 0; i != n; ++i) {
		MC_CHECK(alive[i] == 2, "object %u was leaked", i);
	}
}

// C18: shared references always refer to a live object; the object lives exactly as long as somebody owns it.
#include <utki/shared.hpp>
#include <utki/shared_ref.hpp>

#include <cstring>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <typeinfo>
#include <vector>

#include "mc.hpp"

using namespace mc;

namespace {
constexpr int max_objects = 16;
int alive[max_objects]; // 1 alive, 0 not yet, 2 destroyed
int num_created = 0;

struct interface {
	virtual ~interface() = default;
	virtual int tag() const = 0;
};

struct base : utki::shared {
	int id;
	std::string payload;
	base() :
		id(num_created++),
		payload("payload of the object number " + std::to_string(id))
	{
		MC_CHECK(id < max_objects, "harness: too many objects");
		alive[id] = 1;
	}
	base(const base&) = delete;
	~base() override
	{
		MC_CHECK(alive[id] == 1, "object %d destroyed twice", id);
		alive[id] = 2;
	}
	bool intact() const
	{
		return payload == "payload of the object number " + std::to_string(id);
	}
	bool operator<(const base& o) const
	{
		return id < o.id;
	}
	bool operator==(const base& o) const
	{
		return id == o.id;
	}
};

struct left : virtual base, interface {
	int l = 0;
	int tag() const override
	{
		return id;
	}
};
struct right : virtual base {
	int r = 0;
};
struct bottom : left, right {
	int b = 0;
};

enum kind { k_base, k_left, k_right, k_bottom };

bool kind_is(kind k, kind want)
{
	return want == k_base || k == want || k == k_bottom;
}

constexpr unsigned n_base = 2; // slots of shared_ref<base>

struct world {
	std::optional<utki::shared_ref<base>> b[n_base];
	std::optional<utki::shared_ref<left>> l;
	std::optional<utki::shared_ref<right>> r;
	std::optional<utki::shared_ref<const base>> c;
	std::shared_ptr<base> p;
	std::weak_ptr<base> w;

	// reference model: which object each slot holds, -1 is none
	int mb[n_base] = {-1, -1}, ml = -1, mr = -1, mcb = -1, mp = -1, mw = -1;
	std::vector<kind> kinds;

	int owners(int id)
	{
		int n = 0;
		for (int x : mb) {
			n += x == id;
		}
		return n + (ml == id) + (mr == id) + (mcb == id) + (mp == id);
	}

	void check()
	{
		for (int i = 0; i != num_created; ++i) {
			int n = owners(i);
			MC_CHECK(alive[i] == (n ? 1 : 2), "object %d has %d owners and is %s", i, n, alive[i] == 1 ? "alive" : "destroyed");
		}
		auto one = [&](const base& o, int id, long uses, const char* what) {
			MC_CHECK(o.id == id, "%s refers to object %d instead of %d", what, o.id, id);
			MC_CHECK(o.intact(), "object %d is corrupted", id);
			MC_CHECK(uses == owners(id), "%s: use count of object %d is %ld, there are %d owners", what, id, uses, owners(id));
		};
		for (unsigned i = 0; i != n_base; ++i) {
			MC_CHECK(b[i].has_value() == (mb[i] >= 0), "harness: slot");
			if (b[i]) {
				one(b[i]->get(), mb[i], b[i]->to_shared_ptr().use_count(), "shared_ref<base>");
				base& conv = *b[i];
				MC_CHECK(&conv == &b[i]->get(), "conversion to reference");
			}
		}
		if (l) {
			one(l->get(), ml, l->to_shared_ptr().use_count(), "shared_ref<left>");
			MC_CHECK(l->get().tag() == ml, "interface of object %d", ml);
		}
		if (r) {
			one(r->get(), mr, r->to_shared_ptr().use_count(), "shared_ref<right>");
		}
		if (c) {
			one(c->get(), mcb, c->to_shared_ptr().use_count(), "shared_ref<const base>");
		}
		MC_CHECK(bool(p) == (mp >= 0), "shared_ptr is %s", p ? "set" : "null");
		if (p) {
			one(*p, mp, p.use_count(), "shared_ptr");
		}
		bool exp = mw < 0 || owners(mw) == 0;
		MC_CHECK(w.expired() == exp, "weak_ptr to object %d is %s", mw, w.expired() ? "expired" : "not expired");
		if (!exp) {
			auto x = w.lock();
			MC_CHECK(x && x->id == mw, "weak_ptr refers to another object");
		}
		steps();
	}

	uint64_t hash()
	{
		// objects renumbered by first use
		int map[max_objects];
		memset(map, -1, sizeof(map));
		int n = 0;
		hasher h;
		auto add = [&](int id) {
			if (id < 0) {
				h.add(99);
				return;
			}
			if (map[id] < 0) {
				map[id] = n++;
				h.add(50 + unsigned(kinds[size_t(id)]));
			}
			h.add(unsigned(map[id]));
			h.add(unsigned(owners(id)));
		};
		for (int x : mb) {
			add(x);
		}
		add(ml);
		add(mr);
		add(mcb);
		add(mp);
		add(mw);
		return h.h;
	}
};

template <class opt, class ref>
void put(opt& o, ref&& x)
{
	// assignment when there is something already, construction otherwise
	if (o) {
		*o = std::forward<ref>(x);
	} else {
		o.emplace(std::forward<ref>(x));
	}
}
} // namespace

MC_SUITE(histories)
{
	num_created = 0;
	memset(alive, 0, sizeof(alive));
	{
		world w;
		unsigned depth = sanitized() ? by_tier(4u, 5u) : by_tier(5u, 6u);
		for (unsigned step = 0; step != depth; ++step) {
			// only the operations which are possible in this state
			std::vector<std::pair<unsigned, unsigned>> enabled;
			for (unsigned o = 0; o != 24; ++o) {
				for (unsigned d = 0; d != n_base; ++d) {
					bool ok = true;
					if (o == 3 || o == 5 || o == 19) {
						ok = w.b[(d + 1) % n_base].has_value();
					} else if (o == 4 || (o >= 6 && o <= 12) || (o >= 16 && o <= 18) || o == 22) {
						ok = w.b[d].has_value();
					} else if (o == 13 || o == 14) {
						ok = w.p != nullptr;
					} else if (o == 15) {
						ok = d == 0 && w.p;
					} else if (o == 20) {
						ok = w.r.has_value();
					} else if (o == 21) {
						ok = d == 0 && w.l;
					} else if (o == 23) {
						ok = d == 0 && (w.c || w.l || w.r);
					}
					if (ok) {
						enabled.emplace_back(o, d);
					}
				}
			}
			auto [op, dst] = enabled[choose(unsigned(enabled.size()))];
			unsigned src = (dst + 1) % n_base;
			switch (op) {
				case 0:
					note("b%u = make_shared<base>", dst);
					put(w.b[dst], utki::make_shared<base>());
					w.kinds.push_back(k_base);
					w.mb[dst] = num_created - 1;
					break;
				case 1:
					note("b%u = make_shared<bottom> converted to base", dst);
					put(w.b[dst], utki::shared_ref<base>(utki::make_shared<bottom>()));
					w.kinds.push_back(k_bottom);
					w.mb[dst] = num_created - 1;
					break;
				case 2: {
					note("l = make_shared<left>; b%u = l", dst);
					put(w.l, utki::make_shared<left>());
					w.kinds.push_back(k_left);
					w.ml = num_created - 1;
					put(w.b[dst], utki::shared_ref<base>(*w.l));
					w.mb[dst] = w.ml;
					break;
				}
				case 3:
					if (w.b[src]) {
						note("b%u = b%u", dst, src);
						const auto& x = *w.b[src];
						put(w.b[dst], x);
						w.mb[dst] = w.mb[src];
					}
					break;
				case 4:
					if (w.b[dst]) {
						note("b%u = itself", dst);
						auto& x = *w.b[dst];
						x = *w.b[dst];
					}
					break;
				case 5:
					if (w.b[src]) {
						note("b%u = move(b%u), b%u gone", dst, src, src);
						int old = w.mb[dst];
						put(w.b[dst], std::move(*w.b[src]));
						w.mb[dst] = w.mb[src];
						// the moved-from reference still exists, it must not keep the replaced object alive
						MC_CHECK(old < 0 || w.owners(old) || alive[old] == 2, "object %d which has no owners is kept by a moved-from reference", old);
						w.b[src].reset();
						w.mb[src] = -1;
					}
					break;
				case 6:
					note("b%u gone", dst);
					w.b[dst].reset();
					w.mb[dst] = -1;
					break;
				case 7:
				case 8:
				case 9:
				case 10:
				case 11:
					if (w.b[dst]) {
						kind k = w.kinds[size_t(w.mb[dst])];
						bool ok = false, thrown = false;
						const base* before = &w.b[dst]->get();
						try {
							if (op == 7) {
								note("l = cast(b%u)", dst);
								put(w.l, utki::dynamic_reference_cast<left>(*w.b[dst]));
								w.ml = w.mb[dst];
								ok = true;
							} else if (op == 8) {
								note("r = cast(b%u)", dst);
								put(w.r, utki::dynamic_reference_cast<right>(*w.b[dst]));
								w.mr = w.mb[dst];
								ok = true;
							} else if (op == 9) {
								note("r = cast(cast<bottom>(b%u))", dst);
								put(w.r, utki::shared_ref<right>(utki::dynamic_reference_cast<bottom>(*w.b[dst])));
								w.mr = w.mb[dst];
								ok = true;
							} else if (op == 10) {
								note("interface(b%u)", dst);
								auto x = utki::dynamic_reference_cast<interface>(*w.b[dst]);
								MC_CHECK(x.get().tag() == w.mb[dst], "interface of another object");
								ok = true;
							} else {
								note("const cast(b%u)", dst);
								auto x = utki::dynamic_reference_cast<const left>(utki::shared_ref<const base>(*w.b[dst]));
								MC_CHECK(x.get().id == w.mb[dst], "const left of another object");
								ok = true;
							}
						} catch (std::bad_cast&) {
							thrown = true;
						}
						bool exp = op == 7 || op == 10 || op == 11 ? kind_is(k, k_left) : op == 8 ? kind_is(k, k_right) : k == k_bottom;
						MC_CHECK(ok == exp && thrown == !exp, "cast of kind %d by operation %u: %s", int(k), op, ok ? "succeeded" : "failed");
						MC_CHECK(w.b[dst]->to_shared_ptr() && &w.b[dst]->get() == before, "cast changed its argument");
					}
					break;
				case 12:
					if (w.b[dst]) {
						note("p = b%u", dst);
						w.p = *w.b[dst];
						w.mp = w.mb[dst];
					}
					break;
				case 13:
					if (w.p) {
						note("b%u = shared_ref(p)", dst);
						put(w.b[dst], utki::shared_ref<base>(w.p));
						w.mb[dst] = w.mp;
					}
					break;
				case 14:
					if (w.p) {
						note("b%u = shared_ref(move(p))", dst);
						put(w.b[dst], utki::shared_ref<base>(std::move(w.p)));
						w.mb[dst] = w.mp;
						w.mp = -1;
					}
					break;
				case 15:
					note("p = null");
					w.p.reset();
					w.mp = -1;
					break;
				case 16:
					if (w.b[dst]) {
						note("w = make_weak(b%u)", dst);
						w.w = utki::make_weak(*w.b[dst]);
						w.mw = w.mb[dst];
					}
					break;
				case 17:
					if (w.b[dst]) {
						note("w = b%u", dst);
						w.w = *w.b[dst];
						w.mw = w.mb[dst];
					}
					break;
				case 18:
					if (w.b[dst]) {
						note("w = make_weak_from(b%u)", dst);
						w.w = utki::make_weak_from(w.b[dst]->get());
						w.mw = w.mb[dst];
					}
					break;
				case 19:
					if (w.b[src]) {
						note("b%u = make_shared_from(b%u)", dst, src);
						put(w.b[dst], utki::make_shared_from(w.b[src]->get()));
						w.mb[dst] = w.mb[src];
					}
					break;
				case 20:
					if (w.r) {
						note("b%u = make_shared_from(r), r gone", dst);
						auto x = utki::make_shared_from(w.r->get());
						MC_CHECK(&x.get() == &w.r->get(), "make_shared_from refers to another subobject");
						w.r.reset();
						put(w.b[dst], utki::shared_ref<base>(x));
						w.mb[dst] = w.mr;
						w.mr = -1;
					}
					break;
				case 21:
					if (w.l) {
						note("l gone, c = const l");
						const left& cl = w.l->get();
						put(w.c, utki::shared_ref<const base>(utki::make_shared_from(cl)));
						w.l.reset();
						w.mcb = w.ml;
						w.ml = -1;
					}
					break;
				case 22:
					if (w.b[dst]) {
						note("c = b%u", dst);
						put(w.c, utki::shared_ref<const base>(*w.b[dst]));
						w.mcb = w.mb[dst];
						std::shared_ptr<const base> cp = *w.b[dst];
						MC_CHECK(cp && cp->id == w.mb[dst], "const shared_ptr of another object");
						std::weak_ptr<const base> cw = *w.b[dst];
						MC_CHECK(!cw.expired() && cw.lock()->id == w.mb[dst], "const weak_ptr of another object");
					}
					break;
				case 23:
					note("c, l, r gone");
					w.c.reset();
					w.l.reset();
					w.r.reset();
					w.mcb = w.ml = w.mr = -1;
					break;
			}
			if (w.b[0] && w.b[1]) {
				MC_CHECK((*w.b[0] == *w.b[1]) == (w.mb[0] == w.mb[1]), "equality of references");
				MC_CHECK((*w.b[0] == w.b[1]->get()) == (w.mb[0] == w.mb[1]), "equality of reference and object");
				MC_CHECK((*w.b[0] < w.b[1]->get()) == (w.mb[0] < w.mb[1]), "order of reference and object");
			}
			w.check();
			state(w.hash());
		}
	}
	for (int i = 0; i != num_created; ++i) {
		MC_CHECK(alive[i] == 2, "object %d outlived all of its owners", i);
	}
}

namespace {
// construction arguments are forwarded as they are
struct args {
	std::string a, b;
	int* c;
	std::unique_ptr<int> d;
	args(const std::string& a, std::string&& b, int& c, std::unique_ptr<int> d) :
		a(a),
		b(std::move(b)),
		c(&c),
		d(std::move(d))
	{}
};

struct thrower {
	thrower(bool t)
	{
		if (t) {
			throw 5;
		}
	}
};

struct own_shared : std::enable_shared_from_this<own_shared> {
	int x;
	own_shared(int x) :
		x(x)
	{}
};
} // namespace

MC_SUITE(construction)
{
	unsigned len = choose(40);
	const std::string a(len, 'a');
	std::string b(len, 'b');
	int c = 0;
	auto r = utki::make_shared<args>(a, std::move(b), c, std::make_unique<int>(int(len)));
	MC_CHECK(r.get().a == a && a == std::string(len, 'a'), "const argument");
	MC_CHECK(r.get().b == std::string(len, 'b'), "moved argument");
	MC_CHECK(r.get().c == &c, "reference argument");
	MC_CHECK(r.get().d && *r.get().d == int(len), "move only argument");
	MC_CHECK(r.to_shared_ptr().use_count() == 1, "use count of a new object");
	bool thrown = false;
	try {
		utki::make_shared<thrower>(len % 2 == 1);
	} catch (int x) {
		thrown = true;
	}
	MC_CHECK(thrown == (len % 2 == 1), "exception of the constructor");

	// object which is not derived from utki::shared
	auto o = utki::make_shared<own_shared>(int(len));
	auto s = utki::make_shared_from(o.get());
	auto w = utki::make_weak_from(o.get());
	MC_CHECK(&s.get() == &o.get() && s.to_shared_ptr().use_count() == 2, "make_shared_from");
	MC_CHECK(w.lock().get() == &o.get(), "make_weak_from");
	auto w2 = utki::make_weak(o.to_shared_ptr());
	MC_CHECK(w2.lock().get() == &o.get(), "make_weak");
	std::shared_ptr<own_shared> none;
	MC_CHECK(utki::make_weak(none).expired(), "make_weak of null");
	// object which nobody owns through shared_ptr cannot be shared
	own_shared stack(3);
	bool bad = false;
	try {
		auto x = utki::make_shared_from(stack);
	} catch (std::bad_weak_ptr&) {
		bad = true;
	}
	MC_CHECK(bad, "make_shared_from of not owned object");
	steps(10);
	state(len);
}

namespace {
struct watched {
	static int count;
	int v;
	watched(int v) :
		v(v)
	{
		++count;
	}
	watched(const watched&) = delete;
	~watched()
	{
		--count;
	}
	bool operator<(const watched& o) const
	{
		return v < o.v;
	}
	bool operator==(const watched& o) const
	{
		return v == o.v;
	}
};
int watched::count = 0;
} // namespace

// references in ordered containers: ordered by the objects
MC_SUITE(ordered_set)
{
	watched::count = 0;
	unsigned n = choose(by_tier(5u, 6u)) + 1;
	{
		auto cmp = [](const utki::shared_ref<watched>& a, const utki::shared_ref<watched>& b) {
			return a < b.get();
		};
		std::set<utki::shared_ref<watched>, decltype(cmp)> s(cmp);
		std::set<int> e;
		std::vector<utki::shared_ref<watched>> v;
		for (unsigned i = 0; i != n; ++i) {
			int x = int(choose(n));
			auto r = utki::make_shared<watched>(x);
			for (auto& y : v) {
				MC_CHECK((y == r) == (y.get().v == x), "equality of %d and %d", y.get().v, x);
				MC_CHECK((y == r.get()) == (y.get().v == x), "equality of %d and %d", y.get().v, x);
				MC_CHECK((y < r.get()) == (y.get().v < x), "order of %d and %d", y.get().v, x);
			}
			v.push_back(r);
			bool ins = s.insert(r).second;
			MC_CHECK(ins == e.insert(x).second, "insertion of %d", x);
			steps();
		}
		MC_CHECK(s.size() == e.size(), "size of the set");
		auto i = e.begin();
		for (auto& x : s) {
			MC_CHECK(x.get().v == *i, "order of the set");
			++i;
		}
		MC_CHECK(watched::count == int(n), "objects alive: %d", watched::count);
		v.clear();
		MC_CHECK(watched::count == int(e.size()), "objects alive: %d, in the set: %zu", watched::count, e.size());
		state(hasher().add_range(e).h);
	}
	MC_CHECK(watched::count == 0, "objects leaked");
}

// a lot of owners of one object
MC_SUITE(many_owners)
{
	static const unsigned counts[] = {3, 100, 255, 256, 257, 1000, 32769, 65537};
	unsigned n = counts[choose(by_tier(7u, 8u))];
	unsigned how = choose(4);
	std::fill(std::begin(alive), std::end(alive), 0);
	num_created = 0;
	{
		std::vector<utki::shared_ref<base>> owners;
		auto b = utki::make_shared<bottom>();
		for (unsigned i = 0; i != n; ++i) {
			switch (how) {
				case 0:
					owners.emplace_back(b);
					break;
				case 1:
					owners.push_back(utki::dynamic_reference_cast<base>(utki::dynamic_reference_cast<right>(b)));
					break;
				case 2:
					owners.push_back(utki::make_shared_from(static_cast<base&>(b.get())));
					break;
				default:
					owners.emplace_back(utki::make_weak(b).lock());
					break;
			}
			MC_CHECK(&owners.back().get() == &b.get(), "owner %u refers to another object", i);
		}
		MC_CHECK(b.to_shared_ptr().use_count() == long(n) + 1, "%ld owners are counted, there are %u", b.to_shared_ptr().use_count(), n + 1);
		// casting still works with that many owners
		{
			auto c = utki::dynamic_reference_cast<left>(owners.front());
			MC_CHECK(c.get().tag() == 0 && c.to_shared_ptr().use_count() == long(n) + 2, "cast with a lot of owners");
			auto f = utki::make_shared_from(c.get());
			MC_CHECK(f.to_shared_ptr().use_count() == long(n) + 3, "make_shared_from() with a lot of owners");
		}
		while (!owners.empty()) {
			MC_CHECK(alive[0] == 1 && owners.back().get().intact(), "destroyed though %zu owners are left", owners.size());
			owners.pop_back();
		}
		MC_CHECK(alive[0] == 1 && b.to_shared_ptr().use_count() == 1, "destroyed before the last owner");
	}
	MC_CHECK(alive[0] == 2 && num_created == 1, "not destroyed with the last owner");
	steps(n);
	state(n * 4 + how);
}

// chains of owners: a reference gets its new value from the object which it owns itself, as when an element is taken out of
// a linked list
namespace {
struct chain_link : base {
	std::vector<utki::shared_ref<chain_link>> next;
};

struct special_chain_link : chain_link {};
} // namespace

MC_SUITE(chains)
{
	num_created = 0;
	memset(alive, 0, sizeof(alive));
	unsigned n = choose(by_tier(5u, 7u)) + 2;
	unsigned place = choose(n - 1);
	unsigned distance = choose(n - 1 - place) + 1;
	unsigned how = choose(5u);
	note("chain of %u, reference number %u = the one %u further, way %u\n", n, place, distance, how);
	{
		utki::shared_ref<chain_link> head = utki::make_shared<special_chain_link>();
		std::vector<utki::shared_ref<chain_link>*> refs{&head};
		while (refs.size() != n) {
			chain_link& l = refs.back()->get();
			l.next.push_back(refs.size() % 2 ? utki::shared_ref<chain_link>(utki::make_shared<chain_link>())
										  : utki::shared_ref<chain_link>(utki::make_shared<special_chain_link>()));
			refs.push_back(&l.next.front());
		}
		for (unsigned i = 0; i != n; ++i) {
			MC_CHECK(refs[i]->get().id == int(i), "harness: wrong chain");
		}
		auto& dst = *refs[place];
		auto& src = *refs[place + distance];
		switch (how) {
			case 0:
				dst = std::move(src);
				break;
			case 1:
				dst = src;
				break;
			case 2:
				dst = utki::shared_ref<chain_link>(src);
				break;
			case 3:
				dst = utki::shared_ref<chain_link>(src.to_shared_ptr());
				break;
			case 4:
				dst = utki::make_shared_from(src.get());
				break;
		}
		MC_CHECK(num_created == int(n), "objects were created");
		for (unsigned i = 0; i != n; ++i) {
			bool dropped = i >= place && i < place + distance;
			MC_CHECK(alive[i] == (dropped ? 2 : 1), "object %u is %s", i, dropped ? "not destroyed" : "destroyed");
		}
		auto* r = &head;
		for (unsigned i = 0; i != n; ++i) {
			if (i >= place && i < place + distance) {
				continue;
			}
			MC_CHECK(r->get().id == int(i) && r->get().intact(), "wrong object in place of number %u", i);
			if (i + 1 != n) {
				MC_CHECK(r->get().next.size() == 1, "the rest after number %u is lost", i);
				r = &r->get().next.front();
			} else {
				MC_CHECK(r->get().next.empty(), "something follows the last one");
			}
			steps();
		}
		state(hasher().add(n).add(place).add(distance).add(how).h);
	}
	for (unsigned i = 0; i != n; ++i) {
		MC_CHECK(alive[i] == 2, "object %u was leaked", i);
	}
}

// C09: depth-first traversal of trees: order, reverse order, positions, validity, comparison.
#include <utki/tree.hpp>

#include <deque>
#include <list>
#include <stdexcept>

#include "forest.hpp"
#include "mc.hpp"

using namespace mc;

namespace {
// position checks of one iterator
template <class I>
void check_at(I& i, const ref::forest& f, const ref::path& p)
{
	MC_CHECK(i.index() == p, "index is %s expected %s of %s", ref::str(ref::path(i.index())).c_str(), ref::str(p).c_str(), ref::str(f).c_str());
	MC_CHECK(i.depth() == p.size(), "depth at %s of %s", ref::str(p).c_str(), ref::str(f).c_str());
	MC_CHECK((*i).value == ref::at(f, p).v, "value at %s of %s", ref::str(p).c_str(), ref::str(f).c_str());
	MC_CHECK(i->value == ref::at(f, p).v, "value at %s of %s", ref::str(p).c_str(), ref::str(f).c_str());
	const I& ci = i;
	MC_CHECK(&*ci == &*i && ci.operator->() == i.operator->(), "const dereference");
	MC_CHECK(i->children.size() == ref::at(f, p).ch.size(), "children at %s", ref::str(p).c_str());
	for (size_t k = 0; k != p.size(); ++k) {
		ref::path a(p.begin(), p.begin() + k + 1);
		MC_CHECK(i.at_level(k).value == ref::at(f, a).v, "at_level(%zu) at %s of %s", k, ref::str(p).c_str(), ref::str(f).c_str());
		MC_CHECK(&ci.at_level(k) == &i.at_level(k), "const at_level");
	}
	for (size_t k : {p.size(), p.size() + 1, size_t(-1)}) {
		bool thrown = false;
		try {
			(void)i.at_level(k);
		} catch (std::out_of_range&) {
			thrown = true;
		}
		MC_CHECK(thrown, "at_level(%zu) beyond depth %zu didn't throw", k, p.size());
		thrown = false;
		try {
			(void)ci.at_level(k);
		} catch (std::out_of_range&) {
			thrown = true;
		}
		MC_CHECK(thrown, "const at_level(%zu) beyond depth %zu didn't throw", k, p.size());
	}
	ref::path next = p;
	++next.back();
	MC_CHECK(i.is_last_child() == !ref::valid(f, next), "is_last_child at %s of %s", ref::str(p).c_str(), ref::str(f).c_str());
	steps(6);
}

template <class I>
void check_walk(I b, I e, const ref::forest& f, const std::vector<ref::path>& order)
{
	// forward
	I i = b;
	size_t k = 0;
	for (; i != e; ++i, ++k) {
		MC_CHECK(k < order.size(), "too many nodes in %s", ref::str(f).c_str());
		MC_CHECK(!(i == e), "");
		check_at(i, f, order[k]);
	}
	MC_CHECK(k == order.size(), "visited %zu nodes of %zu in %s", k, order.size(), ref::str(f).c_str());
	MC_CHECK(i == e, "");
	// backward from the end
	for (; k != 0;) {
		--k;
		auto& r = --i;
		MC_CHECK(&r == &i, "");
		check_at(i, f, order[k]);
	}
	MC_CHECK(i == b, "begin not reached backwards in %s", ref::str(f).c_str());
	// turn around at every node
	for (size_t t = 0; t != order.size(); ++t) {
		I x = b;
		for (size_t s = 0; s != t; ++s) {
			auto& r = ++x;
			MC_CHECK(&r == &x, "");
		}
		I y = x;
		++y;
		--y;
		MC_CHECK(y == x, "++ then -- at %s of %s", ref::str(order[t]).c_str(), ref::str(f).c_str());
		check_at(y, f, order[t]);
		if (t != 0) {
			I z = x;
			--z;
			++z;
			MC_CHECK(z == x, "-- then ++ at %s of %s", ref::str(order[t]).c_str(), ref::str(f).c_str());
			check_at(z, f, order[t]);
		}
		check_at(x, f, order[t]);
	}
}

template <class R>
void check_reverse(R b, R e, const ref::forest& f, const std::vector<ref::path>& order)
{
	size_t k = order.size();
	for (R i = b; i != e; ++i) {
		MC_CHECK(k > 0, "too many nodes in reverse of %s", ref::str(f).c_str());
		--k;
		MC_CHECK((*i).value == ref::at(f, order[k]).v, "reverse order in %s", ref::str(f).c_str());
		steps();
	}
	MC_CHECK(k == 0, "reverse visited too few nodes of %s", ref::str(f).c_str());
}

// indices to probe: all the valid ones and their neighbours
std::vector<ref::path> probes(const std::vector<ref::path>& order)
{
	std::vector<ref::path> r;
	r.push_back({});
	r.push_back({0});
	r.push_back({0, 0});
	for (auto& p : order) {
		r.push_back(p);
		for (size_t k = 0; k != p.size(); ++k) {
			for (size_t d : {size_t(1), size_t(2), size_t(1) << 32, size_t(-1) - p[k]}) {
				auto q = p;
				q[k] += d;
				r.push_back(q);
			}
		}
		for (size_t x : {size_t(0), size_t(1), size_t(5), size_t(-1)}) {
			auto q = p;
			q.push_back(x);
			r.push_back(q);
		}
	}
	return r;
}

template <class T>
void check_forest(const ref::forest& f, bool random_access)
{
	auto order = ref::preorder(f);
	auto c = ref::build<T>(f);
	const auto& cc = c;
	auto t = utki::make_traversal(c);
	auto ct = utki::make_traversal(cc);

	check_walk(t.begin(), t.end(), f, order);
	check_walk(t.cbegin(), t.cend(), f, order);
	check_walk(ct.begin(), ct.end(), f, order);
	check_walk(ct.cbegin(), ct.cend(), f, order);
	check_reverse(t.rbegin(), t.rend(), f, order);
	check_reverse(t.crbegin(), t.crend(), f, order);
	check_reverse(ct.rbegin(), ct.rend(), f, order);
	check_reverse(ct.crbegin(), ct.crend(), f, order);

	// range for
	size_t k = 0;
	for (auto& n : t) {
		MC_CHECK(k < order.size() && n.value == ref::at(f, order[k]).v, "range-for in %s", ref::str(f).c_str());
		++k;
	}

	for (auto& p : probes(order)) {
		bool v = ref::valid(f, p);
		if (p.empty()) {
			continue;
		}
		auto check_make = [&](auto make, const char* what) {
			try {
				auto i = make();
				MC_CHECK(v, "%s(%s) in %s succeeded", what, ref::str(p).c_str(), ref::str(f).c_str());
				check_at(i, f, p);
			} catch (std::out_of_range&) {
				MC_CHECK(!v, "%s(%s) in %s threw", what, ref::str(p).c_str(), ref::str(f).c_str());
			}
			steps();
		};
		check_make([&] { return t.make_iterator(p); }, "make_iterator");
		check_make([&] { return t.make_const_iterator(p); }, "make_const_iterator");
		check_make([&] { return ct.make_iterator(utki::make_span(p)); }, "const make_iterator");
		check_make([&] { return ct.make_const_iterator(utki::make_span(p)); }, "const make_const_iterator");
		if (v) {
			auto i = t.make_iterator(p);
			// continue traversal from there
			auto j = t.begin();
			while (j.index() != p) {
				++j;
			}
			MC_CHECK(i == j && !(i != j), "make_iterator(%s) in %s", ref::str(p).c_str(), ref::str(f).c_str());
			++i;
			++j;
			MC_CHECK(i == j, "next of make_iterator(%s) in %s", ref::str(p).c_str(), ref::str(f).c_str());
			steps(2);
		}
	}
	(void)random_access;
}

template <class T>
void check_random_access(const ref::forest& f)
{
	auto order = ref::preorder(f);
	auto c = ref::build<T>(f);
	const auto& cc = c;
	auto t = utki::make_traversal(c);
	const auto ct = utki::make_traversal(cc);
	const auto& const_t = t;

	for (auto& p : probes(order)) {
		bool v = ref::valid(f, p);
		MC_CHECK(t.is_valid(p) == v, "is_valid(%s) in %s", ref::str(p).c_str(), ref::str(f).c_str());
		MC_CHECK(t.is_valid(utki::make_span(p)) == v, "is_valid(%s) in %s", ref::str(p).c_str(), ref::str(f).c_str());
		MC_CHECK(ct.is_valid(p) == v, "is_valid(%s) in %s", ref::str(p).c_str(), ref::str(f).c_str());
		steps(3);
		if (v) {
			MC_CHECK(t[p].value == ref::at(f, p).v, "[%s] in %s", ref::str(p).c_str(), ref::str(f).c_str());
			MC_CHECK(ct[p].value == ref::at(f, p).v, "[%s] in %s", ref::str(p).c_str(), ref::str(f).c_str());
			MC_CHECK(&const_t[p] == &t[p] && &t[utki::make_span(p)] == &t[p], "[%s]", ref::str(p).c_str());
			steps(3);
		}
	}

	// comparisons: total order which is the traversal order, end is the greatest
	std::vector<decltype(t.begin())> its;
	for (auto i = t.begin(); i != t.end(); ++i) {
		its.push_back(i);
	}
	its.push_back(t.end());
	for (size_t a = 0; a != its.size(); ++a) {
		for (size_t b = 0; b != its.size(); ++b) {
			auto& x = its[a];
			auto& y = its[b];
			bool ok = (x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x > y) == (a > b) &&
				(x <= y) == (a <= b) && (x >= y) == (a >= b);
			MC_CHECK(ok, "comparison of positions %zu and %zu of %s", a, b, ref::str(f).c_str());
			steps(6);
		}
	}

	// initializer list overloads
	if (!f.empty()) {
		MC_CHECK(t.is_valid({0}) && t[{0}].value == f[0].v && t.make_iterator({0}) == t.begin(), "initializer list");
		MC_CHECK(t.is_valid({0, 0}) == !f[0].ch.empty(), "initializer list");
	}
	MC_CHECK(!t.is_valid({f.size()}), "one past the last root");

	// equality of trees is structural
	auto c2 = ref::build<T>(f);
	MC_CHECK(c2 == c, "equal forests %s", ref::str(f).c_str());
	for (auto& p : order) {
		auto t2 = utki::make_traversal(c2);
		t2[p].value += 1000;
		MC_CHECK(!(c2 == c), "different value at %s of %s", ref::str(p).c_str(), ref::str(f).c_str());
		t2[p].value -= 1000;
		t2[p].children.push_back(T(5));
		MC_CHECK(!(c2 == c), "different structure at %s of %s", ref::str(p).c_str(), ref::str(f).c_str());
		t2[p].children.pop_back();
		MC_CHECK(c2 == c, "");
		MC_CHECK(t2[p] == t2[p].value && !(t2[p] == t2[p].value + 1), "comparison with value");
		steps(4);
	}
}

using vec_tree = utki::tree<int>;
using list_tree = utki::tree<int, std::list>;
using deque_tree = utki::tree<int, std::deque>;
} // namespace

MC_SUITE(all_forests)
{
	unsigned n = choose(by_tier(8u, 10u));
	auto f = ref::choose_forest(n);
	note("%s", ref::str(f).c_str());
	state(ref::hash(f, false));
	check_forest<vec_tree>(f, true);
	check_random_access<vec_tree>(f);
}

MC_SUITE(all_forests_list_and_deque)
{
	unsigned n = choose(by_tier(7u, 9u));
	auto f = ref::choose_forest(n);
	note("%s", ref::str(f).c_str());
	state(ref::hash(f, false));
	check_forest<list_tree>(f, false);
	check_forest<deque_tree>(f, true);
	check_random_access<deque_tree>(f);
}

// large shapes: chains, stars, combs, complete trees
MC_SUITE(large_shapes)
{
	unsigned kind = choose(6);
	unsigned size = choose(by_tier(40u, 120u)) + 1;
	ref::forest f;
	int v = 1;
	switch (kind) {
		case 0: { // chain
			ref::node n{v++, {}};
			for (unsigned k = 1; k < size; ++k) {
				ref::node m{v++, {}};
				m.ch.push_back(std::move(n));
				n = std::move(m);
			}
			f.push_back(std::move(n));
			break;
		}
		case 1: // roots only
			for (unsigned k = 0; k != size; ++k) {
				f.push_back({v++, {}});
			}
			break;
		case 2: { // star
			f.push_back({v++, {}});
			for (unsigned k = 0; k != size; ++k) {
				f[0].ch.push_back({v++, {}});
			}
			break;
		}
		case 3: { // comb: chain as the last child
			ref::node n{v++, {}};
			for (unsigned k = 1; k < size; ++k) {
				ref::node m{v++, {}};
				m.ch.push_back({v++, {}});
				m.ch.push_back(std::move(n));
				n = std::move(m);
			}
			f.push_back(std::move(n));
			break;
		}
		case 4: { // comb: chain as the first child
			ref::node n{v++, {}};
			for (unsigned k = 1; k < size; ++k) {
				ref::node m{v++, {}};
				m.ch.push_back(std::move(n));
				m.ch.push_back({v++, {}});
				n = std::move(m);
			}
			f.push_back(std::move(n));
			f.push_back({v++, {}});
			break;
		}
		default: { // star of chains of two
			for (unsigned k = 0; k != size; ++k) {
				f.push_back({v++, {{v + 1000, {}}}});
			}
			break;
		}
	}
	note("kind %u size %u", kind, size);
	state(hasher().add(kind).add(size).h);
	auto order = ref::preorder(f);
	auto c = ref::build<vec_tree>(f);
	auto t = utki::make_traversal(c);
	size_t k = 0;
	for (auto i = t.begin(); i != t.end(); ++i, ++k) {
		MC_CHECK(k < order.size(), "too many");
		check_at(i, f, order[k]);
		auto m = t.make_iterator(order[k]);
		MC_CHECK(m == i, "make_iterator");
		MC_CHECK(t.is_valid(order[k]), "is_valid");
	}
	MC_CHECK(k == order.size(), "kind %u size %u: visited %zu of %zu", kind, size, k, order.size());
	for (auto i = t.end(); k != 0;) {
		--i;
		--k;
		check_at(i, f, order[k]);
	}
	check_reverse(t.rbegin(), t.rend(), f, order);
}

// lists of more nodes, and more levels, than narrow types can count
MC_SUITE(wide_and_deep)
{
	struct shape {
		unsigned above; // levels above the wide list
		unsigned width; // length of the list
		unsigned below; // 1: each node of the list has a child
	};
	static const shape shapes[] = {
		{0, 255, 0}, {0, 256, 1}, {0, 300, 0}, {1, 257, 1}, {2, 300, 0}, {3, 1000, 1}, {0, 66000, 0}, {1, 66000, 0}, {1, 33000, 1}, //
		{255, 1, 0}, {256, 2, 1}, {300, 3, 1}, {600, 2, 0}
	};
	unsigned si = choose(std::size(shapes));
	auto sh = shapes[si];
	state(si);
	note("%u levels, then %u nodes %s", sh.above, sh.width, sh.below ? "with a child each" : "");

	using path = std::vector<size_t>;
	std::vector<path> order;
	vec_tree::container_type list;
	list.reserve(sh.width);
	for (unsigned i = 0; i != sh.width; ++i) {
		list.emplace_back(int(i));
		if (sh.below) {
			list.back().children.emplace_back(int(i + 1000000));
		}
	}
	// each level above: a node, the node with the next level, a node
	path pre;
	for (unsigned l = 0; l != sh.above; ++l) {
		vec_tree::container_type up;
		up.reserve(3);
		up.emplace_back(-1);
		up.emplace_back(-2);
		up.back().children = std::move(list);
		up.emplace_back(-3);
		list = std::move(up);
	}
	for (unsigned l = 0; l != sh.above; ++l) {
		pre.push_back(0);
		order.push_back(pre);
		pre.back() = 1;
		order.push_back(pre);
	}
	for (unsigned i = 0; i != sh.width; ++i) {
		pre.push_back(i);
		order.push_back(pre);
		if (sh.below) {
			pre.push_back(0);
			order.push_back(pre);
			pre.pop_back();
		}
		pre.pop_back();
	}
	for (unsigned l = 0; l != sh.above; ++l) {
		pre.back() = 2;
		order.push_back(pre);
		pre.pop_back();
	}

	auto t = utki::make_traversal(list);
	auto value_of = [&](const path& p) {
		auto lp = &list;
		for (size_t l = 0; l + 1 < p.size(); ++l) {
			lp = &(*lp)[p[l]].children;
		}
		return (*lp)[p.back()].value;
	};
	auto check = [&](auto& i, size_t k) {
		MC_CHECK(i.index() == order[k], "index of node number %zu", k);
		MC_CHECK(i.depth() == order[k].size(), "depth %zu of node number %zu is %zu", i.depth(), k, order[k].size());
		MC_CHECK(i->value == value_of(order[k]), "another value at node number %zu", k);
		const auto& m = t.make_iterator(order[k]);
		MC_CHECK(m == i, "make_iterator() of node number %zu", k);
		MC_CHECK(t.is_valid(order[k]), "is_valid() of node number %zu", k);
		MC_CHECK(&t[order[k]] == &*i, "operator[] of node number %zu", k);
		path beyond = order[k];
		beyond.back() += 65536;
		if (beyond.back() >= sh.width) {
			MC_CHECK(!t.is_valid(beyond), "is_valid() far after node number %zu", k);
			bool thrown = false;
			try {
				t.make_const_iterator(beyond);
			} catch (std::out_of_range&) {
				thrown = true;
			}
			MC_CHECK(thrown, "make_const_iterator() far after node number %zu", k);
		}
	};
	size_t k = 0;
	for (auto i = t.begin(); i != t.end(); ++i, ++k) {
		MC_CHECK(k < order.size(), "too many");
		check(i, k);
	}
	MC_CHECK(k == order.size(), "visited %zu of %zu", k, order.size());
	for (auto i = t.end(); k != 0;) {
		--i;
		--k;
		check(i, k);
	}
	steps(order.size() * 2);
}

// traversal can be interrupted, resumed and value can be modified through it
MC_SUITE(modify_values)
{
	unsigned n = choose(by_tier(7u, 8u)) + 1;
	auto f = ref::choose_forest(n);
	auto order = ref::preorder(f);
	auto c = ref::build<vec_tree>(f);
	auto t = utki::make_traversal(c);
	unsigned target = choose(n);
	auto i = std::next(t.begin(), target);
	i->value = 7777;
	ref::forest g = f;
	(*ref::list_of(g, order[target]))[order[target].back()].v = 7777;
	MC_CHECK(ref::same(c, g), "value assigned to another node: %s", ref::str(g).c_str());
	MC_CHECK(t[order[target]].value == 7777, "");
	MC_CHECK(std::distance(t.begin(), i) == std::ptrdiff_t(target), "distance");
	MC_CHECK(std::distance(i, t.end()) == std::ptrdiff_t(n - target), "distance");
	steps(3);
	state(hasher().add(ref::hash(g, true)).h);
	note("%s", ref::str(g).c_str());
}

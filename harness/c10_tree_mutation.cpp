// C10: insertion and removal of tree nodes through traversal iterators.
#include <utki/tree.hpp>

#include <deque>
#include <list>

#include "forest.hpp"
#include "mc.hpp"

using namespace mc;

namespace {
template <class T>
class machine
{
public:
	ref::forest f;
	typename T::container_type c;
	using traversal = utki::traversal<typename T::container_type>;
	traversal t;
	int next = 100;

	machine(const ref::forest& f) :
		f(f),
		c(ref::build<T>(f)),
		t(c)
	{}

	// check that iterator points at position k of the traversal order (order.size() means end) and is fully functional
	void check_iter(typename traversal::iterator i, const ref::path* p, const char* what)
	{
		auto order = ref::preorder(f);
		size_t k = order.size();
		if (p) {
			for (k = 0; k != order.size() && order[k] != *p; ++k) {
			}
			MC_CHECK(i != t.end(), "%s returned end, expected %s of %s", what, ref::str(*p).c_str(), ref::str(f).c_str());
			MC_CHECK(
				i.index() == *p,
				"%s returned %s, expected %s of %s",
				what,
				ref::str(ref::path(i.index())).c_str(),
				ref::str(*p).c_str(),
				ref::str(f).c_str()
			);
			MC_CHECK(i->value == ref::at(f, *p).v, "%s: value", what);
			MC_CHECK(i == t.make_iterator(*p), "%s: iterator is not equal to the one made from index", what);
		} else {
			MC_CHECK(i == t.end(), "%s: expected end of %s", what, ref::str(f).c_str());
		}
		// the iterator works in both directions
		auto j = i;
		for (size_t m = k; m != order.size(); ++m, ++j) {
			MC_CHECK(j->value == ref::at(f, order[m]).v, "%s: forward traversal from returned iterator", what);
		}
		MC_CHECK(j == t.end(), "%s: forward traversal from returned iterator doesn't reach the end", what);
		j = i;
		for (size_t m = k; m != 0;) {
			--m;
			--j;
			MC_CHECK(j->value == ref::at(f, order[m]).v, "%s: backward traversal from returned iterator", what);
		}
		MC_CHECK(j == t.begin(), "%s: backward traversal from returned iterator doesn't reach the begin", what);
		steps();
	}

	void check(const char* what)
	{
		MC_CHECK(ref::same(c, f), "%s: tree differs from expected %s", what, ref::str(f).c_str());
		auto order = ref::preorder(f);
		size_t k = 0;
		for (auto i = t.begin(); i != t.end(); ++i, ++k) {
			MC_CHECK(k < order.size() && i.index() == order[k], "%s: traversal order of %s", what, ref::str(f).c_str());
		}
		MC_CHECK(k == order.size(), "%s: traversal of %s", what, ref::str(f).c_str());
		state(ref::hash(f, false));
	}

	// iterator to position k obtained in different ways
	typename traversal::iterator get(size_t k, unsigned how)
	{
		auto order = ref::preorder(f);
		if (k == order.size()) {
			return t.end();
		}
		if (how == 0) {
			return t.make_iterator(order[k]);
		}
		if (how == 1) {
			auto i = t.begin();
			for (size_t m = 0; m != k; ++m) {
				++i;
			}
			return i;
		}
		auto i = t.end();
		for (size_t m = order.size(); m != k; --m) {
			--i;
		}
		return i;
	}

	ref::node new_node(unsigned shape)
	{
		ref::node n{next++, {}};
		if (shape == 1) {
			n.ch.push_back({next++, {}});
			n.ch.push_back({next++, {{next + 1, {}}}});
			next += 2;
		}
		return n;
	}

	static T make(const ref::node& n)
	{
		return T(n.v, ref::build<T>(n.ch));
	}

	// shape: 0 leaf, 1 subtree, 2: copy of existing node which lives in the same tree (aliasing)
	void insert(size_t k, unsigned how, unsigned shape, bool rvalue)
	{
		auto order = ref::preorder(f);
		auto i = this->get(k, how);
		ref::path p = k == order.size() ? ref::path{f.size()} : order[k];
		bool alias = shape == 2 && k != order.size();
		ref::node n = alias ? ref::at(f, p) : this->new_node(shape == 2 ? 0 : shape);
		auto* l = ref::list_of(f, p);
		l->insert(l->begin() + p.back(), n);
		note("insert before %s%s", ref::str(p).c_str(), alias ? " (itself)" : "");
		typename traversal::iterator r = alias ? t.insert(i, *i) : [&] {
			T x = make(n);
			if (rvalue) {
				return t.insert(i, std::move(x));
			}
			auto ret = t.insert(i, x);
			MC_CHECK(x.value == n.v && ref::same(x.children, n.ch), "insert changed its const argument");
			return ret;
		}();
		this->check("insert");
		this->check_iter(r, &p, "insert");
		steps();
	}

	void insert_after(size_t k, unsigned how, unsigned shape, bool rvalue)
	{
		auto order = ref::preorder(f);
		auto i = this->get(k, how);
		ref::path p = order[k];
		bool alias = shape == 2;
		ref::node n = alias ? ref::at(f, p) : this->new_node(shape);
		auto* l = ref::list_of(f, p);
		++p.back();
		l->insert(l->begin() + p.back(), n);
		note("insert after %s", ref::str(order[k]).c_str());
		typename traversal::iterator r = alias ? t.insert_after(i, *i) : [&] {
			T x = make(n);
			if (rvalue) {
				return t.insert_after(i, std::move(x));
			}
			auto ret = t.insert_after(i, x);
			MC_CHECK(x.value == n.v && ref::same(x.children, n.ch), "insert_after changed its const argument");
			return ret;
		}();
		this->check("insert_after");
		this->check_iter(r, &p, "insert_after");
		steps();
	}

	void erase(size_t k, unsigned how)
	{
		auto order = ref::preorder(f);
		auto i = this->get(k, how);
		ref::path p = order[k];
		note("erase %s", ref::str(p).c_str());
		// next in traversal order which is not a descendant: value identifies the node
		const ref::path* np = nullptr;
		for (size_t m = k + 1; m != order.size(); ++m) {
			if (order[m].size() > p.size() && std::equal(p.begin(), p.end(), order[m].begin())) {
				continue;
			}
			np = &order[m];
			break;
		}
		ref::path after;
		if (np) {
			after = *np;
			// sibling positions shift by one
			if (after.size() == p.size() && std::equal(p.begin(), p.end() - 1, after.begin())) {
				--after.back();
			}
		}
		auto* l = ref::list_of(f, p);
		l->erase(l->begin() + p.back());
		auto r = t.erase(i);
		this->check("erase");
		this->check_iter(r, np ? &after : nullptr, "erase");
		steps();
	}

	void random_op()
	{
		size_t n = ref::preorder(f).size();
		// insert at n+1 positions, insert_after at n, erase at n
		uint32_t k = choose(uint32_t(3 * n + 1));
		if (k <= n) {
			this->insert(k, 0, choose(2), true);
		} else if (k <= 2 * n) {
			this->insert_after(k - n - 1, 1, choose(2), false);
		} else {
			this->erase(k - 2 * n - 1, 2);
		}
	}
};

using vec_tree = utki::tree<int>;
using list_tree = utki::tree<int, std::list>;
using deque_tree = utki::tree<int, std::deque>;
using str_tree = utki::tree<std::string>;

template <class T>
void single_op(const ref::forest& f)
{
	machine<T> m(f);
	size_t n = ref::preorder(f).size();
	unsigned how = choose(3);
	unsigned kind = choose(n == 0 ? 1 : 3);
	if (kind == 0) {
		m.insert(choose(uint32_t(n + 1)), how, choose(3), choose(2));
	} else if (kind == 1) {
		m.insert_after(choose(uint32_t(n)), how, choose(3), choose(2));
	} else {
		m.erase(choose(uint32_t(n)), how);
	}
}
} // namespace

// every single operation on every node of every forest
MC_SUITE(single_op_vector)
{
	auto f = ref::choose_forest(choose(by_tier(8u, 9u)));
	note("%s", ref::str(f).c_str());
	single_op<vec_tree>(f);
}

MC_SUITE(single_op_list_deque)
{
	auto f = ref::choose_forest(choose(by_tier(6u, 8u)));
	note("%s", ref::str(f).c_str());
	if (choose(2)) {
		single_op<list_tree>(f);
	} else {
		single_op<deque_tree>(f);
	}
}

// all sequences of operations
MC_SUITE(op_sequences)
{
	auto f = ref::choose_forest(choose(4));
	note("%s", ref::str(f).c_str());
	machine<vec_tree> m(f);
	unsigned depth = by_tier(3u, 4u);
	for (unsigned i = 0; i != depth; ++i) {
		m.random_op();
	}
}

// the erase-while-iterating idiom: any subset of nodes
template <class T>
void erase_loop(unsigned n)
{
	auto f = ref::choose_forest(n);
	uint32_t mask = choose(1u << n);
	auto c = ref::build<T>(f);
	auto t = utki::make_traversal(c);
	auto order = ref::preorder(f); // values are 1..n in this order
	std::vector<int> visited;
	for (auto i = t.begin(); i != t.end();) {
		visited.push_back(i->value);
		MC_CHECK(visited.size() <= n, "visited too many in %s mask %x", ref::str(f).c_str(), mask);
		if (mask & (1u << (i->value - 1))) {
			i = t.erase(i);
		} else {
			++i;
		}
		steps();
	}
	// expected: visits every node except of descendants of erased ones
	std::vector<int> exp;
	ref::path erased;
	for (auto& p : order) {
		if (!erased.empty() && p.size() > erased.size() && std::equal(erased.begin(), erased.end(), p.begin())) {
			continue;
		}
		int v = ref::at(f, p).v;
		exp.push_back(v);
		if (mask & (1u << (v - 1))) {
			erased = p;
		}
	}
	MC_CHECK(visited == exp, "erase loop over %s mask %x visited wrong nodes", ref::str(f).c_str(), mask);
	std::vector<int> left;
	for (auto& x : t) {
		left.push_back(x.value);
	}
	std::vector<int> exp_left;
	for (int v : exp) {
		if (!(mask & (1u << (v - 1)))) {
			exp_left.push_back(v);
		}
	}
	MC_CHECK(left == exp_left, "erase loop over %s mask %x left wrong nodes", ref::str(f).c_str(), mask);
	state(hasher().add(ref::hash(f, false)).add(mask).h);
	note("%s mask %x", ref::str(f).c_str(), mask);
}

MC_SUITE(erase_while_iterating)
{
	erase_loop<vec_tree>(choose(by_tier(8u, 9u)));
}

MC_SUITE(erase_while_iterating_list)
{
	erase_loop<list_tree>(choose(7));
}

// a node becomes equal to other node of the same tree: replacing a tree with its own branch, copying a tree into its own
// branch, and so on
namespace {
template <class T>
T& node_at(typename T::container_type& c, const ref::path& p)
{
	auto* l = &c;
	T* n = nullptr;
	for (size_t i : p) {
		n = &*std::next(l->begin(), i);
		l = &n->children;
	}
	return *n;
}

template <class T>
void reserve_children(typename T::container_type& c)
{
	if constexpr (std::is_same_v<typename T::container_type, std::vector<T>>) {
		c.reserve(16);
	}
	for (auto& n : c) {
		reserve_children<T>(n.children);
	}
}

template <class T>
void assign_within_tree(const ref::forest& f)
{
	auto order = ref::preorder(f);
	if (order.empty()) {
		return;
	}
	auto to = order[choose(uint32_t(order.size()))];
	auto from = order[choose(uint32_t(order.size()))];
	bool move = choose(2);
	bool spare = choose(2);
	auto c = ref::build<T>(f);
	if (spare) {
		reserve_children<T>(c);
	}
	bool into_itself = from.size() <= to.size() && std::equal(from.begin(), from.end(), to.begin());
	if (move && into_itself) {
		return; // there is no such result
	}
	note("%s: %s becomes %s %s%s", ref::str(f).c_str(), ref::str(to).c_str(), move ? "moved" : "copied",
		ref::str(from).c_str(), spare ? ", with spare capacity" : "");
	auto e = f;
	const ref::node value = ref::at(f, from);
	auto node_of = [&](const ref::path& p) -> ref::node& {
		return (*ref::list_of(e, p))[p.back()];
	};
	T& dst = node_at<T>(c, to);
	T& src = node_at<T>(c, from);
	T* res = nullptr;
	if (move) {
		res = &(dst = std::move(src));
		bool gone = to.size() < from.size() && std::equal(to.begin(), to.end(), from.begin());
		if (!gone) {
			// what is left in the source is not defined
			src = T(1000);
			node_of(from) = ref::node{1000, {}};
		}
	} else {
		const T& s = src;
		res = &(dst = s);
	}
	node_of(to) = value;
	MC_CHECK(res == &dst, "assignment returns the node");
	MC_CHECK(ref::same(c, e), "%s: %s = %s%s: expected %s", ref::str(f).c_str(), ref::str(to).c_str(),
		ref::str(from).c_str(), move ? " (moved)" : "", ref::str(e).c_str());
	state(hasher().add(ref::hash(e, true)).add(move).h);
	steps();
}
} // namespace

MC_SUITE(assignment_within_tree)
{
	unsigned kind = choose(3);
	auto f = ref::choose_forest(choose(kind == 0 ? by_tier(8u, 9u) : by_tier(7u, 8u)));
	switch (kind) {
		case 0:
			assign_within_tree<vec_tree>(f);
			break;
		case 1:
			assign_within_tree<list_tree>(f);
			break;
		default:
			assign_within_tree<deque_tree>(f);
			break;
	}
}

// wide and deep trees: operations at every position
MC_SUITE(large)
{
	unsigned kind = choose(4);
	static const unsigned sizes[] = {2, 3, 8, 9, 15, 16, 17, 31, 32, 33, 40};
	unsigned size = pick(sizes);
	ref::forest f;
	int v = 1;
	if (kind == 0) { // deep chain
		ref::node n{v++, {}};
		for (unsigned k = 1; k < size; ++k) {
			ref::node m{v++, {}};
			m.ch.push_back(std::move(n));
			n = std::move(m);
		}
		f.push_back(std::move(n));
		f.push_back({v++, {}});
	} else if (kind == 1) { // wide roots
		for (unsigned k = 0; k != size; ++k) {
			f.push_back({v++, {}});
		}
	} else if (kind == 2) { // wide children, deep
		f.push_back({v++, {{v++, {}}}});
		for (unsigned k = 0; k != size; ++k) {
			f[0].ch[0].ch.push_back({v++, {}});
		}
	} else { // comb where the last leaf is deep, nothing follows
		ref::node n{v++, {}};
		for (unsigned k = 1; k < size; ++k) {
			ref::node m{v++, {}};
			m.ch.push_back({v++, {}});
			m.ch.push_back(std::move(n));
			n = std::move(m);
		}
		f.push_back({v++, {}});
		f.push_back(std::move(n));
	}
	size_t n = ref::preorder(f).size();
	machine<vec_tree> m(f);
	unsigned op = choose(3);
	size_t k = choose(uint32_t(n));
	note("kind %u size %u op %u at %zu", kind, size, op, k);
	if (op == 0) {
		m.insert(k, 1, 1, true);
	} else if (op == 1) {
		m.insert_after(k, 1, 1, true);
	} else {
		m.erase(k, 1);
	}
}

// many insertions (reallocation of children containers) at alternating positions
MC_SUITE(growth)
{
	unsigned pattern = choose(6);
	machine<vec_tree> m(ref::forest{{1, {{2, {}}}}, {3, {}}});
	unsigned count = by_tier(40u, 120u);
	for (unsigned i = 0; i != count; ++i) {
		size_t n = ref::preorder(m.f).size();
		size_t k = pattern == 0 ? 0 : pattern == 1 ? n - 1 : pattern == 2 ? n / 2 : pattern == 3 ? 1 : (i * 7) % n;
		if (pattern == 5 && i % 5 == 4) {
			m.erase(k, 0);
		} else if (i % 2) {
			m.insert(k, 0, i % 3 == 0, true);
		} else {
			m.insert_after(k, 0, i % 3 == 0, true);
		}
		tick();
	}
}

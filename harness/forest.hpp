// reference model of a forest of ordered trees, and enumeration of all forest shapes
#pragma once
#include <string>
#include <vector>

#include "mc.hpp"

namespace ref {
struct node {
	int v = 0;
	std::vector<node> ch;
};
using forest = std::vector<node>;
using path = std::vector<size_t>;

// all ordered forests with exactly n nodes (balanced parenthesis words), values numbered in preorder
inline forest choose_forest(unsigned n)
{
	forest f;
	std::vector<std::vector<node>*> st{&f};
	// build with paths since pointers into vectors get invalidated
	std::vector<path> open; // path of open nodes
	path cur;
	unsigned made = 0;
	int next = 1;
	for (;;) {
		bool can_open = made < n;
		bool can_close = !cur.empty();
		if (!can_open) {
			break; // the rest are closings
		}
		bool close = can_close ? mc::choose(2) == 1 : false;
		std::vector<node>* l = &f;
		for (size_t i : cur) {
			l = &(*l)[i].ch;
		}
		if (close) {
			cur.pop_back();
		} else {
			l->push_back(node{next++, {}});
			cur.push_back(l->size() - 1);
			++made;
		}
	}
	return f;
}

inline void preorder(const forest& f, path& cur, std::vector<path>& out)
{
	for (size_t i = 0; i != f.size(); ++i) {
		cur.push_back(i);
		out.push_back(cur);
		preorder(f[i].ch, cur, out);
		cur.pop_back();
	}
}

inline std::vector<path> preorder(const forest& f)
{
	std::vector<path> out;
	path cur;
	preorder(f, cur, out);
	return out;
}

inline forest* list_of(forest& f, const path& p)
{
	forest* l = &f;
	for (size_t k = 0; k + 1 < p.size(); ++k) {
		l = &(*l)[p[k]].ch;
	}
	return l;
}

inline const node& at(const forest& f, const path& p)
{
	const forest* l = &f;
	for (size_t k = 0; k + 1 < p.size(); ++k) {
		l = &(*l)[p[k]].ch;
	}
	return (*l)[p.back()];
}

inline bool valid(const forest& f, const path& p)
{
	if (p.empty()) {
		return false;
	}
	const forest* l = &f;
	for (size_t i : p) {
		if (i >= l->size()) {
			return false;
		}
		l = &(*l)[i].ch;
	}
	return true;
}

inline std::string str(const forest& f)
{
	std::string s = "(";
	for (auto& n : f) {
		s += std::to_string(n.v);
		if (!n.ch.empty()) {
			s += str(n.ch);
		}
		s += " ";
	}
	return s + ")";
}

inline std::string str(const path& p)
{
	std::string s = "[";
	for (auto i : p) {
		s += std::to_string(i) + " ";
	}
	return s + "]";
}

inline uint64_t hash(const forest& f, bool values)
{
	mc::hasher h;
	for (auto& n : f) {
		h.add(1 + (values ? uint64_t(n.v) : 0)).add(hash(n.ch, values));
	}
	return h.add(77).h;
}

// build real forest
template <class T>
typename T::container_type build(const forest& f)
{
	typename T::container_type r;
	for (auto& n : f) {
		r.push_back(T(n.v, build<T>(n.ch)));
	}
	return r;
}

template <class C>
bool same(const C& c, const forest& f)
{
	if (c.size() != f.size()) {
		return false;
	}
	auto i = f.begin();
	for (auto& t : c) {
		if (t.value != i->v || !same(t.children, i->ch)) {
			return false;
		}
		++i;
	}
	return true;
}
} // namespace ref

// C24: collection queries give exactly what the plain loops would, and do not disturb collections which were not given away.
#include <utki/linq.hpp>

#include <deque>
#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "mc.hpp"

using namespace mc;

namespace {
struct item {
	int key = 0;
	int id = 0;
	std::string text;
	std::shared_ptr<int> res;

	bool intact() const
	{
		return text == "text of the item number " + std::to_string(id) && res && *res == id;
	}
	bool operator==(const item& o) const
	{
		return key == o.key && id == o.id && text == o.text && (res == nullptr) == (o.res == nullptr);
	}
};

item make(int key, int id)
{
	return {key, id, "text of the item number " + std::to_string(id), std::make_shared<int>(id)};
}

using ref = std::vector<item>;

template <class C>
C build(const ref& v)
{
	C c;
	for (auto& x : v) {
		c.insert(c.end(), x);
	}
	return c;
}

template <class C>
void same(const C& c, const ref& e, const char* what)
{
	MC_CHECK(c.size() == e.size(), "%s: %zu elements, expected %zu", what, c.size(), e.size());
	auto i = e.begin();
	for (auto& x : c) {
		MC_CHECK(x.id == i->id && x.key == i->key, "%s: element %d is at place of %d", what, x.id, i->id);
		MC_CHECK(x.intact(), "%s: element %d lost its contents", what, x.id);
		++i;
	}
	steps();
}

bool pred(unsigned kind, const item& x)
{
	switch (kind) {
		case 0:
			return x.key == 1;
		case 1:
			return x.key != 1;
		case 2:
			return true;
		case 3:
			return false;
		default:
			return x.id % 2 == 1;
	}
}

template <class C, class L>
void queries(L get_linq, const ref& v, const char* what)
{
	// select: one result per element, in order, with index
	{
		std::vector<item> got = get_linq().select([](item x) { return x; }).get();
		same(got, v, what);
		auto idx = get_linq().select([](item x, size_t i) { return std::make_pair(i, std::move(x)); }).get();
		MC_CHECK(idx.size() == v.size(), "%s: select with index: size", what);
		for (size_t i = 0; i != v.size(); ++i) {
			MC_CHECK(idx[i].first == i && idx[i].second == v[i], "%s: select with index: element %zu", what, i);
		}
		auto keys = get_linq().select([](const item& x) { return x.key * 2; }).get();
		for (size_t i = 0; i != v.size(); ++i) {
			MC_CHECK(keys[i] == v[i].key * 2, "%s: select of key: element %zu", what, i);
		}
		MC_CHECK(keys.size() == v.size(), "%s: select of key: size", what);
	}
	// where
	for (unsigned k = 0; k != 5; ++k) {
		ref e;
		for (auto& x : v) {
			if (pred(k, x)) {
				e.push_back(x);
			}
		}
		C got = get_linq().where([k](const item& x) { return pred(k, x); }).get();
		same(got, e, what);
		// the functions may also take elements by value
		C by_value = get_linq().where([k](item x) { return pred(k, x) && x.intact(); }).get();
		same(by_value, e, what);
		// pipelines
		auto sel = get_linq()
					   .where([k](const item& x) { return pred(k, x); })
					   .select([](item x, size_t i) {
						   x.key = int(i);
						   return x;
					   })
					   .get();
		MC_CHECK(sel.size() == e.size(), "%s: where + select: size", what);
		for (size_t i = 0; i != e.size(); ++i) {
			MC_CHECK(sel[i].key == int(i) && sel[i].id == e[i].id && sel[i].intact(), "%s: where + select: element %zu", what, i);
		}
		std::map<int, ref> eg;
		for (auto& x : e) {
			eg[x.key].push_back(x);
		}
		auto g = get_linq().where([k](const item& x) { return pred(k, x); }).group_by([](const item& x) { return x.key; }).get();
		MC_CHECK(g.size() == eg.size(), "%s: group_by: %zu groups, expected %zu", what, g.size(), eg.size());
		auto j = eg.begin();
		for (auto& [key, list] : g) {
			MC_CHECK(key == j->first, "%s: group_by: group %d", what, key);
			same(list, j->second, what);
			++j;
		}
	}
	// group_by with a function which takes elements by value
	{
		std::map<std::string, ref> e;
		for (auto& x : v) {
			e[x.text].push_back(x);
		}
		auto g = get_linq().group_by([](item x) { return std::move(x.text); }).get();
		MC_CHECK(g.size() == e.size(), "%s: group_by taking value: %zu groups, expected %zu", what, g.size(), e.size());
		auto j = e.begin();
		for (auto& [key, list] : g) {
			MC_CHECK(key == j->first, "%s: group_by taking value: group %s", what, key.c_str());
			same(list, j->second, what);
			++j;
		}
	}
	// group_by, by a reference to text and by number
	{
		std::map<std::string, ref> e;
		for (auto& x : v) {
			e[x.text].push_back(x);
		}
		auto g = get_linq().group_by([](const item& x) -> const std::string& { return x.text; }).get();
		MC_CHECK(g.size() == e.size(), "%s: group_by text: %zu groups, expected %zu", what, g.size(), e.size());
		auto j = e.begin();
		for (auto& [key, list] : g) {
			MC_CHECK(key == j->first, "%s: group_by text: group %s", what, key.c_str());
			same(list, j->second, what);
			++j;
		}
		// groups are selected further on
		auto sizes = get_linq()
						 .group_by([](const item& x) { return x.key; })
						 .where([](const auto& p) { return p.second.size() > 1; })
						 .select([](const auto& p) { return std::make_pair(p.first, p.second.size()); })
						 .get();
		std::map<int, size_t> cnt;
		for (auto& x : v) {
			++cnt[x.key];
		}
		std::vector<std::pair<int, size_t>> es;
		for (auto& c : cnt) {
			if (c.second > 1) {
				es.push_back(c);
			}
		}
		MC_CHECK(sizes == es, "%s: group_by + where + select", what);
		steps(2);
	}
}

void ordered(const std::vector<item>& got, const ref& v, const char* what, bool by_id)
{
	MC_CHECK(got.size() == v.size(), "%s: order_by: %zu elements, expected %zu", what, got.size(), v.size());
	std::set<int> ids;
	for (size_t i = 0; i != got.size(); ++i) {
		MC_CHECK(got[i].intact(), "%s: order_by: element %d lost its contents", what, got[i].id);
		MC_CHECK(ids.insert(got[i].id).second, "%s: order_by: element %d is there twice", what, got[i].id);
		MC_CHECK(got[i].key == v[size_t(got[i].id)].key, "%s: order_by: element %d changed", what, got[i].id);
		if (i) {
			bool ok = by_id ? !(got[i].id < got[i - 1].id) : !(got[i].key < got[i - 1].key);
			MC_CHECK(ok, "%s: order_by: not ordered at %zu", what, i);
		}
	}
	steps();
}

template <class L>
void order(L get_linq, const ref& v, const char* what)
{
	std::vector<item> got = get_linq().order_by([](const item& x) -> const int& { return x.key; }).get();
	ordered(got, v, what, false);
	std::vector<item> got2 = get_linq().order_by([](const item& x) -> const int& { return x.id; }).get();
	ordered(got2, v, what, true);
	auto first = get_linq()
					 .order_by([](const item& x) -> const int& { return x.id; })
					 .select([](item x, size_t i) { return x.id == int(i) && x.intact(); })
					 .get();
	MC_CHECK(first.size() == v.size(), "%s: order_by + select: size", what);
	for (bool b : first) {
		MC_CHECK(b, "%s: order_by + select", what);
	}
	std::vector<item> w = get_linq().order_by([](const item& x) -> const int& { return x.key; }).where([](const item& x) { return x.key != 1; }).get();
	size_t n = 0;
	for (auto& x : v) {
		n += x.key != 1;
	}
	MC_CHECK(w.size() == n, "%s: order_by + where: size", what);
	for (size_t i = 1; i < w.size(); ++i) {
		MC_CHECK(w[i - 1].key <= w[i].key && w[i].key != 1, "%s: order_by + where: order", what);
	}
}

template <class C>
void container(const ref& v, const char* name)
{
	// given as lvalue: stays as it was
	{
		C c = build<C>(v);
		queries<C>([&] { return utki::linq(c); }, v, name);
		same(c, v, "source collection");
		const C& cc = c;
		queries<C>([&] { return utki::linq(cc); }, v, name);
		same(c, v, "source constant collection");
		order([&] { return utki::linq(c); }, v, name);
		order([&] { return utki::linq(cc); }, v, name);
		same(c, v, "source collection after order_by");
	}
	// given away
	queries<C>([&] { return utki::linq(build<C>(v)); }, v, name);
	if constexpr (!std::is_same_v<C, std::list<item>>) {
		auto l = [&] {
			return utki::linq(build<std::vector<item>>(v));
		};
		order(l, v, name);
	}
}
} // namespace

MC_SUITE(all_collections)
{
	unsigned n = choose(by_tier(7u, 8u));
	ref v;
	for (unsigned i = 0; i != n; ++i) {
		v.push_back(make(int(choose(3)), int(i)));
	}
	hasher h;
	for (auto& x : v) {
		h.add(unsigned(x.key));
	}
	state(h.add(n).h);
	container<std::vector<item>>(v, "vector");
	container<std::list<item>>(v, "list");
	container<std::deque<item>>(v, "deque");
	// elements which are not needed any more are released: nothing but the reference holds them
	for (auto& x : v) {
		MC_CHECK(x.res.use_count() == 1, "query leaked an element");
	}
	note("%u elements", n);
}

// sizes at which sorting changes its ways, all the key patterns of a kind
MC_SUITE(long_collections)
{
	static const unsigned sizes[] = {15, 16, 17, 18, 31, 32, 33, 64, 100, 257};
	unsigned n = pick(sizes);
	unsigned pat = choose(8);
	ref v;
	uint32_t seed = pat;
	for (unsigned i = 0; i != n; ++i) {
		int k = 0;
		switch (pat) {
			case 0:
				k = int(i);
				break;
			case 1:
				k = int(n - i);
				break;
			case 2:
				k = 0;
				break;
			case 3:
				k = int(i % 2);
				break;
			case 4:
				k = int(i % 7);
				break;
			case 5:
				k = int(lcg(seed) % 5);
				break;
			case 6:
				k = int(lcg(seed) % 1000);
				break;
			case 7:
				k = i < n / 2 ? int(i) : int(n - i);
				break;
		}
		v.push_back(make(k, int(i)));
	}
	state(n * 10 + pat);
	container<std::vector<item>>(v, "vector");
	container<std::deque<item>>(v, "deque");
}

// maps as sources
MC_SUITE(maps)
{
	unsigned mask = choose(by_tier(64u, 256u));
	std::map<int, std::string> m;
	for (int i = 0; i != 8; ++i) {
		if (mask & (1u << i)) {
			m.emplace(i, "value number " + std::to_string(i) + " of the map, long");
		}
	}
	const auto orig = m;
	for (unsigned rv = 0; rv != 2; ++rv) {
		auto run = [&](auto f) {
			if (rv) {
				auto c = m;
				return f(utki::linq(std::move(c)));
			}
			return f(utki::linq(m));
		};
		auto vals = run([](auto l) { return l.select([](const auto& p, size_t i) { return std::make_tuple(p.first, p.second, i); }).get(); });
		MC_CHECK(vals.size() == m.size(), "select of map: size");
		size_t k = 0;
		for (auto& p : orig) {
			MC_CHECK(std::get<0>(vals[k]) == p.first && std::get<1>(vals[k]) == p.second && std::get<2>(vals[k]) == k, "select of map: element %zu", k);
			++k;
		}
		auto even = run([](auto l) { return std::map<int, std::string>(l.where([](const auto& p) { return p.first % 2 == 0; }).get()); });
		std::map<int, std::string> e;
		for (auto& p : orig) {
			if (p.first % 2 == 0) {
				e.insert(p);
			}
		}
		MC_CHECK(even == e, "where of map");
		auto g = run([](auto l) { return l.group_by([](const auto& p) { return p.first % 3; }).get(); });
		size_t total = 0;
		for (auto& [key, list] : g) {
			int prev = -1;
			for (auto& p : list) {
				MC_CHECK(p.first % 3 == key && p.first > prev && p.second == orig.at(p.first), "group_by of map");
				prev = p.first;
				++total;
			}
		}
		MC_CHECK(total == orig.size(), "group_by of map: %zu elements", total);
		steps(3);
	}
	MC_CHECK(m == orig, "source map changed");
	state(mask);
}

// collection which is given away is moved, not copied; elements which cannot be copied can be queried
MC_SUITE(move_only_elements)
{
	unsigned n = choose(by_tier(7u, 9u));
	struct mo {
		std::unique_ptr<int> p;
		int key = 0;
	};
	std::vector<mo> v;
	std::vector<int> keys;
	for (unsigned i = 0; i != n; ++i) {
		int k = int(choose(2));
		keys.push_back(k);
		v.push_back({std::make_unique<int>(int(i)), k});
	}
	auto build = [&] {
		std::vector<mo> r;
		for (unsigned i = 0; i != n; ++i) {
			r.push_back({std::make_unique<int>(int(i)), keys[i]});
		}
		return r;
	};
	auto got = utki::linq(std::move(v)).select([](mo x) { return std::move(x.p); }).get();
	MC_CHECK(got.size() == n, "select: size");
	for (unsigned i = 0; i != n; ++i) {
		MC_CHECK(got[i] && *got[i] == int(i), "select: element %u", i);
	}
	auto w = utki::linq(build()).where([](const mo& x) { return x.key == 1; }).get();
	size_t k = 0;
	for (unsigned i = 0; i != n; ++i) {
		if (keys[i] == 1) {
			MC_CHECK(k < w.size() && w[k].p && *w[k].p == int(i), "where: element %u", i);
			++k;
		}
	}
	MC_CHECK(k == w.size(), "where: size");
	auto g = utki::linq(build()).group_by([](const mo& x) { return x.key; }).get();
	for (auto& [key, list] : g) {
		int prev = -1;
		for (auto& x : list) {
			MC_CHECK(x.p && *x.p > prev && keys[size_t(*x.p)] == key, "group_by: element");
			prev = *x.p;
		}
		k += list.size();
	}
	MC_CHECK(k == n + w.size(), "group_by: size");
	auto o = utki::linq(build()).order_by([](const mo& x) -> const int& { return x.key; }).get();
	MC_CHECK(o.size() == n, "order_by: size");
	for (unsigned i = 0; i != n; ++i) {
		MC_CHECK(o[i].p && keys[size_t(*o[i].p)] == o[i].key && (i == 0 || o[i - 1].key <= o[i].key), "order_by: element %u", i);
	}
	steps(4);
	state(hasher().add_range(keys).h);
}

// long collections: counters and indices
MC_SUITE(scale)
{
	static const unsigned sizes[] = {1000, 4097, 32769, 65535, 65537, 140000};
	unsigned n = sizes[choose(by_tier(sanitized() ? 5u : 6u, 6u))];
	unsigned pat = choose(4);
	std::vector<std::pair<int, unsigned>> v;
	uint32_t seed = pat + n;
	for (unsigned i = 0; i != n; ++i) {
		v.emplace_back(pat == 0 ? int(i) : pat == 1 ? -int(i) : pat == 2 ? int(lcg(seed) % 300) : int(lcg(seed)), i);
	}
	const auto orig = v;
	auto sel = utki::linq(v).select([](const auto& x, size_t i) { return std::make_pair(x.second, i); }).get();
	MC_CHECK(sel.size() == n, "select: %zu elements", sel.size());
	for (unsigned i = 0; i != n; ++i) {
		MC_CHECK(sel[i].first == i && sel[i].second == i, "select: element %u is %u with index %zu", i, sel[i].first, sel[i].second);
	}
	auto odd = utki::linq(v).where([](const auto& x) { return x.second % 2 == 1; }).get();
	MC_CHECK(odd.size() == n / 2, "where: %zu elements", odd.size());
	for (unsigned i = 0; i != n / 2; ++i) {
		MC_CHECK(odd[i] == orig[i * 2 + 1], "where: element %u", i);
	}
	auto g = utki::linq(v).group_by([](const auto& x) { return x.first % 1000; }).get();
	std::map<int, std::vector<std::pair<int, unsigned>>> eg;
	for (auto& x : orig) {
		eg[x.first % 1000].push_back(x);
	}
	MC_CHECK(g.size() == eg.size(), "group_by: %zu groups, expected %zu", g.size(), eg.size());
	auto j = eg.begin();
	for (auto& [k, l] : g) {
		MC_CHECK(k == j->first && l.size() == j->second.size() && std::equal(l.begin(), l.end(), j->second.begin()), "group_by: group %d", k);
		++j;
	}
	auto o = utki::linq(v).order_by([](const auto& x) -> const int& { return x.first; }).get();
	MC_CHECK(o.size() == n, "order_by: %zu elements", o.size());
	std::vector<char> seen(n);
	for (unsigned i = 0; i != n; ++i) {
		MC_CHECK(i == 0 || o[i - 1].first <= o[i].first, "order_by: not ordered at %u", i);
		MC_CHECK(o[i].second < n && !seen[o[i].second] && orig[o[i].second] == o[i], "order_by: not a permutation at %u", i);
		seen[o[i].second] = 1;
	}
	MC_CHECK(v == orig, "the source changed");
	steps(4);
	state(n * 4 + pat);
	note("%u elements, pattern %u", n, pat);
}

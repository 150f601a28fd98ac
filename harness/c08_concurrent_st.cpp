// C08: concurrent_set / concurrent_map used by one thread, against a map model.
#include "hash_keys.hpp"
#include <execution>
#include <map>
#include <seq/concurrent_map.hpp>
#include <string_view>

using hk::KRef;
using as::K;
using vpt::Src;

template<class Key, class V, bool T, bool A, unsigned Sh>
struct MapOf
{
	using M = seq::concurrent_map<Key, V, hk::HashT<T, A>, hk::EqT<T>, ty::TrackAlloc<std::pair<Key, V>, 15>, Sh>;
	static constexpr bool is_map = true;
	static constexpr bool transparent = T;
	using key = Key;
	using mapped = V;
};
template<class Key, bool T, bool A, unsigned Sh>
struct SetOf
{
	using M = seq::concurrent_set<Key, hk::HashT<T, A>, hk::EqT<T>, ty::TrackAlloc<Key, 15>, Sh>;
	static constexpr bool is_map = false;
	static constexpr bool transparent = T;
	using key = Key;
	using mapped = K;
};
template<class V>
K val_of(const V& v)
{
	return ty::key<V>(v);
}

template<class Cfg>
struct Run
{
	using M = typename Cfg::M;
	using Key = typename Cfg::key;
	using V = typename Cfg::mapped;
	using Val = typename M::value_type;
	static constexpr bool is_map = Cfg::is_map;
	static constexpr bool T = Cfg::transparent;
	static constexpr bool copyable = std::is_copy_constructible_v<Val>;
	struct Ent
	{
		K key, val;
	};
	using Model = std::map<K, Ent>; // by class

	Src& s;
	hk::State st[2];
	std::unique_ptr<M> c[2];
	Model m[2];
	K dom;
	int ops = 0, ins = 0, del = 0;
	size_t biggest = 0;
	size_t max_size;
	size_t visited = 0; // visitor calls of the current operation

	Run(Src& src)
	  : s(src)
	{
	}
	static Key mk(K k) { return ty::make<Key>(k); }
	K cls(int w, K k) { return k / st[w].div; }
	static K keyid(const Val& v)
	{
		if constexpr (is_map)
			return ty::key<Key>(v.first);
		else
			return ty::key<Key>(v);
	}
	static K valid(const Val& v)
	{
		if constexpr (is_map)
			return val_of<V>(v.second);
		else
			return 0;
	}
	static Val mkval(K k, K v)
	{
		if constexpr (is_map)
			return Val(mk(k), ty::make<V>(v));
		else
			return mk(k);
	}
	static M* create(Src& s, const hk::State& st, size_t n)
	{
		hk::HashT<T, true> dummy;
		(void)dummy;
		typename M::hasher h;
		h.st = st;
		typename M::key_equal e;
		e.div = st.div;
		return new M(n, h, e);
	}
	K nk() { return (K)s.raw((uint64_t)dom); }
	const Ent* find(int w, K k)
	{
		auto it = m[w].find(cls(w, k));
		return it == m[w].end() ? nullptr : &it->second;
	}
	// a key that is often present
	K some_key(int w)
	{
		if (!m[w].empty() && s.chance(1, 2)) {
			auto it = m[w].lower_bound((K)s.raw((uint64_t)dom / st[w].div + 1));
			if (it == m[w].end())
				it = m[w].begin();
			return it->second.key;
		}
		return nk();
	}
	void put(int w, K k, K v)
	{
		m[w][cls(w, k)] = Ent{ k, is_map ? v : 0 };
		++ins;
		biggest = std::max(biggest, m[w].size());
	}
	// checks the entry given to a visitor
	auto checker(const Ent* e, const char* what)
	{
		return [this, e, what](const Val& v) {
			++visited;
			CHECK(e != nullptr, what, ": visitor called for an absent key");
			CHECK_EQ(keyid(v), e->key, what);
			CHECK_EQ(valid(v), e->val, what);
		};
	}
	void expect_visits(size_t n, const char* what)
	{
		CHECK_EQ(visited, n, "number of visitor calls of ", what);
		visited = 0;
	}
	template<class F>
	void with_key(K k, F&& f)
	{
		if constexpr (T)
			if (s.flip())
				return f(KRef{ k });
		f(mk(k));
	}
	void same(int w, const char* op)
	{
		M& x = *c[w];
		const M& cx = x;
		CHECK_EQ(x.size(), m[w].size(), "size after ", op);
		CHECK_EQ(x.empty(), m[w].empty(), "empty after ", op);
		Model seen;
		size_t n = 0;
		auto vis = [&](const Val& v) {
			++n;
			K k = keyid(v);
			CHECK(seen.insert({ cls(w, k), Ent{ k, valid(v) } }).second, "key ", k, " visited twice after ", op);
			auto e = find(w, k);
			CHECK(e, "key ", k, " should not be there after ", op);
			CHECK_EQ(e->key, k, "stored key after ", op);
			CHECK_EQ(e->val, valid(v), "value of key ", k, " after ", op);
			CHECK(n <= m[w].size() + 5, "visit_all goes on");
			return true;
		};
		bool r = false;
		switch (s.raw(3)) {
			case 0:
				r = x.visit_all([&](auto& v) { return vis(v); });
				break;
			case 1:
				r = cx.visit_all([&](const auto& v) { return vis(v); });
				break;
			case 2:
				r = x.cvisit_all([&](const auto& v) { return vis(v); });
				break;
		}
		CHECK(r, "visit_all returned false after ", op);
		CHECK_EQ(n, m[w].size(), "entries visited after ", op);
		ty::check_violation();
	}
	// lookups of present and absent keys
	void lookups(int w, int n)
	{
		for (int i = 0; i < n; ++i) {
			K k = some_key(w);
			const Ent* e = find(w, k);
			with_key(k, [&](const auto& key) {
				const M& cx = *c[w];
				CHECK_EQ(cx.contains(key), e != nullptr, "contains ", k);
				CHECK_EQ(cx.count(key), (size_t)(e != nullptr), "count ", k);
				CHECK_EQ(cx.visit(key, checker(e, "visit const")), (size_t)(e != nullptr));
				expect_visits(e != nullptr, "visit const");
				CHECK_EQ(cx.cvisit(key, checker(e, "cvisit")), (size_t)(e != nullptr));
				expect_visits(e != nullptr, "cvisit");
				CHECK_EQ(c[w]->visit(key, checker(e, "visit")), (size_t)(e != nullptr));
				expect_visits(e != nullptr, "visit");
			});
		}
	}
	bool insert_op(int w)
	{
		M& x = *c[w];
		K k = some_key(w), v = (K)s.raw(1000);
		if (!is_map)
			v = 0;
		const Ent* old = find(w, k);
		Ent oldc = old ? *old : Ent{ 0, 0 };
		const Ent* e = old ? &oldc : nullptr;
		bool r = false, by_visit = false;
		K newv = v;
		bool change = is_map && s.flip();
		auto vis = [&](auto& val) {
			checker(e, "or_visit")(val);
			if constexpr (is_map)
				if (change) {
					val.second = ty::make<V>(v + 1);
					newv = v + 1;
				}
		};
		auto cvis = [&](const auto& val) {
			static_assert(std::is_const_v<std::remove_reference_t<decltype(val)>>);
			checker(e, "or_cvisit")(val);
		};
		bool assign = false;
		unsigned kind = (unsigned)s.raw(is_map ? 16 : 8);
		switch (kind) {
			case 0:
				if constexpr (copyable) {
					Val val = mkval(k, v);
					r = x.insert(static_cast<const Val&>(val));
					CHECK_EQ(keyid(val), k, "argument of insert(const&)");
				}
				else
					r = x.insert(mkval(k, v));
				break;
			case 1:
				r = x.insert(mkval(k, v));
				break;
			case 2:
				if constexpr (is_map)
					r = x.emplace(mk(k), ty::make<V>(v));
				else
					r = x.emplace(mk(k));
				break;
			case 3:
				by_visit = true;
				r = x.insert_or_visit(mkval(k, v), vis);
				break;
			case 4:
				by_visit = true;
				change = false;
				r = x.insert_or_cvisit(mkval(k, v), cvis);
				break;
			case 5:
				by_visit = true;
				if constexpr (is_map)
					r = x.emplace_or_visit(mk(k), ty::make<V>(v), vis);
				else
					r = x.emplace_or_visit(mk(k), vis);
				break;
			case 6:
				by_visit = true;
				change = false;
				if constexpr (is_map)
					r = x.emplace_or_cvisit(mk(k), ty::make<V>(v), cvis);
				else
					r = x.emplace_or_cvisit(mk(k), cvis);
				break;
			case 7: {
				if constexpr (copyable) {
					// lvalues are not modified
					Val val = mkval(k, v);
					r = x.emplace(val);
					CHECK_EQ(keyid(val), k, "argument of emplace(lvalue)");
				}
				else
					r = x.emplace(mkval(k, v));
				break;
			}
			default:
				if constexpr (is_map) {
					switch (kind) {
						case 8: {
							Key kk = mk(k);
							V vv = ty::make<V>(v);
							r = x.try_emplace(std::move(kk), std::move(vv));
							if (!r) {
								CHECK_EQ(ty::key<Key>(kk), k, "failed try_emplace moved from the key");
								CHECK_EQ(val_of<V>(vv), v, "failed try_emplace moved from its argument");
							}
							break;
						}
						case 9:
							if constexpr (std::is_copy_constructible_v<Key>) {
								Key kk = mk(k);
								r = x.try_emplace(kk, ty::make<V>(v));
								CHECK_EQ(ty::key<Key>(kk), k);
							}
							else
								r = x.try_emplace(mk(k), ty::make<V>(v));
							break;
						case 10:
							by_visit = true;
							r = x.try_emplace_or_visit(mk(k), ty::make<V>(v), vis);
							break;
						case 11:
							by_visit = true;
							change = false;
							if constexpr (std::is_copy_constructible_v<Key>) {
								Key kk = mk(k);
								r = x.try_emplace_or_cvisit(kk, ty::make<V>(v), cvis);
								CHECK_EQ(ty::key<Key>(kk), k);
							}
							else
								r = x.try_emplace_or_cvisit(mk(k), ty::make<V>(v), cvis);
							break;
						case 12:
							assign = true;
							r = x.insert_or_assign(mk(k), ty::make<V>(v));
							break;
						case 13:
							assign = true;
							if constexpr (std::is_copy_constructible_v<Key>) {
								Key kk = mk(k);
								r = x.insert_or_assign(kk, ty::make<V>(v));
								CHECK_EQ(ty::key<Key>(kk), k);
							}
							else
								r = x.insert_or_assign(mk(k), ty::make<V>(v));
							break;
						case 14: // default constructed value
							if constexpr (std::is_same_v<V, K>) {
								v = newv = 0;
								r = x.try_emplace(mk(k));
							}
							else
								r = x.insert(mkval(k, v));
							break;
						case 15:
							if constexpr (copyable && std::is_same_v<V, K>) {
								std::pair<const Key, int> p(mk(k), (int)v);
								r = x.insert(p);
								CHECK_EQ(ty::key<Key>(p.first), k);
							}
							else
								r = x.insert(mkval(k, v));
							break;
					}
				}
		}
		s.note(" kind ", kind, " key ", k, " val ", v, " -> ", r);
		CHECK_EQ(r, e == nullptr, "result of the insertion of ", k, " (kind ", kind, ")");
		expect_visits(by_visit && e ? 1 : 0, "insertion");
		if (!e)
			put(w, k, v);
		else if (assign)
			m[w][cls(w, k)].val = v;
		else if (change && by_visit)
			m[w][cls(w, k)].val = newv;
		return e == nullptr;
	}
	std::vector<Val> range(int w, size_t n, std::vector<std::pair<K, K>>& kv)
	{
		std::vector<Val> r;
		for (size_t i = 0; i < n; ++i) {
			K k = nk(), v = is_map ? (K)(i % 1000) : 0;
			kv.push_back({ k, v });
			r.push_back(mkval(k, v));
		}
		return r;
	}
	void go()
	{
		bool large = s.raw(s.tier ? 4 : 6) == 0;
		max_size = large ? 4000 : 300;
		dom = s.pick({ 8, 40, 200, 700 });
		if (large)
			dom = s.pick({ 700, 6000, 60000 });
		for (int w = 0; w < 2; ++w)
			st[w] = hk::gen_state(s);
		if (s.chance(1, 2))
			st[1] = st[0];
		if (s.chance(3, 4))
			st[1].div = st[0].div;
		for (int w = 0; w < 2; ++w) {
			size_t n = s.raw(3) == 0 ? s.size(500) : 0;
			c[w].reset(create(s, st[w], n));
			s.note("container ", w, ": ", hk::describe(st[w]), " n=", n, "\n");
		}
		s.repeat(40, 150, [&](size_t) {
			int w = (int)s.raw(2) ? 0 : 1;
			M& x = *c[w];
			++ops;
			const char* op = "";
			s.note("op ", ops, " on ", w, " (", m[w].size(), "):");
			switch (s.weighted({ 14, 6, 8, 4, 3, 3, 2, 2, 3, 2, 2, 2, 2, 2, 2, 2, 2, 3, 3, 2 })) {
				case 0:
					op = "insert";
					insert_op(w);
					break;
				case 1: { // many
					op = "range insert";
					size_t n = s.size(std::min(max_size, (size_t)800));
					if (m[w].size() + n > max_size)
						n = 0;
					std::vector<std::pair<K, K>> kv;
					auto r = range(w, n, kv);
					size_t expect = 0;
					unsigned how = (unsigned)s.raw(6);
					for (auto& p : kv) {
						if (!find(w, p.first))
							put(w, p.first, p.second);
						else
							++expect;
					}
					s.note(" ", n, " values, how ", how);
					if (how >= 2 && how <= 4 && !copyable)
						how = 0;
					switch (how) {
						case 0:
							x.insert(std::make_move_iterator(r.begin()), std::make_move_iterator(r.end()));
							break;
						case 1:
							for (auto& v : r)
								x.emplace(std::move(v));
							break;
						case 2:
							if constexpr (copyable)
								x.insert(r.begin(), r.end());
							break;
						case 3:
							if constexpr (copyable) {
								x.insert_or_visit(r.begin(), r.end(), [&](auto&) { ++visited; });
								expect_visits(expect, "insert_or_visit(range)");
							}
							break;
						case 4:
							if constexpr (copyable) {
								x.insert_or_cvisit(r.begin(), r.end(), [&](const auto&) { ++visited; });
								expect_visits(expect, "insert_or_cvisit(range)");
							}
							break;
						case 5:
							if constexpr (copyable) {
								for (size_t i = 0; i + 2 <= r.size(); i += 2)
									switch (i % 3) {
										case 0:
											x.insert({ r[i], r[i + 1] });
											break;
										case 1:
											x.insert_or_visit({ r[i], r[i + 1] }, [](auto&) {});
											break;
										default:
											x.insert_or_cvisit({ r[i], r[i + 1] }, [](const auto&) {});
									}
								if (r.size() & 1)
									x.insert(r.back());
							}
							else
								for (auto& v : r)
									x.insert(std::move(v));
							break;
					}
					break;
				}
				case 2: { // erase
					op = "erase";
					K k = some_key(w);
					const Ent* e = find(w, k);
					s.note(" key ", k);
					with_key(k, [&](const auto& key) { CHECK_EQ(x.erase(key), (size_t)(e != nullptr), "erase ", k); });
					if (e) {
						m[w].erase(cls(w, k));
						++del;
					}
					break;
				}
				case 3: { // erase_if(key, pred)
					op = "erase_if(key)";
					K k = some_key(w);
					const Ent* e = find(w, k);
					bool yes = s.flip();
					s.note(" key ", k, " ", yes);
					with_key(k, [&](const auto& key) {
						CHECK_EQ(x.erase_if(key,
								    [&](const Val& v) {
									    checker(e, "erase_if(key)")(v);
									    return yes;
								    }),
							 (size_t)(e && yes));
					});
					expect_visits(e != nullptr, "erase_if(key)");
					if (e && yes) {
						m[w].erase(cls(w, k));
						++del;
					}
					break;
				}
				case 4: { // erase_if
					op = "erase_if";
					K mod = s.in<K>(1, 6), rem = (K)s.raw((uint64_t)mod);
					bool keep = s.chance(1, 2);
					s.note(keep ? " keeps" : " erases", " keys = ", rem, " mod ", mod);
					size_t expect = 0, total = m[w].size();
					Model n;
					for (auto& p : m[w])
						if ((p.second.key % mod == rem) != keep)
							++expect;
						else
							n.insert(p);
					size_t calls = 0;
					auto pred = [&](const Val& v) {
						++calls;
						return (keyid(v) % mod == rem) != keep;
					};
					size_t r;
					switch (s.raw(3)) {
						case 0:
							r = x.erase_if(std::execution::seq, pred);
							break;
						case 1:
							r = erase_if(x, pred);
							break;
						default:
							r = x.erase_if(pred);
					}
					CHECK_EQ(r, expect, "erase_if");
					CHECK_EQ(calls, total, "calls of the predicate of erase_if");
					m[w].swap(n);
					del += (int)expect;
					break;
				}
				case 5: { // visit and change
					op = "visit";
					K k = some_key(w);
					const Ent* e = find(w, k);
					K nv = (K)s.raw(1000);
					with_key(k, [&](const auto& key) {
						size_t r = x.visit(key, [&](auto& v) {
							checker(e, "visit")(v);
							if constexpr (is_map)
								v.second = ty::make<V>(nv);
						});
						CHECK_EQ(r, (size_t)(e != nullptr));
					});
					expect_visits(e != nullptr, "visit");
					if (e && is_map)
						m[w][cls(w, k)].val = nv;
					break;
				}
				case 6: { // visit_all and change
					op = "visit_all";
					if constexpr (is_map) {
						K d = (K)s.raw(10);
						auto f = [&](auto& v) { v.second = ty::make<V>((val_of<V>(v.second) + d) % 1000); };
						bool r = s.flip() ? x.visit_all(f) : x.visit_all(std::execution::seq, f);
						CHECK(r);
						for (auto& p : m[w])
							p.second.val = (p.second.val + d) % 1000;
					}
					break;
				}
				case 7: { // stop early
					op = "visit_all until";
					size_t n = m[w].size();
					if (n) {
						size_t stop = 1 + s.raw(n), calls = 0;
						auto f = [&](const auto&) { return ++calls < stop; };
						const M& cx = x;
						bool r;
						switch (s.raw(3)) {
							case 0:
								r = x.visit_all(f);
								break;
							case 1:
								r = cx.visit_all(f);
								break;
							default:
								r = x.cvisit_all(f);
						}
						CHECK(!r, "visit_all stopped by its functor returns false");
						CHECK_EQ(calls, stop, "calls before visit_all stops");
					}
					break;
				}
				case 8:
					op = "clear";
					if (s.chance(1, 2) || m[w].size() < 20) {
						x.clear();
						m[w].clear();
					}
					break;
				case 9: {
					op = "rehash";
					size_t n = s.chance(1, 8) ? s.raw(20000) : s.raw(2 * m[w].size() + 20);
					// rehash(0) with one shard clears in the bucket sense: n is at least 1
					s.note(" ", n);
					x.rehash(n + 1);
					break;
				}
				case 10: {
					op = "reserve";
					size_t n = s.chance(1, 8) ? s.raw(20000) : s.raw(2 * m[w].size() + 20);
					s.note(" ", n);
					x.reserve(n);
					break;
				}
				case 11: {
					op = "max_load_factor";
					float f = 0.05f + (float)s.raw(30) / 10;
					s.note(" ", f);
					x.max_load_factor(f);
					CHECK(x.max_load_factor() == std::max(f, 0.1f), "max_load_factor");
					break;
				}
				case 12:
					op = "swap";
					c[0]->swap(*c[1]);
					std::swap(m[0], m[1]);
					std::swap(st[0], st[1]);
					break;
				case 13:
					op = "copy";
					if constexpr (copyable) {
						int o = 1 - w;
						switch (s.raw(3)) {
							case 0:
								c[o].reset(new M(*c[w]));
								break;
							case 1:
								c[o].reset(new M(*c[w], c[w]->get_allocator()));
								break;
							default:
								*c[o] = *c[w];
						}
						m[o] = m[w];
						st[o] = st[w];
						CHECK(*c[o] == *c[w], "a copy compares equal");
						CHECK(!(*c[o] != *c[w]), "a copy compares equal");
					}
					break;
				case 14: {
					op = "move";
					int o = 1 - w;
					switch (s.raw(3)) {
						case 0:
							c[o].reset(new M(std::move(*c[w])));
							break;
						case 1:
							c[o].reset(new M(std::move(*c[w]), c[w]->get_allocator()));
							break;
						default:
							*c[o] = std::move(*c[w]);
					}
					m[o] = m[w];
					auto keep = st[w];
					st[o] = keep;
					// the moved from container is replaced, assigned or reused once cleared
					m[w].clear();
					if (s.flip())
						c[w].reset(create(s, st[w], 0));
					else {
						if (!c[w]->empty() || s.flip())
							c[w]->clear();
						// whatever hash it has now
						st[w] = c[w]->hash_function().st;
						st[w].div = c[w]->key_eq().div;
						CHECK(c[w]->empty());
					}
					break;
				}
				case 15: { // merge
					op = "merge";
					int o = 1 - w;
					if (m[0].size() + m[1].size() <= max_size * 2 && st[0].div == st[1].div) {
						size_t expect = 0;
						Model rest;
						for (auto& p : m[o])
							if (!m[w].count(p.first)) {
								m[w].insert(p);
								++expect;
							}
							else
								rest.insert(p);
						m[o].swap(rest);
						size_t r;
						switch (s.raw(3)) {
							case 0:
								r = c[w]->merge(std::execution::seq, *c[o]);
								break;
							case 1:
								r = c[w]->merge(std::move(*c[o]));
								break;
							default:
								r = c[w]->merge(*c[o]);
						}
						CHECK_EQ(r, expect, "merge");
						same(o, "merge (source)");
						biggest = std::max(biggest, m[w].size());
					}
					break;
				}
				case 16: { // construction from a range
					op = "construct";
					std::vector<std::pair<K, K>> kv;
					auto r = range(w, s.size(200), kv);
					typename M::hasher h;
					h.st = st[w];
					typename M::key_equal e;
					e.div = st[w].div;
					size_t n = s.flip() ? 0 : s.raw(300);
					m[w].clear();
					for (auto& p : kv)
						if (!find(w, p.first))
							put(w, p.first, p.second);
					c[w].reset(new M(std::make_move_iterator(r.begin()), std::make_move_iterator(r.end()), n, h, e));
					break;
				}
				case 17:
					op = "compare";
					if constexpr (copyable)
						if (st[0].div == st[1].div) {
							bool eq = m[0].size() == m[1].size();
							for (auto& p : m[0]) {
								auto it = m[1].find(p.first);
								if (it == m[1].end() || (is_map && it->second.val != p.second.val))
									eq = false;
							}
							CHECK_EQ(*c[0] == *c[1], eq, "operator==");
							CHECK_EQ(*c[1] == *c[0], eq, "operator==");
							CHECK_EQ(*c[0] != *c[1], !eq, "operator!=");
							CHECK(*c[w] == *c[w], "a container equals itself");
						}
					break;
				case 18:
					op = "lookups";
					lookups(w, 12);
					break;
				case 19:
					op = "observers";
					CHECK(c[w]->hash_function().st.seed == st[w].seed && c[w]->hash_function().st.mode == st[w].mode, "hash_function");
					CHECK(c[w]->key_eq().div == st[w].div, "key_eq");
					CHECK(c[w]->load_factor() >= 0.f);
					CHECK(c[w]->max_size() >= c[w]->size());
					break;
			}
			s.note(" ", op, "\n");
			int w2 = w;
			if (m[w2].size() < 60 || s.chance(1, 4))
				same(w2, op);
			else
				CHECK_EQ(c[w2]->size(), m[w2].size(), "size after ", op);
			lookups(w2, 2);
		});
		for (int w = 0; w < 2; ++w) {
			same(w, "the history");
			for (auto& p : m[w])
				CHECK(c[w]->contains(mk(p.second.key)), "contains ", p.second.key);
		}
		if (ops >= 5 && ins >= 3 && del >= 1 && biggest >= 4)
			s.nontrivial();
		if (biggest > 60)
			s.classify("more than 60 elements");
		if (biggest > 1000)
			s.classify("more than 1000 elements");
	}
};
template<class Cfg>
void run(Src& s)
{
	ty::Ledger l;
	{
		Run<Cfg> r(s);
		r.go();
	}
	l.settle();
}
using namespace seq;
#if VPT_PART == 0
PROP_FN(set_i64_none, (run<SetOf<K, true, true, no_concurrency>>), 16000);
PROP_FN(set_i64_low, (run<SetOf<K, true, true, low_concurrency>>), 16000);
#elif VPT_PART == 1
PROP_FN(set_int_medium, (run<SetOf<int, false, false, medium_concurrency>>), 12800);
PROP_FN(set_obj_low_shared, (run<SetOf<ty::Obj, false, true, low_concurrency_shared>>), 12800);
#elif VPT_PART == 2
PROP_FN(set_string_medium_shared, (run<SetOf<std::string, true, true, medium_concurrency_shared>>), 12800);
PROP_FN(set_uptr_low, (run<SetOf<ty::UPtr, true, true, low_concurrency>>), 12800);
#elif VPT_PART == 3
PROP_FN(map_i64_low, (run<MapOf<K, K, true, true, low_concurrency>>), 16000);
PROP_FN(map_i64_none, (run<MapOf<K, K, false, true, no_concurrency>>), 16000);
#elif VPT_PART == 4
PROP_FN(map_string_obj_medium, (run<MapOf<std::string, ty::Obj, true, true, medium_concurrency>>), 12800);
PROP_FN(map_obj_robj_low_shared, (run<MapOf<ty::Obj, ty::RObj, false, true, low_concurrency_shared>>), 12800);
#elif VPT_PART == 5
PROP_FN(map_i64_uptr_high, (run<MapOf<K, ty::UPtr, true, false, high_concurrency>>), 4000);
PROP_FN(map_i64_i64_2, (run<MapOf<K, K, true, true, 1>>), 12800);
#endif

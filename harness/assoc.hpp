// Model-based harness for the associative containers (flat_*, radix_*, radix_hash_*, ordered_*).
// The model is a vector of (key, payload) entries, sorted / in traversal order / unordered depending on
// the container.
#pragma once
#include "types.hpp"
#include <algorithm>
#include <iterator>
#include <list>
#include <map>
#include <set>
#include <vector>

namespace as {
using vpt::Src;
using K = int64_t;
enum Order
{
	Sorted,
	Insertion,
	Unordered
};
struct Ent
{
	K k, p;
	const void* a = nullptr;
	bool operator==(const Ent& o) const { return k == o.k && p == o.p; }
	bool operator<(const Ent& o) const { return k != o.k ? k < o.k : p < o.p; }
};
using Model = std::vector<Ent>;
inline std::string show(const Model& m, size_t lim = 60)
{
	std::ostringstream os;
	os << "[" << m.size() << ":";
	for (size_t i = 0; i < m.size() && i < lim; ++i)
		os << ' ' << m[i].k << '/' << m[i].p;
	os << "]";
	return os.str();
}
// A single pass input iterator over values
template<class V>
struct InputIt
{
	using iterator_category = std::input_iterator_tag;
	using value_type = V;
	using difference_type = std::ptrdiff_t;
	using pointer = const V*;
	using reference = const V&;
	const V* p;
	reference operator*() const { return *p; }
	pointer operator->() const { return p; }
	InputIt& operator++()
	{
		++p;
		return *this;
	}
	InputIt operator++(int)
	{
		InputIt r = *this;
		++p;
		return r;
	}
	bool operator==(const InputIt& o) const { return p == o.p; }
	bool operator!=(const InputIt& o) const { return p != o.p; }
};
// Default traits
struct TrBase
{
	static constexpr bool is_map = false;
	static constexpr bool unique = true;
	static constexpr Order order = Sorted;
	static constexpr bool bounds = true;      // lower_bound...
	static constexpr bool pos_api = false;    // *_pos members
	static constexpr bool hint = true;        // emplace_hint, insert(hint...)
	static constexpr bool stable = true;      // range insertion keeps the first of equivalent keys
	static constexpr bool stable_refs = false;// references survive insertions and other erasures
	static constexpr bool copyable = true;
	static constexpr bool merge = true;
	static constexpr bool assign = true;
	static constexpr bool ilist_assign = true;
	static constexpr bool range_erase = true;
	static constexpr bool equality = true;
	static constexpr bool reverse = true; // rbegin/rend
	static constexpr unsigned key_kinds = 1;
	static constexpr unsigned specials = 0;
	static constexpr size_t max_size = 3000;
	struct State
	{
	};
	static State gen_state(Src&) { return State(); }
	static bool less(const State&, K a, K b) { return a < b; }
	static K gen_key(Src& s, K dom) { return (K)s.raw((uint64_t)dom); }
	static std::string describe(const State&) { return ""; }
	// construction from an initializer list
	template<class C>
	static C from_list(std::initializer_list<typename C::value_type> il, const State&)
	{
		return C(il);
	}
	// the state of the functors of a container
	template<class C>
	static State state_of(const C&)
	{
		return State();
	}
	template<class H>
	static const char* special(H&, int, unsigned)
	{
		return "";
	}
	template<class C>
	static void extra(const C&, const Model&)
	{
	}
	// whether the bounds accept this type of key
	template<class Q>
	static constexpr bool bounds_with()
	{
		return true;
	}
};
template<class Tr>
struct Assoc
{
	using M = typename Tr::M;
	using V = typename M::value_type;
	using Key = typename M::key_type;
	using State = typename Tr::State;
	Src& s;
	State st[2];
	M c[2];
	Model m[2];
	K dom;
	size_t maxn;
	K counter = 0;
	size_t nops = 0, ins = 0, dup = 0, ers = 0, peak = 0;

	Assoc(Src& src, size_t mx)
	  : s(src)
	  , st{ Tr::gen_state(src), Tr::gen_state(src) }
	  , c{ Tr::create(st[0]), Tr::create(st[1]) }
	  , maxn(mx)
	{
		dom = s.pick<K>({ 12, 60, 400, 5000, 100000000 });
		s.note("domain ", dom, " states ", Tr::describe(st[0]), " | ", Tr::describe(st[1]), "\n");
	}
	bool less(int w, K a, K b) const { return Tr::less(st[w], a, b); }
	bool equiv(int w, K a, K b) const { return !less(w, a, b) && !less(w, b, a); }

	K nk(int w)
	{
		// half of the time an existing key (or an equivalent / neighbour), otherwise any key of the domain
		if (!m[w].empty() && s.raw(3) == 0)
			return m[w][s.raw(m[w].size())].k;
		return Tr::gen_key(s, dom);
	}
	K np()
	{
		if constexpr (Tr::is_map)
			return ++counter;
		else
			return 0;
	}
	static V mkv(K k, K p)
	{
		if constexpr (Tr::is_map)
			return V(Tr::make(k), ty::make<typename V::second_type>(p));
		else
			return Tr::make(k);
	}
	static Ent read(const V& v)
	{
		Ent e;
		if constexpr (Tr::is_map) {
			e.k = Tr::id(v.first);
			e.p = ty::key<std::remove_const_t<typename V::second_type>>(v.second);
		}
		else {
			e.k = Tr::id(v);
			e.p = 0;
		}
		e.a = &v;
		return e;
	}
	// first index whose key is not less than k / greater than k (sorted containers)
	size_t low(int w, K k) const
	{
		return (size_t)(std::lower_bound(m[w].begin(), m[w].end(), k, [&](const Ent& e, K x) { return less(w, e.k, x); }) - m[w].begin());
	}
	size_t up(int w, K k) const
	{
		return (size_t)(std::upper_bound(m[w].begin(), m[w].end(), k, [&](K x, const Ent& e) { return less(w, x, e.k); }) - m[w].begin());
	}
	// index of the (first) entry equivalent to k, or size
	size_t at(int w, K k) const
	{
		if constexpr (Tr::order == Sorted) {
			size_t i = low(w, k);
			return i < m[w].size() && !less(w, k, m[w][i].k) ? i : m[w].size();
		}
		else {
			for (size_t i = 0; i < m[w].size(); ++i)
				if (equiv(w, m[w][i].k, k))
					return i;
			return m[w].size();
		}
	}
	template<class It>
	size_t index(int w, It it)
	{
		size_t i = 0;
		for (auto b = c[w].begin(); b != it; ++b, ++i)
			if (i > m[w].size() + 2)
				throw vpt::Fail("an iterator is not reachable from begin()");
		return i;
	}
	auto iter(int w, size_t i)
	{
		auto it = c[w].begin();
		std::advance(it, (std::ptrdiff_t)i);
		return it;
	}
	// Model insertion of one element; returns (index, inserted)
	std::pair<size_t, bool> mins(int w, K k, K p)
	{
		Model& mm = m[w];
		++ins;
		if constexpr (Tr::order == Sorted) {
			size_t u = up(w, k);
			if (Tr::unique && u > 0 && !less(w, mm[u - 1].k, k)) {
				++dup;
				return { u - 1, false };
			}
			mm.insert(mm.begin() + (std::ptrdiff_t)u, Ent{ k, p });
			return { u, true };
		}
		else {
			size_t i = at(w, k);
			if (i < mm.size()) {
				++dup;
				return { i, false };
			}
			mm.push_back(Ent{ k, p });
			return { mm.size() - 1, true };
		}
	}
	// The container against the model.  Entries the last operation added at an unspecified place have a == null.
	void verify(int w, const char* what, bool lenient = false, const Model* cand = nullptr)
	{
		const M& cc = c[w];
		Model& mm = m[w];
		CHECK_EQ(cc.size(), mm.size(), what, " size; model ", show(mm));
		CHECK_EQ(cc.empty(), mm.empty(), what, " empty()");
		Model got;
		got.reserve(mm.size());
		for (auto it = cc.begin(); it != cc.end(); ++it) {
			if (got.size() >= mm.size())
				throw vpt::Fail(vpt::str(what, ": traversal goes past size ", mm.size()));
			got.push_back(read(*it));
		}
		CHECK_EQ(got.size(), mm.size(), what, " traversal ends early");
		if constexpr (Tr::order == Sorted) {
			for (size_t i = 0; i + 1 < got.size(); ++i)
				if (less(w, got[i + 1].k, got[i].k) || (Tr::unique && !less(w, got[i].k, got[i + 1].k)))
					throw vpt::Fail(vpt::str(what, ": traversal out of order at ", i, ": ", show(got)));
			if (!lenient) {
				for (size_t i = 0; i < got.size(); ++i)
					if (!(got[i] == mm[i]))
						throw vpt::Fail(vpt::str(what, ": element ", i, " is ", got[i].k, "/", got[i].p, ", expected ", mm[i].k, "/", mm[i].p, "; model ", show(mm), " container ", show(got)));
			}
			else if (Tr::unique) {
				for (size_t i = 0; i < got.size(); ++i) {
					if (!equiv(w, got[i].k, mm[i].k))
						throw vpt::Fail(vpt::str(what, ": key ", i, " is ", got[i].k, ", expected one equivalent to ", mm[i].k));
					if (!(got[i] == mm[i])) {
						bool ok = false;
						if (cand)
							for (auto& e : *cand)
								ok = ok || e == got[i];
						if (!ok)
							throw vpt::Fail(vpt::str(what, ": element ", got[i].k, "/", got[i].p, " was never inserted"));
					}
				}
			}
			else {
				Model a = got, b = mm;
				std::sort(a.begin(), a.end());
				std::sort(b.begin(), b.end());
				if (!(a == b))
					throw vpt::Fail(vpt::str(what, ": the elements are ", show(a), ", expected ", show(b)));
			}
		}
		else {
			if (Tr::order == Insertion) {
				// entries whose place is known keep their order
				std::map<const void*, size_t> known;
				for (size_t i = 0; i < mm.size(); ++i)
					if (mm[i].a)
						known[mm[i].a] = i;
				size_t last = 0;
				bool any = false;
				for (size_t i = 0; i < got.size(); ++i) {
					auto it = known.find(got[i].a);
					if (it == known.end())
						continue;
					if (!(mm[it->second] == got[i]))
						throw vpt::Fail(vpt::str(what, ": the element at a known address is ", got[i].k, "/", got[i].p, ", expected ", mm[it->second].k, "/", mm[it->second].p));
					if (any && it->second < last)
						throw vpt::Fail(vpt::str(what, ": relative order of the elements changed: ", show(got), " expected ", show(mm)));
					last = it->second;
					any = true;
				}
			}
			Model a = got, b = mm;
			std::sort(a.begin(), a.end());
			std::sort(b.begin(), b.end());
			for (size_t i = 0; i < a.size(); ++i) {
				if (!(a[i] == b[i]))
					throw vpt::Fail(vpt::str(what, ": the elements are ", show(a), ", expected ", show(b)));
				if (Tr::stable_refs && b[i].a && a[i].a != b[i].a)
					throw vpt::Fail(vpt::str(what, ": element ", a[i].k, "/", a[i].p, " changed address"));
			}
		}
		if (s.raw(4) == 0) {
			// backward
			size_t i = got.size();
			if constexpr (Tr::reverse) {
				for (auto it = cc.rbegin(); it != cc.rend(); ++it) {
					if (i == 0)
						throw vpt::Fail(vpt::str(what, ": reverse traversal goes past the beginning"));
					--i;
					if (!(read(*it) == got[i]))
						throw vpt::Fail(vpt::str(what, ": reverse traversal: element ", i, " is ", read(*it).k, ", expected ", got[i].k));
				}
			}
			else if (!got.empty()) {
				auto it = cc.end();
				do {
					--it;
					--i;
					if (!(read(*it) == got[i]))
						throw vpt::Fail(vpt::str(what, ": backward traversal: element ", i, " is ", read(*it).k, ", expected ", got[i].k));
				} while (i);
				CHECK(it == cc.begin(), what, " backward traversal");
			}
			CHECK_EQ(i, 0u, what, " reverse traversal ends early");
		}
		mm = got;
		Tr::extra(cc, mm);
		ty::check_violation();
	}
	void lookups(int w, K k, const char* what)
	{
		const size_t n = m[w].size();
		size_t i = at(w, k);
		const M& cc = c[w];
		unsigned kind = (unsigned)s.raw(Tr::key_kinds);
		Tr::with_key(kind, k, [&](const auto& key) {
			// single lookups
			auto it = cc.find(key);
			auto it2 = c[w].find(key);
			if (i == n) {
				CHECK(it == cc.end(), what, " find of the absent key ", k, " model ", show(m[w]));
				CHECK(it2 == c[w].end(), what, " find of the absent key ", k);
			}
			else {
				CHECK(it != cc.end(), what, " find of the present key ", k, " (", i, "/", n, ") model ", show(m[w]));
				CHECK(it2 != c[w].end(), what, " find of the present key ", k);
				Ent e = read(*it);
				CHECK(equiv(w, e.k, k), what, " find(", k, ") found ", e.k);
				if (Tr::unique)
					CHECK(e == m[w][i], what, " find(", k, ") found ", e.k, "/", e.p);
				else {
					bool ok = false;
					for (size_t j = low(w, k); j < up(w, k); ++j)
						ok = ok || m[w][j] == e;
					CHECK(ok, what, " find(", k, ") found ", e.k, "/", e.p);
				}
				CHECK(read(*it2) == e, what, " find");
			}
			CHECK_EQ(cc.contains(key), i < n, what, " contains(", k, ")");
			size_t cnt = 0;
			if constexpr (Tr::unique)
				cnt = i < n;
			else
				cnt = up(w, k) - low(w, k);
			CHECK_EQ((size_t)cc.count(key), cnt, what, " count(", k, ")");
			if constexpr (Tr::is_map && Tr::unique) {
				if constexpr (std::is_same_v<std::decay_t<decltype(key)>, Key>) {
					bool thrown = false;
					try {
						auto& r = c[w].at(key);
						auto& r2 = cc.at(key);
						CHECK(&r == &r2, what, " at");
						CHECK_EQ(ty::key<typename V::second_type>(r), m[w][i].p, what, " at(", k, ")");
					}
					catch (const std::out_of_range&) {
						thrown = true;
					}
					CHECK_EQ(thrown, i == n, what, " at(", k, ") throws");
				}
			}
			if constexpr (Tr::bounds) if constexpr (Tr::template bounds_with<std::decay_t<decltype(key)>>()) {
				size_t l = low(w, k), u = up(w, k);
				CHECK_EQ(index(w, c[w].lower_bound(key)), l, what, " lower_bound(", k, ") model ", show(m[w]));
				CHECK_EQ(index(w, c[w].upper_bound(key)), u, what, " upper_bound(", k, ") model ", show(m[w]));
				CHECK(cc.lower_bound(key) == c[w].lower_bound(key), what, " lower_bound const");
				CHECK(cc.upper_bound(key) == c[w].upper_bound(key), what, " upper_bound const");
				auto er = c[w].equal_range(key);
				auto cer = cc.equal_range(key);
				CHECK_EQ(index(w, er.first), l, what, " equal_range(", k, ").first model ", show(m[w]));
				CHECK_EQ(index(w, er.second), u, what, " equal_range(", k, ").second model ", show(m[w]));
				CHECK(cer.first == er.first && cer.second == er.second, what, " equal_range const");
				if constexpr (Tr::pos_api) {
					CHECK_EQ(cc.lower_bound_pos(key), l, what, " lower_bound_pos(", k, ")");
					CHECK_EQ(cc.upper_bound_pos(key), u, what, " upper_bound_pos(", k, ")");
					auto p = cc.equal_range_pos(key);
					CHECK_EQ(p.first, l, what, " equal_range_pos(", k, ")");
					CHECK_EQ(p.second, u, what, " equal_range_pos(", k, ")");
					size_t f = cc.find_pos(key);
					if (i == n)
						CHECK_EQ(f, n, what, " find_pos(", k, ")");
					else
						CHECK(f >= l && f < u, what, " find_pos(", k, ") is ", f, ", expected [", l, ",", u, ")");
				}
			}
		});
		ty::check_violation();
	}
	template<class R>
	void check_inserted(int w, const R& r, std::pair<size_t, bool> want, K k, K p, const char* what)
	{
		CHECK_EQ(r.second, want.second, what, " of ", k, " model ", show(m[w]));
		CHECK(r.first != c[w].end(), what, " returned end()");
		Ent e = read(*r.first);
		CHECK(e == m[w][want.first], what, " of ", k, "/", p, " returned the iterator of ", e.k, "/", e.p);
	}
	size_t bulk()
	{
		size_t r = s.raw(12) == 11 ? s.raw(maxn) : s.size(60);
		return r;
	}
	const char* op_insert(int w)
	{
		K k = nk(w), p = np();
		unsigned how = (unsigned)s.raw(9);
		s.note(" ", k, "/", p, " how ", how);
		V v = mkv(k, p);
		if constexpr (Tr::unique) {
			switch (how) {
				case 0:
				case 1:
					if constexpr (Tr::copyable) {
						auto r = c[w].insert(v);
						check_inserted(w, r, mins(w, k, p), k, p, "insert(const&)");
						CHECK(read(v) == (Ent{ k, p }), "insert(const&) changed its argument");
						return "insert(const&)";
					}
					[[fallthrough]];
				case 2: {
					auto r = c[w].insert(std::move(v));
					auto want = mins(w, k, p);
					check_inserted(w, r, want, k, p, "insert(&&)");
					return "insert(&&)";
				}
				case 3: {
					auto r = c[w].emplace(std::move(v));
					check_inserted(w, r, mins(w, k, p), k, p, "emplace(value)");
					return "emplace(value)";
				}
				case 4: {
					if constexpr (Tr::is_map) {
						auto r = c[w].emplace(std::move(v.first), std::move(v.second));
						check_inserted(w, r, mins(w, k, p), k, p, "emplace(key, value)");
						return "emplace(key, value)";
					}
					else {
						auto r = c[w].emplace(std::move(v));
						check_inserted(w, r, mins(w, k, p), k, p, "emplace(value)");
						return "emplace(value)";
					}
				}
				case 5:
				case 6:
					if constexpr (Tr::hint) {
						size_t h = s.flip() && Tr::order == Sorted ? std::min(m[w].size(), up(w, k) + s.raw(2)) : s.raw(m[w].size() + 1);
						auto hi = iter(w, h);
						auto want = mins(w, k, p);
						s.note(" hint ", h);
						if (how == 5) {
							auto it = c[w].emplace_hint(hi, std::move(v));
							check_inserted(w, std::make_pair(it, want.second), want, k, p, "emplace_hint");
						}
						else {
							auto it = c[w].insert(hi, std::move(v));
							check_inserted(w, std::make_pair(it, want.second), want, k, p, "insert(hint)");
						}
						return "insert with hint";
					}
					else
						[[fallthrough]];
				default:
					if constexpr (Tr::pos_api) {
						auto r = how == 7 ? c[w].insert_pos(std::move(v)) : c[w].emplace_pos(std::move(v));
						auto want = mins(w, k, p);
						CHECK_EQ(r.second, want.second, "insert_pos of ", k);
						if (r.second) {
							CHECK_EQ(r.first, want.first, "insert_pos of ", k);
							CHECK(read(c[w].pos(r.first)) == m[w][want.first], "insert_pos");
						}
						return "insert_pos";
					}
					else {
						auto r = c[w].insert(std::move(v));
						check_inserted(w, r, mins(w, k, p), k, p, "insert(&&)");
						return "insert(&&)";
					}
			}
		}
		else {
			// multi containers: the new element goes after its equivalents, except with hints
			switch (how) {
				case 5:
				case 6: {
					size_t h = s.flip() ? std::min(m[w].size(), up(w, k) + s.raw(2)) : s.raw(m[w].size() + 1);
					auto hi = iter(w, h);
					auto it = how == 5 ? c[w].emplace_hint(hi, std::move(v)) : c[w].insert(hi, std::move(v));
					CHECK(read(*it) == (Ent{ k, p }), "emplace_hint returned the iterator of another element");
					mins(w, k, p);
					verify(w, "insert with hint", true);
					return "insert with hint";
				}
				case 7: {
					size_t pos = c[w].insert_pos(std::move(v));
					auto want = mins(w, k, p);
					CHECK_EQ(pos, want.first, "insert_pos");
					return "insert_pos";
				}
				case 8: {
					size_t pos = c[w].emplace_pos(std::move(v));
					auto want = mins(w, k, p);
					CHECK_EQ(pos, want.first, "emplace_pos");
					return "emplace_pos";
				}
				case 4:
					if constexpr (Tr::is_map) {
						auto it = c[w].emplace(std::move(v.first), std::move(v.second));
						auto want = mins(w, k, p);
						CHECK_EQ(index(w, it), want.first, "emplace(key, value)");
						return "emplace(key, value)";
					}
					[[fallthrough]];
				case 3: {
					auto it = c[w].emplace(std::move(v));
					auto want = mins(w, k, p);
					CHECK_EQ(index(w, it), want.first, "emplace");
					return "emplace";
				}
				case 0:
				case 1:
					if constexpr (Tr::copyable) {
						auto it = c[w].insert(v);
						auto want = mins(w, k, p);
						CHECK_EQ(index(w, it), want.first, "insert(const&)");
						return "insert(const&)";
					}
					[[fallthrough]];
				default: {
					auto it = c[w].insert(std::move(v));
					auto want = mins(w, k, p);
					CHECK_EQ(index(w, it), want.first, "insert(&&)");
					return "insert(&&)";
				}
			}
		}
	}
	// keys for a range, with the chosen structure
	std::vector<Ent> gen_range(int w, size_t n)
	{
		std::vector<Ent> r;
		unsigned shape = (unsigned)s.raw(4);
		if (n > 100) {
			uint64_t rng = s.raw(0);
			K base = Tr::gen_key(s, dom);
			for (size_t i = 0; i < n; ++i) {
				// keys come from the generator's own stream through a sub-source
				uint64_t z = vpt::splitmix(rng);
				K k = shape == 0 ? Tr::map_key(base + (K)i, dom) : Tr::map_key((K)(z >> 1), dom);
				r.push_back(Ent{ k, np() });
			}
		}
		else
			for (size_t i = 0; i < n; ++i)
				r.push_back(Ent{ nk(w), np() });
		if (shape == 2 || shape == 3)
			std::stable_sort(r.begin(), r.end(), [&](const Ent& a, const Ent& b) { return shape == 2 ? less(w, a.k, b.k) : less(w, b.k, a.k); });
		return r;
	}
	std::vector<V> values(const std::vector<Ent>& r)
	{
		std::vector<V> v;
		v.reserve(r.size());
		for (auto& e : r)
			v.push_back(mkv(e.k, e.p));
		return v;
	}
	void note_range(const std::vector<Ent>& r)
	{
		s.note(" n=", r.size(), ":");
		for (size_t i = 0; i < r.size() && i < 80; ++i)
			s.note(" ", r[i].k, "/", r[i].p);
	}
	// applies f(first, last) to the values through one kind of iterator
	template<class F>
	void with_iters(std::vector<V>& v, F&& f)
	{
		if constexpr (!Tr::copyable) {
			f(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end()));
		}
		else
			switch (s.raw(5)) {
				case 0:
				case 1:
					f(v.begin(), v.end());
					break;
				case 2:
					f((const V*)v.data(), (const V*)v.data() + v.size());
					break;
				case 3: {
					std::list<V> l(v.begin(), v.end());
					f(l.begin(), l.end());
					break;
				}
				default:
					f(InputIt<V>{ v.data() }, InputIt<V>{ v.data() + v.size() });
			}
	}
	const char* op_range(int w)
	{
		size_t n = bulk();
		if (m[w].size() + n > maxn)
			n = s.size(40);
		auto r = gen_range(w, n);
		note_range(r);
		auto v = values(r);
		unsigned how = (unsigned)s.raw(8);
		if (how >= 6 && Tr::copyable && n >= 4 && n <= 100) {
			if constexpr (Tr::copyable) {
				r.resize(how == 6 ? 3 : 4);
				if (how == 6)
					c[w].insert({ v[0], v[1], v[2] });
				else
					c[w].insert({ v[0], v[1], v[2], v[3] });
			}
		}
		else
			with_iters(v, [&](auto a, auto b) { c[w].insert(a, b); });
		for (auto& e : r)
			mins(w, e.k, e.p);
		verify(w, "range insertion", !Tr::stable, &r);
		return "insert(range)";
	}
	const char* op_assign(int w)
	{
		size_t n = bulk();
		auto r = gen_range(w, n);
		note_range(r);
		auto v = values(r);
		unsigned how = (unsigned)s.raw(4);
		m[w].clear();
		for (auto& e : r)
			mins(w, e.k, e.p);
		if (how == 0) {
			auto t = std::make_unique<State>(st[w]);
			with_iters(v, [&](auto a, auto b) { c[w] = Tr::construct(a, b, *t); });
			verify(w, "range construction", !Tr::stable, &r);
			return "range construction";
		}
		if constexpr (Tr::copyable)
			if (how == 2 && n >= 3) {
				m[w].clear();
				r.resize(3);
				for (auto& e : r)
					mins(w, e.k, e.p);
				State t = st[w];
				c[w] = Tr::template from_list<M>({ v[0], v[1], v[2] }, t);
				verify(w, "initializer list construction", !Tr::stable, &r);
				return "construction from initializer_list";
			}
		if constexpr (Tr::ilist_assign && Tr::copyable)
			if (how == 1 && n >= 3) {
				m[w].clear();
				r.resize(3);
				for (auto& e : r)
					mins(w, e.k, e.p);
				c[w] = { v[0], v[1], v[2] };
				verify(w, "initializer list assignment", !Tr::stable, &r);
				return "operator=(initializer_list)";
			}
		if constexpr (Tr::assign) {
			with_iters(v, [&](auto a, auto b) { c[w].assign(a, b); });
		}
		else {
			c[w].clear();
			with_iters(v, [&](auto a, auto b) { c[w].insert(a, b); });
		}
		verify(w, "assign", !Tr::stable, &r);
		return "assign";
	}
	// elements from an iterator to the end, as a set, must be those after index i
	template<class It>
	void check_next(int w, It it, size_t i, const char* what)
	{
		// i: index in the model (already updated) of the element that must follow
		if constexpr (Tr::order == Unordered) {
			Model rest, want(m[w].begin() + (std::ptrdiff_t)i, m[w].end());
			for (; it != c[w].end(); ++it) {
				rest.push_back(read(*it));
				if (rest.size() > want.size())
					break;
			}
			std::sort(rest.begin(), rest.end());
			std::sort(want.begin(), want.end());
			CHECK(rest == want, what, " returned an iterator from which ", show(rest), " remain, expected ", show(want));
		}
		else
			CHECK_EQ(index(w, it), i, what, " returned another position");
	}
	const char* op_erase(int w)
	{
		Model& mm = m[w];
		unsigned how = (unsigned)s.raw(6);
		size_t n = mm.size();
		++ers;
		if (how <= 1 || n == 0) {
			K k = nk(w);
			s.note(" key ", k);
			size_t cnt = 0, i = at(w, k);
			if (i < n) {
				cnt = Tr::unique ? 1 : up(w, k) - low(w, k);
				mm.erase(mm.begin() + (std::ptrdiff_t)i, mm.begin() + (std::ptrdiff_t)(i + cnt));
			}
			size_t r = 0;
			Tr::with_key((unsigned)s.raw(Tr::key_kinds), k, [&](const auto& key) { r = (size_t)c[w].erase(key); });
			CHECK_EQ(r, cnt, "erase(key ", k, ")");
			return "erase(key)";
		}
		size_t i = s.raw(n);
		if (s.raw(5) == 0)
			i = s.flip() ? 0 : n - 1;
		if (how <= 3) {
			s.note(" at ", i, " key ", mm[i].k);
			if constexpr (Tr::pos_api)
				if (s.raw(3) == 0) {
					c[w].erase_pos(i);
					mm.erase(mm.begin() + (std::ptrdiff_t)i);
					return "erase_pos";
				}
			auto it = c[w].erase(iter(w, i));
			mm.erase(mm.begin() + (std::ptrdiff_t)i);
			check_next(w, it, i, "erase(iterator)");
			return "erase(iterator)";
		}
		if constexpr (Tr::range_erase)
			if (how == 4) {
				size_t len = std::min(n - i, s.raw(6) == 0 ? n : s.size(20));
				s.note(" [", i, ",", i + len, ")");
				auto a = iter(w, i);
				auto b = iter(w, i + len);
				if constexpr (Tr::pos_api)
					if (s.raw(3) == 0) {
						c[w].erase(i, i + len);
						mm.erase(mm.begin() + (std::ptrdiff_t)i, mm.begin() + (std::ptrdiff_t)(i + len));
						return "erase(pos, pos)";
					}
				auto it = c[w].erase(a, b);
				mm.erase(mm.begin() + (std::ptrdiff_t)i, mm.begin() + (std::ptrdiff_t)(i + len));
				check_next(w, it, i, "erase(range)");
				return "erase(range)";
			}
		// erase_if
		K mod = (K)(2 + s.raw(6)), rem = (K)s.raw(2);
		s.note(" keys modulo ", mod, rem ? " == 0" : " != 0");
		auto pred = [&](K k) { return (k % mod == 0) == (rem != 0); };
		size_t before = mm.size();
		mm.erase(std::remove_if(mm.begin(), mm.end(), [&](const Ent& e) { return pred(e.k); }), mm.end());
		size_t r = (size_t)erase_if(c[w], [&](const V& v) { return pred(read(v).k); });
		CHECK_EQ(r, before - mm.size(), "erase_if");
		return "erase_if";
	}
	const char* op_map(int w)
	{
		if constexpr (Tr::is_map && Tr::unique) {
			using T = typename V::second_type;
			K k = nk(w), p = np();
			Key key = Tr::make(k);
			unsigned how = (unsigned)s.raw(10);
			s.note(" ", k, "/", p, " how ", how);
			auto mk = [&] { return ty::make<T>(p); };
			switch (how) {
				case 0: {
					auto r = c[w].try_emplace(key, mk());
					check_inserted(w, r, mins(w, k, p), k, p, "try_emplace");
					return "try_emplace(const&)";
				}
				case 1: {
					T t = mk();
					auto r = c[w].try_emplace(std::move(key), std::move(t));
					auto want = mins(w, k, p);
					check_inserted(w, r, want, k, p, "try_emplace(&&)");
					if (!want.second) {
						CHECK_EQ(ty::key<T>(t), p, "a failed try_emplace moved from its argument");
						CHECK_EQ(Tr::id(key), k, "a failed try_emplace moved from its key");
					}
					return "try_emplace(&&)";
				}
				case 2:
				case 3: {
					auto want = mins(w, k, p);
					auto r = how == 2 ? c[w].insert_or_assign(key, mk()) : c[w].insert_or_assign(std::move(key), mk());
					m[w][want.first].p = p;
					check_inserted(w, r, want, k, p, "insert_or_assign");
					return "insert_or_assign";
				}
				case 4:
					if constexpr (std::is_default_constructible_v<T>) {
						size_t i = at(w, k);
						if (i == m[w].size()) {
							T dflt{};
							K dp = ty::key<T>(dflt);
							auto& r = c[w][key];
							auto want = mins(w, k, dp);
							CHECK_EQ(ty::key<T>(r), dp, "operator[] of an absent key");
							r = mk();
							m[w][want.first].p = p;
						}
						else {
							auto& r = c[w][std::move(key)];
							CHECK_EQ(ty::key<T>(r), m[w][i].p, "operator[] of a present key");
							r = mk();
							m[w][i].p = p;
						}
						return "operator[]";
					}
					[[fallthrough]];
				case 5: {
					// through an iterator
					size_t i = at(w, k);
					auto it = c[w].find(key);
					CHECK_EQ(it == c[w].end(), i == m[w].size(), "find");
					if (i < m[w].size()) {
						it->second = mk();
						m[w][i].p = p;
					}
					return "assignment through an iterator";
				}
				case 6:
					if constexpr (Tr::pos_api) {
						auto r = c[w].try_emplace_pos(key, mk());
						auto want = mins(w, k, p);
						CHECK_EQ(r.second, want.second, "try_emplace_pos");
						if (r.second)
							CHECK_EQ(r.first, want.first, "try_emplace_pos");
						return "try_emplace_pos";
					}
					[[fallthrough]];
				case 7:
					if constexpr (Tr::pos_api) {
						auto want = mins(w, k, p);
						auto r = c[w].insert_or_assign_pos(key, mk());
						m[w][want.first].p = p;
						CHECK_EQ(r.second, want.second, "insert_or_assign_pos");
						CHECK(read(c[w].pos(want.first)) == m[w][want.first], "insert_or_assign_pos");
						return "insert_or_assign_pos";
					}
					[[fallthrough]];
				default:
					if constexpr (Tr::hint) {
						size_t h = s.flip() && Tr::order == Sorted ? std::min(m[w].size(), up(w, k) + s.raw(2)) : s.raw(m[w].size() + 1);
						auto hi = iter(w, h);
						auto want = mins(w, k, p);
						s.note(" hint ", h);
						if (how & 1) {
							auto it = c[w].try_emplace(hi, key, mk());
							check_inserted(w, std::make_pair(it, want.second), want, k, p, "try_emplace(hint)");
							return "try_emplace(hint)";
						}
						auto it = c[w].insert_or_assign(hi, key, mk());
						m[w][want.first].p = p;
						check_inserted(w, std::make_pair(it, want.second), want, k, p, "insert_or_assign(hint)");
						return "insert_or_assign(hint)";
					}
					else
						return "";
			}
		}
		else
			return op_insert(w);
	}
	// copies and moves of insertion ordered containers keep the order
	void same_order(int w, const char* what)
	{
		if constexpr (Tr::order == Insertion) {
			size_t i = 0;
			for (auto it = c[w].begin(); it != c[w].end() && i < m[w].size(); ++it, ++i)
				CHECK(read(*it) == m[w][i], what, ": element ", i, " is ", read(*it).k, "/", read(*it).p, ", expected ", show(m[w]));
		}
	}
	void forget(int w)
	{
		for (auto& e : m[w])
			e.a = nullptr;
	}
	const char* op_whole(int w)
	{
		int o = 1 - w;
		unsigned how = (unsigned)s.raw(9);
		switch (how) {
			case 0:
				c[w].swap(c[o]);
				m[w].swap(m[o]);
				std::swap(st[w], st[o]);
				verify(o, "swap (other)");
				return "swap";
			case 1:
				if constexpr (Tr::copyable) {
					c[w] = c[o];
					m[w] = m[o];
					forget(w);
					st[w] = st[o];
					same_order(w, "copy assignment");
					verify(o, "copy assignment (source)");
					return "copy assignment";
				}
				[[fallthrough]];
			case 2:
				c[w] = std::move(c[o]);
				m[w] = m[o];
				if constexpr (!Tr::stable_refs)
					forget(w);
				st[w] = st[o];
				drop_moved(o);
				same_order(w, "move assignment");
				return "move assignment";
			case 3:
				if constexpr (Tr::copyable) {
					M t(c[o]);
					Model tm = m[o];
					verify(o, "copy construction (source)");
					c[w] = std::move(t);
					m[w] = tm;
					forget(w);
					st[w] = st[o];
					same_order(w, "copy construction");
					return "copy construction";
				}
				[[fallthrough]];
			case 4: {
				M t(std::move(c[o]));
				State ts = st[o];
				Model tm = m[o];
				drop_moved(o);
				verify(o, "moved from");
				c[w] = std::move(t);
				m[w] = tm;
				if constexpr (!Tr::stable_refs)
					forget(w);
				st[w] = ts;
				same_order(w, "move construction");
				return "move construction";
			}
			case 5:
				if (s.raw(3) == 0) {
					c[w].clear();
					m[w].clear();
					return "clear";
				}
				[[fallthrough]];
			case 6:
				if constexpr (Tr::copyable) {
					M& self = c[w];
					c[w] = self;
					verify(w, "self assignment");
					return "self assignment";
				}
				[[fallthrough]];
			case 7:
				if constexpr (Tr::equality) {
					// compare, once made comparable
					if constexpr (Tr::copyable) {
						M t(c[w]);
						CHECK(t == c[w], "a copy compares equal");
						CHECK(!(t != c[w]), "a copy compares equal");
						if (!m[w].empty()) {
							size_t i = s.raw(m[w].size());
							auto it = t.begin();
							std::advance(it, (std::ptrdiff_t)i);
							bool pay = false;
							if constexpr (Tr::is_map) {
								pay = s.flip();
								if (pay)
									it->second = ty::make<typename V::second_type>(m[w][i].p + 1000003);
							}
							if (!pay)
								t.erase(it);
							CHECK(!(t == c[w]), "a modified copy compares different");
							CHECK(t != c[w], "a modified copy compares different");
							if (!pay && Tr::unique) {
								K k = Tr::gen_key(s, dom);
								if (at(w, k) == m[w].size()) {
									t.insert(mkv(k, np()));
									CHECK(!(t == c[w]), "a copy with another key compares different");
								}
							}
						}
					}
					return "comparison";
				}
				[[fallthrough]];
			default:
				if constexpr (Tr::merge) {
					// elements of the other container whose key is absent here move here
					if (!Tr::mergeable(st[w], st[o]))
						return "";
					Model rest;
					Model src = m[o];
					c[w].merge(c[o]);
					for (auto& e : src) {
						bool ins = mins(w, e.k, e.p).second;
						if (!ins)
							rest.push_back(e);
					}
					forget(w);
					m[o] = rest;
					forget(o);
					verify(o, "merge (source)");
					return "merge";
				}
				return "";
		}
	}
	// after a move the source keeps an unspecified comparator / hash: give it its own back
	void revive(int o)
	{
		st[o] = Tr::gen_state(s);
		c[o] = Tr::create(st[o]);
	}
	// a moved from container is reused as it is (when empty), once cleared, or replaced
	void drop_moved(int o)
	{
		m[o].clear();
		unsigned how = (unsigned)s.raw(3);
		if (how != 2) {
			if (how == 0 || !c[o].empty())
				c[o].clear();
			CHECK_EQ(c[o].size(), (size_t)0, "size of an emptied moved from container");
			CHECK(c[o].begin() == c[o].end(), "begin/end of an emptied moved from container");
			st[o] = Tr::state_of(c[o]);
		}
		else
			revive(o);
	}
	void step()
	{
		int w = (int)s.raw(4) == 3 ? 1 : 0;
		const char* name = "";
		s.note("#", nops, " c", w, " (", m[w].size(), ")");
		switch (s.weighted({ 10, 4, 1, 8, 8, 5, Tr::specials ? 5u : 0u })) {
			case 0:
				name = op_insert(w);
				break;
			case 1:
				name = op_range(w);
				break;
			case 2:
				name = op_assign(w);
				break;
			case 3:
				name = op_erase(w);
				break;
			case 4:
				name = op_map(w);
				break;
			case 5:
				name = op_whole(w);
				break;
			default:
				name = Tr::special(*this, w, (unsigned)s.raw(Tr::specials ? Tr::specials : 1));
		}
		s.note(" ", name, "\n");
		++nops;
		peak = std::max(peak, m[w].size());
		CHECK_EQ(c[w].size(), m[w].size(), name, " model ", show(m[w]));
		if (m[w].size() <= 300 || nops % 8 == 0)
			verify(w, name);
		else if constexpr (Tr::order != Sorted) {
			// keep the traversal order of the model in step
			verify(w, name);
		}
		lookups(w, nk(w), name);
		lookups(w, Tr::gen_key(s, dom), name);
	}
	void finish()
	{
		for (int w = 0; w < 2; ++w) {
			verify(w, "at the end");
			Model mm = m[w];
			size_t stepn = 1 + mm.size() / 64;
			for (size_t i = 0; i < mm.size(); i += stepn)
				lookups(w, mm[i].k, "at the end");
		}
	}
};
template<class Tr>
void run(Src& s)
{
	ty::Ledger led;
	size_t mx = s.raw(6) == 5 ? Tr::max_size : 250;
	{
		Assoc<Tr> h(s, mx);
		s.repeat(40, 400, [&](size_t) { h.step(); });
		h.finish();
		if (h.nops >= 5 && h.ins >= 3 && h.ers >= 1 && h.peak >= 4)
			s.nontrivial();
		s.classify(h.peak < 16 ? "peak <16" : h.peak < 128 ? "peak 16-127" : h.peak < 1000 ? "peak 128-999" : "peak 1000+");
	}
	led.settle();
}
} // namespace as

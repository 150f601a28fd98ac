// C22: the comparator, or the hash and the equality, of a container have a state, which goes with its content
// through copies, moves and swaps.
#include "hash_keys.hpp"
#include <seq/flat_map.hpp>
#include <seq/ordered_map.hpp>
#include <seq/radix_hash_map.hpp>
#include <seq/concurrent_map.hpp>
#include <optional>

namespace fn {
using vpt::Src;
using K = int64_t;

struct State
{
	unsigned mode = 0; // order of the sorted containers, quality of the hash of the others
	uint64_t seed = 0;
	K div = 1; // keys are equivalent by groups
	bool operator==(const State& o) const { return mode == o.mode && seed == o.seed && div == o.div; }
	bool operator!=(const State& o) const { return !(*this == o); }
};
inline std::string show(const State& s) { return vpt::str("(", s.mode, ",", s.seed, ",", s.div, ")"); }

inline bool less_of(const State& st, K a, K b)
{
	a /= st.div;
	b /= st.div;
	switch (st.mode % 3) {
		case 0:
			return a < b;
		case 1:
			return b < a;
		default:
			return a % 7 != b % 7 ? a % 7 < b % 7 : a < b;
	}
}
inline size_t hash_of(const State& st, K a)
{
	uint64_t z = (uint64_t)(a / st.div) + st.seed * 0x51ed2701;
	if (st.mode % 3 == 1)
		return (size_t)z;
	if (st.mode % 3 == 2)
		return (size_t)(vpt::splitmix(z) & 0xff00000000000003ull);
	return (size_t)vpt::splitmix(z);
}
struct Less
{
	State st;
	template<class T>
	bool operator()(const T& a, const T& b) const
	{
		return less_of(st, ty::key<T>(a), ty::key<T>(b));
	}
};
struct Hash
{
	State st;
	template<class T>
	size_t operator()(const T& a) const
	{
		return hash_of(st, ty::key<T>(a));
	}
};
// the state that counts for the equality is the size of the groups
struct Eq
{
	State st;
	template<class T>
	bool operator()(const T& a, const T& b) const
	{
		return ty::key<T>(a) / st.div == ty::key<T>(b) / st.div;
	}
};

enum Kind
{
	Sorted,
	SortedMulti,
	Ordered, // by insertion
	Hashed,
	Conc
};

template<class C_, Kind Kd>
struct Machine
{
	using C = C_;
	using V = typename C::value_type;
	using Key = typename C::key_type;
	static constexpr bool is_map = !std::is_same<V, Key>::value;
	static constexpr bool sorted = Kd == Sorted || Kd == SortedMulti;
	using Al = typename C::allocator_type;

	struct Slot
	{
		std::optional<C> c;
		State st;
		std::vector<K> keys;
	};
	Slot sl[3];
	Src& s;
	size_t transfers = 0;

	Machine(Src& src)
	  : s(src)
	{
		for (auto& x : sl)
			fresh(x);
	}
	State gen_state()
	{
		State r;
		r.mode = (unsigned)s.raw(3);
		r.seed = s.raw(3);
		r.div = s.raw(4) == 3 ? 4 : 1;
		return r;
	}
	static Al alloc() { return Al(); }
	void fresh(Slot& x)
	{
		x.st = gen_state();
		x.keys.clear();
		if constexpr (sorted)
			x.c.emplace(Less{ x.st });
		else if constexpr (Kd == Conc)
			x.c.emplace((size_t)0, Hash{ x.st }, Eq{ x.st });
		else
			x.c.emplace(Hash{ x.st }, Eq{ x.st });
	}
	static bool same(const State& st, K a, K b) { return sorted ? !less_of(st, a, b) && !less_of(st, b, a) : a / st.div == b / st.div; }
	static V make(K k)
	{
		if constexpr (is_map)
			return V(ty::make<Key>(k), k);
		else
			return ty::make<Key>(k);
	}
	static K id(const V& v)
	{
		if constexpr (is_map)
			return ty::key<Key>(v.first);
		else
			return ty::key<Key>(v);
	}
	static size_t find(const Slot& x, K k)
	{
		for (size_t i = 0; i < x.keys.size(); ++i)
			if (same(x.st, x.keys[i], k))
				return i;
		return x.keys.size();
	}
	void insert(Slot& x, K k)
	{
		bool expect = Kd == SortedMulti || find(x, k) == x.keys.size();
		bool did = true;
		if constexpr (Kd == SortedMulti)
			x.c->insert(make(k));
		else if constexpr (Kd == Conc)
			did = x.c->insert(make(k));
		else
			did = x.c->insert(make(k)).second;
		CHECK_EQ(did, expect, "insert ", k);
		if (!expect)
			return;
		if (sorted) {
			size_t p = 0;
			while (p < x.keys.size() && !less_of(x.st, k, x.keys[p]))
				++p;
			x.keys.insert(x.keys.begin() + (std::ptrdiff_t)p, k);
		}
		else
			x.keys.push_back(k);
	}
	void erase(Slot& x, K k)
	{
		size_t n = 0;
		for (size_t i = 0; i < x.keys.size();)
			if (same(x.st, x.keys[i], k)) {
				x.keys.erase(x.keys.begin() + (std::ptrdiff_t)i);
				++n;
			}
			else
				++i;
		CHECK_EQ((size_t)x.c->erase(ty::make<Key>(k)), n, "erase ", k);
	}
	static std::vector<K> content(const C& c)
	{
		std::vector<K> r;
		if constexpr (Kd == Conc)
			c.cvisit_all([&](const V& v) { r.push_back(id(v)); });
		else
			for (auto it = c.begin(); it != c.end(); ++it)
				r.push_back(id(*it));
		return r;
	}
	void check(const Slot& x, const char* what)
	{
		const C& c = *x.c;
		if constexpr (sorted)
			CHECK(c.key_comp().st == x.st, what, ": comparator ", show(c.key_comp().st), " instead of ", show(x.st));
		else {
			CHECK(c.hash_function().st == x.st, what, ": hash ", show(c.hash_function().st), " instead of ", show(x.st));
			CHECK(c.key_eq().st == x.st, what, ": equality ", show(c.key_eq().st), " instead of ", show(x.st));
		}
		CHECK_EQ(c.size(), x.keys.size(), what, ": size");
		std::vector<K> have = content(c), want = x.keys;
		if (!sorted) { // the order of ordered containers is checked elsewhere
			std::sort(have.begin(), have.end());
			std::sort(want.begin(), want.end());
		}
		if (Kd == SortedMulti) { // equivalent keys
			CHECK_EQ(have.size(), want.size(), what);
			for (size_t i = 0; i < have.size(); ++i)
				CHECK(same(x.st, have[i], want[i]), what, ": rank ", i, " is ", have[i], " instead of ", want[i]);
		}
		else
			CHECK(have == want, what, ": content");
		for (size_t i = 0; i < x.keys.size(); ++i) {
			Key k = ty::make<Key>(x.keys[i]);
			CHECK(c.count(k) != 0, what, ": key ", x.keys[i], " not found");
		}
		for (K k = -3; k < 60; k += 9) {
			bool in = find(x, k) != x.keys.size();
			CHECK_EQ(c.count(ty::make<Key>(k)) != 0, in, what, ": count(", k, ")");
		}
	}
	void step()
	{
		Slot& a = sl[s.raw(3)];
		Slot& b = sl[s.raw(3)];
		const char* what = "";
		switch (s.raw(14)) {
			case 0:
			case 1:
			case 2: {
				what = "insertions";
				K from = s.in(0, 60), n = s.in(1, s.raw(6) == 0 ? 200 : 20), by = s.in(1, 5);
				for (K i = 0; i < n; ++i)
					insert(a, from + i * by);
				break;
			}
			case 3:
			case 4: {
				what = "erasures";
				K from = s.in(0, 60), n = s.in(1, 12);
				for (K i = 0; i < n; ++i)
					erase(a, from + i);
				break;
			}
			case 5:
				what = "clear";
				a.c->clear();
				a.keys.clear();
				break;
			case 6:
				what = "new state";
				fresh(a);
				break;
			case 7:
			case 8:
				what = "copy assignment";
				*a.c = static_cast<const C&>(*b.c);
				if (&a != &b) {
					a.st = b.st;
					a.keys = b.keys;
					++transfers;
				}
				break;
			case 9:
				what = "move assignment";
				if (&a == &b)
					break;
				*a.c = std::move(*b.c);
				a.st = b.st;
				a.keys = b.keys;
				++transfers;
				b.c->clear();
				CHECK_EQ(b.c->size(), 0u, "after a move and clear()");
				fresh(b);
				break;
			case 10:
				what = "swap";
				if (s.raw(2))
					a.c->swap(*b.c);
				else
					swap(*a.c, *b.c);
				if (&a != &b) {
					std::swap(a.st, b.st);
					std::swap(a.keys, b.keys);
					++transfers;
				}
				break;
			case 11:
				what = "copy construction";
				if (&a == &b)
					break;
				if (s.raw(2))
					a.c.emplace(static_cast<const C&>(*b.c));
				else
					a.c.emplace(static_cast<const C&>(*b.c), alloc());
				a.st = b.st;
				a.keys = b.keys;
				++transfers;
				break;
			case 12:
				what = "move construction";
				if (&a == &b)
					break;
				if (s.raw(2))
					a.c.emplace(std::move(*b.c));
				else
					a.c.emplace(std::move(*b.c), alloc());
				a.st = b.st;
				a.keys = b.keys;
				++transfers;
				b.c->clear();
				fresh(b);
				break;
			default: {
				what = "construction from a range";
				a.st = gen_state();
				a.keys.clear();
				std::vector<V> v;
				K from = s.in(0, 60), n = s.in(0, 30);
				for (K i = 0; i < n; ++i)
					v.push_back(make((from + i * 7) % 50));
				if constexpr (sorted)
					a.c.emplace(v.begin(), v.end(), Less{ a.st });
				else if constexpr (Kd == Conc)
					a.c.emplace(v.begin(), v.end(), (size_t)s.raw(100), Hash{ a.st }, Eq{ a.st });
				else
					a.c.emplace(v.begin(), v.end(), Hash{ a.st }, Eq{ a.st });
				// which one of equivalent elements remains is not specified here
				for (K k : content(*a.c)) {
					CHECK(Kd == SortedMulti || find(a, k) == a.keys.size(), what, ": two keys equivalent to ", k);
					a.keys.push_back(k);
				}
				for (auto& x : v)
					CHECK(find(a, id(x)) != a.keys.size(), what, ": no key equivalent to ", id(x));
				if (sorted)
					for (size_t i = 1; i < a.keys.size(); ++i)
						CHECK(!less_of(a.st, a.keys[i], a.keys[i - 1]), what, ": order");
				break;
			}
		}
		for (auto& x : sl)
			check(x, what);
	}
};
template<class C, Kind Kd>
void run(Src& s)
{
	Machine<C, Kd> m(s);
	size_t n = 2 + s.size(20);
	for (size_t i = 0; i < n; ++i)
		m.step();
	s.note(" ", n, " steps, ", m.transfers, " between two containers of ", m.sl[0].keys.size(), " ", m.sl[1].keys.size(), " ", m.sl[2].keys.size(), " elements");
	if (m.transfers > 1)
		s.nontrivial();
}
} // namespace fn
using namespace fn;
using KV = std::pair<const std::string, K>;
PROP_FN(flat_set_state, (run<seq::flat_set<int64_t, Less>, Sorted>), 800);
PROP_FN(flat_multiset_state, (run<seq::flat_multiset<std::string, Less>, SortedMulti>), 800);
PROP_FN(flat_map_state, (run<seq::flat_map<std::string, K, Less>, Sorted>), 800);
PROP_FN(flat_multimap_state, (run<seq::flat_multimap<int64_t, K, Less>, SortedMulti>), 800);
PROP_FN(ordered_set_state, (run<seq::ordered_set<std::string, Hash, Eq>, Ordered>), 800);
PROP_FN(ordered_map_state, (run<seq::ordered_map<int64_t, K, Hash, Eq>, Ordered>), 800);
PROP_FN(radix_hash_set_state, (run<seq::radix_hash_set<int64_t, Hash, Eq>, Hashed>), 800);
PROP_FN(radix_hash_map_state, (run<seq::radix_hash_map<std::string, K, Hash, Eq>, Hashed>), 800);
PROP_FN(conc_set_state, (run<seq::concurrent_set<std::string, Hash, Eq, std::allocator<std::string>, 0>, Conc>), 800);
PROP_FN(conc_map_state, (run<seq::concurrent_map<int64_t, K, Hash, Eq, std::allocator<std::pair<const int64_t, K>>, 3>, Conc>), 800);

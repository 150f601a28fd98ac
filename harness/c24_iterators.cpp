// C24: iterators of every container, in states reached by histories of operations.
#include "gen.hpp"
using namespace gen;

template<class Tr>
void check(typename Tr::C& c, Src& s)
{
	using C = typename Tr::C;
	using V = typename C::value_type;
	using It = typename C::iterator;
	using CIt = typename C::const_iterator;
	const C& cc = c;
	const size_t n = c.size();
	auto k = [](const auto& v) { return rd<V>(v); };
	// forward, the reference for the ranks
	std::vector<CIt> at;
	Keys m;
	std::vector<const void*> addr;
	for (CIt it = cc.begin(); it != cc.end(); ++it) {
		CHECK(m.size() < n, "end() is not reached after size() = ", n, " steps");
		at.push_back(it);
		m.push_back(k(*it));
		addr.push_back((const void*)&*it);
	}
	CHECK_EQ(m.size(), n, "steps from begin() to end()");
	at.push_back(cc.end());
	CHECK_EQ(cc.empty(), n == 0, "empty()");
	CHECK_EQ((cc.begin() == cc.end()), n == 0, "begin() == end()");
	{
		std::set<const void*> u(addr.begin(), addr.end());
		CHECK_EQ(u.size(), n, "the elements of a traversal are distinct objects");
	}
	// other forward traversals
	size_t i = 0;
	for (It it = c.begin(); it != c.end(); it++, ++i) {
		CHECK(i < n && (const void*)&*it == addr[i], "non const traversal, rank ", i);
		CHECK(CIt(it) == at[i], "conversion to const_iterator, rank ", i);
		if constexpr (!std::is_pointer_v<It>)
			CHECK((const void*)&*it == (const void*)it.operator->(), "operator->, rank ", i);
	}
	CHECK_EQ(i, n, "non const traversal");
	i = 0;
	for (auto& v : c) {
		CHECK(i < n && (const void*)&v == addr[i], "range for, rank ", i);
		++i;
	}
	CHECK(c.cbegin() == at[0] && c.cend() == at[n], "cbegin(), cend()");
	i = 0;
	for (auto it = c.cbegin(); it != c.cend();) {
		auto old = it++;
		CHECK(i < n && old == at[i] && it == at[i + 1] && !(old != at[i]) && !(it == old), "post increment, rank ", i);
		++i;
	}
	if constexpr (has_back_iter<C>::value) {
		It it = c.end();
		CIt ct = cc.end();
		for (i = n; i-- > 0;) {
			--it;
			auto old = ct--;
			CHECK((const void*)&*it == addr[i] && (const void*)&*ct == addr[i] && it == ct && old == at[i + 1], "backward traversal, rank ", i);
		}
		CHECK(it == c.begin() && ct == cc.begin(), "backward traversal ends at begin()");
		// back and forth from end()
		if (n) {
			It e = c.end();
			--e;
			++e;
			CHECK(e == c.end(), "--end()++");
			It b = c.begin();
			++b;
			--b;
			CHECK(b == c.begin(), "++begin()--");
		}
	}
	if constexpr (has_rbegin<C>::value) {
		i = n;
		for (auto it = c.rbegin(); it != c.rend(); ++it) {
			CHECK(i > 0 && (const void*)&*it == addr[i - 1] && it.base() == at[i], "reverse traversal, rank ", i);
			--i;
		}
		CHECK_EQ(i, (size_t)0, "reverse traversal");
		i = n;
		for (auto it = cc.rbegin(); it != cc.rend(); it++) {
			CHECK(i > 0 && (const void*)&*it == addr[i - 1], "const reverse traversal, rank ", i);
			--i;
		}
		CHECK_EQ(i, (size_t)0, "const reverse traversal");
		if constexpr (has_crbegin<C>::value) {
			auto it = c.crend();
			for (i = 0; i < n; ++i) {
				--it;
				CHECK((const void*)&*it == addr[i], "reverse traversal backward, rank ", i);
			}
			CHECK(it == c.crbegin(), "reverse traversal backward ends at crbegin()");
		}
	}
	if constexpr (has_front<C>::value) {
		if (n) {
			CHECK((const void*)&c.front() == addr[0] && (const void*)&cc.front() == addr[0], "front()");
			CHECK((const void*)&c.back() == addr[n - 1] && (const void*)&cc.back() == addr[n - 1], "back()");
		}
	}
	// ranks
	auto pick = [&](size_t last) { return s.flip() ? (size_t)s.raw(last + 1) : s.flip() ? 0 : last; };
	size_t rounds = 4 + s.size(20);
	if (n > 40)
		rounds += 20;
	CIt w = cc.begin();
	It wn = c.begin();
	size_t wp = 0, far = 0;
	for (size_t r = 0; r < rounds; ++r) {
		size_t p = pick(n), q = pick(n);
		if constexpr (has_iterator_at<C>::value) {
			CHECK(c.iterator_at(p) == at[p], "iterator_at(", p, ") of ", n);
			CHECK(cc.iterator_at(q) == at[q], "const iterator_at(", q, ") of ", n);
		}
		if constexpr (has_pos<C>::value) {
			if (p < n)
				CHECK((const void*)&c.pos(p) == addr[p] && (const void*)&cc.pos(p) == addr[p], "pos(", p, ") of ", n);
		}
		if constexpr (has_index<C>::value && !Tr::assoc) {
			if (p < n) {
				CHECK((const void*)&c[p] == addr[p] && (const void*)&cc[p] == addr[p], "[", p, "] of ", n);
				CHECK((const void*)&c.at(p) == addr[p], "at(", p, ") of ", n);
			}
		}
		if constexpr (has_jump<C>::value) {
			std::ptrdiff_t d = (std::ptrdiff_t)q - (std::ptrdiff_t)p;
			if (d > 40 || d < -40)
				++far;
			CIt a = at[p];
			a += d;
			CHECK(a == at[q], "rank ", p, " += ", d, " of ", n);
			if (q < n)
				CHECK((const void*)&*a == addr[q], "*(rank ", p, " += ", d, ") of ", n);
			a = at[p];
			a -= -d;
			CHECK(a == at[q], "rank ", p, " -= ", -d, " of ", n);
			CHECK(at[p] + d == at[q], "rank ", p, " + ", d, " of ", n);
			CHECK(at[p] - (-d) == at[q], "rank ", p, " - ", -d, " of ", n);
			It u = std::next(c.begin(), (std::ptrdiff_t)p), v = u + d;
			CHECK(v == at[q] && (u - (-d)) == v, "non const rank ", p, " + ", d, " of ", n);
			// from there, one step
			if (q < n) {
				CHECK((const void*)&*v == addr[q], "non const *(rank ", p, " + ", d, ")");
				++v;
				CHECK(v == at[q + 1], "++(rank ", p, " + ", d, ") of ", n);
				--v;
			}
			if (q > 0) {
				--v;
				CHECK(v == at[q - 1] && (const void*)&*v == addr[q - 1], "--(rank ", p, " + ", d, ") of ", n);
			}
		}
		if constexpr (has_subscript<C>::value) {
			if (q < n) {
				std::ptrdiff_t d = (std::ptrdiff_t)q - (std::ptrdiff_t)p;
				CHECK((const void*)&at[p][d] == addr[q], "rank ", p, " [", d, "] of ", n);
			}
		}
		if constexpr (has_minus<C>::value) {
			CHECK_EQ((std::ptrdiff_t)(at[p] - at[q]), (std::ptrdiff_t)p - (std::ptrdiff_t)q, "difference of the ranks ", p, " ", q, " of ", n);
			CHECK_EQ((std::ptrdiff_t)(c.end() - c.begin()), (std::ptrdiff_t)n, "end() - begin()");
		}
		if constexpr (has_less<C>::value) {
			CHECK((at[p] < at[q]) == (p < q) && (at[p] > at[q]) == (p > q) && (at[p] <= at[q]) == (p <= q) && (at[p] >= at[q]) == (p >= q), "order of the ranks ", p,
			      " ", q, " of ", n);
		}
		CHECK((at[p] == at[q]) == (p == q) && (at[p] != at[q]) == (p != q), "equality of the ranks ", p, " ", q, " of ", n);
		// a walk: jumps and steps accumulate
		size_t t;
		if (has_jump<C>::value && s.flip()) {
			t = q;
			if constexpr (has_jump<C>::value) {
				w += (std::ptrdiff_t)t - (std::ptrdiff_t)wp;
				wn += (std::ptrdiff_t)t - (std::ptrdiff_t)wp;
			}
		}
		else {
			t = wp;
			size_t steps = s.size(70);
			bool fwd = s.flip() || !has_back_iter<C>::value;
			for (size_t j = 0; j < steps && (fwd ? t < n : t > 0); ++j) {
				if constexpr (has_back_iter<C>::value) {
					if (!fwd) {
						--w;
						--wn;
						--t;
						continue;
					}
				}
				++w;
				++wn;
				++t;
			}
		}
		wp = t;
		CHECK(w == at[wp] && wn == at[wp], "walk: rank ", wp, " of ", n);
		if (wp < n)
			CHECK((const void*)&*w == addr[wp] && (const void*)&*wn == addr[wp], "walk: element of rank ", wp, " of ", n);
	}
	if (far > 2)
		s.classify("jumps over several blocks");
	if (n >= 2)
		s.nontrivial();
}

template<class Tr>
void run(Src& s)
{
	ty::Ledger ledger;
	{
		scale().len = s.pick({ (size_t)1, (size_t)1, (size_t)8, (size_t)40 });
		scale().cap = s.pick({ (size_t)400, (size_t)3000 });
		scale().hashes = s.pick({ (size_t)0, (size_t)0, (size_t)0, (size_t)1, (size_t)3, (size_t)20 });
		if (scale().hashes == 1 || scale().hashes == 3)
			scale().cap = std::min(scale().cap, (size_t)400); // lookups are linear
		K dom = s.pick({ (K)12, (K)60, (K)1000, (K)1000000 });
		auto c = Tr::make(1);
		size_t steps = s.size(30), since = 0;
		size_t most = 0;
		for (size_t i = 0; i < steps; ++i) {
			Ctx x;
			x.id = 1;
			x.dom = dom;
			Op op = gen_op(s, Tr::op_count);
			Tr::apply(c, op, x);
			most = std::max(most, (size_t)c.size());
			if (++since >= 4 || i + 1 == steps || s.chance(1, 6)) {
				check<Tr>(c, s);
				since = 0;
			}
		}
		s.note(" history of ", steps, " on ", c.size(), " elements");
		if (most > 500)
			s.classify("more than 500 elements");
		scale() = Scale();
	}
	ledger.settle();
}

// small elements, many per block
template<class T, unsigned Min, unsigned Max>
using TieredB = Linear<seq::tiered_vector<T, A<T>, Min, Max>>;

#if VPT_PART == 0
PROP_FN(devector_k, (run<Devector<K>>), 6000);
PROP_FN(devector_str, (run<Devector<std::string>>), 3200);
#elif VPT_PART == 1
PROP_FN(tiered_k, (run<Tiered<K>>), 6000);
#elif VPT_PART == 2
PROP_FN(tiered_str, (run<Tiered<std::string>>), 4000);
#elif VPT_PART == 3
PROP_FN(sequence_k, (run<Sequence<K>>), 6000);
PROP_FN(sequence_str, (run<Sequence<std::string>>), 4000);
#elif VPT_PART == 4
PROP_FN(flat_set_k, (run<FlatSet<K>>), 4000);
PROP_FN(flat_multiset_str, (run<FlatMultiset<std::string>>), 3200);
#elif VPT_PART == 5
PROP_FN(flat_map_k, (run<FlatMap<K, std::string>>), 4000);
PROP_FN(flat_multimap_k, (run<FlatMultimap<K, K, 0, true>>), 4000);
#elif VPT_PART == 6
PROP_FN(radix_set_k, (run<RadixSet<K>>), 4800);
PROP_FN(radix_map_k, (run<RadixMap<K, std::string>>), 4000);
#elif VPT_PART == 7
PROP_FN(radix_set_str, (run<Assoc<seq::radix_set<std::string, seq::default_key, A<std::string>>, std::string>>), 4000);
#elif VPT_PART == 8
PROP_FN(radix_hash_set_k, (run<RadixHashSet<K>>), 4000);
PROP_FN(radix_hash_map_str, (run<RadixHashMap<std::string, K>>), 4000);
#elif VPT_PART == 9
PROP_FN(ordered_set_k, (run<OrderedSet<K>>), 4000);
PROP_FN(ordered_map_str, (run<OrderedMap<std::string, K>>), 4000);
#elif VPT_PART == 11
PROP_FN(tiered_4_4, (run<TieredB<K, 4, 4>>), 4000);
#elif VPT_PART == 12
PROP_FN(tiered_obj_8, (run<TieredB<ty::TObj, 8, 64>>), 4000);
#elif VPT_PART == 10
PROP_FN(radix_map_tstr, (run<Assoc<seq::radix_map<seq::tstring, K, seq::default_key, A<std::pair<seq::tstring, K>>>, seq::tstring, K>>), 4000);
#endif

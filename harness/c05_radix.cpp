// C05: radix_set, radix_map against sorted association models, for every family of keys.
#include "radix_keys.hpp"
#include <seq/radix_map.hpp>
#include <set>

using as::K;
using vpt::Src;

template<class KA, class M_>
struct Radix : as::TrBase
{
	using M = M_;
	using Key = typename KA::Key;
	static constexpr bool stable_refs = false;
	static constexpr unsigned key_kinds = KA::kinds;
	static constexpr unsigned specials = KA::has_prefix ? 3 : 1;
	static constexpr size_t max_size = 6000;
	static constexpr bool copyable = std::is_copy_constructible_v<typename M::value_type>;
	static Key make(K k) { return KA::make(k); }
	static K id(const Key& k) { return KA::id(k); }
	static bool less(const State&, K a, K b) { return KA::less(a, b); }
	static K map_key(K k, K dom) { return KA::map(k, dom); }
	static K gen_key(Src& s, K dom) { return KA::map((K)s.raw(dom >= 5000 ? 0 : (uint64_t)dom), dom); }
	template<class Q>
	static constexpr bool bounds_with()
	{
		return std::is_convertible_v<Q, typename KA::Cmp>;
	}
	static bool mergeable(const State&, const State&) { return true; }
	static M create(const State&) { return M(); }
	template<class It>
	static M construct(It a, It b, const State&)
	{
		return M(a, b);
	}
	template<class F>
	static void with_key(unsigned kind, K k, F&& f)
	{
		KA::with_key(kind, k, f);
	}
	template<class C>
	static void extra(const C& c, const as::Model& m)
	{
		size_t n = m.size();
		for (size_t i = 0; i < n; i += 1 + n / 16) {
			auto* p = c.find_ptr(make(m[i].k));
			CHECK((const void*)p == m[i].a, "find_ptr of key ", m[i].k);
		}
	}
	template<class H>
	static const char* special(H& h, int w, unsigned what)
	{
		if constexpr (KA::has_prefix)
			if (what > 0) {
				prefixes(h, w);
				return "prefix";
			}
		if constexpr (std::is_same_v<typename M::value_type, Key>) {
			h.c[w].shrink_to_fit();
			return "shrink_to_fit";
		}
		return "";
	}
	template<class H>
	static void prefixes(H& h, int w)
	{
		auto& s = h.s;
		auto& mm = h.m[w];
		rk::Digits d = rk::digits(h.nk(w));
		if (d.n)
			d.n = s.raw(4) == 3 ? d.n : (unsigned)s.raw(d.n + 1);
		if (d.n < 60 && s.raw(4) == 3)
			d.d[d.n++] = (uint8_t)s.raw(6);
		std::vector<size_t> want;
		for (size_t i = 0; i < mm.size(); ++i) {
			rk::Digits x = rk::digits(mm[i].k);
			if (x.n >= d.n && std::equal(d.d, d.d + d.n, x.d))
				want.push_back(i);
		}
		std::string ps;
		for (unsigned i = 0; i < d.n; ++i)
			ps += (char)('0' + d.d[i]);
		s.note(" prefix \"", ps, "\" matches ", want.size());
		Key p = KA::make(d);
		const auto& cc = h.c[w];
		auto it = h.c[w].prefix(p);
		auto cit = cc.prefix(p);
		auto r = h.c[w].prefix_range(p);
		auto cr = cc.prefix_range(p);
		if (want.empty()) {
			CHECK(it == h.c[w].end(), "prefix of an absent prefix \"", ps, "\"");
			CHECK(cit == cc.end(), "prefix of an absent prefix");
			CHECK(r.first == r.second, "prefix_range of an absent prefix \"", ps, "\"");
			CHECK(cr.first == cr.second, "prefix_range of an absent prefix");
			return;
		}
		CHECK(it != h.c[w].end(), "prefix(\"", ps, "\") is end(), expected key ", mm[want[0]].k, " model ", as::show(mm));
		CHECK(cit == it, "prefix const");
		CHECK(h.read(*it) == mm[want[0]], "prefix(\"", ps, "\") is ", h.read(*it).k, ", expected ", mm[want[0]].k, " model ", as::show(mm));
		// from the returned iterator the traversal is that of the whole container
		CHECK_EQ(h.index(w, it), want[0], "prefix");
		size_t n = 0;
		for (auto i = r.first; i != r.second; ++i, ++n) {
			if (n >= want.size())
				throw vpt::Fail(vpt::str("prefix_range(\"", ps, "\") has more than ", want.size(), " elements: ", h.read(*i).k));
			CHECK(h.read(*i) == mm[want[n]], "prefix_range(\"", ps, "\") element ", n, " is ", h.read(*i).k, ", expected ", mm[want[n]].k);
		}
		CHECK_EQ(n, want.size(), "prefix_range(\"", ps, "\") elements");
		n = 0;
		for (auto i = cr.first; i != cr.second; i++, ++n) {
			CHECK(n < want.size(), "prefix_range const");
			CHECK(h.read(*i) == mm[want[n]], "prefix_range const");
		}
		CHECK_EQ(n, want.size(), "prefix_range const elements");
	}
};
// objects ordered by an extracted integer
struct ObjKey
{
	using Key = ty::Obj;
	using Cmp = K;
	static constexpr bool has_prefix = false;
	using I = rk::Int<K>;
	static Key make(K k) { return ty::Obj(k); }
	static K id(const Key& k) { return k.k; }
	static bool less(K a, K b) { return a < b; }
	static K map(K k, K dom) { return I::map(k, dom); }
	static constexpr unsigned kinds = 2;
	template<class F>
	static void with_key(unsigned kind, K k, F&& f)
	{
		if (kind == 0)
			return f(make(k));
		f(k);
	}
};
template<class KA>
using Set = Radix<KA, seq::radix_set<typename KA::Key>>;
template<class KA, class T>
struct Map : Radix<KA, seq::radix_map<typename KA::Key, T>>
{
	static constexpr bool is_map = true;
};
using XSet = Radix<ObjKey, seq::radix_set<ty::Obj, rk::ObjExtract>>;
template<class T>
struct XMap : Radix<ObjKey, seq::radix_map<ty::Obj, T, rk::ObjExtract>>
{
	static constexpr bool is_map = true;
};

#if VPT_PART == 0
PROP_FN(set_i64, (as::run<Set<rk::Int<K>>>), 1000);
PROP_FN(set_u32, (as::run<Set<rk::Int<uint32_t>>>), 700);
#elif VPT_PART == 1
PROP_FN(map_u64_i64, (as::run<Map<rk::Int<uint64_t>, K>>), 900);
PROP_FN(map_i8_str, (as::run<Map<rk::Int<int8_t>, std::string>>), 400);
PROP_FN(map_u16_obj, (as::run<Map<rk::Int<uint16_t>, ty::Obj>>), 700);
#elif VPT_PART == 2
PROP_FN(set_double, (as::run<Set<rk::Flt<double>>>), 700);
PROP_FN(map_float, (as::run<Map<rk::Flt<float>, ty::RObj>>), 600);
PROP_FN(set_ptr, (as::run<Set<rk::Ptr>>), 400);
#elif VPT_PART == 3
PROP_FN(set_string, (as::run<Set<rk::Str<std::string>>>), 1000);
PROP_FN(map_tstring, (as::run<Map<rk::Str<seq::tstring>, K>>), 800);
#elif VPT_PART == 4
PROP_FN(map_string_obj, (as::run<Map<rk::Str<std::string>, ty::Obj>>), 800);
PROP_FN(set_wstring, (as::run<Set<rk::Str<std::wstring>>>), 600);
#elif VPT_PART == 5
PROP_FN(set_vec_unsigned, (as::run<Set<rk::Str<std::vector<unsigned>>>>), 600);
PROP_FN(set_vec_int, (as::run<Set<rk::Str<std::vector<int>>>>), 500);
PROP_FN(set_u16string, (as::run<Set<rk::Str<std::u16string>>>), 500);
#elif VPT_PART == 6
PROP_FN(set_vec_u64, (as::run<Set<rk::Str<std::vector<uint64_t>>>>), 500);
PROP_FN(set_vec_double, (as::run<Set<rk::Str<std::vector<double>>>>), 500);
PROP_FN(map_i16, (as::run<Map<rk::Int<int16_t>, ty::UPtr>>), 400);
#elif VPT_PART == 7
PROP_FN(set_array, (as::run<Set<rk::Arr>>), 500);
PROP_FN(set_tuple, (as::run<Set<rk::Tup<std::tuple<int, short, short>>>>), 500);
PROP_FN(map_tuple, (as::run<Map<rk::Tup<std::tuple<uint32_t, int16_t, uint16_t>>, K>>), 500);
#elif VPT_PART == 8
PROP_FN(set_extract, (as::run<XSet>), 600);
PROP_FN(map_extract, (as::run<XMap<K>>), 600);
#elif VPT_PART == 9
PROP_FN(set_deep, (as::run<Set<rk::Deep<std::string>>>), 900);
PROP_FN(map_deep, (as::run<Map<rk::Deep<seq::tstring>, ty::Obj>>), 600);
PROP_FN(set_deep_wide, (as::run<Set<rk::Deep<std::wstring>>>), 300);
PROP_FN(set_deep_vec, (as::run<Set<rk::Deep<std::vector<unsigned>>>>), 300);
#elif VPT_PART == 10
// Many keys: directories that grow by merging their children, several times, then shrink.
template<class T, bool Map>
void many(Src& s)
{
	using C = std::conditional_t<Map, seq::radix_map<T, int>, seq::radix_set<T>>;
	C c;
	std::set<T> m;
	auto key = [](const auto& v) -> T {
		if constexpr (Map)
			return v.first;
		else
			return v;
	};
	unsigned steps = 1 + (unsigned)s.raw(5);
	T base = (T)(s.raw(4) == 3 ? 0 : s.raw(0));
	for (unsigned st = 0; st < steps; ++st) {
		unsigned what = (unsigned)s.raw(6);
		size_t n = s.raw(3) == 2 ? 2000 + s.raw(25000) : 200 + s.raw(4000);
		T by = (T)(1ull << (s.raw(3) == 2 ? s.raw(20) : s.raw(3)));
		T from = (T)(base + (T)s.raw(50000));
		bool down = s.raw(2), mix = s.raw(3) == 2;
		s.note(st ? "; " : "", what < 4 ? "insert " : "erase ", n, " keys from ", (long long)from, " by ", (long long)by, down ? " down" : "", mix ? " mixed" : "");
		for (size_t i = 0; i < n; ++i) {
			uint64_t j = mix ? (i * 7919) % n : down ? n - 1 - i : i;
			T k = (T)((uint64_t)from + j * (uint64_t)by);
			if (what < 4) {
				bool did;
				if constexpr (Map)
					did = c.emplace(k, (int)k).second;
				else
					did = c.insert(k).second;
				CHECK_EQ(did, m.insert(k).second, "insert ", (long long)k);
			}
			else if (what == 4)
				CHECK_EQ(c.erase(k), m.erase(k), "erase ", (long long)k);
			else {
				auto it = c.lower_bound(k);
				auto mt = m.lower_bound(k);
				CHECK_EQ(it == c.end(), mt == m.end(), "lower_bound of ", (long long)k);
				if (mt != m.end()) {
					CHECK(key(*it) == *mt, "lower_bound of ", (long long)k);
					it = c.erase(it);
					mt = m.erase(mt);
					CHECK_EQ(it == c.end(), mt == m.end(), "erase at ", (long long)k);
					if (mt != m.end())
						CHECK(key(*it) == *mt, "iterator returned by erase at ", (long long)k);
				}
			}
			if (i % 64 == 0) {
				T q = (T)(k + (T)(i % 5) - (T)2);
				auto mt = m.lower_bound(q);
				auto it = c.lower_bound(q);
				CHECK_EQ(it == c.end(), mt == m.end(), "lower_bound of ", (long long)q);
				if (mt != m.end())
					CHECK(key(*it) == *mt, "lower_bound of ", (long long)q, " is ", (long long)key(*it), ", expected ", (long long)*mt);
				CHECK_EQ(c.count(q), m.count(q), "count of ", (long long)q);
			}
		}
		CHECK_EQ(c.size(), m.size(), "size()");
		auto mt = m.begin();
		for (auto it = c.begin(); it != c.end(); ++it, ++mt) {
			CHECK(mt != m.end(), "traversal longer than size()");
			CHECK(key(*it) == *mt, "traversal: ", (long long)key(*it), " instead of ", (long long)*mt);
		}
		CHECK(mt == m.end(), "traversal shorter than size()");
		for (T k : m)
			CHECK(c.find(k) != c.end() && key(*c.find(k)) == k, "find of ", (long long)k);
		auto it = c.end();
		size_t back = 0;
		for (auto r = m.rbegin(); r != m.rend() && back < 3000; ++r, ++back) {
			--it;
			CHECK(key(*it) == *r, "backward traversal: ", (long long)key(*it), " instead of ", (long long)*r);
		}
	}
	s.note(" -> ", m.size(), " keys");
	s.nontrivial();
}
PROP_FN(set_many_int, (many<int, false>), 14);
PROP_FN(set_many_u64, (many<uint64_t, false>), 14);
PROP_FN(map_many_short, (many<int16_t, true>), 14);
PROP_FN(map_many_i64, (many<int64_t, true>), 14);
#endif

// C06: radix_hash_set, radix_hash_map against unordered association models.
#include "hash_keys.hpp"
#include <seq/radix_hash_map.hpp>
#include <seq/tiny_string.hpp>
#include <string_view>

using as::K;
using vpt::Src;

// reserve, rehash, observers
template<class B>
struct RH : B
{
	static constexpr bool merge = false;
	static constexpr bool assign = false;
	static constexpr bool ilist_assign = false;
	static constexpr bool reverse = false;
	static constexpr unsigned specials = 3;
	using typename B::M;
	using typename B::State;
	template<class It>
	static M construct(It a, It b, const State& st)
	{
		if constexpr (std::is_same_v<State, hk::State>)
			return M(a, b, B::hash(st), B::eq(st));
		else
			return M(a, b);
	}
	template<class H>
	static const char* special(H& h, int w, unsigned what)
	{
		switch (what) {
			case 0: {
				size_t n = h.s.raw(3) == 0 ? h.s.raw(200000) : h.s.raw(2 * h.m[w].size() + 10);
				h.s.note(" reserve ", n);
				h.c[w].reserve(n);
				return "reserve";
			}
			case 1:
				h.c[w].rehash();
				return "rehash";
			default: {
				K k = h.nk(w);
				K k2 = h.nk(w);
				auto a = B::make(k);
				auto b = B::make(k2);
				if (h.equiv(w, k, k2))
					CHECK(h.c[w].hash_function()(a) == h.c[w].hash_function()(b), "hash_function");
				if constexpr (std::is_same_v<State, hk::State>)
					CHECK(h.c[w].hash_function()(a) == B::hash(h.st[w])(a), "hash_function is the one given");
				CHECK_EQ((bool)h.c[w].key_eq()(a, b), h.equiv(w, k, k2), "key_eq");
				return "hash_function, key_eq";
			}
		}
	}
};
template<class B>
struct Map : B
{
	static constexpr bool is_map = true;
};
// total order given for the vector nodes
struct Less
{
	template<class A, class B>
	bool operator()(const A& a, const B& b) const
	{
		return hk::keyof(a) < hk::keyof(b);
	}
};
template<class K_, bool T, bool A>
using Set = RH<hk::StateTr<K_, T, A, seq::radix_hash_set<K_, hk::HashT<T, A>, hk::EqT<T>>>>;
template<class K_, class V, bool T, bool A>
using HMap = Map<RH<hk::StateTr<K_, T, A, seq::radix_hash_map<K_, V, hk::HashT<T, A>, hk::EqT<T>>>>>;
template<class K_>
using DSet = RH<hk::DefTr<K_, seq::radix_hash_set<K_>>>;
template<class K_, class V>
using DMap = Map<RH<hk::DefTr<K_, seq::radix_hash_map<K_, V>>>>;
// with an order: keys are not grouped in classes
template<class B>
struct Ord : B
{
	static typename B::State gen_state(Src& s)
	{
		auto r = B::gen_state(s);
		r.div = 1;
		return r;
	}
};
template<class K_>
using LSet = Ord<RH<hk::StateTr<K_, true, true, seq::radix_hash_set<K_, hk::HashT<true, true>, hk::EqT<true>, std::allocator<K_>, Less>>>>;
template<class K_, class V>
using LMap = Ord<Map<RH<hk::StateTr<K_, true, true, seq::radix_hash_map<K_, V, hk::HashT<true, true>, hk::EqT<true>, std::allocator<std::pair<K_, V>>, Less>>>>>;

#if VPT_PART == 0
PROP_FN(set_i64, (as::run<Set<K, true, true>>), 1600);
PROP_FN(set_int_mixed, (as::run<Set<int, false, false>>), 1400);
#elif VPT_PART == 1
PROP_FN(map_i64_i64, (as::run<HMap<K, K, true, true>>), 1400);
PROP_FN(map_string_obj, (as::run<HMap<std::string, ty::Obj, true, true>>), 1200);
#elif VPT_PART == 2
PROP_FN(map_obj_robj, (as::run<HMap<ty::Obj, ty::RObj, false, true>>), 1200);
PROP_FN(set_uptr, (as::run<Set<ty::UPtr, true, true>>), 1000);
#elif VPT_PART == 3
PROP_FN(set_def_int, (as::run<DSet<int>>), 1000);
PROP_FN(map_def_string, (as::run<DMap<std::string, K>>), 1200);
PROP_FN(set_def_u8, (as::run<DSet<unsigned char>>), 600);
#elif VPT_PART == 4
PROP_FN(set_def_tstring, (as::run<DSet<seq::tstring>>), 1000);
PROP_FN(map_def_double, (as::run<DMap<double, ty::Obj>>), 1000);
#elif VPT_PART == 5
PROP_FN(set_less_i64, (as::run<LSet<K>>), 1000);
PROP_FN(map_less_obj, (as::run<LMap<ty::Obj, std::string>>), 1000);
#endif

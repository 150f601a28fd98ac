// C22: copies, moves, swaps and comparisons over pairs of containers in any state.
#include "pool.hpp"
using namespace pool;

template<class Tr, unsigned F>
void run(Src& s)
{
	ty::Ledger ledger;
	{
		Machine<Tr, F> mac(s);
		size_t steps = 2 + s.size(24);
		for (size_t i = 0; i < steps; ++i)
			mac.step(14);
		s.note(" ", steps, " steps on ", mac.m[0].size(), " ", mac.m[1].size(), " ", mac.m[2].size(), " elements, ", mac.pairs, " between two containers");
		if (mac.pairs > 1)
			s.nontrivial();
		if (mac.unequal)
			s.classify("unequal allocators");
	}
	ledger.settle();
}
using ty::Obj;
using ty::RObj;
using ty::TObj;
#define ALL(name, type, n, ...)                                                                                                                      \
	PROP_FN(name##_0, (run<type<__VA_ARGS__, 0>, 0>), n);                                                                                            \
	PROP_FN(name##_1, (run<type<__VA_ARGS__, 1>, 1>), n);                                                                                            \
	PROP_FN(name##_6, (run<type<__VA_ARGS__, 6>, 6>), n);                                                                                            \
	PROP_FN(name##_8, (run<type<__VA_ARGS__, 8>, 8>), n);                                                                                            \
	PROP_FN(name##_18, (run<type<__VA_ARGS__, 18>, 18>), n);
#define TWO(name, type, n, a, b, ...)                                                                                                                \
	PROP_FN(name##_##a, (run<type<__VA_ARGS__, a>, a>), n);                                                                                          \
	PROP_FN(name##_##b, (run<type<__VA_ARGS__, b>, b>), n);
#if VPT_PART == 0
ALL(devector, Devector, 1000, Obj)
#elif VPT_PART == 1
ALL(tiered, Tiered, 1000, Obj)
#elif VPT_PART == 2
ALL(sequence, Sequence, 1000, TObj)
#elif VPT_PART == 3
TWO(flat_set, FlatSet, 800, 0, 7, TObj)
TWO(flat_multiset, FlatMultiset, 800, 0, 18, std::string)
#elif VPT_PART == 4
TWO(flat_map, FlatMap, 800, 0, 2, K, Obj)
TWO(flat_multimap, FlatMultimap, 800, 1, 4, std::string, K)
#elif VPT_PART == 5
TWO(radix_set, RadixSet, 800, 0, 7, TObj)
TWO(radix_map, RadixMap, 800, 2, 17, K, Obj)
#elif VPT_PART == 6
TWO(radix_hash_set, RadixHashSet, 800, 0, 7, Obj)
#elif VPT_PART == 7
TWO(radix_hash_map, RadixHashMap, 800, 2, 17, std::string, Obj)
#elif VPT_PART == 8
PROP_FN(ordered_set_0, (run<OrderedSet<TObj, 0>, 0>), 800);
PROP_FN(ordered_set_7, (run<OrderedSet<TObj, 7>, 7>), 800);
#elif VPT_PART == 9
PROP_FN(ordered_map_2, (run<OrderedMap<std::string, Obj, 2>, 2>), 800);
PROP_FN(ordered_map_17, (run<OrderedMap<std::string, Obj, 17>, 17>), 800);
#elif VPT_PART == 10
TWO(conc_set, ConcSet, 500, 0, 7, Obj)
#elif VPT_PART == 11
TWO(conc_map, ConcMap, 500, 2, 17, std::string, Obj)
#elif VPT_PART == 12
template<class Ch, size_t N, unsigned F>
using Str = Text<seq::tiny_string<Ch, std::char_traits<Ch>, A<Ch, F>, N>>;
PROP_FN(string_0, (run<Str<char, 0, 0>, 0>), 1500);
PROP_FN(string_7, (run<Str<char, 20, 7>, 7>), 1500);
PROP_FN(string_17, (run<Str<char, 60, 17>, 17>), 1500);
PROP_FN(wstring_2, (run<Str<wchar_t, 0, 2>, 2>), 1500);
PROP_FN(string_8, (run<Str<char, 0, 8>, 8>), 1500);
#elif VPT_PART == 13
PROP_FN(plain_devector, (run<Linear<seq::devector<std::string, A<std::string, 0>>>, 0>), 1000);
PROP_FN(tiered_8, (run<Linear<seq::tiered_vector<TObj, A<TObj, 3>, 8, 64>>, 3>), 1000);
PROP_FN(sequence_robj_5, (run<Sequence<RObj, 5>, 5>), 1000);
#endif

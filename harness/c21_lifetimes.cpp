// C21: objects and blocks of memory over long histories. The elements know their address and are
// counted, the allocators know their blocks: after each operation, there are as many live objects as
// elements in the containers.
#include "pool.hpp"
using namespace pool;

template<class T>
constexpr long tracked()
{
	return std::is_same_v<T, ty::Obj> || std::is_same_v<T, ty::TObj> || std::is_same_v<T, ty::RObj>;
}
template<class T>
struct Objects
{
	static constexpr long value = tracked<T>();
};
template<class A, class B>
struct Objects<std::pair<A, B>>
{
	static constexpr long value = tracked<std::remove_const_t<A>>() + tracked<B>();
};
template<class Tr, unsigned F>
void run(Src& s)
{
	ty::Ledger ledger;
	{
		Machine<Tr, F> mac(s);
		mac.cheap = true;
		scale().len = s.pick({ (size_t)1, (size_t)2, (size_t)6, (size_t)20 });
		scale().cap = s.pick({ (size_t)60, (size_t)400, (size_t)1500 });
		scale().hashes = s.pick({ (size_t)0, (size_t)0, (size_t)0, (size_t)1, (size_t)3, (size_t)20 });
		if (scale().hashes == 1 || scale().hashes == 3)
			scale().cap = std::min(scale().cap, (size_t)400); // lookups are linear
		long base = ty::live_objects();
		constexpr long each = Objects<typename Tr::C::value_type>::value;
		size_t steps = 4 + s.size(60), biggest = 0;
		size_t ops = 0;
		auto count = [&](const char* what) {
			size_t n = mac.c[0]->size() + mac.c[1]->size() + mac.c[2]->size();
			biggest = std::max(biggest, n);
			CHECK_EQ(ty::live_objects() - base, (long)n * each, "live objects for ", n, " elements of ", each, " objects, after ", what);
		};
		count("construction");
		for (size_t i = 0; i < steps; ++i) {
			++ops;
			mac.step(3);
			count(mac.last);
			if (s.chance(1, 30)) {
				// one of them is destroyed in this state
				int k = (int)s.raw(3), a = mac.norm(1 + (int)s.raw(2));
				mac.c[k].reset();
				mac.c[k].emplace(typename decltype(mac)::Alloc(a));
				mac.m[k].clear();
				mac.id[k] = a;
				mac.verify("destruction");
				count("destruction");
			}
		}
		s.note(" ", steps, " steps, at most ", biggest, " elements");
		if (ops > 3 && biggest > 3)
			s.nontrivial();
		if (biggest > 300)
			s.classify("more than 300 elements");
		if (mac.unequal)
			s.classify("unequal allocators");
		for (int k = 0; k < 3; ++k) {
			mac.c[k]->clear();
			mac.m[k].clear();
		}
		count("clear");
	}
	ledger.settle();
}
using ty::Big;
using ty::Obj;
using ty::RObj;
using ty::TObj;
using ty::Wide;
#define P(name, n, F, ...) PROP_FN(name, (run<__VA_ARGS__, F>), n);
template<class Ch, size_t N, unsigned F>
using Str = Text<seq::tiny_string<Ch, std::char_traits<Ch>, A<Ch, F>, N>>;
#if VPT_PART == 0
P(devector_obj, 700, 0, Devector<Obj, 0>)
P(devector_robj, 700, 3, Devector<RObj, 3>)
P(devector_wide, 400, 0, Devector<Wide, 0>)
#elif VPT_PART == 1
P(tiered_obj, 700, 0, Tiered<Obj, 0>)
P(tiered_robj, 700, 6, Tiered<RObj, 6>)
P(tiered_small, 700, 0, Linear<seq::tiered_vector<TObj, A<TObj, 0>, 8, 64>>)
#elif VPT_PART == 2
P(sequence_obj, 700, 0, Sequence<Obj, 0>)
P(sequence_robj, 700, 7, Sequence<RObj, 7>)
P(sequence_string, 500, 0, Sequence<std::string, 0>)
#elif VPT_PART == 3
P(flat_set, 600, 0, FlatSet<TObj, 0>)
P(flat_multiset, 600, 0, FlatMultiset<RObj, 0>)
#elif VPT_PART == 4
P(flat_map, 600, 0, FlatMap<Obj, TObj, 0>)
P(flat_multimap, 600, 2, FlatMultimap<std::string, Obj, 2>)
#elif VPT_PART == 5
P(radix_set, 600, 0, RadixSet<Obj, 0>)
P(radix_set_robj, 600, 3, RadixSet<RObj, 3>)
#elif VPT_PART == 6
P(radix_map, 600, 0, RadixMap<K, TObj, 0>)
P(radix_text, 600, 0, Assoc<seq::radix_map<std::string, Obj, seq::default_key, A<std::pair<std::string, Obj>, 0>>, std::string, Obj>)
#elif VPT_PART == 7
P(radix_hash_set, 600, 0, RadixHashSet<TObj, 0>)
P(radix_hash_map, 600, 5, RadixHashMap<RObj, Obj, 5>)
#elif VPT_PART == 8
P(ordered_set, 600, 0, OrderedSet<Obj, 0>)
P(ordered_set_robj, 600, 7, OrderedSet<RObj, 7>)
#elif VPT_PART == 9
P(ordered_map, 600, 0, OrderedMap<TObj, Obj, 0>)
P(ordered_map_text, 600, 2, OrderedMap<std::string, RObj, 2>)
#elif VPT_PART == 10
P(conc_set, 500, 0, ConcSet<Obj, 0>)
P(conc_set_robj, 500, 3, ConcSet<RObj, 3>)
#elif VPT_PART == 11
P(conc_map, 500, 0, ConcMap<TObj, Obj, 0>)
P(conc_map_text, 500, 1, ConcMap<std::string, RObj, 1>)
#elif VPT_PART == 12
P(string_0, 900, 0, Str<char, 0, 0>)
P(string_40, 900, 7, Str<char, 40, 7>)
P(u32string, 900, 0, Str<char32_t, 0, 0>)
P(devector_tstring, 500, 0, Devector<seq::tstring, 0>)
#elif VPT_PART == 13
P(tiered_tstring, 500, 0, Tiered<seq::tstring, 0>)
P(sequence_wide, 500, 0, Sequence<Wide, 0>)
P(ordered_set_big, 500, 0, OrderedSet<Big, 0>)
#endif

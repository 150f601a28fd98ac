// C20: exceptions thrown at every point inside of every operation of every container.
#include "gen.hpp"
using namespace gen;

template<class Tr>
struct Replay
{
	using C = typename Tr::C;
	Src& s;
	std::vector<Op> hist;
	K dom;
	~Replay() { scale() = Scale(); }
	explicit Replay(Src& src)
	  : s(src)
	{
		dom = s.pick({ (K)12, (K)60, (K)300, (K)4000 });
		// some larger containers
		scale().len = s.pick({ (size_t)1, (size_t)1, (size_t)1, (size_t)4, (size_t)10 });
		scale().cap = s.pick({ (size_t)60, (size_t)300 });
		scale().hashes = s.pick({ (size_t)0, (size_t)0, (size_t)0, (size_t)1, (size_t)3, (size_t)20 });
		size_t n = s.size(14);
		// a first insertion of some elements, or not
		for (size_t i = 0; i < n; ++i)
			hist.push_back(gen_op(s, Tr::op_count));
	}
	C build()
	{
		C c = Tr::make(1);
		for (auto& o : hist) {
			Ctx x;
			x.id = 1;
			x.dom = dom;
			Tr::apply(c, o, x);
		}
		return c;
	}
};

template<class Tr, class = void>
constexpr bool is_flat_v = false;
template<class Tr>
constexpr bool is_flat_v<Tr, std::enable_if_t<Tr::is_flat>> = true;

template<class Tr, class = void>
constexpr bool is_limited_v = false;
template<class Tr>
constexpr bool is_limited_v<Tr, std::enable_if_t<!Tr::is_flat && !Tr::is_ordered_table>> = true;

// keys of a set or map, elements of a sequence
template<class T>
K key_part(const T& v)
{
	return rd<T>(v);
}
template<class A, class B>
K key_part(const std::pair<A, B>& v)
{
	return rd<std::remove_const_t<A>>(v.first);
}
template<class T>
K value_part(const T&)
{
	return 0;
}
template<class A, class B>
K value_part(const std::pair<A, B>& v)
{
	return rd<B>(v.second);
}
struct State
{
	Keys keys, values;
};
template<class Tr>
State state(const typename Tr::C& c)
{
	State r;
	size_t n = c.size();
	if constexpr (!Tr::concurrent) {
		for (auto it = c.begin(); it != c.end(); ++it) {
			r.keys.push_back(key_part(*it));
			r.values.push_back(value_part(*it));
			CHECK(r.keys.size() <= n, "the traversal is longer than size() = ", n);
		}
	}
	else
		c.cvisit_all([&](const auto& v) {
			r.keys.push_back(key_part(v));
			r.values.push_back(value_part(v));
		});
	CHECK_EQ(r.keys.size(), n, "traversal and size()");
	CHECK_EQ(c.empty(), n == 0, "empty()");
	return r;
}

// An exception left the container in a valid state:
// - sequences hold elements that were in it or given to the operation; operations on several elements
//   may leave default constructed or moved from elements
// - sets and maps hold such keys, at most once, in order, and find them; except for flat containers, whose operations
//   on several elements may leave them in any order and with any of these keys
template<class Tr>
void validate(typename Tr::C& c, const State& before, const Ctx& x, long k, bool moves)
{
	ty::check_violation();
	bool loose = false;
	if constexpr (Tr::assoc) {
		if constexpr (Tr::is_ordered_table) {
			// rehash() is the documented way out of the dirty state
			try {
				(void)c.contains(mk<typename Tr::C::key_type>(1));
			}
			catch (const std::logic_error&) {
				c.rehash();
			}
		}
		loose = Tr::is_flat && (x.bulk || moves); // elements lost by a move
	}
	State now = state<Tr>(c);
	if (x.strong) {
		CHECK(now.keys == before.keys, x.name, " (fault ", k, "): strong guarantee; before ", show(before.keys), " now ", show(now.keys));
		CHECK(now.values == before.values, x.name, " (fault ", k, "): strong guarantee, values; before ", show(before.values), " now ", show(now.values));
	}
	std::set<K> ok(before.keys.begin(), before.keys.end());
	ok.insert(x.used.begin(), x.used.end());
	std::set<K> okv = ok, keys = ok;
	okv.insert(before.values.begin(), before.values.end());
	okv.insert(Moved);
	okv.insert(0);
	if constexpr (Tr::assoc) {
		if (Tr::is_ordered_table && !x.strong) { // sort and shrink_to_fit
			ok.insert(Moved);
			ok.insert(0);
		}
	}
	if (!Tr::assoc) {
		ok.insert(Moved);
		if (x.bulk || moves)
			ok.insert(0);
	}
	std::set<K> seen;
	if (!loose) {
		for (K v : now.keys) {
			CHECK(ok.count(v), x.name, " (fault ", k, "): element ", v, " was never inserted; before ", show(before.keys), " now ", show(now.keys));
			if (Tr::unique)
				CHECK(seen.insert(v).second, x.name, " (fault ", k, "): element ", v, " twice; before ", show(before.keys), " now ", show(now.keys));
		}
		for (K v : now.values)
			CHECK(okv.count(v), x.name, " (fault ", k, "): value ", v, " was never inserted; before ", show(before.values), " now ", show(now.values));
		if (Tr::sorted)
			CHECK(std::is_sorted(now.keys.begin(), now.keys.end()), x.name, " (fault ", k, "): not sorted; before ", show(before.keys), " now ", show(now.keys));
		// lookups
		if constexpr (Tr::assoc) {
			using Key = typename Tr::C::key_type;
			for (K v : keys) {
				bool in = std::find(now.keys.begin(), now.keys.end(), v) != now.keys.end();
				CHECK_EQ(c.contains(mk<Key>(v)), in, x.name, " (fault ", k, "): contains(", v, "); before ", show(before.keys), " now ", show(now.keys));
			}
		}
	}
	// backward
	if constexpr (!Tr::concurrent) {
		if constexpr (has_back_iter<typename Tr::C>::value) {
			Keys back;
			auto it = c.end();
			while (it != c.begin() && back.size() <= now.keys.size()) {
				--it;
				back.push_back(key_part(*it));
			}
			std::reverse(back.begin(), back.end());
			CHECK(back == now.keys, x.name, " (fault ", k, "): backward traversal ", show(back), " forward ", show(now.keys));
		}
	}
	ty::check_violation();
}

template<class Tr>
void run(Src& s)
{
	using C = typename Tr::C;
	ty::Ledger ledger;
	lenient_keys() = is_flat_v<Tr>;
	{
		Replay<Tr> r(s);
		Op op = gen_op(s, Tr::op_count);
		unsigned mask = s.pick({ ~0u, ~0u, ~0u, 1u << 6, 1u << 1, 1u << 4, (1u << 2) | (1u << 3) });
		// radix and concurrent containers: moves, hash and equality do not throw
		if constexpr (is_limited_v<Tr>)
			mask = s.pick({ (1u << 1) | (1u << 6), 1u << 1, 1u << 6 });
		size_t follow = s.size(6);
		std::vector<Op> after;
		for (size_t i = 0; i < follow; ++i)
			after.push_back(gen_op(s, Tr::op_count));
		long stride = 1, k = 0;
		bool bulk = false;
		size_t fired = 0;
		for (; k < 400;) {
			ty::faults().fired = false;
			C c = r.build();
			ty::check_violation();
			State before = state<Tr>(c);
			Ctx x;
			x.id = 1;
			x.dom = r.dom;
			x.k = k;
			x.mask = mask;
			bool thrown = false;
			int what = 0;
			try {
				Tr::apply(c, op, x);
			}
			catch (const ty::InjectedFault& f) {
				thrown = true;
				what = f.what;
			}
			if (k == 0)
				s.note(" history of ", r.hist.size(), " (", before.keys.size(), " elements) then ", x.name);
			bulk = bulk || x.bulk;
			bool did = ty::disarm();
			CHECK(did || !thrown, x.name, ": unexpected exception");
			if (!did)
				break;
			++fired;
			if (!thrown) {
				// the operation handled the failure: it must have done all of its work
				ty::check_violation();
				C c2 = r.build();
				Ctx y;
				y.id = 1;
				y.dom = r.dom;
				Tr::apply(c2, op, y);
				State want = state<Tr>(c2), now = state<Tr>(c);
				CHECK(now.keys == want.keys, x.name, " (fault ", k, "): the exception did not reach the caller, and the result is ", show(now.keys), " instead of ", show(want.keys));
				CHECK(now.values == want.values, x.name, " (fault ", k, "): the exception did not reach the caller, and the values are ", show(now.values), " instead of ", show(want.values));
				before = now;
				s.classify("handled by the operation");
				Ctx z = x;
				z.strong = true;
				validate<Tr>(c, before, z, k, false);
			}
			else
				validate<Tr>(c, before, x, k, what == 2 || what == 3);
			// it accepts further operations
			lenient_keys() = true;
			for (auto& o : after) {
				Ctx y;
				y.id = 1;
				y.dom = r.dom;
				Tr::apply(c, o, y);
				ty::check_violation();
				(void)state<Tr>(c);
			}
			lenient_keys() = is_flat_v<Tr>;
			c.clear();
			CHECK_EQ(c.size(), (size_t)0, x.name, " (fault ", k, "): clear");
			Keys want;
			for (K v = 1; v < 9; ++v) {
				Tr::add(c, v * 3);
				want.push_back(v * 3);
			}
			Keys got = state<Tr>(c).keys;
			if (!Tr::ordered)
				std::sort(got.begin(), got.end());
			CHECK(got == want, x.name, " (fault ", k, "): reuse after the exception: ", show(got));
			ty::check_violation();
			// many points: all of the first ones, then a sample
			if (fired == 24)
				stride = 3;
			if (fired == 48)
				stride = 17;
			k += stride;
		}
		if (fired)
			s.nontrivial();
		if (fired > 3)
			s.classify("more than 3 fault points");
		if (bulk)
			s.classify("operation on several elements");
	}
	ledger.settle();
}

#ifdef TRIAGE
template<class Tr>
void run2(Src& s)
{
	try {
		run<Tr>(s);
	}
	catch (const vpt::Fail& f) {
		FILE* o = fopen("/tmp/pp/triage.txt", "a");
		fprintf(o, "%d %s | %s\n", VPT_PART, typeid(Tr).name(), f.what());
		fclose(o);
	}
}
#define run run2
#endif
using ty::Obj;
using ty::RObj;
using ty::TObj;
#if VPT_PART == 0
PROP_FN(devector_obj, (run<Devector<Obj>>), 1200);
PROP_FN(devector_tobj, (run<Devector<TObj>>), 1200);
PROP_FN(devector_robj, (run<Devector<RObj>>), 1200);
#elif VPT_PART == 1
PROP_FN(tiered_obj, (run<Tiered<Obj>>), 1200);
PROP_FN(tiered_tobj, (run<Tiered<TObj>>), 1200);
PROP_FN(tiered_robj, (run<Tiered<RObj>>), 1200);
#elif VPT_PART == 2
PROP_FN(sequence_obj, (run<Sequence<Obj>>), 1200);
PROP_FN(sequence_tobj, (run<Sequence<TObj>>), 1200);
PROP_FN(sequence_robj, (run<Sequence<RObj>>), 1200);
#elif VPT_PART == 3
PROP_FN(flat_set_tobj, (run<FlatSet<TObj>>), 1000);
PROP_FN(flat_set_robj, (run<FlatSet<RObj>>), 1000);
#elif VPT_PART == 4
PROP_FN(flat_multiset_obj, (run<FlatMultiset<Obj>>), 800);
PROP_FN(flat_multimap, (run<FlatMultimap<RObj, RObj, 0, true>>), 800);
#elif VPT_PART == 5
PROP_FN(flat_map_obj, (run<FlatMap<Obj, TObj>>), 800);
#elif VPT_PART == 6
PROP_FN(radix_set_tobj, (run<RadixSet<TObj>>), 1000);
PROP_FN(radix_set_robj, (run<RadixSet<RObj>>), 1000);
#elif VPT_PART == 7
PROP_FN(radix_map_obj, (run<RadixMap<Obj, Obj>>), 800);
PROP_FN(radix_map_int, (run<RadixMap<K, RObj>>), 800);
#elif VPT_PART == 8
PROP_FN(radix_hash_set_tobj, (run<RadixHashSet<TObj>>), 1000);
#elif VPT_PART == 9
PROP_FN(radix_hash_map, (run<RadixHashMap<RObj, RObj>>), 1000);
#elif VPT_PART == 10
PROP_FN(ordered_set_tobj, (run<OrderedSet<TObj>>), 1000);
PROP_FN(ordered_set_robj, (run<OrderedSet<RObj>>), 1000);
#elif VPT_PART == 11
PROP_FN(ordered_map_obj, (run<OrderedMap<Obj, TObj>>), 1000);
#elif VPT_PART == 12
PROP_FN(conc_set_tobj, (run<ConcSet<TObj>>), 800);
#elif VPT_PART == 13
PROP_FN(conc_map, (run<ConcMap<Obj, RObj>>), 800);
#endif

// C04: flat_set, flat_map, flat_multiset, flat_multimap against sorted association models.
#include "assoc.hpp"
#include <seq/flat_map.hpp>
#include <string_view>

using vpt::Src;
using as::K;

struct KRef
{
	K k;
};
template<class T>
static K keyof(const T& v)
{
	return ty::key<T>(v);
}
static K keyof(const KRef& r) { return r.k; }
// order reversed and / or keys grouped in classes of div
struct KCmp
{
	bool desc = false;
	K div = 1;
	using is_transparent = void;
	template<class A, class B>
	bool operator()(const A& a, const B& b) const
	{
		K x = keyof(a), y = keyof(b);
		if (div != 1) {
			x /= div;
			y /= div;
		}
		return desc ? y < x : x < y;
	}
};
struct KState
{
	bool desc;
	K div;
};
template<class Key_>
struct BaseTr : as::TrBase
{
	using Key = Key_;
	static Key make(K k) { return ty::make<Key>(k); }
	static K id(const Key& k) { return ty::key<Key>(k); }
	static constexpr bool pos_api = true;
	static constexpr bool copyable = std::is_copy_constructible_v<Key>;
	static constexpr bool small = sizeof(Key) == 1;
	static K map_key(K k, K dom)
	{
		k &= 0x7fffffffffffff;
		return small ? k % 100 : k % dom;
	}
	static K gen_key(Src& s, K dom) { return map_key((K)s.raw((uint64_t)dom), dom); }
	template<class C>
	static void extra(const C& c, const as::Model& m)
	{
		// positional access and the underlying container
		size_t n = m.size();
		CHECK_EQ(c.container().size(), n, "container()");
		for (size_t i = 0; i < n; i += 1 + n / 16) {
			CHECK(&c.pos(i) == m[i].a, "pos(", i, ")");
			CHECK(&*(c.begin() + (std::ptrdiff_t)i) == m[i].a, "begin() + ", i);
			CHECK(&c.container()[i] == m[i].a, "container()[", i, "]");
		}
	}
	static constexpr unsigned specials = 2;
	// extract / replace
	template<class H>
	static const char* special(H& h, int w, unsigned)
	{
		auto d = h.c[w].extract();
		CHECK_EQ(d.size(), h.m[w].size(), "extract");
		CHECK(h.c[w].empty(), "extract leaves the container empty");
		as::Model mm = h.m[w];
		h.m[w].clear();
		h.verify(w, "extract");
		if (h.s.flip()) {
			// unrelated insertions in the emptied container are lost by replace
			h.op_insert(w);
			h.verify(w, "insert after extract");
		}
		if (!mm.empty() && h.s.flip()) {
			// direct modification keeping the order and the uniqueness
			size_t i = h.s.raw(mm.size());
			if (h.s.flip()) {
				d.erase(i);
				mm.erase(mm.begin() + (std::ptrdiff_t)i);
			}
			else if (h.s.flip()) {
				// drop everything after i through iterators
				d.erase(d.begin() + (std::ptrdiff_t)i + 1, d.end());
				mm.resize(i + 1);
			}
			else {
				// rewrite all elements through iterators: shift keys by one position
				for (size_t j = 0; j + 1 < mm.size(); ++j) {
					d[j] = std::move(d[j + 1]);
					mm[j] = mm[j + 1];
				}
				d.pop_back();
				mm.pop_back();
			}
		}
		h.c[w].replace(std::move(d));
		h.m[w] = mm;
		return "extract and replace";
	}
	template<class H>
	static const char* special_copyless(H&, int, unsigned)
	{
		return "";
	}
};
// comparator with a state, transparent
template<class Key_, bool Stable_, class M_>
struct CmpTr : BaseTr<Key_>
{
	using Base = BaseTr<Key_>;
	using M = M_;
	using Key = Key_;
	using State = KState;
	static constexpr bool stable = Stable_;
	static constexpr unsigned key_kinds = 2;
	static State gen_state(Src& s) { return State{ s.flip(), s.raw(3) == 0 ? 5 : 1 }; }
	static bool mergeable(const State&, const State&) { return true; }
	static bool less(const State& st, K a, K b) { return KCmp{ st.desc, st.div }(KRef{ a }, KRef{ b }); }
	template<class C>
	static C from_list(std::initializer_list<typename C::value_type> il, const State& st)
	{
		return C(il, KCmp{ st.desc, st.div });
	}
	template<class C>
	static State state_of(const C& c)
	{
		auto k = c.key_comp();
		return State{ k.desc, k.div };
	}
	static M create(const State& st) { return M(KCmp{ st.desc, st.div }); }
	template<class It>
	static M construct(It a, It b, const State& st)
	{
		return M(a, b, KCmp{ st.desc, st.div });
	}
	static std::string describe(const State& st) { return vpt::str(st.desc ? "descending" : "ascending", " keys/", st.div); }
	template<class F>
	static void with_key(unsigned kind, K k, F&& f)
	{
		if (kind == 0)
			f(Base::make(k));
		else
			f(KRef{ k });
	}
};
// std::less<>: the branches for arithmetic and string keys
template<class Key_, bool Stable_, class M_>
struct LessTr : BaseTr<Key_>
{
	using Base = BaseTr<Key_>;
	using M = M_;
	using Key = Key_;
	static constexpr bool stable = Stable_;
	static constexpr bool str = std::is_same_v<Key, std::string> || std::is_same_v<Key, seq::tstring>;
	static constexpr unsigned key_kinds = str ? 5 : 1;
	static bool mergeable(const as::TrBase::State&, const as::TrBase::State&) { return true; }
	static M create(const as::TrBase::State&) { return M(); }
	template<class It>
	static M construct(It a, It b, const as::TrBase::State&)
	{
		return M(a, b);
	}
	template<class F>
	static void with_key(unsigned kind, K k, F&& f)
	{
		if constexpr (str) {
			std::string t = ty::key_string(k);
			switch (kind) {
				case 1:
					return f(t.c_str());
				case 2:
					return f(std::string_view(t));
				case 3:
					return f(std::string(t));
				case 4:
					return f(seq::tstring_view(t.data(), t.size()));
			}
		}
		f(Base::make(k));
	}
};
template<class B>
struct Map : B
{
	static constexpr bool is_map = true;
};
template<class B>
struct Multi : B
{
	static constexpr bool unique = false;
};
template<class T>
using A = std::allocator<T>;
template<class Key, bool St>
using Set = CmpTr<Key, St, seq::flat_set<Key, KCmp, A<Key>, St>>;
template<class Key, bool St>
using MSet = Multi<CmpTr<Key, St, seq::flat_multiset<Key, KCmp, A<Key>, St>>>;
template<class Key, class T, bool St>
using FMap = Map<CmpTr<Key, St, seq::flat_map<Key, T, KCmp, A<std::pair<Key, T>>, St>>>;
template<class Key, class T, bool St>
using MMap = Multi<Map<CmpTr<Key, St, seq::flat_multimap<Key, T, KCmp, A<std::pair<Key, T>>, St>>>>;
template<class Key>
using LSet = LessTr<Key, false, seq::flat_set<Key>>;
template<class Key>
using LMSet = Multi<LessTr<Key, false, seq::flat_multiset<Key>>>;
template<class Key, class T>
using LMap = Map<LessTr<Key, false, seq::flat_map<Key, T>>>;
template<class Key, class T>
using LMMap = Multi<Map<LessTr<Key, false, seq::flat_multimap<Key, T>>>>;

#if VPT_PART == 0
PROP_FN(set_int_cmp, (as::run<Set<int, false>>), 1200);
PROP_FN(set_int_less, (as::run<LSet<int>>), 1200);
PROP_FN(set_u8_less, (as::run<LSet<unsigned char>>), 600);
#elif VPT_PART == 1
PROP_FN(set_string_less, (as::run<LSet<std::string>>), 900);
PROP_FN(map_tstring_less, (as::run<LMap<seq::tstring, K>>), 900);
#elif VPT_PART == 2
PROP_FN(map_i64_stable, (as::run<FMap<K, K, true>>), 1200);
PROP_FN(map_i64_unstable, (as::run<FMap<K, K, false>>), 1200);
#elif VPT_PART == 3
PROP_FN(map_double_obj, (as::run<LMap<double, ty::Obj>>), 900);
PROP_FN(map_obj_string, (as::run<FMap<ty::Obj, std::string, true>>), 800);
#elif VPT_PART == 4
PROP_FN(mset_int, (as::run<MSet<int, true>>), 1000);
PROP_FN(mset_string_less, (as::run<LMSet<std::string>>), 900);
#elif VPT_PART == 5
PROP_FN(mmap_int_i64_stable, (as::run<MMap<int, K, true>>), 1000);
PROP_FN(mmap_tstring_less, (as::run<LMMap<seq::tstring, K>>), 800);
#elif VPT_PART == 6
PROP_FN(set_robj, (as::run<Set<ty::RObj, false>>), 900);
PROP_FN(map_big_stable, (as::run<FMap<ty::Big, ty::RObj, true>>), 800);
#elif VPT_PART == 7
PROP_FN(set_uptr, (as::run<Set<ty::UPtr, false>>), 900);
PROP_FN(mmap_double_less, (as::run<LMMap<double, K>>), 900);
#endif

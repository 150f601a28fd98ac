// C07: ordered_set, ordered_map (insertion ordered hash tables) against an ordered association model.
#include "hash_keys.hpp"
#include <seq/ordered_map.hpp>
#include <seq/tiny_string.hpp>
#include <stdexcept>
#include <string_view>

using as::Ent;
using as::K;
using vpt::Src;

// one more kind of hash: a few values shared by many keys, the others spread
struct OState : hk::State
{
	bool cluster = false;
};
inline size_t ohash(const OState& st, K k)
{
	if (st.cluster && (k / st.div) % 2 == 0)
		return (size_t)0x0123456789abcdull + st.seed;
	return hk::hash_of(st, k);
}
template<bool Transparent, bool Avalanching>
struct OHash : hk::HashT<Transparent, Avalanching>
{
	OState os;
	template<class T>
	size_t operator()(const T& v) const
	{
		return ohash(os, hk::keyof(v));
	}
};

template<class B, bool Map = false>
struct Ord : B
{
	static constexpr bool is_map = Map;
	static constexpr as::Order order = as::Insertion;
	static constexpr bool stable_refs = true;
	static constexpr bool merge = false;
	static constexpr bool assign = false;
	static constexpr bool ilist_assign = false;
	static constexpr unsigned specials = 18;
	using typename B::M;
	using typename B::State;
	using V = typename M::value_type;
	template<class It>
	static M construct(It a, It b, const State& st)
	{
		if constexpr (std::is_same_v<State, OState>)
			return M(a, b, B::hash(st), B::eq(st));
		else
			return M(a, b);
	}
	struct Less
	{
		K mod;
		template<class X, class Y>
		bool operator()(const X& a, const Y& b) const
		{
			return hk::keyof(a) % mod < hk::keyof(b) % mod;
		}
	};
	// the traversal order is exactly the one of the model (copies, sorts...)
	template<class H>
	static void same_order(H& h, int w, const char* what)
	{
		size_t i = 0;
		for (auto it = h.c[w].begin(); it != h.c[w].end() && i < h.m[w].size(); ++it, ++i)
			CHECK(h.read(*it) == h.m[w][i], what, ": element ", i, " is ", h.read(*it).k, "/", h.read(*it).p, ", expected ", as::show(h.m[w]));
	}
	// insertion of one element at the back or at the front of the model
	template<class H>
	static std::pair<size_t, bool> place(H& h, int w, bool front, K k, K p)
	{
		auto& mm = h.m[w];
		++h.ins;
		size_t i = h.at(w, k);
		if (i < mm.size()) {
			++h.dup;
			return { i, false };
		}
		mm.insert(front ? mm.begin() : mm.end(), Ent{ k, p });
		return { front ? 0 : mm.size() - 1, true };
	}
	template<class H, class R>
	static void placed(H& h, int w, const R& r, std::pair<size_t, bool> want, K k, K p, const char* what)
	{
		h.check_inserted(w, r, want, k, p, what);
		auto& e = h.m[w][want.first];
		e.a = (const void*)&*r.first;
		if (want.second) {
			if (want.first == 0)
				CHECK(r.first == h.c[w].begin(), what, " at the front");
			if (want.first + 1 == h.m[w].size())
				CHECK(std::next(r.first) == h.c[w].end(), what, " at the back");
		}
	}
	template<class H>
	static const char* push(H& h, int w)
	{
		auto& c = h.c[w];
		bool front = h.s.flip();
		K k = h.nk(w), p = h.np();
		unsigned how = (unsigned)h.s.raw(5);
		h.s.note(front ? " front " : " back ", k, "/", p, " how ", how);
		V v = h.mkv(k, p);
		auto want = place(h, w, front, k, p);
		switch (how) {
			case 0:
				if constexpr (B::copyable) {
					auto r = front ? c.push_front(v) : c.push_back(v);
					placed(h, w, r, want, k, p, "push(const&)");
					return "push(const&)";
				}
				[[fallthrough]];
			case 1: {
				auto r = front ? c.emplace_front(std::move(v)) : c.emplace_back(std::move(v));
				placed(h, w, r, want, k, p, "emplace_front/back");
				return "emplace_front/back";
			}
			case 2:
				if constexpr (Map) {
					auto r = front ? c.emplace_front(std::move(v.first), std::move(v.second)) : c.emplace_back(std::move(v.first), std::move(v.second));
					placed(h, w, r, want, k, p, "emplace_front/back(key, value)");
					return "emplace_front/back(key, value)";
				}
				[[fallthrough]];
			default: {
				auto r = front ? c.push_front(std::move(v)) : c.push_back(std::move(v));
				placed(h, w, r, want, k, p, "push(&&)");
				return "push(&&)";
			}
		}
	}
	template<class H>
	static const char* push_map(H& h, int w)
	{
		if constexpr (!Map)
			return push(h, w);
		else {
			using T = typename V::second_type;
			auto& c = h.c[w];
			bool front = h.s.flip(), hint = h.s.raw(3) == 0;
			K k = h.nk(w), p = h.np();
			unsigned how = (unsigned)h.s.raw(4);
			h.s.note(front ? " front " : " back ", k, "/", p, " how ", how, hint ? " hint" : "");
			auto key = B::make(k);
			auto hi = h.iter(w, hint ? h.s.raw(h.m[w].size() + 1) : 0);
			auto want = place(h, w, front, k, p);
			T t = ty::make<T>(p);
			bool inserted = want.second;
			auto done = [&](const auto& r, bool assign, const char* what) {
				if (assign)
					h.m[w][want.first].p = p;
				if constexpr (std::is_same_v<std::decay_t<decltype(r)>, typename M::iterator>)
					placed(h, w, std::make_pair(r, inserted), want, k, p, what);
				else
					placed(h, w, r, want, k, p, what);
				return what;
			};
			if (hint) {
				switch (how) {
					case 0:
						return done(front ? c.try_emplace_front(hi, key, std::move(t)) : c.try_emplace_back(hi, key, std::move(t)), false, "try_emplace_front/back(hint)");
					case 1:
						return done(front ? c.try_emplace_front(hi, std::move(key), std::move(t)) : c.try_emplace_back(hi, std::move(key), std::move(t)),
							    false,
							    "try_emplace_front/back(hint, &&)");
					case 2:
						return done(front ? c.push_front_or_assign(hi, key, std::move(t)) : c.push_back_or_assign(hi, key, std::move(t)), true, "push_or_assign(hint)");
					default:
						return done(front ? c.push_front_or_assign(hi, std::move(key), std::move(t)) : c.push_back_or_assign(hi, std::move(key), std::move(t)),
							    true,
							    "push_or_assign(hint, &&)");
				}
			}
			switch (how) {
				case 0:
					return done(front ? c.try_emplace_front(key, std::move(t)) : c.try_emplace_back(key, std::move(t)), false, "try_emplace_front/back");
				case 1: {
					auto r = front ? c.try_emplace_front(std::move(key), std::move(t)) : c.try_emplace_back(std::move(key), std::move(t));
					if (!inserted) {
						CHECK_EQ(ty::key<T>(t), p, "a failed try_emplace_front/back moved from its argument");
						CHECK_EQ(B::id(key), k, "a failed try_emplace_front/back moved from its key");
					}
					return done(r, false, "try_emplace_front/back(&&)");
				}
				case 2:
					return done(front ? c.push_front_or_assign(key, std::move(t)) : c.push_back_or_assign(key, std::move(t)), true, "push_or_assign");
				default:
					return done(front ? c.push_front_or_assign(std::move(key), std::move(t)) : c.push_back_or_assign(std::move(key), std::move(t)), true, "push_or_assign(&&)");
			}
		}
	}
	template<class H>
	static const char* sort(H& h, int w)
	{
		auto& mm = h.m[w];
		K mod = h.s.template pick<K>({ 1000000007, 7, 2 });
		h.s.note(" keys modulo ", mod);
		auto by = [&](const Ent& a, const Ent& b) { return a.k % mod < b.k % mod; };
		std::stable_sort(mm.begin(), mm.end(), by);
		h.forget(w);
		unsigned how = (unsigned)h.s.raw(2);
		const char* what;
		if constexpr (Map) {
			if (how == 0) {
				h.c[w].stable_sort(Less{ mod });
				what = "stable_sort(less)";
			}
			else {
				h.c[w].sort(Less{ mod });
				what = "sort(less)";
				if (mod < 1000)
					return what; // not announced as stable: the elements are checked by the caller, the order below
			}
		}
		else {
			h.c[w].sort(Less{ mod });
			what = "sort(less)";
		}
		same_order(h, w, what);
		return what;
	}
	template<class H>
	static const char* sort_less(H& h, int w)
	{
		using Key = typename M::key_type;
		if constexpr (std::is_arithmetic_v<Key> || std::is_same_v<Key, std::string> || std::is_same_v<Key, seq::tstring>) {
			auto& mm = h.m[w];
			std::stable_sort(mm.begin(), mm.end(), [&](const Ent& a, const Ent& b) { return B::make(a.k) < B::make(b.k); });
			h.forget(w);
			if constexpr (Map) {
				if (h.s.flip())
					h.c[w].stable_sort();
				else
					h.c[w].sort();
			}
			else
				h.c[w].sort();
			same_order(h, w, "sort()");
			return "sort()";
		}
		else
			return sort(h, w);
	}
	template<class F>
	static bool throws(F&& f)
	{
		try {
			f();
		}
		catch (const std::logic_error&) {
			return true;
		}
		return false;
	}
	// direct modification of the sequence: dirty until a rehash
	template<class H>
	static const char* dirty(H& h, int w)
	{
		auto& c = h.c[w];
		auto& mm = h.m[w];
		{
			auto& sq = c.sequence();
			h.s.times(1 + h.s.raw(6), [&](size_t) {
				K k = h.nk(w), p = h.np();
				switch (h.s.raw(5)) {
					case 0:
						h.s.note(" seq.push_back ", k);
						sq.push_back(h.mkv(k, p));
						mm.push_back(Ent{ k, p, (const void*)&sq.back() });
						break;
					case 1:
						h.s.note(" seq.push_front ", k);
						sq.push_front(h.mkv(k, p));
						mm.insert(mm.begin(), Ent{ k, p, (const void*)&sq.front() });
						break;
					case 2: {
						h.s.note(" seq.insert ", k);
						auto it = sq.insert(h.mkv(k, p));
						size_t i = (size_t)std::distance(sq.begin(), it);
						mm.insert(mm.begin() + (std::ptrdiff_t)i, Ent{ k, p, (const void*)&*it });
						break;
					}
					case 3:
						if (!mm.empty()) {
							size_t i = h.s.raw(mm.size());
							h.s.note(" seq.erase ", i);
							sq.erase(std::next(sq.begin(), (std::ptrdiff_t)i));
							mm.erase(mm.begin() + (std::ptrdiff_t)i);
						}
						break;
					default:
						if (!mm.empty()) {
							size_t i = h.s.raw(mm.size());
							h.s.note(" seq[", i, "] = ", k);
							*std::next(sq.begin(), (std::ptrdiff_t)i) = h.mkv(k, p);
							mm[i].k = k;
							mm[i].p = p;
						}
				}
			});
		}
		// keyed operations
		{
			K k = h.nk(w);
			auto key = B::make(k);
			const M& cc = c;
			CHECK(throws([&] { (void)cc.find(key); }), "find on a dirty container must throw");
			CHECK(throws([&] { (void)c.find(key); }), "find on a dirty container must throw");
			CHECK(throws([&] { (void)cc.contains(key); }), "contains on a dirty container must throw");
			CHECK(throws([&] { (void)cc.count(key); }), "count on a dirty container must throw");
			CHECK(throws([&] { (void)c.erase(key); }), "erase(key) on a dirty container must throw");
			CHECK(throws([&] { (void)c.insert(h.mkv(k, 0)); }), "insert on a dirty container must throw");
			CHECK(throws([&] { (void)c.emplace(h.mkv(k, 0)); }), "emplace on a dirty container must throw");
			CHECK(throws([&] { (void)c.push_back(h.mkv(k, 0)); }), "push_back on a dirty container must throw");
			CHECK(throws([&] { (void)c.emplace_front(h.mkv(k, 0)); }), "emplace_front on a dirty container must throw");
			if (!mm.empty())
				CHECK(throws([&] { (void)c.erase(c.begin()); }), "erase(iterator) on a dirty container must throw");
			if constexpr (Map) {
				CHECK(throws([&] { (void)c.try_emplace(key); }), "try_emplace on a dirty container must throw");
				CHECK(throws([&] { (void)c[key]; }), "operator[] on a dirty container must throw");
				CHECK(throws([&] { (void)c.at(key); }), "at on a dirty container must throw");
			}
			CHECK_EQ(c.size(), mm.size(), "size of a dirty container");
		}
		auto dedup = [&] {
			// later duplicates disappear
			as::Model r;
			for (auto& e : mm) {
				bool f = false;
				for (auto& g : r)
					f = f || h.equiv(w, e.k, g.k);
				if (!f)
					r.push_back(e);
			}
			mm = r;
		};
		unsigned how = (unsigned)h.s.raw(8);
		h.s.note(" then ", how);
		switch (how) {
			case 0:
				dedup();
				h.forget(w);
				c.shrink_to_fit();
				same_order(h, w, "shrink_to_fit after a direct modification");
				return "dirty, shrink_to_fit";
			case 1: {
				size_t n = h.s.raw(3 * mm.size() + 20);
				dedup();
				c.rehash(n);
				same_order(h, w, "rehash(n) after a direct modification");
				return "dirty, rehash(n)";
			}
			case 2:
				if constexpr (B::copyable) {
					M t(c);
					dedup();
					c = std::move(t);
					h.forget(w);
					same_order(h, w, "copy of a dirty container");
					return "dirty, copy construction";
				}
				[[fallthrough]];
			case 3:
				if constexpr (B::copyable) {
					M t = B::create(h.st[w]);
					t = c;
					dedup();
					c = std::move(t);
					h.forget(w);
					same_order(h, w, "copy assignment of a dirty container");
					return "dirty, copy assignment";
				}
				[[fallthrough]];
			case 4: {
				M t(std::move(c));
				c = std::move(t);
				CHECK(throws([&] { (void)c.find(B::make(1)); }), "find on a moved dirty container must throw");
				c.rehash();
				dedup();
				same_order(h, w, "rehash of a moved dirty container");
				return "dirty, move, rehash";
			}
			case 5:
				if (h.s.raw(4) == 0) {
					c.clear();
					mm.clear();
					return "dirty, clear";
				}
				[[fallthrough]];
			default:
				dedup();
				c.rehash();
				same_order(h, w, "rehash after a direct modification");
				return "dirty, rehash";
		}
	}
	template<class H>
	static const char* special(H& h, int w, unsigned what)
	{
		auto& c = h.c[w];
		auto& mm = h.m[w];
		switch (what) {
			case 0:
			case 1:
			case 2:
			case 3:
				return push(h, w);
			case 4:
			case 5:
			case 6:
				return push_map(h, w);
			case 7:
			case 8:
				return sort(h, w);
			case 9:
				return sort_less(h, w);
			case 10:
				h.forget(w);
				c.shrink_to_fit();
				same_order(h, w, "shrink_to_fit");
				return "shrink_to_fit";
			case 11:
				c.rehash();
				same_order(h, w, "rehash");
				return "rehash()";
			case 12: {
				size_t n = h.s.raw(4) == 0 ? h.s.raw(20000) : h.s.raw(3 * mm.size() + 10);
				h.s.note(" ", n);
				c.rehash(n);
				same_order(h, w, "rehash(n)");
				return "rehash(n)";
			}
			case 13: {
				size_t n = h.s.raw(4) == 0 ? h.s.raw(20000) : h.s.raw(3 * mm.size() + 10);
				h.s.note(" ", n);
				c.reserve(n);
				same_order(h, w, "reserve");
				return "reserve";
			}
			case 14: {
				float f = 0.05f * (float)(1 + h.s.raw(25));
				h.s.note(" ", f);
				c.max_load_factor(f);
				float want = f > 0.95f ? 0.95f : f < 0.1f ? 0.1f : f;
				CHECK(c.max_load_factor() == want, "max_load_factor ", c.max_load_factor());
				return "max_load_factor";
			}
			case 15:
			case 16:
				return dirty(h, w);
			default: {
				K k = h.nk(w), k2 = h.nk(w);
				auto a = B::make(k);
				auto b = B::make(k2);
				if (h.equiv(w, k, k2))
					CHECK(c.hash_function()(a) == c.hash_function()(b), "hash_function");
				if constexpr (std::is_same_v<State, OState>)
					CHECK(c.hash_function()(a) == B::hash(h.st[w])(a), "hash_function is the one given");
				CHECK_EQ((bool)c.key_eq()(a, b), h.equiv(w, k, k2), "key_eq");
				CHECK(c.load_factor() >= 0 && c.load_factor() <= 1, "load_factor ", c.load_factor());
				const M& cc = c;
				CHECK_EQ(cc.sequence().size(), mm.size(), "sequence()");
				CHECK(&cc.sequence() == &c.csequence(), "csequence()");
				CHECK(cc.cbegin() == cc.begin() && cc.cend() == cc.end(), "cbegin, cend");
				return "observers";
			}
		}
	}
};
// stateful functors
template<class Key_, bool Transparent, bool Avalanching, class M_>
struct OTr : hk::StateTr<Key_, Transparent, Avalanching, M_>
{
	using B = hk::StateTr<Key_, Transparent, Avalanching, M_>;
	using State = OState;
	using Hash = OHash<Transparent, Avalanching>;
	static constexpr size_t max_size = 1500;
	static State gen_state(Src& s)
	{
		OState r;
		static_cast<hk::State&>(r) = hk::gen_state(s);
		r.cluster = s.raw(4) == 3;
		return r;
	}
	static std::string describe(const State& st) { return hk::describe(st) + (st.cluster ? " cluster" : ""); }
	static bool mergeable(const State&, const State&) { return true; }
	static bool less(const State& st, K a, K b) { return a / st.div < b / st.div; }
	static Hash hash(const State& st)
	{
		Hash h;
		h.os = st;
		return h;
	}
	static typename B::Eq eq(const State& st) { return B::eq(st); }
	template<class C>
	static C from_list(std::initializer_list<typename C::value_type> il, const State& st)
	{
		return C(il, hash(st), eq(st));
	}
	template<class C>
	static State state_of(const C& c)
	{
		State r = c.hash_function().os;
		r.div = c.key_eq().div;
		return r;
	}
	static M_ create(const State& st) { return M_(hash(st), eq(st)); }
};
template<class K_, bool T, bool A>
using Set = Ord<OTr<K_, T, A, seq::ordered_set<K_, OHash<T, A>, hk::EqT<T>>>>;
template<class K_, class V, bool T, bool A>
using OMap = Ord<OTr<K_, T, A, seq::ordered_map<K_, V, OHash<T, A>, hk::EqT<T>>>, true>;
template<class K_>
using DSet = Ord<hk::DefTr<K_, seq::ordered_set<K_>>>;
template<class K_, class V>
using DMap = Ord<hk::DefTr<K_, seq::ordered_map<K_, V>>, true>;

#if VPT_PART == 0
PROP_FN(set_i64, (as::run<Set<K, true, true>>), 6400);
PROP_FN(set_int_mixed, (as::run<Set<int, false, false>>), 5600);
#elif VPT_PART == 1
PROP_FN(map_i64_i64, (as::run<OMap<K, K, true, true>>), 6400);
PROP_FN(map_string_obj, (as::run<OMap<std::string, ty::Obj, true, true>>), 4800);
#elif VPT_PART == 2
PROP_FN(map_obj_robj, (as::run<OMap<ty::Obj, ty::RObj, false, true>>), 4800);
PROP_FN(set_uptr, (as::run<Set<ty::UPtr, true, true>>), 4000);
#elif VPT_PART == 3
PROP_FN(set_def_int, (as::run<DSet<int>>), 4000);
PROP_FN(map_def_string, (as::run<DMap<std::string, K>>), 4800);
PROP_FN(set_def_u8, (as::run<DSet<unsigned char>>), 2400);
#elif VPT_PART == 4
PROP_FN(set_def_tstring, (as::run<DSet<seq::tstring>>), 4000);
PROP_FN(map_def_double, (as::run<DMap<double, ty::Obj>>), 4000);
PROP_FN(set_big, (as::run<Set<ty::Big, true, true>>), 2400);
#endif

// Stateful hash / equality functors shared by the hash based containers.
#pragma once
#include "assoc.hpp"

namespace hk {
using as::K;
using vpt::Src;

struct KRef
{
	K k;
};
template<class T>
inline K keyof(const T& v)
{
	return ty::key<T>(v);
}
inline K keyof(const KRef& r) { return r.k; }

// Keys are grouped in classes of div; the hash of a class depends on a seed and can be made arbitrarily bad
struct State
{
	uint64_t seed = 0;
	K div = 1;
	unsigned mode = 0;
};
inline State gen_state(Src& s)
{
	State r;
	r.seed = s.raw(5);
	r.div = s.raw(4) == 3 ? 5 : 1;
	r.mode = s.raw(3) < 2 ? 0 : 1 + (unsigned)s.raw(5);
	return r;
}
inline std::string describe(const State& st) { return vpt::str("seed ", st.seed, " keys/", st.div, " hash mode ", st.mode); }
inline size_t hash_of(const State& st, K k)
{
	uint64_t z = (uint64_t)(k / st.div) + st.seed * 0x51ed2701;
	uint64_t t = z;
	switch (st.mode) {
		case 1:
			return (size_t)z; // identity
		case 2:
			return (size_t)(vpt::splitmix(t) % 4) * 0x4000000000000000ull + st.seed; // 4 values
		case 3:
			return (size_t)(z << 56); // only the low byte of the key, at the top
		case 4:
			return (size_t)(vpt::splitmix(t) & 0xff00ffull); // neither the highest nor the middle bits
		case 5:
			return (size_t)(vpt::splitmix(t) | 0xfffffff000000000ull); // constant top
		default:
			return (size_t)vpt::splitmix(t);
	}
}
template<bool Transparent, bool Avalanching>
struct HashT;
struct HBase
{
	State st;
	template<class T>
	size_t operator()(const T& v) const
	{
		return hash_of(st, keyof(v));
	}
};
template<>
struct HashT<true, true> : HBase
{
	using is_transparent = void;
	using is_avalanching = void;
};
template<>
struct HashT<true, false> : HBase
{
	using is_transparent = void;
};
template<>
struct HashT<false, true> : HBase
{
	using is_avalanching = void;
};
template<>
struct HashT<false, false> : HBase
{
};
template<bool Transparent>
struct EqT;
template<>
struct EqT<true>
{
	using is_transparent = void;
	K div = 1;
	template<class A, class B>
	bool operator()(const A& a, const B& b) const
	{
		ty::tick(4);
		return keyof(a) / div == keyof(b) / div;
	}
};
template<>
struct EqT<false>
{
	K div = 1;
	template<class A, class B>
	bool operator()(const A& a, const B& b) const
	{
		ty::tick(4);
		return keyof(a) / div == keyof(b) / div;
	}
};
// Traits for a stateful hash
template<class Key_, bool Transparent, bool Avalanching, class M_>
struct StateTr : as::TrBase
{
	using M = M_;
	using Key = Key_;
	using State = hk::State;
	using Hash = HashT<Transparent, Avalanching>;
	using Eq = EqT<Transparent>;
	static constexpr as::Order order = as::Unordered;
	static constexpr bool bounds = false;
	static constexpr bool copyable = std::is_copy_constructible_v<typename M::value_type>;
	static constexpr unsigned key_kinds = Transparent ? 2 : 1;
	static constexpr size_t max_size = 2500;
	static Key make(K k) { return ty::make<Key>(k); }
	static K id(const Key& k) { return ty::key<Key>(k); }
	static bool less(const State& st, K a, K b) { return a / st.div < b / st.div; }
	static constexpr bool small = sizeof(Key) == 1;
	static K map_key(K k, K dom)
	{
		k &= 0x7fffffffffffff;
		return small ? k % 100 : k % dom;
	}
	static K gen_key(Src& s, K dom) { return map_key((K)s.raw((uint64_t)dom), dom); }
	static State gen_state(Src& s) { return hk::gen_state(s); }
	static std::string describe(const State& st) { return hk::describe(st); }
	static bool mergeable(const State&, const State&) { return true; }
	static Hash hash(const State& st)
	{
		Hash h;
		h.st = st;
		return h;
	}
	static Eq eq(const State& st)
	{
		Eq e;
		e.div = st.div;
		return e;
	}
	template<class C>
	static C from_list(std::initializer_list<typename C::value_type> il, const State& st)
	{
		return C(il, hash(st), eq(st));
	}
	template<class C>
	static State state_of(const C& c)
	{
		State r = c.hash_function().st;
		r.div = c.key_eq().div;
		return r;
	}
	static M create(const State& st) { return M(hash(st), eq(st)); }
	template<class F>
	static void with_key(unsigned kind, K k, F&& f)
	{
		if constexpr (Transparent)
			if (kind == 1)
				return f(KRef{ k });
		f(make(k));
	}
};
// Default hash and equality (seq::hasher, std::equal_to<>)
template<class Key_, class M_>
struct DefTr : as::TrBase
{
	using M = M_;
	using Key = Key_;
	static constexpr as::Order order = as::Unordered;
	static constexpr bool bounds = false;
	static constexpr bool str = std::is_same_v<Key, std::string> || std::is_same_v<Key, seq::tstring>;
	static constexpr bool copyable = std::is_copy_constructible_v<typename M::value_type>;
	static constexpr unsigned key_kinds = str ? 5 : 1;
	static constexpr size_t max_size = 2500;
	static Key make(K k) { return ty::make<Key>(k); }
	static K id(const Key& k) { return ty::key<Key>(k); }
	static constexpr bool small = sizeof(Key) == 1;
	static K map_key(K k, K dom)
	{
		k &= 0x7fffffffffffff;
		return small ? k % 100 : k % dom;
	}
	static K gen_key(Src& s, K dom) { return map_key((K)s.raw((uint64_t)dom), dom); }
	static bool mergeable(const State&, const State&) { return true; }
	static M create(const State&) { return M(); }
	template<class F>
	static void with_key(unsigned kind, K k, F&& f)
	{
		if constexpr (str) {
			std::string t = ty::key_string(k);
			switch (kind) {
				case 1:
					return f(t.c_str());
				case 2:
					return f(std::string_view(t));
				case 3:
					return f(std::string(t));
				case 4:
					return f(seq::tstring_view(t.data(), t.size()));
			}
		}
		f(make(k));
	}
};
} // namespace hk

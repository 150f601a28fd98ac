// Every container of the library behind one interface: operations drawn as plain data, so that a
// history can be replayed exactly (C20 exceptions, C21 lifetimes, C22 copies, C24 iterators).
#pragma once
#include "types.hpp"
#include <algorithm>
#include <list>
#include <set>
#include <seq/concurrent_map.hpp>
#include <seq/devector.hpp>
#include <seq/flat_map.hpp>
#include <seq/ordered_map.hpp>
#include <seq/radix_hash_map.hpp>
#include <seq/radix_map.hpp>
#include <seq/sequence.hpp>
#include <seq/tiered_vector.hpp>

#define GEN_HAS(name, ...)                                                                                                                           \
	template<class C, class = void>                                                                                                                  \
	struct has_##name : std::false_type                                                                                                              \
	{                                                                                                                                                \
	};                                                                                                                                               \
	template<class C>                                                                                                                                \
	struct has_##name<C, std::void_t<decltype(__VA_ARGS__)>> : std::true_type                                                                        \
	{                                                                                                                                                \
	};
namespace gen {
using K = int64_t;
using Keys = std::vector<K>;
using vpt::Src;
constexpr K Moved = -777;

struct Op
{
	unsigned o = 0;
	uint64_t a = 0, b = 0, c = 0;
};
inline uint64_t mix(uint64_t x)
{
	x ^= x >> 33;
	x *= 0xff51afd7ed558ccdull;
	x ^= x >> 33;
	x *= 0xc4ceb9fe1a85ec53ull;
	return x ^ (x >> 33);
}
// What an operation did, and where it may fail
struct Ctx
{
	long k = -1;          // fault to inject, -1: none
	unsigned mask = ~0u;
	int id = 0;           // identity of the allocators
	K dom = 60;           // keys
	Keys used;            // keys given to the operation
	const char* name = "?";
	bool strong = false;  // an exception leaves the container as it was
	bool bulk = false;    // more than one element
	bool unordered = false; // the operation may change the order of the elements
};
struct Armed
{
	explicit Armed(Ctx& x)
	{
		if (x.k >= 0)
			ty::arm(x.k, x.mask);
	}
	~Armed() { ty::disarm(); }
};

// default constructed elements are accepted (left by previous exceptions)
inline bool& lenient_keys()
{
	static bool l = false;
	return l;
}

// keys of elements, pairs included
template<class T>
K rd(const T& v)
{
	return ty::key<T>(v);
}
template<class A, class B>
K rd(const std::pair<A, B>& v)
{
	K a = rd<std::remove_const_t<A>>(v.first), b = rd<B>(v.second);
	return a == b ? a : (a == Moved || b == Moved) ? Moved : -997;
}
template<class T>
struct Mk
{
	static T make(K k) { return ty::make<T>(k); }
};
template<class A, class B>
struct Mk<std::pair<A, B>>
{
	static std::pair<A, B> make(K k) { return std::pair<A, B>(Mk<std::remove_const_t<A>>::make(k), Mk<B>::make(k)); }
};
template<class T>
T mk(K k)
{
	return Mk<T>::make(k);
}
// argument of emplace
template<class T>
auto arg(K k)
{
	if constexpr (std::is_constructible_v<T, K&>)
		return k;
	else
		return mk<T>(k);
}
template<class T>
K ek(const T& v) // key of an element or of a key
{
	return ty::key<T>(v);
}
inline K ek(const K& v) { return v; }
struct Cmp
{
	using is_transparent = void;
	template<class A, class B>
	bool operator()(const A& a, const B& b) const
	{
		ty::tick(4);
		return ek(a) < ek(b);
	}
};
// lengths of the bulk operations, and the size from which the histories remove more than they add
struct Scale
{
	size_t len = 1, cap = 400;
	size_t hashes = 0; // number of hash values, 0: any
};
inline Scale& scale()
{
	static thread_local Scale s;
	return s;
}
struct Hsh
{
	using is_transparent = void;
	template<class A>
	size_t operator()(const A& a) const
	{
		ty::tick(5);
		uint64_t h = mix((uint64_t)ek(a) / 2);
		return (size_t)(scale().hashes ? mix(h % scale().hashes) : h);
	}
};
struct Eql
{
	using is_transparent = void;
	template<class A, class B>
	bool operator()(const A& a, const B& b) const
	{
		ty::tick(4);
		return ek(a) == ek(b);
	}
};
// radix keys: the integer inside of the element
struct Ext
{
	template<class A>
	K operator()(const A& a) const
	{
		return ek(a);
	}
};

inline K key_of(const Op& op, size_t i, K dom) { return 1 + (K)(mix(op.b + 0x9E37 * i) % (uint64_t)dom); }
inline size_t len_of(const Op& op, size_t n = 24)
{
	n *= scale().len;
	// mostly short
	uint64_t r = mix(op.c);
	return r % 8 == 7 ? (r >> 8) % (4 * n) : r % 2 ? (r >> 8) % 4 : (r >> 8) % n;
}
inline size_t pos_of(uint64_t a, size_t n)
{
	uint64_t r = mix(a);
	return r % 6 == 0 ? 0 : r % 6 == 1 ? n : r % 6 == 2 ? n / 2 : (size_t)((r >> 8) % (n + 1));
}
template<class T>
std::vector<T> values(const Op& op, size_t n, Ctx& x)
{
	std::vector<T> v;
	v.reserve(n);
	for (size_t i = 0; i < n; ++i) {
		x.used.push_back(key_of(op, i, x.dom));
		v.push_back(mk<T>(x.used.back()));
	}
	return v;
}
inline Op gen_op(Src& s, unsigned count)
{
	Op o;
	o.o = (unsigned)s.raw(count);
	o.a = s.raw(1u << 16);
	o.b = s.raw(1u << 16);
	o.c = s.raw(1u << 16);
	return o;
}

GEN_HAS(emplace_back, std::declval<C&>().pop_front())
GEN_HAS(index, std::declval<C&>()[size_t(0)])
GEN_HAS(resize_front, std::declval<C&>().resize_front(size_t(1)))
GEN_HAS(sort, std::declval<C&>().sort())
GEN_HAS(shrink, std::declval<C&>().shrink_to_fit())
GEN_HAS(reserve, std::declval<C&>().reserve(size_t(1)))
GEN_HAS(try_emplace, std::declval<C&>().try_emplace(std::declval<const typename C::key_type&>()))
GEN_HAS(rehash0, std::declval<C&>().rehash())
GEN_HAS(rehash, std::declval<C&>().rehash(size_t(1)))
GEN_HAS(erase_it, std::declval<C&>().erase(std::declval<C&>().begin()))
GEN_HAS(merge, std::declval<C&>().merge(std::declval<C&>()))
GEN_HAS(lower, std::declval<C&>().lower_bound(std::declval<const typename C::key_type&>()))
GEN_HAS(push_front, std::declval<C&>().push_front(std::declval<const typename C::value_type&>()))
GEN_HAS(iter, std::declval<C&>().begin())
GEN_HAS(back_iter, --std::declval<typename C::iterator&>())
GEN_HAS(iterator_at, std::declval<C&>().iterator_at(size_t(0)))
GEN_HAS(pos, std::declval<const C&>().pos(size_t(0)))
GEN_HAS(rbegin, std::declval<C&>().rbegin())
GEN_HAS(crbegin, std::declval<C&>().crbegin())
GEN_HAS(front, std::declval<C&>().front())
GEN_HAS(jump, std::declval<typename C::iterator&>() += 1)
GEN_HAS(subscript, std::declval<typename C::iterator&>()[1])
GEN_HAS(less, std::declval<typename C::iterator&>() < std::declval<typename C::iterator&>())
GEN_HAS(minus, std::declval<typename C::iterator&>() - std::declval<typename C::iterator&>())
GEN_HAS(insert_pos, std::declval<C&>().insert_pos(std::declval<typename C::value_type>()))
GEN_HAS(erase_pos, std::declval<C&>().erase_pos(size_t(0)))
GEN_HAS(visit, std::declval<C&>().cvisit_all(std::declval<void (*)(const typename C::value_type&)>()))
// (a declared assignment, not the one from a temporary container that would use the default allocator)
GEN_HAS(ilist, static_cast<C& (C::*)(const std::initializer_list<typename C::value_type>&)>(&C::operator=))
GEN_HAS(assign_range, std::declval<C&>().assign(std::declval<typename C::value_type*>(), std::declval<typename C::value_type*>()))

// ------------------------------------------------------------------ contents
template<class C>
Keys contents(const C& c)
{
	Keys r;
	if constexpr (has_iter<C>::value) {
		size_t n = c.size();
		for (auto it = c.begin(); it != c.end(); ++it) {
			r.push_back(rd<typename C::value_type>(*it));
			CHECK(r.size() <= n, "the traversal is longer than size() = ", n);
		}
		CHECK_EQ(r.size(), n, "traversal and size()");
	}
	else {
		c.cvisit_all([&](const auto& v) { r.push_back(rd<std::decay_t<decltype(v)>>(v)); });
		CHECK_EQ(r.size(), c.size(), "visit_all and size()");
	}
	CHECK_EQ(c.empty(), r.empty(), "empty()");
	return r;
}

// ------------------------------------------------------------------ sequences
template<class C_>
struct Linear
{
	using C = C_;
	using T = typename C::value_type;
	using Alloc = typename C::allocator_type;
	static constexpr bool assoc = false, unique = false, sorted = false, concurrent = false, ordered = true;
	static constexpr unsigned op_count = 34;
	static constexpr bool has_front = true;
	static constexpr bool nothrow = std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<T>;
	static constexpr bool is_sequence = !has_index<C>::value;
	static constexpr bool is_devector = has_index<C>::value && std::is_pointer_v<typename C::iterator>;
	// which operations have a strong guarantee: sequence for one element, devector if moves do not throw
	static constexpr bool strong1 = is_sequence || (is_devector && nothrow);

	static C make(int id) { return C(Alloc(id)); }
	static auto at(C& c, size_t p) { return std::next(c.cbegin(), (std::ptrdiff_t)p); }
	static void apply(C& c, const Op& op, Ctx& x)
	{
		size_t n = c.size();
		unsigned o = op.o;
		if (n > scale().cap && o < 13)
			o = 13 + o % 5;
		switch (o) {
			case 0: {
				x.name = "push_back(const&)";
				x.strong = strong1;
				auto v = values<T>(op, 1, x);
				Armed a(x);
				c.push_back(v[0]);
				return;
			}
			case 1: {
				x.name = "push_back(&&)";
				x.strong = strong1;
				auto v = values<T>(op, 1, x);
				Armed a(x);
				c.push_back(std::move(v[0]));
				return;
			}
			case 2: {
				x.name = "emplace_back";
				x.strong = strong1;
				K k = key_of(op, 0, x.dom);
				x.used.push_back(k);
				auto v = arg<T>(k);
				Armed a(x);
				c.emplace_back(std::move(v));
				return;
			}
			case 3: {
				x.name = "push_front(const&)";
				x.strong = strong1;
				auto v = values<T>(op, 1, x);
				Armed a(x);
				c.push_front(v[0]);
				return;
			}
			case 4: {
				x.name = "push_front(&&)";
				x.strong = strong1;
				auto v = values<T>(op, 1, x);
				Armed a(x);
				c.push_front(std::move(v[0]));
				return;
			}
			case 5: {
				x.name = "emplace_front";
				x.strong = strong1;
				K k = key_of(op, 0, x.dom);
				x.used.push_back(k);
				auto v = arg<T>(k);
				Armed a(x);
				c.emplace_front(std::move(v));
				return;
			}
			case 6: {
				x.name = is_sequence ? "insert" : "insert(pos, const&)";
				x.strong = strong1;
				auto v = values<T>(op, 1, x);
				size_t p = pos_of(op.a, n);
				Armed a(x);
				if constexpr (is_sequence)
					c.insert(v[0]);
				else
					c.insert(at(c, p), v[0]);
				return;
			}
			case 7: {
				x.name = is_sequence ? "insert" : "insert(pos, &&)";
				x.strong = strong1;
				auto v = values<T>(op, 1, x);
				size_t p = pos_of(op.a, n);
				Armed a(x);
				if constexpr (is_sequence)
					c.insert(std::move(v[0]));
				else
					c.insert(at(c, p), std::move(v[0]));
				return;
			}
			case 8: {
				x.name = is_sequence ? "emplace" : "emplace(pos)";
				x.strong = strong1;
				K k = key_of(op, 0, x.dom);
				x.used.push_back(k);
				size_t p = pos_of(op.a, n);
				auto v = arg<T>(k);
				Armed a(x);
				if constexpr (is_sequence)
					c.emplace(std::move(v));
				else
					c.emplace(at(c, p), std::move(v));
				return;
			}
			case 9:
			case 10: {
				x.name = "insert(pos, range)";
				x.bulk = true;
				auto v = values<T>(op, len_of(op), x);
				std::list<T> l;
				if (o == 10)
					l.assign(v.begin(), v.end());
				size_t p = pos_of(op.a, n);
				if constexpr (is_sequence) {
					Armed a(x);
					for (auto& e : v)
						c.push_back(e);
				}
				else {
					auto it = at(c, p);
					Armed a(x);
					if (o == 9)
						c.insert(it, v.begin(), v.end());
					else
						c.insert(it, l.begin(), l.end());
				}
				return;
			}
			case 11: {
				x.name = "insert(pos, n, value)";
				x.bulk = true;
				auto v = values<T>(op, 1, x);
				if constexpr (!is_sequence) {
					auto it = at(c, pos_of(op.a, n));
					Armed a(x);
					c.insert(it, len_of(op), v[0]);
				}
				return;
			}
			case 12: {
				x.name = "insert(pos, ilist)";
				x.bulk = true;
				auto v = values<T>(op, 3, x);
				if constexpr (!is_sequence) {
					auto it = at(c, pos_of(op.a, n));
					std::initializer_list<T> il = { v[0], v[1], v[2] };
					Armed a(x);
					c.insert(it, il);
				}
				return;
			}
			case 13:
			case 14: {
				x.name = "erase(pos)";
				if (!n)
					return;
				auto it = at(c, pos_of(op.a, n - 1));
				Armed a(x);
				c.erase(it);
				return;
			}
			case 15:
			case 16: {
				x.name = "erase(range)";
				x.bulk = true;
				size_t p = pos_of(op.a, n), q = std::min(n, p + len_of(op));
				auto i = at(c, p), j = at(c, q);
				Armed a(x);
				c.erase(i, j);
				return;
			}
			case 17: {
				x.name = "pop_back / pop_front";
				if (!n)
					return;
				Armed a(x);
				if (op.a & 1)
					c.pop_back();
				else
					c.pop_front();
				return;
			}
			case 18: {
				x.name = "resize(n)";
				x.bulk = true;
				x.strong = is_devector && nothrow;
				x.used.push_back(0);
				size_t q = op.a & 1 ? n + len_of(op) : len_of(op);
				Armed a(x);
				c.resize(q);
				return;
			}
			case 19: {
				x.name = "resize(n, value)";
				x.bulk = true;
				x.strong = is_devector && nothrow;
				auto v = values<T>(op, 1, x);
				size_t q = op.a & 1 ? n + len_of(op) : len_of(op);
				Armed a(x);
				c.resize(q, v[0]);
				return;
			}
			case 20:
			case 21:
				if constexpr (has_resize_front<C>::value) {
					x.name = o == 20 ? "resize_front(n)" : "resize_front(n, value)";
					x.bulk = true;
					x.strong = is_devector && nothrow;
					x.used.push_back(0);
					auto v = values<T>(op, 1, x);
					size_t q = op.a & 1 ? n + len_of(op) : len_of(op);
					Armed a(x);
					if (o == 20)
						c.resize_front(q);
					else
						c.resize_front(q, v[0]);
				}
				return;
			case 22: {
				x.name = "assign(n, value)";
				x.bulk = true;
				auto v = values<T>(op, 1, x);
				Armed a(x);
				c.assign(len_of(op), v[0]);
				return;
			}
			case 23: {
				x.name = "assign(range)";
				x.bulk = true;
				auto v = values<T>(op, len_of(op), x);
				if (op.a & 1) {
					std::list<T> l(v.begin(), v.end());
					Armed a(x);
					c.assign(l.begin(), l.end());
				}
				else {
					Armed a(x);
					c.assign(v.begin(), v.end());
				}
				return;
			}
			case 24: {
				x.name = "clear";
				if (op.a % 4)
					return;
				Armed a(x);
				c.clear();
				return;
			}
			case 25:
				if constexpr (has_shrink<C>::value) {
					x.name = "shrink_to_fit";
					x.bulk = true;
					x.strong = is_devector && nothrow;
					Armed a(x);
					c.shrink_to_fit();
				}
				return;
			case 26:
				if constexpr (has_reserve<C>::value) {
					x.name = "reserve";
					x.strong = is_devector && nothrow;
					size_t q = n + len_of(op, 100);
					Armed a(x);
					c.reserve(q);
				}
				return;
			case 27: {
				x.name = "copy assignment";
				x.bulk = true;
				C t = make(x.id);
				for (auto& e : values<T>(op, len_of(op), x))
					t.push_back(e);
				Armed a(x);
				c = t;
				return;
			}
			case 28: {
				x.name = "move assignment";
				x.bulk = true;
				C t = make(x.id);
				for (auto& e : values<T>(op, len_of(op), x))
					t.push_back(e);
				Armed a(x);
				c = std::move(t);
				return;
			}
			case 29: {
				x.name = "swap";
				x.bulk = true;
				C t = make(x.id);
				for (auto& e : values<T>(op, len_of(op), x))
					t.push_back(e);
				{
					Armed a(x);
					c.swap(t);
				}
				return;
			}
			case 30: {
				x.name = "copy construction";
				x.strong = true;
				Armed a(x);
				if (op.a & 1) {
					C t(c);
					use(t);
				}
				else {
					C t(c, Alloc(x.id));
					use(t);
				}
				return;
			}
			case 31: {
				x.name = "construction";
				x.strong = true;
				Keys keep = x.used;
				auto v = values<T>(op, len_of(op), x);
				x.used = keep;
				size_t q = len_of(op);
				Armed a(x);
				switch (op.a % 3) {
					case 0: {
						C t(v.begin(), v.end(), Alloc(x.id));
						use(t);
						break;
					}
					case 1: {
						if (v.size()) {
							C t(q, v[0], Alloc(x.id));
							use(t);
						}
						break;
					}
					default: {
						C t(q, Alloc(x.id));
						use(t);
						break;
					}
				}
				return;
			}
			case 32:
				if constexpr (has_sort<C>::value) {
					x.name = "sort";
					x.bulk = true;
					x.unordered = true;
					Armed a(x);
					if (op.a & 1)
						c.sort(Cmp());
					else
						c.sort();
				}
				else {
					x.name = "move construction with another allocator";
					x.bulk = true;
					{
						Armed a(x);
						C t(std::move(c), Alloc(x.id + 1));
						use(t);
					}
				}
				return;
			case 33: {
				x.name = "initializer list";
				x.bulk = true;
				auto v = values<T>(op, 2, x);
				std::initializer_list<T> il = { v[0], v[1] };
				Armed a(x);
				if constexpr (has_ilist<C>::value)
					c = il;
				else
					c.assign(il);
				return;
			}
		}
	}
	static void use(const C& t) { (void)t.size(); }
	// one more element
	static void add(C& c, K k) { c.push_back(mk<T>(k)); }
};

// ------------------------------------------------------------------ sets and maps
template<class C, class Key, bool Map>
struct DefaultMake
{
	static C make(int id) { return C(typename C::allocator_type(id)); }
};
template<class C_, class Key, class Mapped = void, bool Sorted = true, bool Unique = true, bool Ordered = true>
struct Assoc
{
	using C = C_;
	using Alloc = typename C::allocator_type;
	static constexpr bool is_map = !std::is_void_v<Mapped>;
	using MT = std::conditional_t<is_map, Mapped, Key>;
	using V = std::conditional_t<is_map, std::pair<Key, MT>, Key>; // argument of insert
	static constexpr bool assoc = true, unique = Unique, sorted = Sorted, ordered = Ordered;
	static constexpr bool concurrent = !has_iter<C>::value;
	static constexpr bool is_ordered_table = has_rehash0<C>::value && has_push_front<C>::value;
	static constexpr bool is_flat = has_erase_pos<C>::value;
	static constexpr unsigned op_count = 32;
	static constexpr bool strong1 = is_ordered_table;
	static constexpr bool is_radix = Sorted && !is_flat;

	static C make(int id) { return C(Alloc(id)); }
	static void add(C& c, K k) { c.insert(mk<V>(k)); }
	static auto nth(C& c, size_t p) { return std::next(c.begin(), (std::ptrdiff_t)p); }
	static void use(const C& t) { (void)t.size(); }
	static C filled(const Op& op, size_t n, Ctx& x, int id)
	{
		C t = make(id);
		for (auto& e : values<V>(op, n, x))
			t.insert(e);
		return t;
	}
	static void apply(C& c, const Op& op, Ctx& x)
	{
		size_t n = c.size();
		unsigned o = op.o;
		if (n > scale().cap && o < 12)
			o = 12 + o % 4;
		switch (o) {
			case 0:
			case 1: {
				x.name = "insert(const&)";
				x.strong = strong1;
				auto v = values<V>(op, 1, x);
				Armed a(x);
				c.insert(v[0]);
				return;
			}
			case 2: {
				x.name = "insert(&&)";
				x.strong = strong1;
				auto v = values<V>(op, 1, x);
				Armed a(x);
				c.insert(std::move(v[0]));
				return;
			}
			case 3:
			case 4: {
				x.name = "emplace";
				x.strong = strong1;
				if constexpr (is_map) {
					auto v = values<V>(op, 1, x);
					auto m = arg<MT>(x.used.back());
					Armed a(x);
					if (o == 3)
						c.emplace(v[0].first, v[0].second);
					else
						c.emplace(std::move(v[0].first), std::move(m));
				}
				else {
					K k = key_of(op, 0, x.dom);
					x.used.push_back(k);
					auto v = arg<Key>(k);
					Armed a(x);
					c.emplace(std::move(v));
				}
				return;
			}
			case 5:
				if constexpr (!concurrent) {
					x.name = "emplace_hint / insert(hint)";
					x.strong = strong1;
					auto v = values<V>(op, 1, x);
					auto h = nth(c, pos_of(op.a, n));
					Armed a(x);
					if (op.c & 1)
						c.emplace_hint(h, std::move(v[0]));
					else
						c.insert(h, v[0]);
				}
				return;
			case 6:
			case 7:
			case 8: {
				x.name = "insert(range)";
				x.bulk = true;
				auto v = values<V>(op, len_of(op), x);
				if (o == 8) {
					std::list<V> l(v.begin(), v.end());
					Armed a(x);
					c.insert(l.begin(), l.end());
				}
				else {
					Armed a(x);
					if (o == 6)
						c.insert(v.begin(), v.end());
					else
						c.insert(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end()));
				}
				return;
			}
			case 9:
				if constexpr (is_map && has_try_emplace<C>::value) {
					x.name = "try_emplace";
					x.strong = strong1;
					auto v = values<V>(op, 1, x);
					Armed a(x);
					if (op.a & 1)
						c.try_emplace(v[0].first, v[0].second);
					else
						c.try_emplace(std::move(v[0].first), std::move(v[0].second));
				}
				return;
			case 10:
				if constexpr (is_map && unique) {
					x.name = "insert_or_assign";
					x.strong = false;
					auto v = values<V>(op, 1, x);
					Armed a(x);
					if (op.a & 1)
						c.insert_or_assign(v[0].first, v[0].second);
					else
						c.insert_or_assign(std::move(v[0].first), std::move(v[0].second));
				}
				return;
			case 11:
				if constexpr (is_map && unique && !concurrent) {
					x.name = "operator[]";
					auto v = values<V>(op, 1, x);
					x.used.push_back(-997); // the default value
					{
						Armed a(x);
						c[v[0].first] = v[0].second;
					}
				}
				else if constexpr (concurrent) {
					x.name = "insert_or_visit";
					auto v = values<V>(op, 1, x);
					Armed a(x);
					c.insert_or_visit(v[0], [](auto&) { ty::tick(4); });
				}
				else if constexpr (has_insert_pos<C>::value) {
					x.name = "insert_pos";
					auto v = values<V>(op, 1, x);
					Armed a(x);
					c.insert_pos(v[0]);
				}
				return;
			case 12:
			case 13: {
				x.name = "erase(key)";
				x.bulk = !unique; // any number of elements
				x.strong = strong1;
				auto k = mk<Key>(key_of(op, 0, x.dom));
				Armed a(x);
				c.erase(k);
				return;
			}
			case 14:
				if constexpr (!concurrent) {
					x.name = "erase(iterator)";
					x.strong = strong1;
					if (!n)
						return;
					auto it = nth(c, pos_of(op.a, n - 1));
					Armed a(x);
					c.erase(it);
				}
				else {
					x.name = "erase_if";
					x.bulk = true;
					K m = 2 + (K)(op.a % 3);
					Armed a(x);
					c.erase_if([&](const auto& v) {
						ty::tick(4);
						return rd<std::decay_t<decltype(v)>>(v) % m == 0;
					});
				}
				return;
			case 15:
			case 16:
				if constexpr (!concurrent) {
					x.name = "erase(range)";
					x.bulk = true;
					size_t p = pos_of(op.a, n), q = std::min(n, p + len_of(op));
					auto i = nth(c, p), j = nth(c, q);
					Armed a(x);
					c.erase(i, j);
				}
				else {
					x.name = "erase(key, condition)";
					auto k = mk<Key>(key_of(op, 0, x.dom));
					Armed a(x);
					c.erase_if(k, [&](const auto&) {
						ty::tick(4);
						return true;
					});
				}
				return;
			case 17: {
				x.name = "clear";
				if (op.a % 4)
					return;
				Armed a(x);
				c.clear();
				return;
			}
			case 18:
				if constexpr (has_shrink<C>::value) {
					x.name = "shrink_to_fit";
					x.bulk = true;
					Armed a(x);
					c.shrink_to_fit();
				}
				else if constexpr (has_rehash<C>::value) {
					x.name = "rehash(n)";
					x.bulk = true;
					Armed a(x);
					c.rehash(len_of(op, 200));
				}
				return;
			case 19:
				if constexpr (has_reserve<C>::value) {
					x.name = "reserve";
					x.bulk = true;
					Armed a(x);
					c.reserve(n + len_of(op, 200));
				}
				return;
			case 20: {
				x.name = "copy assignment";
				x.bulk = true;
				C t = filled(op, len_of(op), x, x.id);
				Armed a(x);
				c = t;
				return;
			}
			case 21: {
				x.name = "move assignment";
				x.bulk = true;
				C t = filled(op, len_of(op), x, x.id);
				Armed a(x);
				c = std::move(t);
				return;
			}
			case 22: {
				x.name = "swap";
				x.bulk = true;
				C t = filled(op, len_of(op), x, x.id);
				{
					Armed a(x);
					c.swap(t);
				}
				return;
			}
			case 23: {
				x.name = "copy construction";
				x.strong = true;
				Armed a(x);
				if (op.a & 1) {
					C t(c);
					use(t);
				}
				else {
					C t(c, Alloc(x.id));
					use(t);
				}
				return;
			}
			case 24: {
				x.name = "construction";
				x.strong = true;
				Keys keep = x.used;
				auto v = values<V>(op, len_of(op), x);
				x.used = keep;
				Armed a(x);
				C t(v.begin(), v.end(), Alloc(x.id));
				use(t);
				return;
			}
			case 25: {
				x.name = "lookups";
				x.strong = true;
				auto k = mk<Key>(key_of(op, 0, x.dom));
				Armed a(x);
				(void)c.contains(k);
				(void)c.count(k);
				if constexpr (!concurrent)
					(void)c.find(k);
				else
					c.visit(k, [](auto&) { ty::tick(4); });
				if constexpr (has_lower<C>::value && sorted) {
					if constexpr (is_radix && std::is_constructible_v<Key, K&> && !std::is_arithmetic_v<Key>) {
						(void)c.lower_bound(rd<Key>(k));
						(void)c.upper_bound(rd<Key>(k));
					}
					else {
						(void)c.lower_bound(k);
						(void)c.upper_bound(k);
					}
				}
				return;
			}
			case 26:
				if constexpr (has_merge<C>::value && unique) {
					x.name = "merge";
					x.bulk = true;
					C t = filled(op, len_of(op), x, x.id);
					size_t m = t.size();
					{
						Armed a(x);
						try {
							c.merge(t);
						}
						catch (...) {
							ty::disarm();
							x.name = "merge (other side)";
							check_keys(contents(t), x.used, m);
							x.name = "merge";
							throw;
						}
					}
					(void)contents(t);
				}
				return;
			case 27:
				if constexpr (is_ordered_table) {
					x.name = "push_back / push_front";
					x.strong = strong1;
					auto v = values<V>(op, 1, x);
					Armed a(x);
					if (op.a & 1)
						c.push_front(v[0]);
					else
						c.push_back(std::move(v[0]));
				}
				return;
			case 28:
				if constexpr (is_ordered_table) {
					x.name = "sort";
					x.bulk = true;
					Armed a(x);
					c.sort(Cmp());
				}
				else if constexpr (!concurrent && is_flat) {
					x.name = "erase_pos";
					if (!n)
						return;
					Armed a(x);
					c.erase_pos(pos_of(op.a, n - 1));
				}
				return;
			case 29: {
				x.name = "move construction with another allocator";
				x.bulk = true;
				{
					Armed a(x);
					C t(std::move(c), Alloc(x.id + 1));
					use(t);
				}
				return;
			}
			case 30: {
				x.name = "initializer list";
				x.bulk = true;
				auto v = values<V>(op, 2, x);
				std::initializer_list<typename C::value_type> il = { v[0], v[1] };
				Armed a(x);
				if constexpr (has_ilist<C>::value)
					c = il;
				else
					c.insert(il);
				return;
			}
			case 31:
				if constexpr (has_assign_range<C>::value) {
					x.name = "assign";
					x.bulk = true;
					auto v = values<V>(op, len_of(op), x);
					Armed a(x);
					c.assign(v.begin(), v.end());
				}
				return;
		}
	}
	static void check_keys(const Keys& have, const Keys& allowed, size_t max)
	{
		CHECK(have.size() <= max, "more elements than before");
		for (K k : have)
			CHECK(k == Moved || (lenient_keys() && (k == 0 || k == -997)) || std::find(allowed.begin(), allowed.end(), k) != allowed.end(), "foreign element ", k);
	}
};

inline std::string show(const Keys& k)
{
	std::string r = "{";
	for (size_t i = 0; i < k.size() && i < 40; ++i)
		r += (i ? " " : "") + std::to_string(k[i]);
	return r + (k.size() > 40 ? " ...}" : "}");
}

// ------------------------------------------------------------------ configurations
template<class T, unsigned F = 0>
using A = ty::TrackAlloc<T, F>;
template<class T, unsigned F = 0>
using Devector = Linear<seq::devector<T, A<T, F>>>;
template<class T, unsigned F = 0>
using Tiered = Linear<seq::tiered_vector<T, A<T, F>>>;
template<class T, unsigned F = 0>
using Sequence = Linear<seq::sequence<T, A<T, F>>>;
template<class T, unsigned F = 0, bool Stable = false>
using FlatSet = Assoc<seq::flat_set<T, Cmp, A<T, F>, Stable>, T>;
template<class T, unsigned F = 0, bool Stable = false>
using FlatMultiset = Assoc<seq::flat_multiset<T, Cmp, A<T, F>, Stable>, T, void, true, false>;
template<class T, class M, unsigned F = 0, bool Stable = false>
using FlatMap = Assoc<seq::flat_map<T, M, Cmp, A<std::pair<T, M>, F>, Stable>, T, M>;
template<class T, class M, unsigned F = 0, bool Stable = false>
using FlatMultimap = Assoc<seq::flat_multimap<T, M, Cmp, A<std::pair<T, M>, F>, Stable>, T, M, true, false>;
template<class T, unsigned F = 0>
using RadixSet = Assoc<seq::radix_set<T, Ext, A<T, F>>, T>;
template<class T, class M, unsigned F = 0>
using RadixMap = Assoc<seq::radix_map<T, M, Ext, A<std::pair<T, M>, F>>, T, M>;
template<class T, unsigned F = 0>
using RadixHashSet = Assoc<seq::radix_hash_set<T, Hsh, Eql, A<T, F>>, T, void, false, true, false>;
template<class T, class M, unsigned F = 0>
using RadixHashMap = Assoc<seq::radix_hash_map<T, M, Hsh, Eql, A<std::pair<T, M>, F>>, T, M, false, true, false>;
template<class T, unsigned F = 0>
using OrderedSet = Assoc<seq::ordered_set<T, Hsh, Eql, A<T, F>>, T, void, false, true, true>;
template<class T, class M, unsigned F = 0>
using OrderedMap = Assoc<seq::ordered_map<T, M, Hsh, Eql, A<std::pair<T, M>, F>>, T, M, false, true, true>;
template<class T, unsigned F = 0>
using ConcSet = Assoc<seq::concurrent_set<T, Hsh, Eql, A<T, F>>, T, void, false, true, false>;
template<class T, class M, unsigned F = 0>
using ConcMap = Assoc<seq::concurrent_map<T, M, Hsh, Eql, A<std::pair<T, M>, F>>, T, M, false, true, false>;
} // namespace gen

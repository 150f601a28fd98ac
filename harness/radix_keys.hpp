// Key adapters shared by the radix based containers: an int64 code k denotes one key, injectively.
#pragma once
#include "assoc.hpp"
#include <array>
#include <cmath>
#include <climits>
#include <cstring>
#include <limits>
#include <string_view>
#include <tuple>

namespace rk {
using vpt::Src;
using as::K;

// integers and enums
template<class T>
struct Int
{
	using Key = T;
	using Cmp = Key;
	static constexpr bool has_prefix = false;
	static Key make(K k) { return (T)k; }
	static K id(const Key& k) { return (K)k; }
	static bool less(K a, K b) { return (T)a < (T)b; }
	static constexpr unsigned bits = sizeof(T) * 8;
	static K map(K k, K dom)
	{
		uint64_t u = (uint64_t)k;
		if (dom == 12)
			u = u % 12;
		else if (dom == 60) // the high bits
			u = (u % 60) << (bits > 8 ? bits - 6 : 2);
		else if (dom == 400) // two clusters of bits
			u = (u % 20) | (((u / 20) % 20) << (bits / 2));
		else if (dom == 5000)
			u = (u % 5000) - 2500;
		else if (dom != 100000000)
			u %= (uint64_t)dom;
		return (K)(T)u;
	}
	template<class F>
	static void with_key(unsigned kind, K k, F&& f)
	{
		if (kind == 0 || (uint64_t)k > (1ull << 50))
			return f(make(k));
		if (kind == 1)
			return f((long long)(T)k);
		f((double)(T)k);
	}
	static constexpr unsigned kinds = std::is_same_v<T, bool> ? 1 : 3;
};
template<class T>
struct Flt
{
	using Key = T;
	using Cmp = Key;
	using U = std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>;
	static constexpr bool has_prefix = false;
	static Key make(K k)
	{
		U u = (U)(uint64_t)k;
		T r;
		memcpy(&r, &u, sizeof r);
		return r;
	}
	static K id(const Key& k)
	{
		U u;
		memcpy(&u, &k, sizeof u);
		return (K)(uint64_t)u;
	}
	static bool less(K a, K b) { return make(a) < make(b); }
	static K map(K k, K dom)
	{
		uint64_t u = (uint64_t)k;
		T r;
		if (dom == 12)
			r = (T)(int)(u % 12) - 5;
		else if (dom == 60)
			r = ((T)(int)(u % 60) - 30) * (T)0.5;
		else if (dom == 400)
			r = (T)std::ldexp((u & 1) ? 1.0 : -1.0, (int)(u % 400) / 2 - 100);
		else if (dom == 5000)
			r = make((K)(u % 5000)); // denormals
		else
			r = make((K)(u * 0x9e3779b97f4a7c15ull));
		if (r != r)
			r = std::numeric_limits<T>::infinity();
		if (r == 0)
			r = 0; // -0.0 is not distinct
		return id(r);
	}
	template<class F>
	static void with_key(unsigned, K k, F&& f)
	{
		f(make(k));
	}
	static constexpr unsigned kinds = 1;
};
struct Ptr
{
	using Key = const int*;
	using Cmp = Key;
	static constexpr bool has_prefix = false;
	static Key make(K k) { return (const int*)(uintptr_t)k; }
	static K id(const Key& k) { return (K)(uintptr_t)k; }
	static bool less(K a, K b) { return (uint64_t)a < (uint64_t)b; }
	static K map(K k, K dom) { return Int<uint64_t>::map(k, dom) & 0x7fffffffffffffff; }
	template<class F>
	static void with_key(unsigned, K k, F&& f)
	{
		f(make(k));
	}
	static constexpr unsigned kinds = 1;
};
// Sequences of elements.  A code is rest * 4 + pf: pf selects the length of a common prefix made of digit 5
// and rest is a bijective base 5 number, so that any sequence of the digits 0..4 can follow.
template<class E>
struct Alphabet;
template<>
struct Alphabet<char>
{
	static constexpr char a[6] = { '\0', '\1', 'a', '\x7f', '\xff', 'x' };
	static bool less(char x, char y) { return (unsigned char)x < (unsigned char)y; }
};
template<>
struct Alphabet<wchar_t>
{
	static constexpr wchar_t a[6] = { 0, 1, L'a', 0x10000, 0x7fffffff, L'x' };
	static bool less(wchar_t x, wchar_t y) { return x < y; }
};
template<>
struct Alphabet<char16_t>
{
	static constexpr char16_t a[6] = { 0, 1, u'a', 0x100, 0xffff, u'x' };
	static bool less(char16_t x, char16_t y) { return x < y; }
};
template<>
struct Alphabet<unsigned>
{
	static constexpr unsigned a[6] = { 0, 1, 256, 0x80000000u, 0xffffffffu, 77 };
	static bool less(unsigned x, unsigned y) { return x < y; }
};
template<>
struct Alphabet<int>
{
	static constexpr int a[6] = { INT_MIN, -1, 0, 1, INT_MAX, 5 };
	static bool less(int x, int y) { return x < y; }
};
template<>
struct Alphabet<uint64_t>
{
	static constexpr uint64_t a[6] = { 0, 1, 1ull << 32, 1ull << 63, ~0ull, 0x123456789abcdefull };
	static bool less(uint64_t x, uint64_t y) { return x < y; }
};
template<>
struct Alphabet<double>
{
	static constexpr double a[6] = { -1e300, -1.5, 0, 1e-300, 2.5, 42 };
	static bool less(double x, double y) { return x < y; }
};
struct Digits
{
	uint8_t d[96];
	unsigned n;
};
inline Digits digits(K k)
{
	static constexpr unsigned pl[4] = { 0, 3, 17, 40 };
	Digits r;
	r.n = 0;
	uint64_t u = (uint64_t)k;
	for (unsigned i = 0; i < pl[u & 3]; ++i)
		r.d[r.n++] = 5;
	u >>= 2;
	while (u) {
		--u;
		r.d[r.n++] = (uint8_t)(u % 5);
		u /= 5;
	}
	return r;
}
inline K undigits(const Digits& r)
{
	unsigned p = 0;
	while (p < r.n && r.d[p] == 5)
		++p;
	uint64_t u = 0;
	for (unsigned i = r.n; i-- > p;)
		u = u * 5 + r.d[i] + 1;
	return (K)(u * 4 + (p == 0 ? 0 : p == 3 ? 1 : p == 17 ? 2 : p == 40 ? 3 : 999999));
}
template<class S>
struct Str
{
	using Key = S;
	using Cmp = Key;
	using E = typename S::value_type;
	using A = Alphabet<E>;
	static constexpr bool is_vec = std::is_same_v<S, std::vector<E>>;
	static constexpr bool has_prefix = !is_vec;
	static constexpr bool chars = std::is_same_v<E, char>;
	static Key make(const Digits& d)
	{
		E b[96];
		for (unsigned i = 0; i < d.n; ++i)
			b[i] = A::a[d.d[i]];
		return Key(b, b + d.n);
	}
	static Key make(K k) { return make(digits(k)); }
	static K id(const Key& k)
	{
		Digits r;
		r.n = (unsigned)k.size();
		if (r.n > 96)
			return -1;
		for (unsigned i = 0; i < r.n; ++i) {
			unsigned j = 0;
			while (j < 6 && k.data()[i] != A::a[j])
				++j;
			if (j == 6)
				return -1;
			r.d[i] = (uint8_t)j;
		}
		return undigits(r);
	}
	static bool less(K a, K b)
	{
		if (a == b)
			return false;
		Digits x = digits(a), y = digits(b);
		for (unsigned i = 0; i < x.n && i < y.n; ++i)
			if (x.d[i] != y.d[i])
				return A::less(A::a[x.d[i]], A::a[y.d[i]]);
		return x.n < y.n;
	}
	static K map(K k, K dom)
	{
		uint64_t u = (uint64_t)k & 0x7ffffffffffffff;
		if (dom == 60) {
			// runs of the smallest digit: keys which are prefixes of each other
			uint64_t n = u % 26, r = 0;
			while (n--)
				r = r * 5 + 1;
			return (K)(r * 4 + (u / 26) % 2 * 3);
		}
		if (dom == 400)
			u = u % 100 * 4 + (u / 100) % 4;
		else if (dom != 100000000)
			u %= (uint64_t)dom;
		return (K)u;
	}
	static constexpr unsigned kinds = chars ? 4 : is_vec ? 1 : 2;
	template<class F>
	static void with_key(unsigned kind, K k, F&& f)
	{
		if constexpr (chars) {
			Key s = make(k);
			switch (kind) {
				case 1:
					return f(std::string_view(s.data(), s.size()));
				case 2: {
					std::string t(s.data(), s.size());
					if (t.find('\0') == std::string::npos)
						return f(t.c_str());
					return f(t);
				}
				case 3:
					return f(seq::tstring_view(s.data(), s.size()));
				default:
					return f(s);
			}
		}
		else if (kind == 0)
			return f(make(k));
		else {
			// another type with data() and size()
			Key s = make(k);
			std::basic_string<E> v(s.begin(), s.end());
			return f(v);
		}
	}
};
// fixed size arrays of 16 bits elements
struct Arr
{
	using Key = std::array<uint16_t, 4>;
	using Cmp = Key;
	static constexpr bool has_prefix = false;
	static Key make(K k)
	{
		uint64_t u = (uint64_t)k;
		return Key{ { (uint16_t)(u >> 48), (uint16_t)(u >> 32), (uint16_t)(u >> 16), (uint16_t)u } };
	}
	static K id(const Key& k) { return (K)((uint64_t)k[0] << 48 | (uint64_t)k[1] << 32 | (uint64_t)k[2] << 16 | k[3]); }
	static bool less(K a, K b) { return (uint64_t)a < (uint64_t)b; }
	static K map(K k, K dom) { return Int<uint64_t>::map(k, dom); }
	static constexpr unsigned kinds = 1;
	template<class F>
	static void with_key(unsigned, K k, F&& f)
	{
		f(make(k));
	}
};
// tuples
template<class T>
struct Tup;
template<class A, class B, class C>
struct Tup<std::tuple<A, B, C>>
{
	using Key = std::tuple<A, B, C>;
	using Cmp = Key;
	static constexpr bool has_prefix = false;
	// 32, 16 and 16 bits
	static Key make(K k)
	{
		uint64_t u = (uint64_t)k;
		return Key((A)(int32_t)(u >> 32), (B)(int16_t)(u >> 16), (C)(int16_t)u);
	}
	static K id(const Key& k) { return (K)((uint64_t)(uint32_t)(int32_t)std::get<0>(k) << 32 | (uint64_t)(uint16_t)(int16_t)std::get<1>(k) << 16 | (uint16_t)(int16_t)std::get<2>(k)); }
	static bool less(K a, K b) { return make(a) < make(b); }
	static K map(K k, K dom)
	{
		uint64_t u = (uint64_t)k;
		auto pack = [](int64_t a, int64_t b, int64_t c) { return id(Key((A)(int32_t)a, (B)(int16_t)b, (C)(int16_t)c)); };
		if (dom == 12)
			return pack(1, 2, (int64_t)(u % 12) - 6);
		if (dom == 60)
			return pack(-1, (int64_t)(u % 60) - 30, 7);
		if (dom == 400)
			return pack((int64_t)(u % 10) - 5, (int64_t)(u / 10 % 10) - 5, (int64_t)(u / 100 % 4) - 2);
		if (dom == 5000)
			return pack((int64_t)(u % 5000) - 2500, 0, 0);
		return id(make(k));
	}
	static constexpr unsigned kinds = 1;
	template<class F>
	static void with_key(unsigned, K k, F&& f)
	{
		f(make(k));
	}
};
// an object ordered by an extracted key
struct ObjExtract
{
	K operator()(const ty::Obj& o) const { return o.k; }
	K operator()(K k) const { return k; }
};
// Keys with long common prefixes cut at every length by some keys: chains of directories deeper than the limit of
// the tree, below which leaves become sorted vectors.
template<class S>
struct Deep : Str<S>
{
	static K map(K k, K)
	{
		uint64_t u = (uint64_t)k & 0x7ffffffffffffff;
		uint64_t i, t;
		if (u % 2) {
			u /= 2;
			i = u % 22;
			t = 2 + u / 22 % 4;
		}
		else {
			u /= 2;
			i = 20;
			t = u % 600;
		}
		uint64_t p = 1;
		while (i--)
			p *= 5;
		return (K)(((p - 1) / 4 + p * t) * 4);
	}
};
} // namespace rk

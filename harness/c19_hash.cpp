// C19: hash values depend on the hashed value only, on all of it, and equal keys hash equally.
#include "vpt.hpp"
#include <seq/hash.hpp>
#include <seq/tiny_string.hpp>
#include <algorithm>
#include <cmath>
#include <limits>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

using vpt::Src;

// MurmurHash64A (Austin Appleby, public domain), written from its description
static uint64_t ref_murmur(const std::vector<unsigned char>& v)
{
	const uint64_t m = 0xc6a4a7935bd1e995ull;
	uint64_t h = 3782874213ull ^ (v.size() * m);
	size_t n = v.size() / 8;
	auto word = [&](size_t at, size_t len) {
		uint64_t k = 0;
		for (size_t i = 0; i < len; ++i)
			k |= (uint64_t)v[at + i] << (8 * i);
		return k;
	};
	for (size_t i = 0; i < n; ++i) {
		uint64_t k = word(i * 8, 8);
		k *= m;
		k ^= k >> 47;
		k *= m;
		h ^= k;
		h *= m;
	}
	if (v.size() % 8) {
		h ^= word(n * 8, v.size() % 8);
		h *= m;
	}
	h ^= h >> 47;
	h *= m;
	h ^= h >> 47;
	return h;
}
static uint64_t ref_fnv1a(const std::vector<unsigned char>& v)
{
	uint64_t h = 0xcbf29ce484222325ull;
	for (unsigned char c : v) {
		h ^= c;
		h *= 0x100000001b3ull;
	}
	return h;
}
static size_t len(Src& s)
{
	switch (s.raw(4)) {
		case 0: return s.raw(10);
		case 1: return s.raw(72);
		case 2: return 8 * s.raw(40) + s.raw(3);
		default: return s.size(700);
	}
}
static std::vector<unsigned char> bytes(Src& s, size_t n)
{
	std::vector<unsigned char> v(n);
	unsigned kind = (unsigned)s.raw(4);
	uint64_t x = s.raw(0);
	for (auto& c : v)
		c = kind == 0 ? 0 : kind == 1 ? 0xFF : kind == 2 ? (unsigned char)('a' + vpt::splitmix(x) % 3) : (unsigned char)vpt::splitmix(x);
	return v;
}
using HashFn = size_t (*)(const void*, size_t);
static HashFn fns[] = { [](const void* p, size_t n) -> size_t { return seq::hash_bytes_murmur64(p, n); },
			[](const void* p, size_t n) -> size_t { return seq::hash_bytes_fnv1a(p, n); },
			[](const void* p, size_t n) -> size_t { return seq::hash_bytes_komihash(p, n); } };
static const char* names[] = { "murmur64", "fnv1a", "komihash" };

PROP(bytes_hash, 40000)
{
	s.times(4, [&](size_t) {
		size_t n = len(s);
		auto v = bytes(s, n);
		s.note("length", n);
		size_t h[3];
		for (int f = 0; f < 3; ++f) {
			// an exact-size block: reading before or after is a sanitizer error
			std::unique_ptr<unsigned char[]> exact(new unsigned char[n ? n : 1]);
			if (n)
				memcpy(exact.get(), v.data(), n);
			h[f] = fns[f](exact.get(), n);
			// at any alignment, with other surroundings
			for (size_t off : { (size_t)s.raw(16), (size_t)1 + s.raw(7) }) {
				std::vector<unsigned char> b(n + 64, (unsigned char)s.raw(256));
				if (n)
					memcpy(b.data() + 16 + off, v.data(), n);
				CHECK_EQ(fns[f](b.data() + 16 + off, n), h[f], names[f], "length", n, "offset", off);
			}
		}
		CHECK_EQ(h[0], ref_murmur(v), "murmur64 length", n);
		CHECK_EQ(h[1], ref_fnv1a(v), "fnv1a length", n);
		if (n) {
			// every bit counts: one random flip anywhere, one in the tail, one at the start
			for (size_t at : { (size_t)s.raw(n), n - 1 - (size_t)s.raw(std::min<size_t>(n, 9)), (size_t)s.raw(std::min<size_t>(n, 9)) }) {
				auto w = v;
				w[at] = (unsigned char)(w[at] ^ (1u << s.raw(8)));
				for (int f = 0; f < 3; ++f)
					CHECK(fns[f](w.data(), n) != h[f], names[f], "ignores byte", at, "of", n);
			}
			// length counts
			for (int f = 0; f < 3; ++f) {
				CHECK(fns[f](v.data(), n - 1) != h[f], names[f], "of a prefix", n);
				auto w = v;
				w.push_back(0);
				CHECK(fns[f](w.data(), n + 1) != h[f], names[f], "of a zero-extended message", n);
			}
			// order of words counts
			if (n >= 16) {
				size_t a = s.raw(n / 8), b = s.raw(n / 8);
				auto w = v;
				for (int i = 0; i < 8; ++i)
					std::swap(w[a * 8 + i], w[b * 8 + i]);
				if (w != v)
					for (int f = 0; f < 3; ++f)
						CHECK(fns[f](w.data(), n) != h[f], names[f], "ignores the order of words", a, b, n);
			}
		}
		if (n > 7)
			s.nontrivial();
	});
}
PROP(mixers, 30000)
{
	s.times(20, [&](size_t) {
		size_t a = (size_t)s.bits64(), b = (size_t)s.bits64();
		s.note("words", a, b);
		CHECK_EQ(seq::hash_finalize(a), seq::hash_finalize(a), a);
		unsigned bit = (unsigned)s.raw(64);
		CHECK(seq::hash_finalize(a) != seq::hash_finalize(a ^ ((size_t)1 << bit)), "hash_finalize ignores bit", bit, "of", a);
		size_t x = a, y = a, z = a ^ ((size_t)1 << bit);
		seq::hash_combine(x, b);
		seq::hash_combine(y, b ^ ((size_t)1 << bit));
		seq::hash_combine(z, b);
		CHECK(x != y, "hash_combine ignores bit", bit, "of the added value", a, b);
		CHECK(x != z, "hash_combine ignores bit", bit, "of the seed", a, b);
		// order counts
		if (a != b) {
			size_t p = 0, q = 0;
			seq::hash_combine(p, a);
			seq::hash_combine(p, b);
			seq::hash_combine(q, b);
			seq::hash_combine(q, a);
			CHECK(p != q, "hash_combine ignores the order", a, b);
		}
	});
	s.nontrivial();
}

enum E8 : unsigned char
{
	e8_0
};
enum class E16 : short
{
	z
};
enum class E64 : uint64_t
{
	z
};
template<class T>
static void integral(uint64_t v, uint64_t w)
{
	T a = (T)v, b = (T)w;
	seq::hasher<T> h;
	CHECK_EQ(h(a), h((T)a), "same value");
	if (a != b)
		CHECK(h(a) != h(b), "different values of a type of at most 8 bytes", vpt::str((long long)a), (long long)b);
	CHECK_EQ(seq::hash_value(h, a), h(a), "hash_value of an avalanching hasher");
	// by reference to another object with the same value
	const T c = a;
	CHECK_EQ(h(c), h(a), "const");
}
template<class E>
static void enumeration(uint64_t v, uint64_t w)
{
	using U = std::underlying_type_t<E>;
	E a = (E)(U)v, b = (E)(U)w;
	seq::hasher<E> h;
	CHECK_EQ(h(a), h((U)v), "enumerator and its value");
	CHECK_EQ(h(a), seq::hasher<U>{}((U)v), "hasher of the underlying type");
	if (a != b)
		CHECK(h(a) != h(b), "different enumerators");
}
template<class F>
static void floating(Src& s)
{
	F a, b;
	auto gen = [&]() -> F {
		switch (s.raw(6)) {
			case 0: return (F)0;
			case 1: return -(F)0;
			case 2: return std::numeric_limits<F>::infinity();
			case 3: return (F)(int64_t)s.bits64();
			default: {
				F f;
				do {
					uint64_t u = s.bits64();
					memcpy(&f, &u, sizeof(F));
					if (s.exhausted())
						return 1;
				} while (f != f && s.flip());
				return f != f ? (F)1 : f;
			}
		}
	};
	a = gen();
	b = s.chance(1, 4) ? -a : gen();
	s.note("floats", (double)a, (double)b);
	seq::hasher<F> h;
	if (a == b)
		CHECK_EQ(h(a), h(b), "equal keys", (double)a, (double)b);
	else
		CHECK(h(a) != h(b), "different keys", (double)a, (double)b);
}
PROP(scalars, 25000)
{
	s.times(10, [&](size_t) {
		uint64_t v = s.bits64(), w = s.flip() ? v ^ (1ull << s.raw(64)) : s.bits64();
		s.note("values", v, w);
		integral<bool>(v, w);
		integral<char>(v, w);
		integral<signed char>(v, w);
		integral<unsigned char>(v, w);
		integral<short>(v, w);
		integral<unsigned short>(v, w);
		integral<int>(v, w);
		integral<unsigned>(v, w);
		integral<long>(v, w);
		integral<unsigned long>(v, w);
		integral<long long>(v, w);
		integral<unsigned long long>(v, w);
		integral<wchar_t>(v, w);
		integral<char16_t>(v, w);
		integral<char32_t>(v, w);
		enumeration<E8>(v, w);
		enumeration<E16>(v, w);
		enumeration<E64>(v, w);
		floating<float>(s);
		floating<double>(s);
	});
	s.nontrivial();
}
PROP(pointers, 7500)
{
	int n = 1 + (int)s.raw(8);
	std::vector<std::shared_ptr<int>> sp;
	std::vector<std::unique_ptr<int>> up;
	for (int i = 0; i < n; ++i) {
		sp.push_back(std::make_shared<int>(i));
		up.push_back(std::unique_ptr<int>(new int(i)));
	}
	for (int i = 0; i < n; ++i) {
		auto copy = sp[i];
		CHECK_EQ(seq::hasher<std::shared_ptr<int>>{}(copy), seq::hasher<std::shared_ptr<int>>{}(sp[i]), "shared_ptr copies");
		CHECK_EQ(seq::hasher<std::shared_ptr<int>>{}(sp[i].get()), seq::hasher<std::shared_ptr<int>>{}(sp[i]), "shared_ptr and pointer");
		CHECK_EQ(seq::hasher<std::unique_ptr<int>>{}(up[i].get()), seq::hasher<std::unique_ptr<int>>{}(up[i]), "unique_ptr and pointer");
		CHECK_EQ(seq::hasher<int*>{}(up[i].get()), seq::hasher<std::unique_ptr<int>>{}(up[i]), "pointer hashers");
		CHECK_EQ(seq::hasher<const int*>{}(up[i].get()), seq::hasher<int*>{}(up[i].get()), "const pointer");
		for (int j = 0; j < i; ++j) {
			CHECK(seq::hasher<std::shared_ptr<int>>{}(sp[i]) != seq::hasher<std::shared_ptr<int>>{}(sp[j]), "different pointers");
			CHECK(seq::hasher<int*>{}(up[i].get()) != seq::hasher<int*>{}(up[j].get()), "different pointers");
		}
	}
	std::unique_ptr<int> null;
	CHECK_EQ(seq::hasher<std::unique_ptr<int>>{}(null), seq::hasher<int*>{}(nullptr), "null");
	s.nontrivial();
}

template<class C>
static std::basic_string<C> text(Src& s)
{
	size_t n = s.raw(3) ? s.raw(40) : s.size(300);
	std::basic_string<C> r;
	uint64_t x = s.raw(0);
	bool zeros = s.chance(1, 4);
	for (size_t i = 0; i < n; ++i) {
		uint64_t c = vpt::splitmix(x);
		r.push_back(zeros && c % 5 == 0 ? (C)0 : (C)(c >> 8));
	}
	return r;
}
// all representations of one character sequence
template<class C>
static void strings(Src& s)
{
	using S = std::basic_string<C>;
	using V = std::basic_string_view<C>;
	using T0 = seq::tiny_string<C, std::char_traits<C>, std::allocator<C>, 0>;
	using T2 = seq::tiny_string<C, std::char_traits<C>, std::allocator<C>, 40>;
	using TV = seq::tiny_string<C, std::char_traits<C>, seq::view_allocator<C>, 0>;
	S a = text<C>(s);
	s.note("string of", a.size());
	T0 t0(a.data(), a.size());
	T2 t2(a.data(), a.size());
	T0 grown;
	for (C c : a)
		grown.push_back(c);
	grown.reserve(a.size() + 100);
	S buf = S(3, (C)'x') + a + S(5, (C)'y');
	TV tv(buf.data() + 3, a.size());
	V v(buf.data() + 3, a.size());
	size_t h = seq::hasher<S>{}(a);
	CHECK_EQ(seq::hasher<V>{}(v), h, "string view");
	CHECK_EQ(seq::hasher<S>{}(v), h, "view through the string hasher");
	CHECK_EQ(seq::hasher<T0>{}(t0), h, "tiny_string");
	CHECK_EQ(seq::hasher<T0>{}(grown), h, "grown tiny_string");
	CHECK_EQ(seq::hasher<T0>{}(t2), h, "other capacity");
	CHECK_EQ(seq::hasher<T2>{}(t2), h, "tiny_string<40>");
	CHECK_EQ(seq::hasher<T2>{}(t0), h, "other capacity");
	CHECK_EQ(seq::hasher<T0>{}(a), h, "string through the tiny_string hasher");
	CHECK_EQ(seq::hasher<T0>{}(tv), h, "tiny view");
	CHECK_EQ(seq::hasher<TV>{}(tv), h, "tiny view");
	CHECK_EQ(seq::hasher<S>{}(tv), h, "tiny view through the string hasher");
	CHECK_EQ(seq::hasher<S>{}(t2), h, "tiny_string through the string hasher");
	CHECK_EQ(std::hash<T0>{}(t0), std::hash<T0>{}(t2), "std::hash");
	CHECK_EQ(std::hash<T0>{}(t0), std::hash<T0>{}(a), "std::hash of a string");
	CHECK_EQ(std::hash<T0>{}(t0), std::hash<T2>{}(grown), "std::hash");
	CHECK_EQ(std::hash<TV>{}(tv), std::hash<T0>{}(t0), "std::hash of a view");
	if (a.find((C)0) == S::npos) {
		CHECK_EQ(seq::hasher<S>{}(a.c_str()), h, "C string");
		CHECK_EQ(seq::hasher<T0>{}(t0.c_str()), h, "C string through the tiny_string hasher");
		CHECK_EQ(seq::hasher<V>{}(a.c_str()), h, "C string through the view hasher");
		CHECK_EQ(std::hash<T0>{}(a.c_str()), std::hash<T0>{}(t0), "std::hash of a C string");
	}
	if (!a.empty()) {
		S b = a;
		size_t at = s.raw(a.size());
		b[at] = (C)(b[at] ^ (C)(1u << s.raw(7)));
		CHECK(seq::hasher<S>{}(b) != h, "different strings");
		T0 u(b.data(), b.size());
		CHECK(seq::hasher<T0>{}(u) != h, "different strings");
		b = a.substr(0, a.size() - 1);
		CHECK(seq::hasher<S>{}(b) != h, "a prefix");
	}
	if (a.size() > 3)
		s.nontrivial();
}
PROP_FN(strings_char, strings<char>, 15000);
PROP_FN(strings_wchar, strings<wchar_t>, 10000);
PROP_FN(strings_char16, strings<char16_t>, 10000);
PROP(composites, 25000)
{
	using P = std::pair<int, std::string>;
	using T = std::tuple<int, std::string, uint64_t, std::pair<short, char>>;
	int a = (int)s.bits64();
	std::string b = text<char>(s);
	uint64_t c = s.bits64();
	short d = (short)s.bits64();
	char e = (char)s.raw(256);
	T t(a, b, c, { d, e });
	seq::hasher<T> h;
	T copy = t;
	CHECK_EQ(h(t), h(copy), "equal tuples");
	T u = t;
	unsigned bit = (unsigned)s.raw(64);
	unsigned which = (unsigned)s.raw(5);
	switch (which) {
		case 0: std::get<0>(u) ^= (int)(1u << (bit % 32)); break;
		case 1: std::get<1>(u).push_back((char)s.raw(4)); break;
		case 2: std::get<2>(u) ^= 1ull << bit; break;
		case 3: std::get<3>(u).first = (short)(d ^ (1 << (bit % 15))); break;
		default: std::get<3>(u).second = (char)(e ^ (1 << (bit % 7))); break;
	}
	CHECK(h(u) != h(t), "changing member", which);
	P p(a, b), q = p;
	seq::hasher<P> hp;
	CHECK_EQ(hp(p), hp(q), "equal pairs");
	q.first ^= (int)(1u << (bit % 32));
	CHECK(hp(p) != hp(q), "first of a pair");
	q = p;
	q.second.insert(s.raw(b.size() + 1), 1, 'z');
	CHECK(hp(p) != hp(q), "second of a pair");
	std::pair<uint64_t, uint64_t> x(c, (uint64_t)a), y((uint64_t)a, c);
	if (x != y)
		CHECK((seq::hasher<std::pair<uint64_t, uint64_t>>{}(x) != seq::hasher<std::pair<uint64_t, uint64_t>>{}(y)), "members swapped");
	std::tuple<uint64_t, uint64_t> tx(c, (uint64_t)a), ty((uint64_t)a, c);
	if (tx != ty)
		CHECK((seq::hasher<std::tuple<uint64_t, uint64_t>>{}(tx) != seq::hasher<std::tuple<uint64_t, uint64_t>>{}(ty)), "members swapped");
	std::tuple<double> z1(0.0), z2(-0.0);
	CHECK_EQ(seq::hasher<std::tuple<double>>{}(z1), seq::hasher<std::tuple<double>>{}(z2), "equal tuples of doubles");
	s.nontrivial();
}

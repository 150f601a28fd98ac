// C18: bit manipulation functions against bit-by-bit definitions.
// Parts: 0 native clang, 1 the portable 128-bit multiplication (-U__SIZEOF_INT128__).
#include "vpt.hpp"
#if VPT_PART == 1
#undef __SIZEOF_INT128__
#endif
#include "types.hpp"
#include <seq/bits.hpp>
#include <seq/utils.hpp>
#include <vector>
#include <algorithm>
#include <utility>

using vpt::Src;

static unsigned naive_pop(uint64_t v, unsigned bits)
{
	unsigned r = 0;
	for (unsigned i = 0; i < bits; ++i)
		r += (v >> i) & 1;
	return r;
}
static unsigned naive_low(uint64_t v, unsigned bits)
{
	for (unsigned i = 0; i < bits; ++i)
		if ((v >> i) & 1)
			return i;
	return bits;
}
static unsigned naive_high(uint64_t v, unsigned bits)
{
	for (unsigned i = bits; i-- > 0;)
		if ((v >> i) & 1)
			return i;
	return bits;
}
template<class T>
static unsigned naive_digits(T v)
{
	unsigned n = 1;
	while (v >= 10) {
		v = (T)(v / 10);
		++n;
	}
	return n;
}
template<class T>
static T naive_reverse(T v)
{
	using U = std::make_unsigned_t<T>;
	U u = (U)v, r = 0;
	for (unsigned i = 0; i < sizeof(T) * 8; ++i)
		if ((u >> i) & 1)
			r = (U)(r | ((U)1 << (sizeof(T) * 8 - 1 - i)));
	return (T)r;
}
template<class T>
static T naive_swap(T v)
{
	T r = 0;
	for (unsigned i = 0; i < sizeof(T); ++i)
		r = (T)(r | (T)(((v >> (8 * i)) & 0xFF)) << (8 * (sizeof(T) - 1 - i)));
	return r;
}

// words that matter for digit counts: powers of ten and neighbours
static uint64_t word(Src& s)
{
	switch (s.raw(4)) {
		case 0: {
			uint64_t p = 1;
			unsigned n = (unsigned)s.raw(20);
			for (unsigned i = 0; i < n; ++i)
				p *= 10;
			return p * (1 + s.raw(9)) + s.raw(3) - 1;
		}
		case 1: {
			// few or many bits
			uint64_t v = 0;
			unsigned n = (unsigned)s.raw(4);
			for (unsigned i = 0; i < n; ++i)
				v |= 1ull << s.raw(64);
			return s.flip() ? v : ~v;
		}
		case 2: {
			// runs of ones
			unsigned a = (unsigned)s.raw(64), l = 1 + (unsigned)s.raw(64 - a);
			uint64_t v = (l >= 64 ? ~0ull : ((1ull << l) - 1)) << a;
			return s.flip() ? v : v ^ (1ull << s.raw(64));
		}
		default: return s.bits64();
	}
}

template<size_t N>
static void consecutive(uint64_t v)
{
	unsigned want = (unsigned)-1;
	for (unsigned i = 0; i + N <= 64; ++i) {
		bool all = true;
		for (unsigned k = 0; k < N; ++k)
			all = all && ((v >> (i + k)) & 1);
		if (all) {
			want = i;
			break;
		}
	}
	CHECK_EQ(seq::consecutive_N_bits<N>(v), want, "consecutive_N_bits<", N, ">(", v, ")");
}
template<size_t... I>
static void consecutive_all(uint64_t v, std::index_sequence<I...>)
{
	(consecutive<I + 1>(v), ...);
}

#if VPT_PART == 0
PROP(words, 6000)
{
	s.times(40, [&](size_t) {
		uint64_t v = word(s);
		s.note("word", v);
		uint32_t v32 = (uint32_t)(s.flip() ? v : v >> 32);
		uint16_t v16 = (uint16_t)(v >> s.raw(49));
		uint8_t v8 = (uint8_t)(v >> s.raw(57));
		CHECK_EQ((unsigned)seq::popcnt64(v), naive_pop(v, 64), v);
		CHECK_EQ((unsigned)seq::detail::popcount64(v), naive_pop(v, 64), v);
		CHECK_EQ((unsigned)seq::popcnt32(v32), naive_pop(v32, 32), v32);
		CHECK_EQ((unsigned)seq::detail::popcount32(v32), naive_pop(v32, 32), v32);
		CHECK_EQ((unsigned)seq::popcnt16(v16), naive_pop(v16, 16), v16);
		CHECK_EQ((unsigned)seq::popcnt8(v8), naive_pop(v8, 8), (int)v8);
		CHECK_EQ(seq::bit_scan_forward_8(v8), naive_low(v8, 8), (int)v8);
		CHECK_EQ(seq::bit_scan_reverse_8(v8), naive_high(v8, 8), (int)v8);
		if (v32) {
			CHECK_EQ(seq::bit_scan_forward_32(v32), naive_low(v32, 32), v32);
			CHECK_EQ(seq::bit_scan_reverse_32(v32), naive_high(v32, 32), v32);
		}
		if (v) {
			CHECK_EQ(seq::bit_scan_forward_64(v), naive_low(v, 64), v);
			CHECK_EQ(seq::bit_scan_reverse_64(v), naive_high(v, 64), v);
			CHECK_EQ(seq::bit_scan_forward((size_t)v), naive_low(v, 64), v);
			CHECK_EQ(seq::bit_scan_reverse((size_t)v), naive_high(v, 64), v);
		}
		CHECK_EQ(seq::count_digits_base_10(v), naive_digits(v), v);
		CHECK_EQ(seq::count_digits_base_10(v32), naive_digits(v32), v32);
		CHECK_EQ(seq::count_digits_base_10(v16), naive_digits(v16), v16);
		CHECK_EQ(seq::count_digits_base_10(v8), naive_digits(v8), (int)v8);
		CHECK_EQ(seq::count_digits_base_10((unsigned long long)v), naive_digits(v), v);
		unsigned n = (unsigned)s.raw(70), want = 64;
		for (unsigned i = 0, c = 0; i < 64; ++i)
			if ((v >> i) & 1)
				if (c++ == n) {
					want = i;
					break;
				}
		CHECK_EQ(seq::nth_bit_set(v, n), want, v, n);
		CHECK_EQ(seq::detail::generic_nth_bit_set(v, n), want, v, n);
		CHECK_EQ(seq::byte_swap_64(v), naive_swap(v), v);
		CHECK_EQ(seq::byte_swap_32(v32), naive_swap(v32), v32);
		CHECK_EQ(seq::byte_swap_16(v16), naive_swap(v16), v16);
		CHECK_EQ(seq::reverse_bits(v), naive_reverse(v), v);
		CHECK_EQ(seq::reverse_bits((int64_t)v), naive_reverse((int64_t)v), v);
		CHECK_EQ(seq::reverse_bits(v32), naive_reverse(v32), v32);
		CHECK_EQ(seq::reverse_bits((int32_t)v32), naive_reverse((int32_t)v32), v32);
		CHECK_EQ(seq::reverse_bits(v16), naive_reverse(v16), v16);
		CHECK_EQ(seq::reverse_bits((int16_t)v16), naive_reverse((int16_t)v16), v16);
		CHECK_EQ((int)seq::reverse_bits(v8), (int)naive_reverse(v8), (int)v8);
		CHECK_EQ((int)seq::reverse_bits((int8_t)v8), (int)naive_reverse((int8_t)v8), (int)v8);
		if (s.chance(1, 4))
			consecutive_all(v, std::make_index_sequence<64>());
	});
	s.nontrivial();
}
// Every 8 and 16 bit word.
PROP(small_words_exhaustive, 1)
{
	for (unsigned hi = 0; hi < 256; ++hi)
	for (unsigned lo = 0; lo < 256; ++lo) {
		uint16_t v = (uint16_t)(hi * 256 + lo);
		CHECK_EQ((unsigned)seq::popcnt16(v), naive_pop(v, 16), v);
		CHECK_EQ((unsigned)seq::popcnt8((uint8_t)lo), naive_pop(lo, 8), lo);
		CHECK_EQ(seq::bit_scan_forward_8((uint8_t)lo), naive_low(lo, 8), lo);
		CHECK_EQ(seq::bit_scan_reverse_8((uint8_t)lo), naive_high(lo, 8), lo);
		CHECK_EQ(seq::byte_swap_16(v), naive_swap(v), v);
		CHECK_EQ(seq::reverse_bits(v), naive_reverse(v), v);
		CHECK_EQ((int)seq::reverse_bits((uint8_t)lo), (int)naive_reverse((uint8_t)lo), lo);
		CHECK_EQ(seq::count_digits_base_10(v), naive_digits(v), v);
		CHECK_EQ(seq::count_digits_base_10((uint8_t)lo), naive_digits((uint8_t)lo), lo);
		CHECK_EQ(seq::count_digits_base_10((uint32_t)v << 16), naive_digits((uint32_t)v << 16), v);
		CHECK_EQ(seq::popcnt32((uint32_t)v << 16), naive_pop(v, 16), v);
	}
	s.nontrivial();
}
// Reads and writes at every alignment, in the byte order their name says; nothing around is touched.
PROP(endian, 3000)
{
	s.times(20, [&](size_t) {
		uint64_t v = s.bits64();
		size_t off = s.raw(9);
		unsigned char buf[32], ref[32];
		for (int i = 0; i < 32; ++i)
			buf[i] = ref[i] = (unsigned char)(0xA0 + i);
		unsigned char* p = buf + 8 + off;
		auto le = [&](unsigned n) {
			for (unsigned i = 0; i < n; ++i)
				ref[8 + off + i] = (unsigned char)(v >> (8 * i));
		};
		auto be = [&](unsigned n) {
			for (unsigned i = 0; i < n; ++i)
				ref[8 + off + i] = (unsigned char)(v >> (8 * (n - 1 - i)));
		};
		unsigned w = (unsigned)s.raw(5);
		s.note("write", w, v, off);
		switch (w) {
			case 0: seq::write_LE_16(p, (uint16_t)v); le(2); break;
			case 1: seq::write_LE_32(p, (uint32_t)v); le(4); break;
			case 2: seq::write_LE_64(p, v); le(8); break;
			case 3: seq::write_BE_64(p, v); be(8); break;
			default: seq::write_size_t(p, (size_t)v); le(8); break;
		}
		CHECK(!memcmp(buf, ref, 32), "write kind", w, "value", v, "offset", off);
		uint64_t l = 0, b = 0;
		for (unsigned i = 0; i < 8; ++i) {
			buf[8 + off + i] = ref[8 + off + i] = (unsigned char)s.raw(256);
			l |= (uint64_t)p[i] << (8 * i);
			b |= (uint64_t)p[i] << (8 * (7 - i));
		}
		// exact-size heap copies, so that a read past the word is an ASan error
		auto ex = [&](unsigned n) {
			std::vector<unsigned char> x(p, p + n);
			return x;
		};
		auto e2 = ex(2), e4 = ex(4), e8 = ex(8);
		CHECK_EQ(seq::read_LE_16(e2.data()), (uint16_t)l, l);
		CHECK_EQ(seq::read_LE_32(e4.data()), (uint32_t)l, l);
		CHECK_EQ(seq::read_LE_64(e8.data()), l, l);
		CHECK_EQ(seq::read_BE_16(e2.data()), (uint16_t)(b >> 48), b);
		CHECK_EQ(seq::read_BE_32(e4.data()), (uint32_t)(b >> 32), b);
		CHECK_EQ(seq::read_BE_64(e8.data()), b, b);
		CHECK_EQ(seq::read_16(p), (uint16_t)l, l);
		CHECK_EQ(seq::read_32(p), (uint32_t)l, l);
		CHECK_EQ(seq::read_64(p), l, l);
		CHECK_EQ(seq::read_ptr_t(p), (uintptr_t)l, l);
		CHECK_EQ(seq::read_size_t(p), (size_t)l, l);
		CHECK_EQ(seq::read_LE_size_t(e8.data()), (size_t)l, l);
		CHECK_EQ(seq::read_BE_size_t(e8.data()), (size_t)b, b);
		CHECK(!memcmp(buf, ref, 32), "reads do not write");
	});
	s.nontrivial();
}
// Compile-time scan of every power of two, its neighbours and a few others.
template<size_t S>
static void st()
{
	CHECK_EQ((size_t)seq::static_bit_scan_reverse<S>::value, (size_t)naive_high(S, 64), S);
}
template<size_t... I>
static void st_all(std::index_sequence<I...>)
{
	(st<((size_t)1 << I)>(), ...);
	(st<(((size_t)1 << I) + (((size_t)1 << I) - 1))>(), ...);
	(st<(((size_t)1 << I) | 1)>(), ...);
	(st<I + 1>(), ...);
	(st<((size_t)0x9E3779B97F4A7C15ull >> I)>(), ...);
}
PROP(static_scan, 1)
{
	st_all(std::make_index_sequence<64>());
	s.nontrivial();
}
template<class M, class F>
static void alloc_history(Src& s, M alloc, F fre, size_t min_align)
{
	struct B
	{
		unsigned char* p;
		size_t n, al;
		unsigned char fill;
	};
	std::vector<B> live;
	s.repeat(40, 200, [&](size_t) {
		if (live.empty() || s.chance(2, 3)) {
			size_t al = min_align << s.raw(10);
			size_t n = s.size(5000);
			auto* p = (unsigned char*)alloc(n, al);
			s.note("alloc", n, al);
			CHECK(p != nullptr, "size", n, "align", al);
			CHECK((uintptr_t)p % al == 0, "size", n, "align", al);
			B b{ p, n, al, (unsigned char)s.raw(256) };
			for (auto& o : live)
				CHECK(p + n <= o.p || o.p + o.n <= p || !n || !o.n, "blocks overlap");
			memset(p, b.fill, n);
			live.push_back(b);
		}
		else {
			size_t i = s.raw(live.size());
			for (size_t k = 0; k < live[i].n; ++k)
				CHECK(live[i].p[k] == live[i].fill, "block changed at", k);
			fre(live[i].p);
			live.erase(live.begin() + (ptrdiff_t)i);
		}
	});
	for (auto& b : live) {
		for (size_t k = 0; k < b.n; ++k)
			CHECK(b.p[k] == b.fill, "block changed at", k);
		fre(b.p);
	}
	s.nontrivial();
}
PROP(aligned, 1500) { alloc_history(s, [](size_t n, size_t a) { return seq::aligned_malloc(n, a); }, [](void* p) { seq::aligned_free(p); }, sizeof(void*)); }
PROP(handmade_aligned, 1500)
{
	alloc_history(s, [](size_t n, size_t a) { return seq::detail::handmade_aligned_malloc(n, a); }, [](void* p) { seq::detail::handmade_aligned_free(p); }, 1);
	CHECK(seq::detail::handmade_aligned_malloc(SIZE_MAX - s.raw(16), 16) == nullptr, "an impossible size gives null");
	seq::detail::handmade_aligned_free(nullptr);
}
template<class T, class Base, size_t Align>
static void allocator_history(Src& s, Base base)
{
	using A = seq::aligned_allocator<T, Base, Align>;
	A al(base);
	CHECK(A::alignment >= Align, "alignment");
	CHECK(al == A(base), "allocators built from equal ones are equal");
	struct B
	{
		T* p;
		size_t n;
		unsigned char fill;
	};
	std::vector<B> live;
	auto verify = [&](const B& b) {
		auto* c = (unsigned char*)b.p;
		for (size_t k = 0; k < b.n * sizeof(T); ++k)
			CHECK(c[k] == b.fill, "block changed at", k);
	};
	s.repeat(40, 200, [&](size_t) {
		if (live.empty() || s.chance(2, 3)) {
			size_t n = 1 + s.size(600);
			A a2(al);
			T* p = s.flip() ? al.allocate(n) : a2.allocate(n);
			CHECK(p != nullptr && (uintptr_t)p % A::alignment == 0, "n", n);
			B b{ p, n, (unsigned char)s.raw(256) };
			for (auto& o : live)
				CHECK(p + n <= o.p || o.p + o.n <= p, "blocks overlap");
			memset((void*)p, b.fill, n * sizeof(T));
			live.push_back(b);
		}
		else {
			size_t i = s.raw(live.size());
			verify(live[i]);
			al.deallocate(live[i].p, live[i].n);
			live.erase(live.begin() + (ptrdiff_t)i);
		}
	});
	for (auto& b : live) {
		verify(b);
		al.deallocate(b.p, b.n);
	}
	s.nontrivial();
}
PROP(allocator_std, 900)
{
	switch (s.raw(4)) {
		case 0: return allocator_history<int, std::allocator<int>, 0>(s, {});
		case 1: return allocator_history<char, std::allocator<char>, 64>(s, {});
		case 2: return allocator_history<double, std::allocator<double>, 4096>(s, {});
		default: return allocator_history<int, std::allocator<int>, 32>(s, {});
	}
}
PROP(allocator_user, 900)
{
	ty::Ledger led;
	{
		switch (s.raw(4)) {
			case 0: allocator_history<int, ty::TrackAlloc<int>, 0>(s, ty::TrackAlloc<int>(3)); break;
			case 1: allocator_history<char, ty::TrackAlloc<char>, 64>(s, ty::TrackAlloc<char>(3)); break;
			case 2: allocator_history<double, ty::TrackAlloc<double>, 4096>(s, ty::TrackAlloc<double>(3)); break;
			default: allocator_history<short, ty::TrackAlloc<short>, 128>(s, ty::TrackAlloc<short>(3)); break;
		}
	}
	led.settle();
}
#endif
PROP(umul, 4000)
{
	s.times(60, [&](size_t) {
		uint64_t a = s.bits64(), b = s.bits64(), l = 1, h = 2;
		s.note("umul128", a, b);
		seq::umul128(a, b, &l, &h);
		// 16 limbs of 8 bits
		unsigned char r[17] = {};
		for (int i = 0; i < 8; ++i) {
			unsigned c = 0;
			for (int j = 0; j < 8; ++j) {
				unsigned t = (unsigned)((a >> (8 * i)) & 255) * (unsigned)((b >> (8 * j)) & 255) + r[i + j] + c;
				r[i + j] = (unsigned char)t;
				c = t >> 8;
			}
			for (int k = i + 8; c && k < 16; ++k) {
				unsigned t = r[k] + c;
				r[k] = (unsigned char)t;
				c = t >> 8;
			}
		}
		uint64_t wl = 0, wh = 0;
		for (int i = 0; i < 8; ++i) {
			wl |= (uint64_t)r[i] << (8 * i);
			wh |= (uint64_t)r[i + 8] << (8 * i);
		}
		CHECK_EQ(l, wl, a, b);
		CHECK_EQ(h, wh, a, b);
		// outputs may be the inputs' own variables
		uint64_t x = a, y = b;
		seq::umul128(x, y, &x, &y);
		CHECK_EQ(x, wl, a, b);
		CHECK_EQ(y, wh, a, b);
	});
	s.nontrivial();
}

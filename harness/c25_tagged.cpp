// C25: tagged_pointer against a (pointer, tag) pair.
#include "vpt.hpp"
#include <seq/tagged_pointer.hpp>
#include <memory>
#include <vector>

using vpt::Src;
struct alignas(64) Line
{
	int v;
};
struct Pair
{
	int a;
	short b;
};
template<class P>
struct Access
{
	static void deref(P& p, typename P::pointer want)
	{
		if (!want)
			return;
		CHECK(&*p == want, "operator*");
		const P& c = p;
		CHECK(&*c == want, "const operator*");
	}
};
template<seq::TagPointerType T, size_t U>
struct Access<seq::tagged_pointer<void, T, U>>
{
	static void deref(seq::tagged_pointer<void, T, U>&, void*) {}
};

// T: pointee type, P: tagged pointer, A: alignment guaranteed
template<class T, seq::TagPointerType Type, size_t User, size_t Align, size_t Bits>
static void history(Src& s)
{
	using P = seq::tagged_pointer<T, Type, User>;
	CHECK_EQ((size_t)P::tag_bits, Bits, "tag bits");
	CHECK_EQ((uintptr_t)P::mask_low, ((uintptr_t)1 << Bits) - 1, "mask_low");
	CHECK_EQ((uintptr_t)P::mask_high, ~(((uintptr_t)1 << Bits) - 1), "mask_high");
	constexpr size_t N = 4096;
	static unsigned char storage[N + 4096];
	auto base = ((uintptr_t)storage + 4095) & ~(uintptr_t)4095;
	auto gen_ptr = [&]() -> T* {
		switch (s.raw(6)) {
			case 0: return nullptr;
			case 1: // an address with many bits set: never dereferenced
				return reinterpret_cast<T*>((uintptr_t)(s.bits64() & ~(uint64_t)(Align - 1)));
			default: return reinterpret_cast<T*>(base + Align * s.raw((N - 64) / Align));
		}
	};
	auto gen_tag = [&]() -> uintptr_t { return s.raw((uint64_t)1 << Bits); };
	struct M
	{
		T* p;
		uintptr_t t;
	};
	P ps[2];
	M ms[2] = { { nullptr, 0 }, { nullptr, 0 } };
	auto inside = [&](T* p) { return (uintptr_t)p >= base && (uintptr_t)p < base + N; };
	auto check = [&](int i) {
		P& p = ps[i];
		const P& c = ps[i];
		CHECK(p.ptr() == ms[i].p, "ptr");
		CHECK(c.ptr() == ms[i].p, "const ptr");
		CHECK_EQ(c.tag(), ms[i].t, "tag");
		CHECK_EQ(c.full(), (uintptr_t)ms[i].p | ms[i].t, "full");
		auto sp = p.split();
		CHECK(sp.first == ms[i].p && sp.second == ms[i].t, "split");
		auto csp = c.split();
		CHECK(csp.first == ms[i].p && csp.second == ms[i].t, "const split");
		CHECK((T*)p == ms[i].p, "conversion");
		CHECK((const T*)c == ms[i].p, "const conversion");
		CHECK(p.operator->() == ms[i].p, "->");
		CHECK(c.operator->() == ms[i].p, "const ->");
		if (inside(ms[i].p))
			Access<P>::deref(p, ms[i].p);
	};
	int ops = 0;
	s.repeat(25, 200, [&](size_t) {
		int i = (int)s.raw(2);
		switch (s.raw(9)) {
			case 0: {
				auto p = gen_ptr();
				ps[i] = P(p);
				ms[i] = { p, 0 };
				break;
			}
			case 1: {
				auto p = gen_ptr();
				auto t = gen_tag();
				ps[i] = P(p, t);
				ms[i] = { p, t };
				break;
			}
			case 2:
			case 3: {
				auto p = gen_ptr();
				ps[i].set_ptr(p);
				ms[i].p = p;
				break;
			}
			case 4:
			case 5: {
				auto t = gen_tag();
				CHECK_EQ(ps[i].set_tag(t), t, "set_tag result");
				ms[i].t = t;
				break;
			}
			case 6: {
				auto p = gen_ptr();
				auto t = gen_tag();
				ps[i].set(p, t);
				ms[i] = { p, t };
				break;
			}
			case 7:
				ps[i] = ps[1 - i];
				ms[i] = ms[1 - i];
				break;
			default: {
				auto f = ps[1 - i].full();
				CHECK_EQ(ps[i].set_full(f), f, "set_full result");
				ms[i] = ms[1 - i];
				break;
			}
		}
		++ops;
		check(0);
		check(1);
	});
	if (ops >= 3)
		s.nontrivial();
}
PROP_FN(stack_char, (history<char, seq::StackPointer, 0, 1, 0>), 700);
PROP_FN(stack_short, (history<short, seq::StackPointer, 0, 2, 1>), 700);
PROP_FN(stack_int, (history<int, seq::StackPointer, 0, 4, 2>), 700);
PROP_FN(stack_double, (history<double, seq::StackPointer, 0, 8, 3>), 700);
PROP_FN(stack_pair, (history<Pair, seq::StackPointer, 0, 4, 2>), 700);
PROP_FN(stack_line, (history<Line, seq::StackPointer, 0, 64, 6>), 700);
PROP_FN(heap_char, (history<char, seq::HeapPointer, 0, SEQ_DEFAULT_ALIGNMENT, (SEQ_DEFAULT_ALIGNMENT == 16 ? 4 : 3)>), 700);
PROP_FN(heap_pair, (history<Pair, seq::HeapPointer, 0, SEQ_DEFAULT_ALIGNMENT, (SEQ_DEFAULT_ALIGNMENT == 16 ? 4 : 3)>), 700);
PROP_FN(custom_char_1, (history<char, seq::CustomAlignment, 1, 1, 0>), 400);
PROP_FN(custom_int_32, (history<int, seq::CustomAlignment, 32, 32, 5>), 700);
PROP_FN(custom_int_4096, (history<int, seq::CustomAlignment, 4096, 4096, 12>), 700);
PROP_FN(void_heap, (history<void, seq::HeapPointer, 0, SEQ_DEFAULT_ALIGNMENT, (SEQ_DEFAULT_ALIGNMENT == 16 ? 4 : 3)>), 700);
PROP_FN(void_custom, (history<void, seq::CustomAlignment, 8, 8, 3>), 700);
PROP_FN(void_custom_1, (history<void, seq::CustomAlignment, 1, 1, 0>), 300);
PROP_FN(void_custom_64, (history<void, seq::CustomAlignment, 64, 64, 6>), 700);
PROP_FN(void_custom_4096, (history<void, seq::CustomAlignment, 4096, 4096, 12>), 700);
PROP_FN(custom_double_2, (history<double, seq::CustomAlignment, 2, 2, 1>), 400);
PROP_FN(custom_pair_256, (history<Pair, seq::CustomAlignment, 256, 256, 8>), 700);

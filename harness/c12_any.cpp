// C12: hold_any against a model: value semantics, comparison, hash, casts, streams and formatting.
#include "vpt.hpp"
#include "types.hpp"
#include <cmath>
#include <cstdlib>
#include <deque>
#include <limits>
#include <memory>
#include <sstream>
#include <string>
#include <string_view>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <vector>

// heap storage of hold_any: counted, may fail (throw or null)
namespace c12 {
struct Heap
{
	std::unordered_map<void*, size_t> blocks;
	bool null_once = false;
};
inline Heap& heap()
{
	static Heap h;
	return h;
}
inline void* any_malloc(size_t n)
{
	try {
		ty::tick(6);
	}
	catch (const ty::InjectedFault&) {
		if (heap().null_once) {
			heap().null_once = false;
			return nullptr;
		}
		throw;
	}
	void* p = std::malloc(n ? n : 1);
	heap().blocks[p] = n;
	return p;
}
inline void any_free(void* p)
{
	if (!heap().blocks.erase(p))
		ty::report("hold_any: release of a block that it did not allocate");
	std::free(p);
}
}
#define SEQ_ANY_MALLOC c12::any_malloc
#define SEQ_ANY_FREE c12::any_free
#include <seq/any.hpp>

using vpt::Src;

// ------------------------------------------------------------------ held types
// Objects known by their address. A: alignment, P: bytes of padding.
template<int Id, size_t P, size_t A, bool Assign, bool Copy, bool ThrowMove>
struct alignas(A) Held
{
	static inline std::unordered_map<const void*, int> alive;
	int32_t k;
	char pad[P];
	void born()
	{
		if (!alive.emplace(this, 1).second)
			ty::report("object built on another one which is still alive");
		if ((uintptr_t)this % A)
			ty::report("misaligned object");
		for (auto& c : pad)
			c = (char)k;
	}
	void check(const char* what) const
	{
		if (!alive.count(this))
			ty::report(what);
	}
	explicit Held(int64_t v)
	  : k((int32_t)v)
	{
		ty::tick(1);
		born();
	}
	Held(const Held& o)
	  : k(o.k)
	{
		static_assert(Copy, "copy of a move only object");
		o.check("copy of a dead object");
		ty::tick(1);
		born();
	}
	Held(Held&& o) noexcept(!ThrowMove)
	  : k(o.k)
	{
		o.check("move of a dead object");
		if (ThrowMove)
			ty::tick(2);
		o.k = -777;
		born();
	}
	Held& operator=(const Held& o)
	{
		o.check("assignment from a dead object");
		check("assignment to a dead object");
		ty::tick(3);
		k = o.k;
		return *this;
	}
	Held& operator=(Held&& o) noexcept(!ThrowMove)
	{
		o.check("assignment from a dead object");
		check("assignment to a dead object");
		if (ThrowMove)
			ty::tick(3);
		int32_t v = o.k;
		if (this != &o)
			o.k = -777;
		k = v;
		return *this;
	}
	~Held()
	{
		check("destruction of a dead object");
		alive.erase(this);
	}
	bool operator==(const Held& o) const
	{
		check("comparison of a dead object");
		o.check("comparison of a dead object");
		return k == o.k;
	}
	bool operator<(const Held& o) const { return k < o.k; }
};
// specializations of the special members
template<class H>
struct NoAssign : H
{
	using H::H;
	NoAssign(const NoAssign&) = default;
	NoAssign(NoAssign&&) = default;
	NoAssign& operator=(const NoAssign&) = delete;
	NoAssign& operator=(NoAssign&&) = delete;
	bool operator==(const NoAssign& o) const { return H::operator==(o); }
	bool operator<(const NoAssign& o) const { return H::operator<(o); }
};
template<class H>
struct MoveOnly : H
{
	using H::H;
	MoveOnly(const MoveOnly&) = delete;
	MoveOnly(MoveOnly&&) = default;
	MoveOnly& operator=(const MoveOnly&) = delete;
	MoveOnly& operator=(MoveOnly&&) = default;
	bool operator==(const MoveOnly& o) const { return H::operator==(o); }
	bool operator<(const MoveOnly& o) const { return H::operator<(o); }
};
template<int Id, size_t P, size_t A = 4, bool TM = false>
using H = Held<Id, P, A, true, true, TM>;
using SmallN = H<0, 4>;                    // 8 bytes, not relocatable
using SmallT = H<1, 4, 4, true>;           // same, moves may throw
using BigN = H<2, 40>;                     // large
using BigT = H<3, 40, 4, true>;
using Wide16 = H<4, 4, 16>;                // alignment over the one of the default storage
using Wide64 = H<5, 4, 64>;                // over the one of operator new
using SmallNA = NoAssign<H<6, 4>>;
using BigNA = NoAssign<H<7, 40>>;
using SmallMO = MoveOnly<H<8, 4>>;
using BigMO = MoveOnly<H<9, 40>>;
// no comparison, no stream, no hash
struct Bare
{
	int k;
};
// large, trivially copyable, not assignable
struct BigConst
{
	const int64_t k;
	int64_t fill[6];
	bool operator==(const BigConst& o) const { return k == o.k; }
	bool operator<(const BigConst& o) const { return k < o.k; }
};
struct SmallR // relocatable, one pointer
{
	std::unique_ptr<int64_t> p;
	explicit SmallR(int64_t v)
	  : p((ty::tick(1), new int64_t(v)))
	{
	}
	SmallR(const SmallR& o)
	  : p((ty::tick(1), o.p ? new int64_t(*o.p) : nullptr))
	{
	}
	SmallR(SmallR&& o) noexcept
	  : p(std::move(o.p))
	{
	}
	SmallR& operator=(const SmallR& o)
	{
		ty::tick(3);
		SmallR t(o);
		std::swap(p, t.p);
		return *this;
	}
	SmallR& operator=(SmallR&& o) noexcept
	{
		std::swap(p, o.p);
		return *this;
	}
	int64_t k() const { return p ? *p : -777; }
	bool operator==(const SmallR& o) const { return k() == o.k(); }
	bool operator<(const SmallR& o) const { return k() < o.k(); }
};
inline std::ostream& operator<<(std::ostream& o, const SmallR& s) { return o << "SmallR(" << s.k() << ")"; }
inline std::istream& operator>>(std::istream& i, SmallR& s)
{
	int64_t v = 0;
	if (i >> v)
		s = SmallR(v);
	return i;
}
enum class Enu : short
{
};
using IPair = std::pair<int, int>;
using Fun = int (*)(int);
inline int fun_a(int i) { return i; }
inline int fun_b(int i) { return i + 1; }

template<class A>
using Nested = std::vector<A>;

struct InfoInterface
{
	struct type_info : virtual seq::any_type_info
	{
		virtual const std::type_info& info() const = 0;
	};
	template<class T>
	struct typed_type_info
	  : type_info
	  , seq::any_typed_type_info<T>
	{
		const std::type_info& info() const override { return typeid(T); }
		size_t hash_any(const void* in) const override { return seq::any_typed_type_info<T>{}.hash_any(in) * UINT64_C(0xc4ceb9fe1a85ec53); }
	};
	template<class Base>
	struct any_interface : Base
	{
		const std::type_info& info() const { return this->type()->info(); }
	};
};
namespace seq {
template<int I, size_t P, size_t A, bool X, bool Y, bool Z>
struct is_relocatable<Held<I, P, A, X, Y, Z>> : std::false_type
{
};
template<class X>
struct is_relocatable<NoAssign<X>> : std::false_type
{
};
template<class X>
struct is_relocatable<MoveOnly<X>> : std::false_type
{
};
template<>
struct is_relocatable<SmallR> : std::true_type
{
};
template<int I, size_t P, size_t A, bool X, bool Y, bool Z>
struct is_hashable<Held<I, P, A, X, Y, Z>> : std::bool_constant<(I < 2)>
{
};
template<class X>
struct is_hashable<NoAssign<X>> : std::false_type
{
};
template<class X>
struct is_hashable<MoveOnly<X>> : std::false_type
{
};
template<>
struct is_hashable<Bare> : std::false_type
{
};
template<>
struct is_hashable<BigConst> : std::false_type
{
};
template<>
struct is_hashable<SmallR> : std::false_type
{
};
template<>
struct is_hashable<ty::Big> : std::false_type
{
};
template<>
struct is_hashable<IPair> : std::true_type
{
};
template<class I, size_t S, size_t Al, bool R>
struct is_hashable<std::vector<hold_any<I, S, Al, R>>> : std::false_type
{
};
}
namespace std {
template<int I, size_t P, size_t A, bool X, bool Y, bool Z>
struct hash<Held<I, P, A, X, Y, Z>>
{
	size_t operator()(const Held<I, P, A, X, Y, Z>& h) const { return (size_t)h.k; }
};
}

// ------------------------------------------------------------------ model
enum Family
{
	Arith,
	Text,
	Object, // by key
	Pointer,
	Nest
};
struct M
{
	int t = -1; // index of the type, -1: empty
	bool unspec = false;
	long double num = 0;
	std::string str;
	const void* ptr = nullptr;
	int64_t key = 0;
	std::vector<M> sub;
};
// texts for views and C strings: each at two addresses
struct Texts
{
	std::deque<std::string> all;
	std::vector<std::string> base = { "", "a", "ab", "abc", "abd", "12", "-7", "3.5", "1e2", "xyz", "Hello, this text does not fit in any small buffer", "007" };
	Texts()
	{
		for (int i = 0; i < 2; ++i)
			for (auto& t : base)
				all.push_back(t);
	}
};
inline Texts& texts()
{
	static Texts t;
	return t;
}
inline std::string& a_text(Src& s) { return texts().all[s.raw(texts().all.size())]; }
static int ints[4] = { 1, 2, 3, 4 };

template<class T, class = void>
struct V
{
	static constexpr Family family = Object;
	static T make(Src& s, M& m)
	{
		m.key = (int64_t)s.raw(8);
		if constexpr (std::is_constructible_v<T, int64_t>)
			return T(m.key);
		else if constexpr (std::is_same_v<T, BigConst>)
			return T{ m.key, { m.key, 1, 2, 3, 4, m.key } };
		else
			return T{ (int)m.key };
	}
	static bool same(const T& v, const M& m)
	{
		if constexpr (std::is_same_v<T, SmallR>)
			return v.k() == m.key;
		else if constexpr (std::is_same_v<T, BigConst>)
			return v.k == m.key && v.fill[0] == m.key && v.fill[5] == m.key;
		else if constexpr (std::is_same_v<T, ty::Big>)
			return v == ty::Big(m.key);
		else
			return v.k == m.key;
	}
};
template<class T>
struct V<T, std::enable_if_t<std::is_arithmetic_v<T>>>
{
	static constexpr Family family = Arith;
	static T make(Src& s, M& m)
	{
		T v;
		using L = std::numeric_limits<T>;
		if constexpr (std::is_floating_point_v<T>)
			v = s.pick<T>({ T(0), T(-0.0), T(1), T(-1), T(0.5), T(2), T(-2.5), T(127), T(255), T(65535), T(2147483648.0), T(9223372036854775808.0), T(-9223372036854775808.0), T(18446744073709551616.0), T(1e30), L::max(), L::lowest(),
			  L::infinity(), T(1) / T(3), std::nextafter(T(9223372036854775808.0), T(0)), std::nextafter(T(18446744073709551616.0), T(0)), T((int64_t)s.bits64()), L::denorm_min(), T(1e300L * 0 + 16777217.0) });
		else
			v = s.pick<T>({ T(0), T(1), T(2), T(-1), T(-2), L::max(), L::min(), T('a'), T(127), T(s.bits64()), T(255), T(16777217) });
		m.num = (long double)v;
		return v;
	}
	static bool same(const T& v, const M& m) { return (long double)v == m.num; }
};
template<class T>
struct V<T, std::enable_if_t<seq::is_generic_char_string<T>::value>>
{
	static constexpr Family family = Text;
	static T make(Src& s, M& m)
	{
		std::string& t = a_text(s);
		m.str = t;
		m.ptr = t.data();
		if constexpr (std::is_same_v<T, char*>)
			return &t[0];
		else if constexpr (std::is_same_v<T, const char*>)
			return t.c_str();
		else
			return T(t.data(), t.size());
	}
	static bool same(const T& v, const M& m)
	{
		if constexpr (std::is_pointer_v<T>)
			return v == m.ptr;
		else
			return std::string(v.data(), v.size()) == m.str;
	}
};
template<>
struct V<int*>
{
	static constexpr Family family = Pointer;
	static int* make(Src& s, M& m)
	{
		int* p = s.chance(1, 5) ? nullptr : ints + s.raw(4);
		m.ptr = p;
		return p;
	}
	static bool same(int* v, const M& m) { return v == m.ptr; }
};
template<>
struct V<Fun>
{
	static constexpr Family family = Pointer;
	static Fun make(Src& s, M& m)
	{
		Fun f = s.flip() ? fun_a : fun_b;
		m.ptr = reinterpret_cast<const void*>(f);
		return f;
	}
	static bool same(Fun v, const M& m) { return reinterpret_cast<const void*>(v) == m.ptr; }
};
template<>
struct V<Enu>
{
	static constexpr Family family = Object;
	static Enu make(Src& s, M& m)
	{
		m.key = (int64_t)s.raw(8);
		return (Enu)m.key;
	}
	static bool same(Enu v, const M& m) { return (int64_t)v == m.key; }
};
template<>
struct V<std::unique_ptr<int>>
{
	static constexpr Family family = Object;
	static std::unique_ptr<int> make(Src& s, M& m)
	{
		m.key = (int64_t)s.raw(8);
		return std::make_unique<int>((int)m.key);
	}
	static bool same(const std::unique_ptr<int>& v, const M& m) { return v && *v == m.key; }
};
template<>
struct V<IPair>
{
	static constexpr Family family = Object;
	static IPair make(Src& s, M& m)
	{
		m.key = (int64_t)s.raw(4);
		return { (int)m.key, (int)m.key };
	}
	static bool same(const IPair& v, const M& m) { return v.first == m.key && v.second == m.key; }
};
namespace std {
template<>
struct hash<IPair>
{
	size_t operator()(const IPair& h) const { return (size_t)h.first; }
};
}

template<class T>
struct Tag
{
	using type = T;
};
template<class... Ts>
struct List
{
	static constexpr int size = sizeof...(Ts);
	template<class F>
	static void with(int i, F&& f)
	{
		int j = 0;
		(void)((j++ == i ? (f(Tag<Ts>{}), true) : false) || ...);
	}
	static int id(int i)
	{
		int r = 0;
		with(i, [&](auto t) { r = seq::get_type_id<typename decltype(t)::type>(); });
		return r;
	}
};
using Types = List<char, signed char, short, int, long, long long, unsigned char, char16_t, char32_t, unsigned short, unsigned, unsigned long, unsigned long long, float, double, long double, // 0-15
  std::string, seq::tstring, seq::tstring_view, const char*, char*, std::string_view,                                                                                                      // 16-21
  SmallN, SmallT, BigN, BigT, Wide16, Wide64, SmallNA, BigNA, SmallMO, BigMO, Bare, BigConst, SmallR, ty::Big, int*, Fun, Enu, std::unique_ptr<int>, IPair>;
constexpr int NArith = 16, NText = 22, TConstChar = 19, TChar = 20, TInt = 3, TString = 16, TPair = Types::size - 1, TBare = 32, TNested = Types::size;
template<class T>
constexpr bool is_move_only = std::is_same_v<T, SmallMO> || std::is_same_v<T, BigMO> || std::is_same_v<T, std::unique_ptr<int>>;
template<class T>
constexpr bool is_hashed = std::is_arithmetic_v<T> || seq::is_generic_char_string<T>::value || std::is_same_v<T, SmallN> || std::is_same_v<T, SmallT> || std::is_pointer_v<T> || std::is_same_v<T, Enu> || std::is_same_v<T, IPair> ||
						   std::is_same_v<T, std::unique_ptr<int>>;
template<class T>
constexpr bool is_streamed = (std::is_arithmetic_v<T> && !std::is_same_v<T, char16_t> && !std::is_same_v<T, char32_t>) || seq::is_generic_char_string<T>::value || std::is_same_v<T, SmallR>;
template<class T>
constexpr bool is_less = !std::is_same_v<T, Bare>;

struct EqPair
{
	bool operator()(const IPair& a, int b) const { return a.first == b && a.second == b; }
};
struct LessPair
{
	bool operator()(const IPair& a, int b) const { return a.first < b && a.second < b; }
};
inline std::string pair_string(const IPair& p) { return std::to_string(p.first) + ";" + std::to_string(p.second); }
inline void register_all()
{
	static bool once = [] {
		seq::register_any_equal_comparison<IPair, int>(EqPair{});
		seq::register_any_less_comparison<IPair, int>(LessPair{});
		seq::register_any_conversion<IPair, std::string>(pair_string);
		seq::register_any_conversion<Enu, int>();
		return true;
	}();
	(void)once;
}
template<class T>
size_t alive_of()
{
	return T::alive.size();
}
inline size_t alive_objects()
{
	return SmallN::alive.size() + SmallT::alive.size() + BigN::alive.size() + BigT::alive.size() + Wide16::alive.size() + Wide64::alive.size() + SmallNA::alive.size() + BigNA::alive.size() + SmallMO::alive.size() + BigMO::alive.size();
}

// ------------------------------------------------------------------ comparisons predicted by the model
// 1 yes, 0 no, -1 throws, -2 not claimed
inline int m_equal(const M& a, const M& b)
{
	if (a.t < 0 || b.t < 0)
		return a.t < 0 && b.t < 0;
	if (a.t == TNested || b.t == TNested)
		return -2;
	if (a.t == TBare && b.t == TBare)
		return 0;
	if (a.t < NArith && b.t < NArith)
		return a.num == b.num;
	if (a.t == b.t && (a.t == TConstChar || a.t == TChar))
		return a.ptr == b.ptr;
	if (a.t >= NArith && a.t < NText && b.t >= NArith && b.t < NText)
		return a.str == b.str;
	if (a.t == TPair && b.t == TInt)
		return a.key == b.num;
	if (a.t != b.t)
		return 0;
	if (a.ptr || b.ptr)
		return a.ptr == b.ptr;
	bool up = false;
	Types::with(a.t, [&](auto t) { up = std::is_same_v<typename decltype(t)::type, std::unique_ptr<int>>; });
	if (up)
		return -2;
	return a.key == b.key;
}
inline int m_less(const M& a, const M& b)
{
	if (a.t < 0 || b.t < 0)
		return a.t < 0 && b.t >= 0;
	if (a.t == TNested || b.t == TNested)
		return -2;
	if (a.t == TBare && b.t == TBare)
		return -1;
	if (a.t < NArith && b.t < NArith)
		return a.num < b.num;
	if (a.t == b.t && (a.t == TConstChar || a.t == TChar))
		return std::less<const void*>()(a.ptr, b.ptr);
	if (a.t >= NArith && a.t < NText && b.t >= NArith && b.t < NText)
		return a.str < b.str;
	if (a.t == TPair && b.t == TInt)
		return a.key < b.num;
	if (a.t != b.t)
		return Types::id(a.t) < Types::id(b.t);
	bool up = false, ptr = false;
	Types::with(a.t, [&](auto t) {
		up = std::is_same_v<typename decltype(t)::type, std::unique_ptr<int>>;
		ptr = V<typename decltype(t)::type>::family == Pointer;
	});
	if (up)
		return -2;
	if (ptr)
		return std::less<const void*>()(a.ptr, b.ptr);
	return a.key < b.key;
}

template<class A>
struct is_hashable_any : std::true_type {};
template<size_t S, size_t L, bool R>
struct is_hashable_any<seq::hold_any<seq::any_no_hash_interface, S, L, R>> : std::false_type {};
template<class A>
struct Run
{
	static constexpr size_t N = 4;
	static constexpr bool Hashable = is_hashable_any<A>::value;
	Src& s;
	std::unique_ptr<A> v[N];
	M m[N];

	explicit Run(Src& src)
	  : s(src)
	{
		register_all();
		for (auto& p : v)
			p.reset(new A());
	}

	// ---------------------------------------------------------- one object against its model
	void check_one(const A& a, const M& mo, const char* what)
	{
		if (mo.unspec)
			return;
		CHECK_EQ(a.empty(), mo.t < 0, what, ": empty");
		CHECK_EQ(a.has_value(), mo.t >= 0, what, ": has_value");
		CHECK_EQ((bool)a, mo.t >= 0, what, ": bool");
		if (mo.t < 0) {
			CHECK_EQ(a.type_id(), 0, what, ": type id");
			CHECK(a.type() == nullptr, what, ": type");
			CHECK_EQ(a.sizeof_type(), size_t(0), what, ": sizeof");
			CHECK_EQ(a.hash(), size_t(0), what, ": hash");
			return;
		}
		if (mo.t == TNested) {
			CHECK(a.type() == A::template get_type<Nested<A>>(), what, ": type");
			auto& n = a.template cast<const Nested<A>&>();
			CHECK_EQ(n.size(), mo.sub.size(), what, ": nested size");
			for (size_t i = 0; i < n.size(); ++i)
				check_one(n[i], mo.sub[i], "nested");
			return;
		}
		Types::with(mo.t, [&](auto tag) {
			using T = typename decltype(tag)::type;
			CHECK(a.type() == A::template get_type<T>(), what, ": type");
			CHECK_EQ(a.type_id(), seq::get_type_id<T>(), what, ": type id");
			CHECK_EQ(a.sizeof_type(), sizeof(T), what, ": sizeof");
			CHECK_EQ((uintptr_t)a.data() % alignof(T), uintptr_t(0), what, ": alignment");
			const T& r = a.template cast<const T&>();
			CHECK((const void*)&r == a.data(), what, ": data");
			CHECK(V<T>::same(r, mo), what, ": value");
			CHECK(seq::any_cast<T>(&a) == &r, what, ": any_cast pointer");
			const T& q = seq::any_cast<const T&>(a);
			CHECK(&q == &r, what, ": any_cast reference");
			if constexpr (std::is_same_v<A, seq::hold_any<InfoInterface>>)
				CHECK(a.info() == typeid(T), what, ": info");
			constexpr size_t S = A::static_size;
			bool inplace = (const char*)a.data() >= (const char*)&a && (const char*)a.data() < (const char*)&a + sizeof(A);
			if (sizeof(T) > S)
				CHECK(!inplace, what, ": large object in place");
			if (A::relocatable && !seq::is_relocatable<T>::value)
				CHECK(!inplace, what, ": non relocatable object in place");
		});
	}
	void check_all(const char* what)
	{
		ty::check_violation();
		for (size_t i = 0; i < N; ++i)
			check_one(*v[i], m[i], what);
		ty::check_violation();
	}

	int gen_type()
	{
		switch (s.weighted({ 3, 3, 5 })) {
			case 0: return (int)s.raw(NArith);
			case 1: return NArith + (int)s.raw(NText - NArith);
			default: return NText + (int)s.raw(Types::size - NText);
		}
	}
	// after an exception: i holds what it had, or nothing
	void after_fault(size_t i, const char* what, bool may_keep)
	{
		ty::disarm();
		ty::check_violation();
		A& a = *v[i];
		if (a.empty()) {
			m[i] = M();
			return;
		}
		CHECK(may_keep, what, ": not empty after an exception");
		if (m[i].t >= TNested) {
			// the assignment of a std::vector is not atomic
			settle(i);
			return;
		}
		check_one(a, m[i], what);
	}
	bool arm_fault()
	{
		if (!s.chance(1, 5))
			return false;
		c12::heap().null_once = s.chance(1, 4);
		ty::arm((long)s.raw(3));
		return true;
	}

	// ---------------------------------------------------------- modifications
	void set_value(size_t i, int t)
	{
		Types::with(t, [&](auto tag) {
			using T = typename decltype(tag)::type;
			M n;
			n.t = t;
			T val = V<T>::make(s, n);
			int how = (int)s.raw(6);
			static const char* names[] = { "= lvalue", "= rvalue", "emplace", "new(lvalue)", "new(rvalue)", "make_any" };
			s.note(" ", i, names[how], "(", t, ")");
			// kept when the operation throws: construction of another object, or before the assignment
			if (is_move_only<T> && (how == 0 || how == 3))
				++how;
			bool armed = arm_fault();
			try {
				switch (how) {
					case 0:
						if constexpr (!is_move_only<T>)
							*v[i] = val;
						break;
					case 1: *v[i] = std::move(val); break;
					case 2: {
						T* r = nullptr;
						if constexpr (V<T>::family == Object && std::is_constructible_v<T, int64_t>)
							r = &v[i]->template emplace<T>(n.key);
						else
							r = &v[i]->template emplace<T>(std::move(val));
						CHECK(r == v[i]->data(), "emplace result");
						break;
					}
					case 3:
						if constexpr (!is_move_only<T>)
							v[i].reset(new A(val));
						break;
					case 4: v[i].reset(new A(std::move(val))); break;
					default: {
						if constexpr (V<T>::family == Object && std::is_constructible_v<T, int64_t>)
							*v[i] = seq::make_any<A, T>(n.key);
						else
							*v[i] = seq::make_any<A, T>(std::move(val));
						break;
					}
				}
				ty::disarm();
				m[i] = n;
				if (is_move_only<T>)
					s.classify("move only");
			}
			catch (const ty::InjectedFault&) {
				s.classify("exception");
				after_fault(i, "value after an exception", true);
			}
			catch (const std::bad_alloc&) {
				CHECK(armed, "bad_alloc");
				after_fault(i, "value after a failed allocation", true);
			}
		});
	}
	bool movable_only(const M& x)
	{
		bool r = false;
		if (x.t == TNested) {
			for (auto& y : x.sub)
				r = r || movable_only(y);
		}
		else if (x.t >= 0)
			Types::with(x.t, [&](auto tag) { r = is_move_only<typename decltype(tag)::type>; });
		return r;
	}
	template<class F>
	void copying(size_t i, size_t j, F&& f)
	{
		bool mo = movable_only(m[j]), armed = arm_fault();
		try {
			f();
			ty::disarm();
			CHECK(!mo, "copy of a move only object");
			m[i] = m[j];
		}
		catch (const std::bad_function_call&) {
			CHECK(mo, "bad_function_call");
			s.classify("copy of a move only object");
			after_fault(i, "copy of a move only object", true);
		}
		catch (const ty::InjectedFault&) {
			s.classify("exception");
			after_fault(i, "copy after an exception", true);
		}
		catch (const std::bad_alloc&) {
			CHECK(armed, "bad_alloc");
			after_fault(i, "copy after a failed allocation", true);
		}
	}
	// j was moved: it is empty or holds an object of the same type
	void moved(size_t j)
	{
		if (v[j]->empty())
			m[j] = M();
		else {
			CHECK(!m[j].unspec && m[j].t >= 0, "moved from an empty object");
			m[j].unspec = true;
			settle(j);
		}
	}
	// give a known value to an object in an unknown state
	void settle(size_t j)
	{
		switch (s.raw(3)) {
			case 0: v[j]->reset(); break;
			case 1: *v[j] = A(); break;
			default: v[j].reset(new A()); break;
		}
		m[j] = M();
	}
	void step()
	{
		size_t i = s.raw(N), j = s.raw(N);
		switch (s.weighted({ 10, 4, 4, 2, 3, 2, 2, 2, 3, 2 })) {
			case 0: set_value(i, s.chance(1, 4) && m[i].t >= 0 && m[i].t < TNested ? m[i].t : gen_type()); break;
			case 1: {
				s.note(" ", i, "=copy", j);
				copying(i, j, [&] {
					const A& o = *v[j];
					A& r = (*v[i] = o);
					CHECK(&r == v[i].get(), "result of the copy assignment");
				});
				break;
			}
			case 2: {
				if (i == j && m[i].t >= TNested)
					return; // self move of a std::vector
				s.note(" ", i, "=move", j);
				bool armed = arm_fault();
				M before = m[j];
				try {
					A& r = (*v[i] = std::move(*v[j]));
					CHECK(&r == v[i].get(), "result of the move assignment");
					ty::disarm();
					m[i] = before;
					if (i != j)
						moved(j);
					else if (!v[i]->empty() && m[i].t >= 0 && m[i].t < TNested) {
						// self move: still an object of this type
						m[i].unspec = true;
						settle(i);
					}
					else if (v[i]->empty())
						m[i] = M();
				}
				catch (const ty::InjectedFault&) {
					s.classify("exception in a move");
					after_fault(i, "move after an exception", true);
					if (j != i)
						moved(j);
				}
				catch (const std::bad_alloc&) {
					CHECK(armed, "bad_alloc");
					after_fault(i, "move after a failed allocation", true);
					if (j != i)
						moved(j);
				}
				break;
			}
			case 3: {
				s.note(" ", i, "=new copy", j);
				copying(i, j, [&] { v[i].reset(new A((const A&)*v[j])); });
				break;
			}
			case 4: {
				s.note(" ", i, "=new move", j);
				if (i == j)
					break;
				arm_fault();
				M before = m[j];
				try {
					v[i].reset(new A(std::move(*v[j])));
					ty::disarm();
					m[i] = before;
					moved(j);
				}
				catch (const ty::InjectedFault&) {
					s.classify("exception in a move");
					after_fault(i, "move construction after an exception", true);
					moved(j);
				}
				catch (const std::bad_alloc&) {
					after_fault(i, "move construction after a failed allocation", true);
					moved(j);
				}
				break;
			}
			case 5: {
				s.note(" swap", i, j);
				if (s.flip())
					v[i]->swap(*v[j]);
				else {
					using std::swap;
					swap(*v[i], *v[j]);
				}
				std::swap(m[i], m[j]);
				break;
			}
			case 6:
				s.note(" reset", i);
				if (s.flip())
					v[i]->reset();
				else
					*v[i] = A();
				m[i] = M();
				break;
			case 7: {
				// a vector of copies of the others
				M n;
				n.t = TNested;
				Nested<A> nv;
				for (size_t k = 0; k < N; ++k)
					if (m[k].t >= 0 && m[k].t != TNested && !movable_only(m[k])) {
						nv.push_back(*v[k]);
						n.sub.push_back(m[k]);
					}
				s.note(" ", i, "=vector of", n.sub.size());
				if (s.flip())
					*v[i] = std::move(nv);
				else
					*v[i] = A(nv);
				m[i] = n;
				break;
			}
			case 8: {
				// an element replaces its container
				if (m[i].t != TNested || m[i].sub.empty())
					break;
				size_t k = s.raw(m[i].sub.size());
				auto& nv = v[i]->template cast<Nested<A>&>();
				M n = m[i].sub[k];
				s.note(" ", i, "=its element", k);
				s.classify("own element");
				int how = (int)s.raw(3);
				if (how == 0)
					*v[i] = (const A&)nv[k];
				else if (how == 1)
					*v[i] = std::move(nv[k]);
				else
					Types::with(n.t, [&](auto tag) {
						using T = typename decltype(tag)::type;
						if constexpr (!is_move_only<T>)
							*v[i] = nv[k].template cast<const T&>();
					});
				m[i] = n;
				break;
			}
			default: {
				// change the object through a reference
				if (m[i].t < 0 || m[i].t == TNested)
					break;
				Types::with(m[i].t, [&](auto tag) {
					using T = typename decltype(tag)::type;
					if constexpr (std::is_move_assignable_v<T>) {
						M n;
						n.t = m[i].t;
						T val = V<T>::make(s, n);
						s.note(" ", i, "ref");
						if (s.flip())
							v[i]->template cast<T&>() = std::move(val);
						else
							*seq::any_cast<T>(v[i].get()) = std::move(val);
						m[i] = n;
					}
				});
				break;
			}
		}
	}

	// ---------------------------------------------------------- observations
	template<class F>
	void expect(int want, F&& f, const char* what)
	{
		if (want == -2)
			return;
		try {
			bool r = f();
			CHECK(want >= 0, what, ": no exception");
			CHECK_EQ(r, want == 1, what);
		}
		catch (const std::bad_function_call&) {
			CHECK_EQ(want, -1, what, ": exception");
		}
	}
	static int inv(int x) { return x < 0 ? x : 1 - x; }
	void compare(size_t i, size_t j)
	{
		const A &a = *v[i], &b = *v[j];
		int e = m_equal(m[i], m[j]), l = m_less(m[i], m[j]), g = m_less(m[j], m[i]);
		expect(e, [&] { return a == b; }, "==");
		expect(inv(e), [&] { return a != b; }, "!=");
		expect(l, [&] { return a < b; }, "<");
		expect(g, [&] { return a > b; }, ">");
		expect(inv(g), [&] { return a <= b; }, "<=");
		expect(inv(l), [&] { return a >= b; }, ">=");
		// the hash function of a registered comparison is up to who registers it
		if (e == 1 && Hashable && m[i].t >= 0 && (m[i].t == TPair) == (m[j].t == TPair))
			Types::with(m[i].t, [&](auto tag) {
				if constexpr (is_hashed<typename decltype(tag)::type>)
					CHECK_EQ(a.hash(), b.hash(), "hash of equal values");
			});
	}
	// against a value which is not in a hold_any
	void compare_value(size_t i)
	{
		const A& a = *v[i];
		M n;
		n.t = s.chance(1, 2) && m[i].t >= 0 && m[i].t < TNested ? (m[i].t < NArith ? (int)s.raw(NArith) : m[i].t < NText ? NArith + (int)s.raw(NText - NArith) : m[i].t) : gen_type();
		Types::with(n.t, [&](auto tag) {
			using T = typename decltype(tag)::type;
			T val = V<T>::make(s, n);
			s.note(" compare", i, n.t);
			int e = m_equal(m[i], n), l = m_less(m[i], n), g = m_less(n, m[i]);
			// an equality has one direction when it is registered: the one of the hold_any
			expect(e, [&] { return a == val; }, "a == value");
			expect(inv(e), [&] { return a != val; }, "a != value");
			expect(e, [&] { return val == a; }, "value == a");
			expect(inv(e), [&] { return val != a; }, "value != a");
			expect(l, [&] { return a < val; }, "a < value");
			expect(g, [&] { return a > val; }, "a > value");
			expect(inv(g), [&] { return a <= val; }, "a <= value");
			expect(inv(l), [&] { return a >= val; }, "a >= value");
			expect(g, [&] { return val < a; }, "value < a");
			expect(l, [&] { return val > a; }, "value > a");
			expect(inv(l), [&] { return val <= a; }, "value <= a");
			expect(inv(g), [&] { return val >= a; }, "value >= a");
			if constexpr (Hashable && is_hashed<T>) {
				if (e == 1 && m[i].t >= 0 && (m[i].t == TPair) == (n.t == TPair)) {
					CHECK_EQ(seq::hasher<A>{}(val), a.hash(), "hasher of an equal value");
					CHECK_EQ(std::hash<A>{}(val), a.hash(), "std::hash of an equal value");
				}
			}
			// arrays
			if constexpr (V<T>::family == Text) {
				char lit[64] = { 0 };
				n.str.copy(lit, 63);
				M k;
				k.str = n.str;
				k.ptr = lit;
				// the constness of the array tells the type
				k.t = TConstChar;
				const char(&cl)[64] = lit;
				expect(m_equal(m[i], k), [&] { return a == cl; }, "a == literal");
				expect(m_less(m[i], k), [&] { return a < cl; }, "a < literal");
				expect(m_less(k, m[i]), [&] { return a > cl; }, "a > literal");
				// exact size: nothing may be read after the end
				std::unique_ptr<char[]> ex(new char[3]{ 'a', 'b', 0 });
				const char(&c3)[3] = *reinterpret_cast<char(*)[3]>(ex.get());
				k.str = "ab";
				k.ptr = ex.get();
				expect(m_equal(m[i], k), [&] { return c3 == a; }, "literal == a");
				expect(m_less(k, m[i]), [&] { return c3 < a; }, "literal < a");
				if constexpr (Hashable)
					if (m_equal(m[i], k) == 1)
						CHECK_EQ(seq::hasher<A>{}(c3), a.hash(), "hasher of a literal");
			}
		});
	}
	void laws(size_t i, size_t j, size_t k)
	{
		for (size_t x : { i, j, k })
			if (m[x].t == TNested || m[x].t == TConstChar || m[x].t == TChar || m[x].t == TPair || m[x].t == TBare)
				return;
		const A &a = *v[i], &b = *v[j], &c = *v[k];
		CHECK(!(a < a), "irreflexive");
		CHECK(a == a || m[i].t < 0 || movable_only(m[i]), "reflexive");
		CHECK((a == b) == (b == a), "symmetric");
		CHECK(!(a < b && b < a), "asymmetric");
		CHECK(!(a == b) || !(a < b || b < a), "equal and ordered");
		if (a == b && b == c)
			CHECK(a == c, "transitive ==");
		if (a < b && b < c)
			CHECK(a < c, "transitive <");
		if (!(a < b) && !(b < a) && !(b < c) && !(c < b))
			CHECK(!(a < c) && !(c < a), "transitive equivalence");
	}
	void hashing(size_t i)
	{
		const A& a = *v[i];
		if (m[i].t < 0 || m[i].t == TNested)
			return;
		Types::with(m[i].t, [&](auto tag) {
			using T = typename decltype(tag)::type;
			try {
				size_t h = a.hash();
				CHECK(Hashable && is_hashed<T>, "hash of a type that is not hashable");
				CHECK_EQ(h, a.hash(), "hash");
				CHECK_EQ(h, seq::hasher<A>{}(a), "hasher");
				CHECK_EQ(h, std::hash<A>{}(a), "std::hash");
			}
			catch (const std::bad_function_call&) {
				CHECK(!Hashable || !is_hashed<T>, "hash throws");
			}
		});
	}
	template<class U, class F>
	void cast_to(A& a, bool ok, F&& good, const char* what)
	{
		const A& c = a;
		try {
			U r = a.template cast<U>();
			CHECK(ok, what, ": no exception");
			CHECK(good(r), what, ": wrong value");
			U q = c.template cast<U>();
			CHECK(good(q), what, ": wrong value (const)");
			U w = seq::any_cast<U>(a);
			CHECK(good(w), what, ": wrong value (any_cast)");
		}
		catch (const std::bad_cast&) {
			CHECK(!ok, what, ": exception");
		}
	}
	void casts(size_t i)
	{
		A& a = *v[i];
		const M& mo = m[i];
		// arithmetic targets
		int u = (int)s.raw(NArith);
		s.note(" cast", i, u);
		Types::with(u, [&](auto utag) {
			using U = typename decltype(utag)::type;
			if constexpr (std::is_arithmetic_v<U>) {
				if (mo.t < 0 || mo.t >= NText || mo.t == TNested) {
					if (!(mo.t >= 0 && mo.t < TNested && std::is_same_v<U, int>))
						cast_to<U>(a, false, [](const U&) { return false; }, "cast to arithmetic");
					else
						Types::with(mo.t, [&](auto tag) {
							using T = typename decltype(tag)::type;
							if (std::is_same_v<T, Enu>)
								cast_to<U>(a, true, [&](const U& x) { return (int64_t)x == mo.key; }, "registered cast");
							else
								cast_to<U>(a, false, [](const U&) { return false; }, "cast to arithmetic");
						});
				}
				else if (mo.t < NArith) {
					Types::with(mo.t, [&](auto tag) {
						using T = typename decltype(tag)::type;
						if constexpr (std::is_arithmetic_v<T>) {
							T val = a.template cast<T>();
							if constexpr (std::is_floating_point_v<T> && std::is_integral_v<U>) {
								long double tr = std::trunc((long double)val);
								if (!(tr >= (long double)std::numeric_limits<U>::min() && tr <= (long double)std::numeric_limits<U>::max()))
									return;
							}
							if constexpr (std::is_floating_point_v<T> && std::is_floating_point_v<U>)
								if (std::isfinite(val) && std::abs((long double)val) > (long double)std::numeric_limits<U>::max())
									return;
							U want = static_cast<U>(val);
							cast_to<U>(a, true, [&](const U& x) { return x == want; }, "arithmetic cast");
						}
					});
				}
				else {
					// text: the number it starts with
					bool num = mo.str.size() && (isdigit((unsigned char)mo.str[0]) || mo.str[0] == '-');
					if (num && std::is_unsigned_v<U> && mo.str[0] == '-')
						return;
					double d = num ? strtod(mo.str.c_str(), nullptr) : 0;
					if (std::is_integral_v<U>)
						d = num ? (double)strtol(mo.str.c_str(), nullptr, 10) : 0;
					cast_to<U>(a, num, [&](const U& x) { return (double)x == d; }, "text to arithmetic");
				}
			}
		});
		// text targets
		auto text_ok = [&](const std::string& x) {
			if (mo.t >= NArith)
				return x == mo.str;
			bool r = false;
			Types::with(mo.t, [&](auto tag) {
				using T = typename decltype(tag)::type;
				if constexpr (std::is_arithmetic_v<T>) {
					std::string want = seq::fmt(a.template cast<const T&>()).template str<std::string>();
					if constexpr (std::is_integral_v<T> && sizeof(T) > 1 && !std::is_same_v<T, char16_t> && !std::is_same_v<T, char32_t>)
						CHECK_EQ(want, std::to_string(a.template cast<const T&>()), "fmt");
					r = x == want;
				}
			});
			return r;
		};
		bool text = mo.t >= 0 && mo.t < NText, view = text && mo.t >= NArith;
		auto txt = [&](const auto& x) { return text_ok(std::string(x.data(), x.size())); };
		if (mo.t == TPair)
			cast_to<std::string>(a, true, [&](const std::string& x) { return x == pair_string({ (int)mo.key, (int)mo.key }); }, "registered conversion");
		else
			cast_to<std::string>(a, text, txt, "cast to std::string");
		cast_to<seq::tstring>(a, text, txt, "cast to tstring");
		cast_to<seq::tstring_view>(a, view, [&](auto x) { return std::string(x.data(), x.size()) == mo.str; }, "cast to tstring_view");
		cast_to<std::string_view>(a, view, [&](auto x) { return std::string(x) == mo.str; }, "cast to string_view");
		cast_to<const char*>(a, view, [&](const char* x) { return std::string(x, mo.str.size()) == mo.str; }, "cast to const char*");
		// pointers
		bool ptr = mo.t >= 0 && mo.t < TNested && (mo.t == TConstChar || mo.t == TChar || mo.ptr || false);
		if (mo.t >= 0 && mo.t < TNested)
			Types::with(mo.t, [&](auto tag) {
				using T = typename decltype(tag)::type;
				ptr = std::is_pointer_v<T>;
			});
		cast_to<const void*>(a, ptr, [&](const void* x) { return x == mo.ptr; }, "cast to const void*");
		cast_to<void*>(a, ptr, [&](void* x) { return x == mo.ptr; }, "cast to void*");
		// references to other types
		int o = gen_type();
		if (o != mo.t)
			Types::with(o, [&](auto tag) {
				using T = typename decltype(tag)::type;
				bool thrown = false;
				try {
					(void)a.template cast<T&>();
				}
				catch (const std::bad_cast&) {
					thrown = true;
				}
				CHECK(thrown, "reference to another type");
				CHECK(seq::any_cast<T>(&a) == nullptr, "any_cast pointer to another type");
			});
	}
	void streams(size_t i)
	{
		A& a = *v[i];
		if (m[i].t == TNested)
			return;
		std::string got;
		bool thrown = false;
		try {
			std::ostringstream o;
			o << a;
			got = o.str();
		}
		catch (const std::bad_function_call&) {
			thrown = true;
		}
		if (m[i].t < 0) {
			CHECK(thrown, "output of an empty object");
			bool th = false;
			try {
				std::istringstream in("1");
				in >> a;
			}
			catch (const std::bad_function_call&) {
				th = true;
			}
			CHECK(th, "input of an empty object");
			CHECK_EQ(seq::fmt(a).template str<std::string>(), std::string(), "format of an empty object");
			return;
		}
		Types::with(m[i].t, [&](auto tag) {
			using T = typename decltype(tag)::type;
			if constexpr (is_streamed<T>) {
				CHECK(!thrown, "output throws");
				std::ostringstream o;
				o << a.template cast<const T&>();
				CHECK_EQ(got, o.str(), "output");
			}
			else if constexpr (V<T>::family == Object)
				CHECK(thrown, "output of a type without operator<<");
			// format
			if constexpr (is_streamed<T>) {
				seq::width_format w = seq::fmt(0).width_fmt();
				auto f = seq::fmt(a);
				auto g = seq::fmt(a.template cast<const T&>());
				(void)w;
				switch (s.raw(5)) {
					case 0: break;
					case 1:
						f.l(12);
						g.l(12);
						break;
					case 2:
						f.c(17).f('*');
						g.c(17).f('*');
						break;
					case 3:
						f.r(5);
						g.r(5);
						break;
					default:
						if constexpr (std::is_arithmetic_v<T>) {
							// options that do not suit the type of the value are ignored
							if (s.flip()) {
								f.b(16).p(4);
								g.p(4);
								if constexpr (std::is_integral_v<T>)
									g.b(16);
							}
							else {
								f.t('e').p(3);
								g.p(3);
								if constexpr (std::is_floating_point_v<T>)
									g.t('e');
							}
						}
						break;
				}
				std::string want = g.template str<std::string>();
				CHECK_EQ(f.template str<std::string>(), want, "format");
				auto ts = f.template str<seq::tstring>();
				CHECK_EQ(std::string(ts.data(), ts.size()), want, "format to tstring");
				std::ostringstream o;
				o << f;
				CHECK_EQ(o.str(), want, "format to a stream");
				if constexpr (std::is_same_v<A, seq::nh_any>) {
					auto slot = seq::fmt("<", seq::_a(), ">");
					CHECK_EQ(slot(a).template str<std::string>(), "<" + seq::fmt(a.template cast<const T&>()).template str<std::string>() + ">", "slot with a hold_any");
					CHECK_EQ(slot(a.template cast<const T&>()).template str<std::string>(), "<" + seq::fmt(a.template cast<const T&>()).template str<std::string>() + ">", "slot with a value");
				}
			}
			else if constexpr (V<T>::family == Object && !std::is_same_v<T, IPair> && !std::is_same_v<T, Enu> && !std::is_same_v<T, std::unique_ptr<int>>) {
				bool th = false;
				try {
					(void)seq::fmt(a).template str<std::string>();
				}
				catch (const std::bad_function_call&) {
					th = true;
				}
				CHECK(th, "format of a type that is not formattable");
			}
			// input
			if constexpr (std::is_arithmetic_v<T> && sizeof(T) >= 2 && !std::is_same_v<T, char16_t> && !std::is_same_v<T, char32_t>) {
				int n = (int)s.raw(1000);
				std::istringstream in(std::to_string(n) + " 5");
				in >> a;
				CHECK(a.template cast<const T&>() == (T)n, "input");
				m[i].num = n;
			}
			else if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, seq::tstring>) {
				std::istringstream in("word rest");
				in >> a;
				m[i].str = "word";
				check_one(a, m[i], "input");
			}
			else if constexpr (std::is_same_v<T, SmallR>) {
				std::istringstream in("6 rest");
				in >> a;
				m[i].key = 6;
				check_one(a, m[i], "input");
			}
			else if constexpr (V<T>::family == Object && std::is_same_v<T, BigN>) {
				bool th = false;
				try {
					std::istringstream in("1");
					in >> a;
				}
				catch (const std::bad_function_call&) {
					th = true;
				}
				CHECK(th, "input of a type without operator>>");
			}
		});
	}
	void run()
	{
		size_t ops = 0;
		s.repeat(30, 150, [&](size_t) {
			step();
			check_all("after a step");
			if (s.chance(1, 2)) {
				size_t i = s.raw(N), j = s.raw(N);
				switch (s.raw(6)) {
					case 0: compare(i, j); break;
					case 1: compare_value(i); break;
					case 2: laws(i, j, s.raw(N)); break;
					case 3: hashing(i); break;
					case 4: casts(i); break;
					default: streams(i); break;
				}
				check_all("after an observation");
			}
			++ops;
		});
		for (size_t i = 0; i < N; ++i)
			for (size_t j = 0; j < N; ++j)
				compare(i, j);
		if (ops >= 4)
			s.nontrivial();
	}
};
template<class A>
void history(Src& s)
{
	ty::disarm();
	ty::violation().clear();
	size_t blocks = c12::heap().blocks.size(), objs = alive_objects();
	{
		Run<A> r(s);
		r.run();
	}
	ty::disarm();
	ty::check_violation();
	CHECK_EQ(c12::heap().blocks.size(), blocks, "blocks of memory not released");
	CHECK_EQ(alive_objects(), objs, "objects not destroyed");
}
// comparisons on small sets of types: more equal and close values
template<class A>
void values(Src& s)
{
	ty::disarm();
	ty::violation().clear();
	Run<A> r(s);
	int lo = s.flip() ? 0 : NArith, n = lo ? NText - NArith : NArith;
	s.times(3, [&](size_t i) {
		r.set_value(i, lo + (int)s.raw(n));
		// the same value with another type
		if (i && s.flip() && r.m[0].t >= 0 && r.m[0].t < NArith && lo == 0)
			Types::with((int)s.raw(NArith), [&](auto tag) {
				using T = typename decltype(tag)::type;
				if constexpr (std::is_arithmetic_v<T>) {
					long double x = r.m[0].num + (s.chance(1, 4) ? s.pick<int>({ 1, -1 }) : 0);
					if (std::is_floating_point_v<T> || (x >= (long double)std::numeric_limits<T>::min() && x <= (long double)std::numeric_limits<T>::max() && x == std::trunc(x))) {
						if (std::is_floating_point_v<T> && std::abs(x) > (long double)std::numeric_limits<T>::max())
							return;
						T y = (T)x;
						*r.v[i] = y;
						r.m[i] = M();
						r.m[i].num = (long double)y;
						for (int t = 0; t < NArith; ++t)
							Types::with(t, [&](auto o) {
								if (std::is_same_v<typename decltype(o)::type, T>)
									r.m[i].t = t;
							});
					}
				}
			});
	});
	r.check_all("values");
	for (size_t i = 0; i < 3; ++i) {
		r.hashing(i);
		r.casts(i);
		for (size_t j = 0; j < 3; ++j) {
			r.compare(i, j);
			for (size_t k = 0; k < 3; ++k)
				r.laws(i, j, k);
		}
	}
	for (size_t i = 0; i < 3; ++i)
		r.compare_value(i);
	s.nontrivial();
}
#if VPT_PART == 0
PROP_FN(any_history, history<seq::any>, 6000);
PROP_FN(any_values, values<seq::any>, 20000);
#elif VPT_PART == 1
PROP_FN(r_any_history, history<seq::r_any>, 6000);
PROP_FN(r_any_values, values<seq::r_any>, 8000);
#elif VPT_PART == 2
PROP_FN(nh_any_history, history<seq::nh_any>, 6000);
#elif VPT_PART == 3
using A32 = seq::hold_any<seq::any_default_interface, 32, 8>;
PROP_FN(any32_history, history<A32>, 6000);
PROP_FN(any32_values, values<A32>, 6000);
#elif VPT_PART == 4
using A64 = seq::hold_any<seq::any_no_hash_interface, 64, 64>;
PROP_FN(any64_history, history<A64>, 6000);
#elif VPT_PART == 5
using RA48 = seq::hold_any<seq::any_default_interface, 48, 16, true>;
PROP_FN(r_any48_history, history<RA48>, 6000);
#elif VPT_PART == 6
PROP_FN(info_any_history, history<seq::hold_any<InfoInterface>>, 6000);
#elif VPT_PART == 7
PROP_FN(any8_1_history, (history<seq::hold_any<seq::any_default_interface, 8, 1>>), 6000);
#endif

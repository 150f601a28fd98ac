// Element types, allocators and fault injection shared by the container harnesses.
#pragma once
#include "vpt.hpp"
#include <functional>
#include <memory>
#include <new>
#include <seq/tiny_string.hpp>
#include <seq/type_traits.hpp>
#include <string>
#include <unordered_map>

namespace ty {

// ------------------------------------------------------------------ violations seen where one cannot throw
inline std::string& violation()
{
	static std::string v;
	return v;
}
inline void report(const char* what)
{
	if (violation().empty())
		violation() = what;
}
inline void check_violation()
{
	if (!violation().empty()) {
		std::string v;
		v.swap(violation());
		throw vpt::Fail(v);
	}
}

// ------------------------------------------------------------------ fault injection
struct InjectedFault
{
	int what; // 1 copy/construct, 2 move, 3 assign, 4 compare, 5 hash, 6 alloc
};
struct Faults
{
	long countdown = -1; // <0: disarmed
	long seen = 0;       // ticks since arm
	bool fired = false;
	unsigned mask = ~0u;
};
inline Faults& faults()
{
	static Faults f;
	return f;
}
inline void tick(int what)
{
	Faults& f = faults();
	if (f.countdown < 0 || !(f.mask & (1u << what)))
		return;
	++f.seen;
	if (f.countdown-- == 0) {
		f.fired = true;
		f.countdown = -1;
		throw InjectedFault{ what };
	}
}
inline void arm(long k, unsigned mask = ~0u)
{
	faults().countdown = k;
	faults().seen = 0;
	faults().fired = false;
	faults().mask = mask;
}
inline bool disarm()
{
	faults().countdown = -1;
	return faults().fired;
}

// ------------------------------------------------------------------ tracked, non relocatable element
constexpr uint64_t Alive = 0xA11FE0B7EC7ull;
constexpr uint64_t Dead = 0xDEADDEADDEADull;
struct Obj
{
	static inline long live = 0;
	int64_t k;
	uint64_t state;
	const Obj* self;
	void born()
	{
		state = Alive;
		self = this;
		++live;
	}
	void check(const char* what) const
	{
		if (state != Alive || self != this)
			report(what);
	}
	Obj()
	  : k(0)
	{
		tick(1);
		born();
	}
	explicit Obj(int64_t v)
	  : k(v)
	{
		tick(1);
		born();
	}
	Obj(const Obj& o)
	  : k(o.k)
	{
		o.check("copy construction from an object that is not alive");
		tick(1);
		born();
	}
	Obj(Obj&& o) noexcept
	  : k(o.k)
	{
		o.check("move construction from an object that is not alive");
		o.k = -777;
		born();
	}
	Obj& operator=(const Obj& o)
	{
		o.check("copy assignment from an object that is not alive");
		check("copy assignment to an object that is not alive");
		tick(3);
		k = o.k;
		return *this;
	}
	Obj& operator=(Obj&& o) noexcept
	{
		o.check("move assignment from an object that is not alive");
		check("move assignment to an object that is not alive");
		if (this != &o) {
			k = o.k;
			o.k = -777;
		}
		return *this;
	}
	~Obj()
	{
		check("destruction of an object that is not alive");
		state = Dead;
		self = nullptr;
		--live;
	}
	bool operator<(const Obj& o) const
	{
		check("comparison of an object that is not alive");
		o.check("comparison of an object that is not alive");
		return k < o.k;
	}
	bool operator>(const Obj& o) const { return o < *this; }
	bool operator==(const Obj& o) const
	{
		check("comparison of an object that is not alive");
		o.check("comparison of an object that is not alive");
		return k == o.k;
	}
	bool operator!=(const Obj& o) const { return !(*this == o); }
};
// Everything may throw, moves included
struct TObj
{
	static inline long live = 0;
	int64_t k;
	uint64_t state;
	const TObj* self;
	void born()
	{
		state = Alive;
		self = this;
		++live;
	}
	void check(const char* what) const
	{
		if (state != Alive || self != this)
			report(what);
	}
	TObj()
	  : k(0)
	{
		tick(1);
		born();
	}
	explicit TObj(int64_t v)
	  : k(v)
	{
		tick(1);
		born();
	}
	TObj(const TObj& o)
	  : k(o.k)
	{
		o.check("copy construction from an object that is not alive");
		tick(1);
		born();
	}
	TObj(TObj&& o) noexcept(false)
	  : k(o.k)
	{
		o.check("move construction from an object that is not alive");
		tick(2);
		o.k = -777;
		born();
	}
	TObj& operator=(const TObj& o)
	{
		o.check("copy assignment from an object that is not alive");
		check("copy assignment to an object that is not alive");
		tick(3);
		k = o.k;
		return *this;
	}
	TObj& operator=(TObj&& o) noexcept(false)
	{
		o.check("move assignment from an object that is not alive");
		check("move assignment to an object that is not alive");
		tick(3);
		if (this != &o) {
			k = o.k;
			o.k = -777;
		}
		return *this;
	}
	~TObj()
	{
		check("destruction of an object that is not alive");
		state = Dead;
		self = nullptr;
		--live;
	}
	bool operator<(const TObj& o) const
	{
		check("comparison of an object that is not alive");
		o.check("comparison of an object that is not alive");
		tick(4);
		return k < o.k;
	}
	bool operator>(const TObj& o) const { return o < *this; }
	bool operator==(const TObj& o) const
	{
		check("comparison of an object that is not alive");
		o.check("comparison of an object that is not alive");
		tick(4);
		return k == o.k;
	}
	bool operator!=(const TObj& o) const { return !(*this == o); }
};
// Relocatable element owning heap memory: a double destruction or a lost element is seen by the
// sanitizer and by the live count.
struct RObj
{
	static inline long live = 0;
	int64_t* p;
	size_t pad = 0;
	RObj()
	  : p(nullptr)
	{
		tick(1);
		p = new int64_t(0);
		++live;
	}
	explicit RObj(int64_t v)
	  : p(nullptr)
	{
		tick(1);
		p = new int64_t(v);
		++live;
	}
	RObj(const RObj& o)
	  : p(nullptr)
	{
		tick(1);
		p = o.p ? new int64_t(*o.p) : nullptr;
		++live;
	}
	RObj(RObj&& o) noexcept
	  : p(o.p)
	{
		o.p = nullptr;
		++live;
	}
	RObj& operator=(const RObj& o)
	{
		tick(3);
		if (this != &o) {
			int64_t* n = o.p ? new int64_t(*o.p) : nullptr;
			delete p;
			p = n;
		}
		return *this;
	}
	RObj& operator=(RObj&& o) noexcept
	{
		std::swap(p, o.p);
		return *this;
	}
	~RObj()
	{
		delete p;
		--live;
	}
	int64_t k() const { return p ? *p : -777; }
	bool operator<(const RObj& o) const
	{
		tick(4);
		return k() < o.k();
	}
	bool operator>(const RObj& o) const { return o < *this; }
	bool operator==(const RObj& o) const
	{
		tick(4);
		return k() == o.k();
	}
	bool operator!=(const RObj& o) const { return !(*this == o); }
};
// Move only, relocatable (as std::unique_ptr)
using UPtr = std::unique_ptr<int64_t>;
// A large trivial type
struct Big
{
	int64_t k;
	int64_t fill[11];
	Big(int64_t v = 0)
	  : k(v)
	{
		for (int i = 0; i < 11; ++i)
			fill[i] = v + i;
	}
	bool operator<(const Big& o) const { return k < o.k; }
	bool operator>(const Big& o) const { return k > o.k; }
	bool operator==(const Big& o) const { return k == o.k && memcmp(fill, o.fill, sizeof fill) == 0; }
	bool operator!=(const Big& o) const { return !(*this == o); }
};
// Over-aligned
struct alignas(32) Wide
{
	int64_t k;
	Wide(int64_t v = 0)
	  : k(v)
	{
	}
	bool operator<(const Wide& o) const { return k < o.k; }
	bool operator>(const Wide& o) const { return k > o.k; }
	bool operator==(const Wide& o) const { return k == o.k; }
	bool operator!=(const Wide& o) const { return !(*this == o); }
};

inline long live_objects() { return Obj::live + RObj::live + TObj::live; }

// ------------------------------------------------------------------ key <-> element
inline std::string key_string(int64_t k)
{
	// every third key needs the heap in both std::string and tstring; the text orders like the key for
	// non negative keys below 10^9
	char b[32];
	snprintf(b, sizeof b, "%09lld", (long long)k);
	std::string s(b);
	switch (((uint64_t)k) % 3) {
		case 0:
			return s;
		case 1:
			return s + "-medium";
		default:
			return s + "-a-rather-long-string-stored-on-the-heap";
	}
}
template<class T>
struct conv
{
	static T make(int64_t k) { return (T)k; }
	static int64_t key(const T& v) { return (int64_t)v; }
};
template<>
struct conv<std::string>
{
	static std::string make(int64_t k) { return key_string(k); }
	// the key, or -999 if s is not exactly key_string(key)
	static int64_t key(const char* p, size_t n)
	{
		static const char* tails[3] = { "", "-medium", "-a-rather-long-string-stored-on-the-heap" };
		static const size_t lens[3] = { 0, 7, 40 };
		if (n == 0)
			return 0;
		size_t i = p[0] == '-', from = i;
		uint64_t v = 0;
		for (; i < n && p[i] >= '0' && p[i] <= '9'; ++i)
			v = v * 10 + (uint64_t)(p[i] - '0');
		if (i < 9 || i - from > 19 || (i > 9 && p[from] == '0'))
			return -999;
		int64_t k = from ? (int64_t)(0 - v) : (int64_t)v;
		size_t t = (uint64_t)k % 3;
		return n - i == lens[t] && memcmp(p + i, tails[t], lens[t]) == 0 ? k : -999;
	}
	static int64_t key(const std::string& s) { return key(s.data(), s.size()); }
};
template<>
struct conv<seq::tstring>
{
	static seq::tstring make(int64_t k)
	{
		std::string s = key_string(k);
		return seq::tstring(s.data(), s.size());
	}
	static int64_t key(const seq::tstring& s) { return conv<std::string>::key(s.data(), s.size()); }
};
template<>
struct conv<Obj>
{
	static Obj make(int64_t k) { return Obj(k); }
	static int64_t key(const Obj& v)
	{
		v.check("element read while not alive");
		return v.k;
	}
};
template<>
struct conv<TObj>
{
	static TObj make(int64_t k) { return TObj(k); }
	static int64_t key(const TObj& v)
	{
		v.check("element read while not alive");
		return v.k;
	}
};
template<>
struct conv<RObj>
{
	static RObj make(int64_t k) { return RObj(k); }
	static int64_t key(const RObj& v) { return v.k(); }
};
template<>
struct conv<Big>
{
	static Big make(int64_t k) { return Big(k); }
	static int64_t key(const Big& v) { return v == Big(v.k) ? v.k : -999; }
};
template<>
struct conv<Wide>
{
	static Wide make(int64_t k) { return Wide(k); }
	static int64_t key(const Wide& v) { return ((uintptr_t)&v % 32) ? -998 : v.k; }
};
template<>
struct conv<UPtr>
{
	static UPtr make(int64_t k) { return UPtr(new int64_t(k)); }
	static int64_t key(const UPtr& v) { return v ? *v : 0; }
};
template<class A, class B>
struct conv<std::pair<A, B>>
{
	static std::pair<A, B> make(int64_t k) { return std::pair<A, B>(conv<A>::make(k), conv<B>::make(k)); }
	static int64_t key(const std::pair<A, B>& v)
	{
		int64_t a = conv<std::remove_const_t<A>>::key(v.first), b = conv<B>::key(v.second);
		return a == b ? a : -997;
	}
};
template<class T>
T make(int64_t k)
{
	return conv<T>::make(k);
}
template<class T>
int64_t key(const T& v)
{
	return conv<T>::key(v);
}

// ------------------------------------------------------------------ allocators
struct AllocRec
{
	size_t bytes;
	int id;
};
inline std::unordered_map<const void*, AllocRec>& alloc_map()
{
	static std::unordered_map<const void*, AllocRec> m;
	return m;
}
inline long& live_allocs()
{
	static long n = 0;
	return n;
}
// Remembers each block with its size and the identity of the allocator; reports mismatches.
// Flags: bit 0 propagate on copy assignment, bit 1 on move assignment, bit 2 on swap, bit 3 always equal,
// bit 4 copy construction selects another allocator
template<class T, unsigned Flags = 0>
struct TrackAlloc
{
	using value_type = T;
	using propagate_on_container_copy_assignment = std::bool_constant<(Flags & 1) != 0>;
	using propagate_on_container_move_assignment = std::bool_constant<(Flags & 2) != 0>;
	using propagate_on_container_swap = std::bool_constant<(Flags & 4) != 0>;
	using is_always_equal = std::bool_constant<(Flags & 8) != 0>;
	template<class U>
	struct rebind
	{
		using other = TrackAlloc<U, Flags>;
	};
	int id;
	TrackAlloc(int i = 0) noexcept
	  : id((Flags & 8) ? 0 : i)
	{
	}
	template<class U>
	TrackAlloc(const TrackAlloc<U, Flags>& o) noexcept
	  : id(o.id)
	{
	}
	TrackAlloc(const TrackAlloc&) noexcept = default;
	TrackAlloc& operator=(const TrackAlloc&) noexcept = default;
	T* allocate(size_t n)
	{
		tick(6);
		void* p = ::operator new(n * sizeof(T), std::align_val_t(alignof(T) < 16 ? 16 : alignof(T)));
		alloc_map()[p] = AllocRec{ n * sizeof(T), id };
		++live_allocs();
		return static_cast<T*>(p);
	}
	void deallocate(T* p, size_t n) noexcept
	{
		auto it = alloc_map().find(p);
		if (it == alloc_map().end()) {
			report("deallocate of a block this kind of allocator never returned");
			return;
		}
		if (it->second.bytes != n * sizeof(T))
			report("deallocate with a size different from the allocated size");
		if (it->second.id != id)
			report("deallocate through an allocator not equal to the one that allocated");
		alloc_map().erase(it);
		--live_allocs();
		::operator delete(p, std::align_val_t(alignof(T) < 16 ? 16 : alignof(T)));
	}
	TrackAlloc select_on_container_copy_construction() const { return (Flags & 16) ? TrackAlloc(id + 10) : *this; }
	friend bool operator==(const TrackAlloc& a, const TrackAlloc& b) { return a.id == b.id; }
	friend bool operator!=(const TrackAlloc& a, const TrackAlloc& b) { return a.id != b.id; }
};
template<class T, class U, unsigned F>
bool operator==(const TrackAlloc<T, F>& a, const TrackAlloc<U, F>& b)
{
	return a.id == b.id;
}
template<class T, class U, unsigned F>
bool operator!=(const TrackAlloc<T, F>& a, const TrackAlloc<U, F>& b)
{
	return a.id != b.id;
}

// Accounts for the objects and blocks of one case.
struct Ledger
{
	long objs, allocs;
	Ledger()
	  : objs(live_objects())
	  , allocs(live_allocs())
	{
		violation().clear();
		disarm();
	}
	void settle(const char* when = "at the end of the case")
	{
		check_violation();
		if (live_objects() != objs)
			throw vpt::Fail(vpt::str("live element count differs by ", live_objects() - objs, " ", when));
		if (live_allocs() != allocs)
			throw vpt::Fail(vpt::str("live allocator block count differs by ", live_allocs() - allocs, " ", when));
	}
};

} // namespace ty

namespace seq {
template<>
struct is_relocatable<ty::RObj>
{
	static constexpr bool value = true;
};
}
namespace std {
template<>
struct hash<ty::Obj>
{
	size_t operator()(const ty::Obj& o) const
	{
		o.check("hash of an object that is not alive");
		return (size_t)o.k * 0x9E3779B97F4A7C15ull;
	}
};
template<>
struct hash<ty::TObj>
{
	size_t operator()(const ty::TObj& o) const
	{
		o.check("hash of an object that is not alive");
		ty::tick(5);
		return (size_t)o.k * 0x9E3779B97F4A7C15ull;
	}
};
template<>
struct hash<ty::RObj>
{
	size_t operator()(const ty::RObj& o) const
	{
		ty::tick(5);
		return (size_t)o.k() * 0x9E3779B97F4A7C15ull;
	}
};
template<>
struct hash<ty::Big>
{
	size_t operator()(const ty::Big& o) const { return (size_t)o.k * 0x9E3779B97F4A7C15ull; }
};
}

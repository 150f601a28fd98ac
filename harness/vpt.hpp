// vpt: a small property-based testing engine.
//
// A property is a function of a Src: a recorded sequence of bounded choices.  Generation draws the
// choices from a PRNG seeded by (VERIF_SEED, property name, case index); replay and shrinking feed a
// list of choices back (exhausted list => 0, out of range => modulo).  Every random decision goes
// through Src, so a case is a pure function of the code and of its choices.
//
// Cases run in forked children, so crashes, sanitizer aborts and hangs are failures like any other,
// and are replayed, confirmed and shrunk the same way.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace vpt {

struct Fail : std::exception
{
	std::string msg;
	explicit Fail(std::string m)
	  : msg(std::move(m))
	{
	}
	const char* what() const noexcept override { return msg.c_str(); }
};
struct Discard
{
};

constexpr size_t MaxChoices = 1u << 16;
constexpr size_t MaxSpans = 1u << 14;

struct Span
{
	uint32_t b, e;
};

// Everything the parent needs to know about the case a child is running.  Lives in shared memory.
struct CaseRec
{
	std::atomic<uint64_t> case_idx;
	std::atomic<uint64_t> beat; // changes when a case starts
	uint64_t nchoices;
	uint64_t nspans;
	uint64_t choices[MaxChoices];
	Span spans[MaxSpans];
	uint32_t nontrivial;
	uint32_t status; // 0 running, 1 ok, 2 failed, 3 discarded
	char msg[4096];
	char trace[1u << 16];
	uint32_t tracelen;
};

inline uint64_t splitmix(uint64_t& x)
{
	uint64_t z = (x += 0x9E3779B97F4A7C15ull);
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}

void count_label(const char* label, uint64_t n = 1); // shared histogram

class Src
{
public:
	CaseRec* rec;
	const std::vector<uint64_t>* replay; // null when generating
	uint64_t rng;
	size_t pos = 0;
	bool tracing = false;
	bool quiet = false; // no labels
	int tier = 0;
	uint64_t index = 0; // index of the case in its property (0 in replays)

	Src(CaseRec* r, const std::vector<uint64_t>* rep, uint64_t seed)
	  : rec(r)
	  , replay(rep)
	  , rng(seed)
	{
		rec->nchoices = 0;
		rec->nspans = 0;
		rec->nontrivial = 0;
		rec->tracelen = 0;
		rec->trace[0] = 0;
	}

	// uniform in [0,bound); bound==0 means the full 64 bits
	uint64_t raw(uint64_t bound)
	{
		uint64_t v;
		if (replay)
			v = pos < replay->size() ? (*replay)[pos] : 0;
		else {
			v = splitmix(rng);
			if (bound)
				v = (uint64_t)(((unsigned __int128)v * bound) >> 64);
			if (pos >= MaxChoices - 8)
				v = 0;
		}
		++pos;
		if (bound && v >= bound)
			v %= bound;
		if (rec->nchoices < MaxChoices)
			rec->choices[rec->nchoices++] = v;
		return v;
	}
	bool exhausted() const { return pos >= MaxChoices - 4096; }
	// inclusive range
	template<class T>
	T in(T lo, T hi)
	{
		uint64_t n = (uint64_t)hi - (uint64_t)lo + 1;
		return (T)((uint64_t)lo + raw(n));
	}
	bool chance(unsigned num, unsigned den) { return raw(den) >= den - num; } // shrinks to false
	bool flip() { return raw(2) != 0; }
	template<class T>
	T pick(std::initializer_list<T> l)
	{
		return *(l.begin() + raw(l.size()));
	}
	template<class C>
	auto& choose(C& c)
	{
		auto it = c.begin();
		std::advance(it, raw(c.size()));
		return *it;
	}
	// weighted: returns index
	size_t weighted(std::initializer_list<unsigned> w)
	{
		unsigned t = 0;
		for (unsigned x : w)
			t += x;
		uint64_t r = raw(t);
		size_t i = 0;
		for (unsigned x : w) {
			if (r < x)
				return i;
			r -= x;
			++i;
		}
		return 0;
	}
	// size biased towards small values, up to max
	size_t size(size_t max)
	{
		if (max == 0)
			return 0;
		switch (raw(8)) {
			case 0:
			case 1:
				return raw(max < 3 ? max + 1 : 4);
			case 2:
			case 3:
			case 4:
				return raw((max < 16 ? max : 16) + 1);
			case 5:
			case 6:
				return raw((max < 80 ? max : 80) + 1);
			default:
				return raw(max + 1);
		}
	}
	// a 64 bit pattern biased towards boundary values
	uint64_t bits64()
	{
		switch (raw(8)) {
			case 0:
				return raw(16);
			case 1:
				return 0 - raw(16);
			case 2: {
				unsigned s = (unsigned)raw(64);
				return (1ull << s) - 1 + raw(3);
			}
			case 3: {
				unsigned s = (unsigned)raw(64);
				return 0 - ((1ull << s) - 1 + raw(3));
			}
			case 4:
				return raw(0) >> raw(64);
			case 5:
				return raw(0) & raw(0) & raw(0);
			case 6:
				return raw(0) << raw(64);
			default:
				return raw(0);
		}
	}
	void nontrivial() { rec->nontrivial = 1; }
	void classify(const char* label)
	{
		if (!quiet)
			count_label(label);
	}
	void discard() { throw Discard(); }

	size_t open() const { return rec->nchoices; }
	void close(size_t b)
	{
		if (rec->nspans < MaxSpans && rec->nchoices > b)
			rec->spans[rec->nspans++] = Span{ (uint32_t)b, (uint32_t)rec->nchoices };
	}
	// Iterations of a loop whose length is itself a choice: each iteration is a span the shrinker can
	// delete.  Average length ~ avg.
	template<class F>
	void repeat(size_t avg, size_t max, F&& f)
	{
		for (size_t i = 0; i < max && !exhausted(); ++i) {
			size_t b = open();
			// the stop decision: value 0 stops so that an exhausted replay terminates
			if (raw(avg + 1) == 0)
				break;
			f(i);
			close(b);
		}
	}
	// Exactly n iterations
	template<class F>
	void times(size_t n, F&& f)
	{
		for (size_t i = 0; i < n; ++i) {
			size_t b = open();
			f(i);
			close(b);
		}
	}

	template<class... A>
	void note(const A&... a)
	{
		if (!tracing)
			return;
		std::ostringstream os;
		(void)std::initializer_list<int>{ ((void)(os << a), 0)... };
		std::string t = os.str();
		size_t room = sizeof(rec->trace) - rec->tracelen - 1;
		size_t n = t.size() < room ? t.size() : room;
		memcpy(rec->trace + rec->tracelen, t.data(), n);
		rec->tracelen += (uint32_t)n;
		rec->trace[rec->tracelen] = 0;
	}
};

struct Prop
{
	const char* name;
	void (*fn)(Src&);
	uint64_t quick;    // number of cases in the quick tier
	uint64_t thorough; // number of cases in the thorough tier
	unsigned block;    // cases per child process
	bool leakcheck;
	int threads; // weight: how many worker slots it uses
};
std::vector<Prop>& props();
struct Reg
{
	Reg(const char* n, void (*f)(Src&), uint64_t q, uint64_t t = 0, unsigned block = 0, bool leak = true, int threads = 1)
	{
		props().push_back(Prop{ n, f, q, t ? t : q * 20, block, leak, threads });
	}
};
// A known finding: a fixed reproduction of a defect recorded in KNOWN_FINDINGS.txt.  fn runs in a child
// process; it reports the defect by throwing Fail or crashing.
struct Known
{
	const char* id;
	void (*fn)();
};
std::vector<Known>& knowns();
struct RegKnown
{
	RegKnown(const char* id, void (*fn)()) { knowns().push_back(Known{ id, fn }); }
};

template<class A>
std::string str(const A& a)
{
	std::ostringstream os;
	os << a;
	return os.str();
}
template<class A, class... R>
std::string str(const A& a, const R&... r)
{
	std::ostringstream os;
	os << a;
	(void)std::initializer_list<int>{ ((void)(os << r), 0)... };
	return os.str();
}

// live heap blocks as seen by the sanitizer's hooks
int64_t live_blocks();
int64_t live_bytes();

inline std::string show(const std::string& s)
{
	std::string r = "\"";
	char b[8];
	for (unsigned char c : s) {
		if (c >= 32 && c < 127 && c != '"' && c != '\\')
			r += (char)c;
		else {
			snprintf(b, sizeof b, "\\x%02x", c);
			r += b;
		}
	}
	return r + "\"";
}

} // namespace vpt

#define VPT_CAT2(a, b) a##b
#define VPT_CAT(a, b) VPT_CAT2(a, b)
// PROP(name, quick cases): body with "vpt::Src& s"
#define PROP(name, ...)                                                                                                                                                                                 \
	static void VPT_CAT(vpt_fn_, name)(vpt::Src&);                                                                                                                                                  \
	static vpt::Reg VPT_CAT(vpt_reg_, name)(#name, &VPT_CAT(vpt_fn_, name), __VA_ARGS__);                                                                                                          \
	static void VPT_CAT(vpt_fn_, name)(vpt::Src & s)
#define PROP_FN(name, fn, ...) static vpt::Reg VPT_CAT(vpt_reg_, name)(#name, fn, __VA_ARGS__)
#define KNOWN(id)                                                                                                                                                                                       \
	static void VPT_CAT(vpt_kn_, id)();                                                                                                                                                             \
	static vpt::RegKnown VPT_CAT(vpt_regk_, id)(#id, &VPT_CAT(vpt_kn_, id));                                                                                                                        \
	static void VPT_CAT(vpt_kn_, id)()

#define CHECK(cond, ...)                                                                                                                                                                                \
	do {                                                                                                                                                                                            \
		if (!(cond))                                                                                                                                                                            \
			throw vpt::Fail(vpt::str("line ", __LINE__, ": " #cond " ", ##__VA_ARGS__));                                                                                                    \
	} while (0)
#define CHECK_EQ(a, b, ...)                                                                                                                                                                             \
	do {                                                                                                                                                                                            \
		auto&& vpt_a = (a);                                                                                                                                                                     \
		auto&& vpt_b = (b);                                                                                                                                                                     \
		if (!(vpt_a == vpt_b))                                                                                                                                                                  \
			throw vpt::Fail(vpt::str("line ", __LINE__, ": " #a " == " #b " failed: ", vpt_a, " vs ", vpt_b, " ", ##__VA_ARGS__));                                                          \
	} while (0)

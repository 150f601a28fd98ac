// sched: a deterministic scheduler for code compiled with -fsanitize=thread but linked with sched.cpp
// instead of the ThreadSanitizer runtime.  Every memory access and atomic operation of the code under
// test calls into sched.cpp, which may switch to another logical thread (a fiber) there.  Where to switch
// and to which thread are choices of the vpt case, so a schedule is generated, replayed and shrunk like
// any other input.  The runtime also
//  - follows happens-before with vector clocks through the atomics (according to the memory orders that
//    the code really uses), for the data races on vs::Plain cells;
//  - asks AddressSanitizer's shadow about each access (use after free, overflow);
//  - detects runs in which no thread makes progress.
#pragma once
#include "vpt.hpp"
#include <chrono>
#include <condition_variable>
#include <functional>
#include <mutex>
#include <vector>

namespace vs {

constexpr int MaxThreads = 6;

struct Config
{
	bool all_accesses = true; // preempt at any memory access, else only at atomics and yields
	unsigned max_preempt = 12;
	unsigned gap = 40;	  // preemptions are uniform in [1,gap] points apart
	uint64_t idle_limit = 600; // switches without any thread finishing an operation => no progress
};

// Runs the functions as logical threads until all are finished.  Throws vpt::Fail if one of them
// throws it, if no progress is made, or if the monitor saw a data race.
void run(vpt::Src& s, const Config& c, const std::vector<std::function<void()>>& threads);
Config draw_config(vpt::Src& s);
uint64_t switches(); // number of preemptions taken in the last run
int tid();	     // -1 outside a logical thread
uint64_t tick();     // next value of the global event counter
void progress();     // an operation finished
void yield();	     // switch to the next thread
void fail(const std::string& what); // report a failure from a place that cannot throw: the case fails after the run

// harness code in a logical thread: no switches inside
struct Quiet
{
	Quiet();
	~Quiet();
};

struct VC
{
	uint32_t c[MaxThreads + 1] = {};
};
// A cell of ordinary (non atomic) memory whose accesses are checked for data races.
struct Plain
{
	uint32_t wt = 0, wc = 0; // last writer (thread+1, 0: none since construction) and its clock
	VC reads;
	void read(const char* what) const;
	void write(const char* what);
	void reset(); // (re)constructed by the current thread
};

// Replacements of the blocking parts of the standard library
class vs_mutex
{
	int owner = -1;
	VC vc;

public:
	constexpr vs_mutex() noexcept = default;
	vs_mutex(const vs_mutex&) = delete;
	vs_mutex& operator=(const vs_mutex&) = delete;
	void lock();
	bool try_lock();
	void unlock();
	// enough of shared_mutex/timed_mutex, conservatively exclusive
	void lock_shared() { lock(); }
	bool try_lock_shared() { return try_lock(); }
	void unlock_shared() { unlock(); }
	template<class D>
	bool try_lock_for(const D&)
	{
		for (int i = 0; i < 4; ++i) {
			if (try_lock())
				return true;
			yield();
		}
		return false;
	}
	template<class T>
	bool try_lock_until(const T& t)
	{
		return try_lock_for(t);
	}
};
class vs_condition_variable
{
	uint64_t epoch = 0;

public:
	void notify_all() noexcept { ++epoch; }
	void notify_one() noexcept { ++epoch; }
	template<class L>
	void wait(L& l)
	{
		uint64_t e = epoch;
		l.unlock();
		while (epoch == e)
			yield();
		l.lock();
	}
	template<class L, class P>
	void wait(L& l, P p)
	{
		while (!p())
			wait(l);
	}
	template<class L, class D, class P>
	bool wait_for(L& l, const D&, P p)
	{
		if (p())
			return true;
		l.unlock();
		yield();
		l.lock();
		return p();
	}
	template<class L, class D>
	std::cv_status wait_for(L& l, const D&)
	{
		l.unlock();
		yield();
		l.lock();
		return std::cv_status::timeout;
	}
	template<class L, class T, class P>
	bool wait_until(L& l, const T& t, P p)
	{
		return wait_for(l, t, p);
	}
};
// Simulated time: each reading takes one millisecond
struct vs_clock
{
	using rep = int64_t;
	using period = std::nano;
	using duration = std::chrono::nanoseconds;
	using time_point = std::chrono::time_point<vs_clock>;
	static constexpr bool is_steady = true;
	static int64_t t;
	static time_point now() noexcept { return time_point(duration(t += 1000000)); }
};
}

namespace std {
using vs::vs_condition_variable;
using vs::vs_mutex;
using vs_cva = vs::vs_condition_variable;
namespace vs_this_thread {
inline void yield() noexcept { vs::yield(); }
template<class D>
inline void sleep_for(const D&)
{
	vs::yield();
}
template<class D>
inline void sleep_until(const D&)
{
	vs::yield();
}
inline auto get_id() { return vs::tid(); }
}
namespace chrono {
using vs::vs_clock;
}
}

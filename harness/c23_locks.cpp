// C23: locks exclude as documented.
#include <bits/stdc++.h>
#include <execution>
#include "sched.hpp"
#include "sched_begin.hpp"
#include "seq/lock.hpp"
#include "sched_end.hpp"

using Spin = seq::spinlock;
template<class T>
using Shared = seq::shared_spinner<T>;

template<class L>
struct Tr
{
	static constexpr bool shared = false; // readers coexist
	static constexpr bool timed = false;
	static constexpr bool excl = true;
	static constexpr unsigned max_readers = 1;
};
template<>
struct Tr<Spin>
{
	static constexpr bool shared = false, timed = true, excl = true;
	static constexpr unsigned max_readers = 1;
};
template<class T>
struct Tr<Shared<T>>
{
	static constexpr bool shared = true, timed = false, excl = true;
	// the 8 bit lock refuses readers from the 33rd
	static constexpr unsigned max_readers = sizeof(T) == 1 ? 32 : 1000;
};
template<>
struct Tr<seq::null_lock>
{
	static constexpr bool shared = false, timed = true, excl = false;
	static constexpr unsigned max_readers = 1;
};

// One thread: every operation that does not block, against (writer, readers)
template<class L>
void history(vpt::Src& s)
{
	// the lock must work in zero initialised and in any surrounding memory
	struct Box
	{
		unsigned char before[8];
		L lock;
		unsigned char after[8];
	} b{};
	memset(b.before, 0xA5, 8);
	memset(b.after, 0x5A, 8);
	L& l = b.lock;
	bool w = false;
	unsigned r = 0;
	int ops = 0;
	unsigned bias = s.in(0u, 2u);
	s.repeat(40, 200, [&](size_t) {
		++ops;
		auto free_for_write = [&] { return !w && r == 0; };
		switch (s.weighted({ 3, 3, 3, 3 + bias * 2, 3, 3, 4, 4, 1, 1 })) {
			case 0: // lock
				if (free_for_write()) {
					l.lock();
					w = true;
				}
				break;
			case 1: { // try_lock
				bool ok = l.try_lock();
				if (!Tr<L>::excl) {
					CHECK(ok);
					break;
				}
				CHECK_EQ(ok, free_for_write(), "try_lock with writer=", w, " readers=", r);
				if (ok)
					w = true;
				break;
			}
			case 2: // lock_shared
				if (!w && (Tr<L>::shared ? r < Tr<L>::max_readers : r == 0)) {
					l.lock_shared();
					++r;
				}
				break;
			case 3: { // try_lock_shared
				bool ok = l.try_lock_shared();
				if (!Tr<L>::excl) {
					CHECK(ok);
					break;
				}
				bool expect = !w && (Tr<L>::shared ? r < Tr<L>::max_readers : r == 0);
				if (r < Tr<L>::max_readers || w)
					CHECK_EQ(ok, expect, "try_lock_shared with writer=", w, " readers=", r);
				else
					CHECK(!ok || Tr<L>::shared, "two holders of an exclusive lock");
				if (ok)
					++r;
				break;
			}
			case 4: // timed
				if constexpr (Tr<L>::timed) {
					bool ok;
					auto t0 = vs::vs_clock::now();
					auto d = std::chrono::milliseconds(s.in(-2, 8));
					if (s.flip())
						ok = l.try_lock_for(d);
					else
						ok = l.try_lock_until(t0 + d);
					if (!Tr<L>::excl) {
						CHECK(ok);
						break;
					}
					CHECK_EQ(ok, free_for_write(), "timed try_lock with writer=", w, " readers=", r);
					if (!ok)
						CHECK(vs::vs_clock::now() > t0 + d, "timed try gave up before its deadline");
					if (ok)
						w = true;
				}
				break;
			case 5: // fast try, if any
				if constexpr (Tr<L>::shared) {
					bool ok = l.try_lock_fast();
					CHECK_EQ(ok, free_for_write(), "try_lock_fast with writer=", w, " readers=", r);
					if (ok)
						w = true;
				}
				break;
			case 6: // unlock
				if (w) {
					l.unlock();
					w = false;
				}
				break;
			case 7: // unlock_shared
				if (r) {
					l.unlock_shared();
					--r;
				}
				break;
			case 9: // many readers (a small lock runs out of room for them)
				if (Tr<L>::shared) {
					unsigned n = s.in(1u, sizeof(L) == 1 ? 70u : 40u);
					for (unsigned i = 0; i < n; ++i) {
						bool ok = l.try_lock_shared();
						if (w || r < Tr<L>::max_readers)
							CHECK_EQ(ok, !w, "try_lock_shared with writer=", w, " readers=", r);
						if (ok)
							++r;
						CHECK(w || r == 0 || !l.try_lock(), "exclusive hold granted together with ", r, " readers");
					}
				}
				break;
			case 8: // release everything
				if (w)
					l.unlock();
				w = false;
				for (; r; --r)
					l.unlock_shared();
				break;
		}
		if (Tr<L>::excl)
			CHECK_EQ(l.is_locked(), w || r > 0, "is_locked with writer=", w, " readers=", r);
		else
			CHECK(!l.is_locked());
		for (int i = 0; i < 8; ++i)
			CHECK(b.before[i] == 0xA5 && b.after[i] == 0x5A, "the lock wrote outside of itself");
		if (ops >= 5)
			s.nontrivial();
	});
}

struct Step
{
	int kind; // 0 lock 1 try 2 shared 3 try shared 4 timed 5 lock_guard/unique_lock 6 shared_lock
	int cells;
	int ms;
	bool write_in_shared;
};

template<class L>
void concurrent(vpt::Src& s)
{
	constexpr int NC = 3;
	L l;
	vs::Plain cell[NC];
	int value[NC] = {};
	int writers = 0, readers = 0, max_readers = 0;
	int entered = 0, wsum[NC] = {};
	int n = s.in(2, 4);
	vs::Config cfg = vs::draw_config(s);
	std::vector<std::vector<Step>> prog(n);
	for (auto& p : prog)
		s.repeat(4, 8, [&](size_t) { p.push_back(Step{ (int)s.weighted({ 4, 3, 3, 3, Tr<L>::timed ? 3u : 0u, 1, 1 }), s.in(1, NC), s.in(-1, 20), false }); });
	bool fin_cfg = s.flip();
	std::vector<std::function<void()>> th;
	int contended = 0;
	for (int t = 0; t < n; ++t)
		th.push_back([&, t] {
			for (const Step& st : prog[t]) {
				bool excl = st.kind == 0 || st.kind == 1 || st.kind == 4 || st.kind == 5;
				bool write = excl || !Tr<L>::shared; // a shared hold of an exclusive lock is exclusive
				{
					vs::Quiet q;
					if (writers || readers)
						++contended;
				}
				auto section = [&] {
					{
						vs::Quiet q;
						if (write) {
							CHECK(writers == 0 && readers == 0, "exclusive hold together with ", writers, " exclusive and ", readers, " shared holders");
							++writers;
						}
						else {
							CHECK(writers == 0, "shared hold together with an exclusive one");
							++readers;
							max_readers = std::max(max_readers, readers);
						}
						++entered;
					}
					CHECK(l.is_locked(), "is_locked is false while this thread holds the lock");
					for (int c = 0; c < st.cells; ++c) {
						if (write) {
							int v;
							{
								vs::Quiet q;
								cell[c].read("protected data");
								v = value[c];
							}
							l.is_locked(); // a switch point inside the section
							{
								vs::Quiet q;
								cell[c].write("protected data");
								value[c] = v + 1;
								++wsum[c];
							}
						}
						else {
							int v;
							{
								vs::Quiet q;
								cell[c].read("protected data");
								v = value[c];
							}
							l.is_locked();
							vs::Quiet q;
							CHECK_EQ(value[c], v, "data changed under a shared hold");
						}
					}
					vs::Quiet q;
					--(write ? writers : readers);
				};
				switch (st.kind) {
					case 0:
						l.lock();
						section();
						l.unlock();
						break;
					case 1:
						if (l.try_lock()) {
							section();
							l.unlock();
						}
						break;
					case 2:
						l.lock_shared();
						section();
						l.unlock_shared();
						break;
					case 3:
						if (l.try_lock_shared()) {
							section();
							l.unlock_shared();
						}
						break;
					case 4:
						if constexpr (Tr<L>::timed) {
							auto t0 = vs::vs_clock::now();
							auto d = std::chrono::milliseconds(st.ms);
							bool ok = st.cells & 1 ? l.try_lock_for(d) : l.try_lock_until(t0 + d);
							if (ok) {
								section();
								l.unlock();
							}
							else
								CHECK(vs::vs_clock::now() > t0 + d, "timed try gave up before its deadline");
						}
						break;
					case 5: {
						std::unique_lock<L> g(l);
						section();
						break;
					}
					case 6: {
						std::shared_lock<L> g(l);
						section();
						break;
					}
				}
				vs::progress();
			}
		});
	vs::run(s, cfg, th);
	s.note(n, " threads, ", entered, " sections, ", vs::switches(), " preemptions\n");
	for (int c = 0; c < NC; ++c)
		CHECK_EQ(value[c], wsum[c], "lost update of protected data");
	CHECK(!l.is_locked(), "is_locked after every thread has released");
	// free again, in either mode
	if (fin_cfg) {
		CHECK(l.try_lock(), "try_lock of a free lock");
		CHECK(!l.try_lock() && !l.try_lock_shared());
		l.unlock();
	}
	CHECK(l.try_lock_shared(), "try_lock_shared of a free lock");
	CHECK(!l.try_lock());
	l.unlock_shared();
	CHECK(l.try_lock());
	l.unlock();
	if (entered >= 3 && vs::switches() >= 1 && contended)
		s.nontrivial();
	if (max_readers > 1)
		s.classify("readers coexisted");
	if (contended)
		s.classify("contended");
}

// Shared holders may coexist: all readers inside at once
template<class L>
void coexist(vpt::Src& s)
{
	L l;
	int n = s.in(2, 5), inside = 0, maxi = 0;
	bool writer = s.flip();
	vs::Config cfg = vs::draw_config(s);
	std::vector<std::function<void()>> th;
	for (int t = 0; t < n; ++t)
		th.push_back([&] {
			l.lock_shared();
			{
				vs::Quiet q;
				maxi = std::max(maxi, ++inside);
			}
			// wait for the others (they can all be inside at once, so this ends)
			while (inside < n)
				vs::yield();
			l.unlock_shared();
			vs::progress();
		});
	vs::run(s, cfg, th);
	CHECK_EQ(maxi, n);
	(void)writer;
	s.nontrivial();
}

PROP_FN(history_spinlock, history<Spin>, 40000);
PROP_FN(history_shared8, history<Shared<uint8_t>>, 40000);
PROP_FN(history_shared16, history<Shared<uint16_t>>, 40000);
PROP_FN(history_shared32, history<Shared<uint32_t>>, 40000);
PROP_FN(history_shared64, history<Shared<uint64_t>>, 40000);
PROP_FN(history_null, history<seq::null_lock>, 10000);
PROP_FN(threads_spinlock, concurrent<Spin>, 200000);
PROP_FN(threads_shared8, concurrent<Shared<uint8_t>>, 200000);
PROP_FN(threads_shared16, concurrent<Shared<uint16_t>>, 120000);
PROP_FN(threads_shared32, concurrent<Shared<uint32_t>>, 200000);
PROP_FN(threads_shared64, concurrent<Shared<uint64_t>>, 120000);
PROP_FN(coexist_shared8, coexist<Shared<uint8_t>>, 20000);
PROP_FN(coexist_shared32, coexist<seq::shared_spinlock>, 20000);

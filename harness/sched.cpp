// Compiled without any sanitizer.  See sched.hpp.
#include "sched.hpp"
#include <condition_variable>
#include <sys/mman.h>
#include <ucontext.h>
#include <unordered_map>

extern "C" {
void __sanitizer_start_switch_fiber(void** save, const void* bottom, size_t size) __attribute__((weak));
void __sanitizer_finish_switch_fiber(void* save, const void** bottom, size_t* size) __attribute__((weak));
void* __asan_region_is_poisoned(void* p, size_t n) __attribute__((weak));
void __asan_describe_address(void*) __attribute__((weak));
void* __cxa_get_globals();
}

namespace vs {
int64_t vs_clock::t = 0;
namespace {
constexpr size_t StackSize = 512 * 1024;
struct Fiber
{
	ucontext_t ctx;
	char* stack = nullptr;
	void* fake = nullptr;
	bool done = true;
	int quiet = 0;
	uint64_t eh[2] = { 0, 0 };
	VC vc, pend, rel;
	const std::function<void()>* fn = nullptr;
};
struct Sync
{
	VC vc;
};
Fiber F[MaxThreads];
ucontext_t main_ctx;
void* main_fake;
const void* main_bottom;
size_t main_size;
uint64_t main_eh[2];
int cur = -1, nth = 0;
bool active = false;
vpt::Src* src;
Config cfg;
uint64_t ev, idle, preempts, since_switch;
uint64_t gap_left;
unsigned preempt_left;
std::string first_fail;
std::unordered_map<const void*, Sync>* syncs;
struct Stop
{
};
bool stopping = false;

void join(VC& a, const VC& b)
{
	for (int i = 0; i <= MaxThreads; ++i)
		if (a.c[i] < b.c[i])
			a.c[i] = b.c[i];
}

void swap_eh(uint64_t* save, const uint64_t* load)
{
	uint64_t* g = (uint64_t*)__cxa_get_globals();
	save[0] = g[0];
	save[1] = g[1];
	g[0] = load[0];
	g[1] = load[1];
}
void switch_to(int t, bool dying = false)
{
	int from = cur;
	if (t == from)
		return;
	since_switch = 0;
	cur = t;
	uint64_t* se = from < 0 ? main_eh : F[from].eh;
	swap_eh(se, t < 0 ? main_eh : F[t].eh);
	void** fk = from < 0 ? &main_fake : &F[from].fake;
	if (__sanitizer_start_switch_fiber)
		__sanitizer_start_switch_fiber(dying ? nullptr : fk, t < 0 ? main_bottom : (const void*)F[t].stack, t < 0 ? main_size : StackSize);
	swapcontext(from < 0 ? &main_ctx : &F[from].ctx, t < 0 ? &main_ctx : &F[t].ctx);
	// back in `from`
	if (__sanitizer_finish_switch_fiber) {
		const void* b;
		size_t sz;
		__sanitizer_finish_switch_fiber(*fk, from < 0 ? &b : &b, &sz);
	}
}
int next_of(int t)
{
	for (int i = 1; i <= nth; ++i) {
		int k = ((t < 0 ? nth - 1 : t) + i) % nth;
		if (!F[k].done)
			return k;
	}
	return -1;
}
void check_stop()
{
	// after a failure the run is abandoned: back to main for good
	if (stopping)
		switch_to(-1);
}
void give_up(const std::string& why)
{
	if (first_fail.empty())
		first_fail = why;
	stopping = true;
	switch_to(-1);
}
void next_gap()
{
	if (preempt_left) {
		--preempt_left;
		gap_left = 1 + src->raw(cfg.gap);
	}
	else
		gap_left = ~0ull;
}
void point()
{
	if (++since_switch > 20000) {
		// a loop without yield: the operating system would preempt it
		if (++idle > cfg.idle_limit)
			give_up("no progress: the threads only spin");
		int n = next_of(cur);
		if (n >= 0 && n != cur)
			switch_to(n);
		since_switch = 0;
		check_stop();
	}
	if (--gap_left == 0) {
		int alive = 0;
		for (int i = 0; i < nth; ++i)
			alive += !F[i].done && i != cur;
		int k = alive ? (int)src->raw(alive) : -1;
		next_gap();
		if (k < 0)
			return;
		for (int i = 0; i < nth; ++i)
			if (!F[i].done && i != cur && k-- == 0) {
				++preempts;
				switch_to(i);
				check_stop();
				return;
			}
	}
}
inline bool on() { return active && cur >= 0 && F[cur].quiet == 0; }
inline bool own_stack(const void* p) { return (const char*)p >= F[cur].stack && (const char*)p < F[cur].stack + StackSize; }

void access(void* p, size_t n, bool write)
{
	if (!on() || own_stack(p))
		return;
	if (__asan_region_is_poisoned && __asan_region_is_poisoned(p, n)) {
		active = false;
		fprintf(stderr, "sched: %s of %zu byte(s) at an address AddressSanitizer has poisoned (freed or out of bounds), thread %d\n", write ? "write" : "read", n, cur);
		if (__asan_describe_address)
			__asan_describe_address(__asan_region_is_poisoned(p, n));
		abort();
	}
	if (cfg.all_accesses)
		point();
}
void apoint(const void* p, size_t n)
{
	if (!on())
		return;
	if (__asan_region_is_poisoned && !own_stack(p) && __asan_region_is_poisoned((void*)p, n)) {
		active = false;
		fprintf(stderr, "sched: atomic access of %zu byte(s) at an address AddressSanitizer has poisoned (freed or out of bounds), thread %d\n", n, cur);
		if (__asan_describe_address)
			__asan_describe_address((void*)p);
		abort();
	}
	point();
}
bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
void on_load(const void* p, int mo)
{
	if (!on())
		return;
	auto it = syncs->find(p);
	if (it == syncs->end())
		return;
	join(acq(mo) ? F[cur].vc : F[cur].pend, it->second.vc);
}
void on_store(const void* p, int mo)
{
	if (!on())
		return;
	(*syncs)[p].vc = rel(mo) ? F[cur].vc : F[cur].rel;
	if (rel(mo))
		++F[cur].vc.c[cur];
}
void on_rmw(const void* p, int mo)
{
	if (!on())
		return;
	VC& l = (*syncs)[p].vc;
	join(acq(mo) ? F[cur].vc : F[cur].pend, l);
	join(l, rel(mo) ? F[cur].vc : F[cur].rel);
	if (rel(mo))
		++F[cur].vc.c[cur];
}
void on_fence(int mo)
{
	if (!on())
		return;
	if (acq(mo))
		join(F[cur].vc, F[cur].pend);
	if (rel(mo)) {
		F[cur].rel = F[cur].vc;
		++F[cur].vc.c[cur];
	}
}

void entry()
{
	if (__sanitizer_finish_switch_fiber) {
		const void* b;
		size_t sz;
		__sanitizer_finish_switch_fiber(nullptr, &b, &sz);
		if (!main_bottom) {
			main_bottom = b;
			main_size = sz;
		}
	}
	int me = cur;
	try {
		(*F[me].fn)();
	}
	catch (vpt::Fail& f) {
		give_up(vpt::str("thread ", me, ": ", f.msg));
	}
	catch (std::exception& e) {
		give_up(vpt::str("thread ", me, ": exception: ", e.what()));
	}
	F[me].done = true;
	idle = 0;
	int n = next_of(me);
	switch_to(n, true);
	abort();
}
}

int tid() { return cur; }
uint64_t tick() { return ++ev; }
uint64_t switches() { return preempts; }
void progress() { idle = 0; }
void fail(const std::string& w)
{
	if (first_fail.empty())
		first_fail = w;
}
void yield()
{
	if (!active || cur < 0)
		return;
	if (++idle > cfg.idle_limit)
		give_up("no progress: the threads wait for each other");
	int n = next_of(cur);
	if (n >= 0)
		switch_to(n);
	check_stop();
}
Quiet::Quiet()
{
	if (cur >= 0)
		++F[cur].quiet;
}
Quiet::~Quiet()
{
	if (cur >= 0)
		--F[cur].quiet;
}
static int slot() { return cur < 0 ? MaxThreads : cur; }
void Plain::reset()
{
	wt = slot() + 1;
	wc = cur < 0 ? 0 : F[cur].vc.c[cur];
	reads = VC();
}
void Plain::read(const char* what) const
{
	if (cur < 0)
		return;
	Plain* me = const_cast<Plain*>(this);
	if (wt && wt != (uint32_t)cur + 1 && wt <= MaxThreads && F[cur].vc.c[wt - 1] < wc)
		fail(vpt::str("data race: ", what, " read by thread ", cur, " is not ordered after the write by thread ", wt - 1));
	me->reads.c[cur] = F[cur].vc.c[cur];
}
void Plain::write(const char* what)
{
	if (cur < 0)
		return;
	if (wt && wt != (uint32_t)cur + 1 && wt <= MaxThreads && F[cur].vc.c[wt - 1] < wc)
		fail(vpt::str("data race: ", what, " written by thread ", cur, " while the write by thread ", wt - 1, " is not ordered before"));
	for (int i = 0; i < MaxThreads; ++i)
		if (i != cur && reads.c[i] > F[cur].vc.c[i])
			fail(vpt::str("data race: ", what, " written by thread ", cur, " while the read by thread ", i, " is not ordered before"));
	wt = cur + 1;
	wc = F[cur].vc.c[cur];
}

void vs_mutex::lock()
{
	while (!try_lock())
		yield();
}
bool vs_mutex::try_lock()
{
	if (cur < 0)
		return true;
	if (F[cur].quiet == 0)
		point();
	if (owner >= 0)
		return false;
	owner = cur;
	join(F[cur].vc, vc);
	return true;
}
void vs_mutex::unlock()
{
	if (cur < 0)
		return;
	owner = -1;
	join(vc, F[cur].vc);
	++F[cur].vc.c[cur];
	if (F[cur].quiet == 0)
		point();
}

Config draw_config(vpt::Src& s)
{
	Config c;
	c.all_accesses = s.chance(2, 3);
	c.max_preempt = s.in(0u, 14u);
	if (s.chance(1, 8))
		c.max_preempt = 100;
	c.gap = s.pick({ 4u, 12u, 40u, 120u, 400u });
	if (!c.all_accesses && c.gap > 60)
		c.gap = 60;
	return c;
}

void run(vpt::Src& s, const Config& c, const std::vector<std::function<void()>>& threads)
{
	std::unordered_map<const void*, Sync> sy;
	syncs = &sy;
	src = &s;
	cfg = c;
	nth = (int)threads.size();
	ev = idle = preempts = since_switch = 0;
	preempt_left = c.max_preempt;
	first_fail.clear();
	stopping = false;
	vs_clock::t = 0;
	next_gap();
	for (int i = 0; i < nth; ++i) {
		Fiber& f = F[i];
		if (!f.stack) {
			f.stack = (char*)mmap(nullptr, StackSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (f.stack == MAP_FAILED)
				abort();
		}
		f.done = false;
		f.quiet = 0;
		f.eh[0] = f.eh[1] = 0;
		f.fake = nullptr;
		f.vc = f.pend = f.rel = VC();
		for (int k = 0; k < nth; ++k)
			f.vc.c[k] = 1;
		f.vc.c[i] = 2;
		f.fn = &threads[i];
		getcontext(&f.ctx);
		f.ctx.uc_stack.ss_sp = f.stack;
		f.ctx.uc_stack.ss_size = StackSize;
		f.ctx.uc_link = nullptr;
		makecontext(&f.ctx, (void (*)())entry, 0);
	}
	active = true;
	switch_to(nth ? (int)s.raw(nth) : -1);
	active = false;
	if (!first_fail.empty())
		throw vpt::Fail(first_fail);
}
}

// ---- the ThreadSanitizer interface ----
using namespace vs;
#define RW(n)                                                                                                                                                                                           \
	extern "C" void __tsan_read##n(void* p) { access(p, n, false); }                                                                                                                                \
	extern "C" void __tsan_write##n(void* p) { access(p, n, true); }                                                                                                                                \
	extern "C" void __tsan_unaligned_read##n(void* p) { access(p, n, false); }                                                                                                                      \
	extern "C" void __tsan_unaligned_write##n(void* p) { access(p, n, true); }                                                                                                                      \
	extern "C" void __tsan_volatile_read##n(void* p) { access(p, n, false); }                                                                                                                       \
	extern "C" void __tsan_volatile_write##n(void* p) { access(p, n, true); }                                                                                                                       \
	extern "C" void __tsan_read_write##n(void* p) { access(p, n, true); }                                                                                                                           \
	extern "C" void __tsan_unaligned_read_write##n(void* p) { access(p, n, true); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void __tsan_read_range(void* p, size_t n)
{
	if (n)
		access(p, n, false);
}
void __tsan_write_range(void* p, size_t n)
{
	if (n)
		access(p, n, true);
}
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
	if (n) {
		access((void*)s, n, false);
		access(d, n, true);
	}
	return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
	if (n) {
		access((void*)s, n, false);
		access(d, n, true);
	}
	return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, size_t n)
{
	if (n)
		access(d, n, true);
	return memset(d, v, n);
}
void __tsan_atomic_thread_fence(int mo) { on_fence(mo); }
void __tsan_atomic_signal_fence(int) {}
}
#define AT(bits, T)                                                                                                                                                                                     \
	extern "C" T __tsan_atomic##bits##_load(const volatile T* p, int mo)                                                                                                                            \
	{                                                                                                                                                                                               \
		apoint((const void*)p, sizeof(T));                                                                                                                                                      \
		on_load((const void*)p, mo);                                                                                                                                                            \
		return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                                                                                            \
	}                                                                                                                                                                                               \
	extern "C" void __tsan_atomic##bits##_store(volatile T* p, T v, int mo)                                                                                                                         \
	{                                                                                                                                                                                               \
		apoint((const void*)p, sizeof(T));                                                                                                                                                      \
		on_store((const void*)p, mo);                                                                                                                                                           \
		__atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                                                                                               \
	}                                                                                                                                                                                               \
	RMW(bits, T, exchange, __atomic_exchange_n)                                                                                                                                                     \
	RMW(bits, T, fetch_add, __atomic_fetch_add)                                                                                                                                                     \
	RMW(bits, T, fetch_sub, __atomic_fetch_sub)                                                                                                                                                     \
	RMW(bits, T, fetch_and, __atomic_fetch_and)                                                                                                                                                     \
	RMW(bits, T, fetch_or, __atomic_fetch_or)                                                                                                                                                       \
	RMW(bits, T, fetch_xor, __atomic_fetch_xor)                                                                                                                                                     \
	RMW(bits, T, fetch_nand, __atomic_fetch_nand)                                                                                                                                                   \
	extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo)                                                                                         \
	{                                                                                                                                                                                               \
		apoint((const void*)p, sizeof(T));                                                                                                                                                      \
		bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                                                                              \
		if (ok)                                                                                                                                                                                 \
			on_rmw((const void*)p, mo);                                                                                                                                                     \
		else                                                                                                                                                                                    \
			on_load((const void*)p, fmo);                                                                                                                                                   \
		return ok;                                                                                                                                                                              \
	}                                                                                                                                                                                               \
	extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo)                                                                                           \
	{                                                                                                                                                                                               \
		return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo);                                                                                                                 \
	}                                                                                                                                                                                               \
	extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo)                                                                                               \
	{                                                                                                                                                                                               \
		__tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo);                                                                                                                       \
		return e;                                                                                                                                                                               \
	}
#define RMW(bits, T, name, op)                                                                                                                                                                          \
	extern "C" T __tsan_atomic##bits##_##name(volatile T* p, T v, int mo)                                                                                                                           \
	{                                                                                                                                                                                               \
		apoint((const void*)p, sizeof(T));                                                                                                                                                      \
		on_rmw((const void*)p, mo);                                                                                                                                                             \
		return op(p, v, __ATOMIC_SEQ_CST);                                                                                                                                                      \
	}
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)

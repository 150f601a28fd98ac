// C09: concurrent_set / concurrent_map shared by several threads: each operation takes effect at one
// point between its call and its return, per key; elements are never accessed without ordering; no
// deadlock; no element lost or duplicated.
#include <bits/stdc++.h>
#include <execution>
#include "sched.hpp"
#include "sched_begin.hpp"
#include "seq/concurrent_map.hpp"
#include "sched_end.hpp"

using vpt::Src;
using K = int64_t;

// ---- keys: their hash is chosen by the case ----
constexpr int NKeys = 64;
inline uint64_t g_hash[NKeys];

struct Visit
{
};

inline long g_live; // living cells

// A value (or set element) whose accesses are checked
template<bool NM>
struct Cell
{
	vs::Plain p;
	K a = 0, b = 0; // equal unless someone is writing
	K key = -1;
	explicit Cell(K id, K k = -1)
	  : a(id)
	  , b(id)
	  , key(k)
	{
		vs::Quiet q;
		p.reset();
		++g_live;
	}
	Cell(const Cell& o)
	{
		{
			vs::Quiet q;
			o.p.read("copied element");
			p.reset();
			++g_live;
		}
		a = o.a;
		b = o.b;
		key = o.key;
	}
	Cell(Cell&& o) noexcept(NM)
	{
		{
			vs::Quiet q;
			o.p.write("moved element");
			p.reset();
			++g_live;
		}
		a = o.a;
		b = o.b;
		key = o.key;
	}
	Cell& operator=(const Cell& o)
	{
		{
			vs::Quiet q;
			o.p.read("copied element");
			p.write("assigned element");
		}
		a = o.a;
		b = o.b;
		key = o.key;
		return *this;
	}
	Cell& operator=(Cell&& o) noexcept(NM)
	{
		{
			vs::Quiet q;
			o.p.write("moved element");
			p.write("assigned element");
		}
		a = o.a;
		b = o.b;
		key = o.key;
		return *this;
	}
	~Cell()
	{
		vs::Quiet q;
		p.write("destroyed element");
		--g_live;
		a = -77;
	}
	K read() const
	{
		{
			vs::Quiet q;
			p.read("visited element");
		}
		K x = a;
		K y = b;
		if (x != y) {
			vs::Quiet q;
			vs::fail(vpt::str("half written element seen: ", x, " ", y));
		}
		return x;
	}
	void write(K v)
	{
		{
			vs::Quiet q;
			p.write("modified element");
		}
		a = v;
		b = v;
	}
};
template<bool NM>
bool operator==(const Cell<NM>& a, const Cell<NM>& b)
{
	return a.read() == b.read();
}
inline K key_of(K k) { return k; }
template<bool NM>
K key_of(const Cell<NM>& c)
{
	vs::Quiet q;
	c.p.read("compared key");
	return c.key;
}
struct GH
{
	using is_avalanching = void;
	using is_transparent = void;
	template<class T>
	size_t operator()(const T& t) const
	{
		return g_hash[key_of(t)];
	}
};
struct GE
{
	using is_transparent = void;
	template<class A, class B>
	bool operator()(const A& a, const B& b) const
	{
		return key_of(a) == key_of(b);
	}
};

template<bool NM, unsigned Sh>
struct MapOf
{
	static constexpr bool is_map = true;
	using C = Cell<NM>;
	using M = seq::concurrent_map<K, C, GH, GE, std::allocator<std::pair<K, C>>, Sh>;
	static K key(const std::pair<K, C>& v) { return v.first; }
	static K key(const std::pair<const K, C>& v) { return v.first; }
	template<class P>
	static C& cell(P& v)
	{
		return v.second;
	}
	template<class P>
	static const C& ccell(const P& v)
	{
		return v.second;
	}
	static std::pair<K, C> make(K k, K id) { return { k, C(id) }; }
};
template<bool NM, unsigned Sh>
struct SetOf
{
	static constexpr bool is_map = false;
	using C = Cell<NM>;
	using M = seq::concurrent_set<C, GH, GE, std::allocator<C>, Sh>;
	static K key(const C& c) { return key_of(c); }
	static const C& ccell(const C& v) { return v; }
	static C make(K k, K id) { return C(id, k); }
};

// ---- histories ----
enum Kind
{
	INS,	// result: inserted; else maybe seen (and set)
	INSU,	// insertion without a result
	ASSIGN, // insert_or_assign
	ERASE,
	ERASEIF, // seen, erased
	READ,	 // found, seen (-2: not known)
	MOD,	 // found, seen, set
	CLEAR,
	MERGE, // into c from 1-c
	COPY,  // into c from 1-c (the copying half of an assignment)
};
inline const char* kind_name[] = { "insert", "insert?", "insert_or_assign", "erase", "erase_if", "read", "modify", "clear", "merge", "copy" };
struct Ev
{
	Kind kind;
	int c;
	K key;
	K id = -1;   // inserted id
	bool res = false; // inserted/found/erased
	K seen = -2, set = -1;
	uint64_t t0 = 0, t1 = 0;
	int thread = 0;
	std::string show() const
	{
		return vpt::str("thread ", thread, " [", t0, ",", t1, "] ", kind_name[kind], " container ", c, " key ", key, " id ", id, " -> ", res, " seen ", seen, " set ", set);
	}
};
using State = std::pair<K, K>;
inline bool apply(const Ev& e, State& s)
{
	K& v = e.c ? s.second : s.first;
	K& o = e.c ? s.first : s.second;
	switch (e.kind) {
		case INS:
			if (e.res) {
				if (v >= 0)
					return false;
				v = e.id;
				return true;
			}
			if (v < 0 || (e.seen != -2 && e.seen != v))
				return false;
			if (e.set >= 0)
				v = e.set;
			return true;
		case INSU:
			if (v < 0)
				v = e.id;
			return true;
		case ASSIGN:
			if (e.res != (v < 0))
				return false;
			v = e.id;
			return true;
		case ERASE:
			if (e.res != (v >= 0))
				return false;
			v = -1;
			return true;
		case ERASEIF: // seen == -1: the functor was not called
			if (e.seen != v)
				return false;
			if (e.res)
				v = -1;
			return true;
		case READ:
			if (e.res != (v >= 0))
				return false;
			return !e.res || e.seen == -2 || e.seen == v;
		case MOD:
			if (e.res != (v >= 0))
				return false;
			if (e.res) {
				if (e.seen != v)
					return false;
				v = e.set;
			}
			return true;
		case CLEAR:
			v = -1;
			return true;
		case MERGE:
			if (v < 0 && o >= 0) {
				v = o;
				o = -1;
			}
			return true;
		case COPY:
			if (v < 0 && o >= 0)
				v = o;
			return true;
	}
	return false;
}
struct Lin
{
	const std::vector<Ev>& ev;
	std::set<std::tuple<uint64_t, K, K>> seen;
	uint64_t steps = 0;
	bool rec(uint64_t done, State st)
	{
		if (done == (ev.size() == 64 ? ~0ull : (1ull << ev.size()) - 1))
			return true;
		if (!seen.insert({ done, st.first, st.second }).second)
			return false;
		if (++steps > 400000)
			return true; // given up: not decided
		uint64_t first_end = ~0ull;
		for (size_t i = 0; i < ev.size(); ++i)
			if (!(done >> i & 1))
				first_end = std::min(first_end, ev[i].t1);
		for (size_t i = 0; i < ev.size(); ++i)
			if (!(done >> i & 1) && ev[i].t0 <= first_end) {
				State n = st;
				if (apply(ev[i], n) && rec(done | 1ull << i, n))
					return true;
			}
		return false;
	}
};

// ---- programs ----
struct Op
{
	int kind;
	int c;
	K key;
	K id;
	int form;
	int param;
};
enum OpKind
{
	O_INSERT,
	O_ERASE,
	O_ERASE_IF,
	O_VISIT,
	O_MODIFY,
	O_CONTAINS,
	O_ASSIGN,
	O_VISIT_ALL,
	O_MODIFY_ALL,
	O_ERASE_IF_ALL,
	O_CLEAR,
	O_RESERVE,
	O_REHASH,
	O_MLF,
	O_MERGE,
	O_COPY,
	O_COPY_ASSIGN,
	O_SIZE,
	O_EQUAL,
	O_RANGE,
	O_SWAP,
	O_COUNT
};
inline const char* op_name[] = { "insert", "erase", "erase_if(key)", "visit", "modify", "contains", "insert_or_assign", "visit_all", "modify_all", "erase_if(all)", "clear", "reserve", "rehash", "max_load_factor", "merge", "copy", "copy assign", "size", "==", "insert range", "swap" };

template<class Cfg>
struct Run
{
	using M = typename Cfg::M;
	using C = typename Cfg::C;
	static constexpr bool is_map = Cfg::is_map;
	Src& s;
	std::unique_ptr<M> m[2];
	State init[NKeys];
	std::vector<Ev> ev[vs::MaxThreads];
	int used = 0;
	K next_id = 1;
	bool swaps = false;
	long delta[NKeys] = {}; // swap mode: successful insertions - erasures

	explicit Run(Src& src)
	  : s(src)
	{
	}
	bool dropped(K id, int p) { return p == 0 ? true : p == 1 ? false : id % p == 0; }

	template<class F>
	auto key_arg(K k, F&& f)
	{
		if constexpr (is_map)
			return f(k);
		else {
			return f(k); // transparent
		}
	}
	void add(int t, Ev e, uint64_t t0)
	{
		e.t0 = t0;
		e.t1 = vs::tick();
		e.thread = t;
		ev[t].push_back(e);
	}

	void exec(int t, const Op& o)
	{
		M& x = *m[o.c];
		uint64_t t0;
		{
			vs::Quiet q;
			t0 = vs::tick();
		}
		std::vector<K>& ids = scratch[t];
		switch (o.kind) {
			case O_INSERT: {
				Ev e{ INS, o.c, o.key };
				e.id = o.id;
				bool called = false;
				auto rd = [&](const auto& v) {
					K z = Cfg::ccell(v).read();
					vs::Quiet q;
					CHECK(!called, "insertion visitor called twice");
					called = true;
					e.seen = z;
				};
				bool r = false;
				if constexpr (is_map) {
					auto wr = [&](auto& v) {
						rd(v);
						Cfg::cell(v).write(o.id + 1);
						e.set = o.id + 1;
					};
					switch (o.form) {
						case 0:
							r = x.emplace(o.key, o.id);
							break;
						case 1:
							r = x.insert(Cfg::make(o.key, o.id));
							break;
						case 2: {
							auto v = Cfg::make(o.key, o.id);
							r = x.insert(v);
							break;
						}
						case 3:
							r = x.try_emplace(o.key, o.id);
							break;
						case 4:
							r = x.insert_or_visit(Cfg::make(o.key, o.id), wr);
							break;
						case 5:
							r = x.insert_or_cvisit(Cfg::make(o.key, o.id), rd);
							break;
						case 6:
							r = x.emplace_or_visit(o.key, o.id, wr);
							break;
						case 7:
							r = x.emplace_or_cvisit(o.key, o.id, rd);
							break;
						case 8:
							r = x.try_emplace_or_visit(o.key, o.id, wr);
							break;
						default:
							r = x.try_emplace_or_cvisit(o.key, o.id, rd);
							break;
					}
				}
				else {
					switch (o.form % 6) {
						case 0:
							r = x.emplace(o.id, o.key);
							break;
						case 1:
							r = x.insert(Cfg::make(o.key, o.id));
							break;
						case 2: {
							auto v = Cfg::make(o.key, o.id);
							r = x.insert(v);
							break;
						}
						case 3:
							r = x.insert_or_visit(Cfg::make(o.key, o.id), rd);
							break;
						case 4:
							r = x.insert_or_cvisit(Cfg::make(o.key, o.id), rd);
							break;
						case 5:
							r = x.emplace_or_visit(o.id, o.key, rd);
							break;
					}
				}
				vs::Quiet q;
				e.res = r;
				CHECK(!(r && called), "visitor called although the key was inserted");
				bool visits = is_map ? o.form >= 4 : o.form % 6 >= 3;
				CHECK(r || called == visits, "no insertion and no visit");
				if (r)
					++delta[o.key];
				add(t, e, t0);
				break;
			}
			case O_ERASE: {
				Ev e{ ERASE, o.c, o.key };
				size_t n = x.erase(o.key);
				vs::Quiet q;
				CHECK(n <= 1, "erase of one key returned ", n);
				e.res = n;
				delta[o.key] -= n;
				add(t, e, t0);
				break;
			}
			case O_ERASE_IF: {
				Ev e{ ERASEIF, o.c, o.key };
				e.seen = -1;
				size_t n = x.erase_if(o.key, [&](auto& v) {
					K z = Cfg::ccell(v).read();
					vs::Quiet q;
					CHECK(e.seen == -1, "erase_if functor called twice");
					e.seen = z;
					return dropped(z, o.param);
				});
				vs::Quiet q;
				e.res = n;
				CHECK(n == (e.seen >= 0 && dropped(e.seen, o.param)), "erase_if returned ", n);
				delta[o.key] -= n;
				add(t, e, t0);
				break;
			}
			case O_VISIT: {
				Ev e{ READ, o.c, o.key };
				size_t calls = 0;
				bool thrown = false;
				size_t n = 0;
				auto rd = [&](const auto& v) {
					K z = Cfg::ccell(v).read();
					vs::Quiet q;
					++calls;
					e.seen = z;
					if (o.param == 3)
						throw Visit();
				};
				try {
					if (o.form % 3 == 0)
						n = x.visit(o.key, rd);
					else if (o.form % 3 == 1)
						n = std::as_const(x).visit(o.key, rd);
					else
						n = x.cvisit(o.key, rd);
				}
				catch (Visit&) {
					thrown = true;
				}
				vs::Quiet q;
				CHECK(thrown || n == calls, "visit returned ", n, " after ", calls, " calls");
				e.res = calls;
				add(t, e, t0);
				break;
			}
			case O_MODIFY: {
				if constexpr (is_map) {
					Ev e{ MOD, o.c, o.key };
					size_t calls = 0;
					e.set = o.id;
					size_t n = x.visit(o.key, [&](auto& v) {
						K z = Cfg::ccell(v).read();
						Cfg::cell(v).write(o.id);
						vs::Quiet q;
						++calls;
						e.seen = z;
					});
					vs::Quiet q;
					CHECK(n == calls, "visit returned ", n, " after ", calls, " calls");
					e.res = n;
					add(t, e, t0);
				}
				break;
			}
			case O_CONTAINS: {
				Ev e{ READ, o.c, o.key };
				bool r = o.form % 2 ? x.contains(o.key) : x.count(o.key) == 1;
				vs::Quiet q;
				e.res = r;
				add(t, e, t0);
				break;
			}
			case O_ASSIGN: {
				if constexpr (is_map) {
					Ev e{ ASSIGN, o.c, o.key };
					e.id = o.id;
					bool r = x.insert_or_assign(o.key, C(o.id));
					vs::Quiet q;
					e.res = r;
					add(t, e, t0);
				}
				break;
			}
			case O_VISIT_ALL:
			case O_COPY: {
				{
					vs::Quiet q;
					ids.assign(NKeys, -1);
				}
				bool stopped = false;
				auto rd = [&](const auto& v) {
					K z = Cfg::ccell(v).read();
					K k = Cfg::key(v);
					vs::Quiet q;
					CHECK(k >= 0 && k < NKeys, "key ", k, " seen");
					CHECK(ids[k] == -1, "visit_all visits key ", k, " twice");
					ids[k] = z;
					if (o.param && k == o.key) {
						stopped = true;
						return false;
					}
					return true;
				};
				if (o.kind == O_COPY) {
					M c(x);
					vs::Quiet q;
					c.cvisit_all([&](const auto& v) {
						K k = Cfg::key(v), z = Cfg::ccell(v).read();
						CHECK(ids[k] == -1, "a copy contains key ", k, " twice");
						ids[k] = z;
					});
				}
				else {
					bool r;
					if (o.form % 3 == 0)
						r = x.visit_all(rd);
					else if (o.form % 3 == 1)
						r = std::as_const(x).visit_all(rd);
					else
						r = x.cvisit_all(rd);
					vs::Quiet q;
					CHECK(r == !stopped, "visit_all returned ", r);
				}
				vs::Quiet q;
				for (K k = 0; k < used; ++k)
					if (!stopped || ids[k] >= 0) {
						Ev e{ READ, o.c, k };
						e.res = ids[k] >= 0;
						e.seen = ids[k];
						add(t, e, t0);
					}
				break;
			}
			case O_MODIFY_ALL: {
				if constexpr (is_map) {
					{
						vs::Quiet q;
						ids.assign(NKeys, -1);
					}
					x.visit_all([&](auto& v) {
						K z = Cfg::ccell(v).read();
						K k = Cfg::key(v);
						Cfg::cell(v).write(o.id * 1000 + k);
						vs::Quiet q;
						CHECK(ids[k] == -1, "visit_all visits key ", k, " twice");
						ids[k] = z;
					});
					vs::Quiet q;
					for (K k = 0; k < used; ++k) {
						Ev e{ MOD, o.c, k };
						e.res = ids[k] >= 0;
						e.seen = ids[k];
						e.set = o.id * 1000 + k;
						add(t, e, t0);
					}
				}
				break;
			}
			case O_ERASE_IF_ALL: {
				{
					vs::Quiet q;
					ids.assign(NKeys, -1);
				}
				size_t expect = 0;
				size_t n = x.erase_if([&](auto& v) {
					K z = Cfg::ccell(v).read();
					K k = Cfg::key(v);
					vs::Quiet q;
					CHECK(ids[k] == -1, "erase_if asks for key ", k, " twice");
					ids[k] = z;
					bool d = dropped(z, o.param);
					expect += d;
					return d;
				});
				vs::Quiet q;
				CHECK_EQ(n, expect, "erase_if result");
				for (K k = 0; k < used; ++k) {
					Ev e{ ERASEIF, o.c, k };
					e.seen = ids[k];
					e.res = ids[k] >= 0 && dropped(ids[k], o.param);
					delta[k] -= e.res;
					add(t, e, t0);
				}
				break;
			}
			case O_CLEAR:
				x.clear();
				{
					vs::Quiet q;
					for (K k = 0; k < used; ++k)
						add(t, Ev{ CLEAR, o.c, k }, t0);
				}
				break;
			case O_RESERVE:
				x.reserve(o.param * 9);
				break;
			case O_REHASH:
				x.rehash(o.param * 9);
				break;
			case O_MLF:
				x.max_load_factor(0.1f + 0.2f * o.param);
				break;
			case O_MERGE:
				x.merge(*m[1 - o.c]);
				{
					vs::Quiet q;
					for (K k = 0; k < used; ++k)
						add(t, Ev{ MERGE, o.c, k }, t0);
				}
				break;
			case O_COPY_ASSIGN:
				x = *m[1 - o.c];
				{
					vs::Quiet q;
					for (K k = 0; k < used; ++k) {
						add(t, Ev{ CLEAR, o.c, k }, t0);
						add(t, Ev{ COPY, o.c, k }, t0);
					}
				}
				break;
			case O_SIZE: {
				size_t n = x.size();
				vs::Quiet q;
				CHECK(n <= NKeys, "size() is ", n);
				break;
			}
			case O_EQUAL:
				if (*m[0] == *m[1]) {
				}
				break;
			case O_RANGE: {
				auto v0 = Cfg::make(o.key, o.id);
				auto v1 = Cfg::make((o.key + 1) % used, o.id + 1);
				typename M::value_type arr[2] = { v0, v1 };
				x.insert(arr, arr + 2);
				vs::Quiet q;
				Ev e{ INSU, o.c, o.key };
				e.id = o.id;
				add(t, e, t0);
				Ev f{ INSU, o.c, (o.key + 1) % used };
				f.id = o.id + 1;
				add(t, f, t0);
				break;
			}
			case O_SWAP:
				m[0]->swap(*m[1]);
				break;
		}
		vs::progress();
	}
	std::vector<K> scratch[vs::MaxThreads];

	void go()
	{
		{
			M warm; // function statics
			typename M::value_type v = Cfg::make(0, 1);
			warm.insert(v);
			warm.clear();
			warm.contains(0);
		}
		// keys and hashes
		int hot = s.in(1, 4);
		int fill = s.pick({ 0, 0, 3, 13, 14, 15, 16, 20, 29, 40 });
		used = hot + fill;
		unsigned spread = s.pick({ 1u, 1u, 2u, 4u, 64u });  // buckets
		unsigned sh = s.pick({ 1u, 1u, 2u, 32u });	     // shards
		unsigned tiny = s.pick({ 1u, 1u, 2u, 256u });
		uint64_t hseed = s.raw(1 << 16);
		for (int i = 0; i < used; ++i) {
			uint64_t st = i * 977 + hseed, r = vpt::splitmix(st);
			g_hash[i] = (r % spread) | ((r >> 20) % sh) << 47 | ((r >> 40) % tiny) << 56;
		}
		for (auto& x : m)
			x.reset(new M());
		for (int i = 0; i < NKeys; ++i)
			init[i] = { -1, -1 };
		// prefill
		bool two = s.chance(1, 3);
		swaps = two && s.chance(1, 5);
		for (int c = 0; c < (two ? 2 : 1); ++c) {
			if (s.chance(1, 3))
				m[c]->reserve(s.pick({ 10, 17, 40, 100 }));
			bool full = s.chance(3, 4);
			for (K k = 0; k < used; ++k) {
				if (k < hot ? s.chance(1, 3) : (full ? true : s.flip())) {
					if (c == 1 && k >= hot && s.flip())
						continue;
					K id = next_id += 2;
					CHECK(m[c]->insert(Cfg::make(k, id)));
					(c ? init[k].second : init[k].first) = id;
				}
			}
			if (s.chance(1, 6)) { // locks without elements
				if (s.flip())
					m[c]->rehash(100);
				m[c]->clear();
				for (K k = 0; k < used; ++k)
					(c ? init[k].second : init[k].first) = -1;
			}
			s.note("container ", c, ": ", m[c]->size(), " of ", used, " keys (", hot, " hot), ", spread, " buckets ", sh, " shards ", tiny, " tiny hashes", swaps ? ", swaps" : "", "\n");
		}
		int n = s.in(2, 4);
		std::vector<std::vector<Op>> prog(n);
		int mods = 0, total = 0;
		// a few kinds of special operations per case, so that they meet
		std::vector<int> special;
		{
			std::vector<int> all = { O_VISIT_ALL, O_MODIFY_ALL, O_ERASE_IF_ALL, O_CLEAR, O_RESERVE, O_REHASH, O_MLF, O_COPY, O_SIZE, O_RANGE, O_CLEAR, O_REHASH };
			if (two)
				all.insert(all.end(), { O_MERGE, O_MERGE, O_COPY_ASSIGN, O_EQUAL });
			if (swaps)
				all = { O_SWAP, O_SWAP, O_ERASE_IF_ALL, O_VISIT_ALL, O_RESERVE, O_REHASH, O_SIZE };
			int k = s.in(0, 3);
			for (int i = 0; i < k; ++i)
				special.push_back(all[s.raw(all.size())]);
		}
		for (int t = 0; t < n; ++t) {
			int len = s.in(1, n == 2 ? 6 : 4);
			for (int i = 0; i < len; ++i) {
				Op o;
				bool sp = !special.empty() && s.chance(1, 3);
				if (sp)
					o.kind = special[s.raw(special.size())];
				else
					o.kind = s.weighted({ 6, 4, 2, 3, 3, 2, 2 });
				o.c = two ? (int)s.chance(1, 3) : 0;
				o.key = s.chance(5, 6) ? (K)s.raw(hot) : (K)s.raw(used);
				o.id = next_id += 2;
				o.form = (int)s.raw(12);
				o.param = (int)s.raw(5);
				if (o.kind == O_ERASE_IF_ALL || o.kind == O_ERASE_IF)
					o.param = s.pick({ 0, 2, 3, 1 });
				if (o.kind == O_VISIT_ALL)
					o.param = s.chance(1, 4);
				if (o.kind == O_COPY)
					o.param = 0;
				if (!is_map && (o.kind == O_MODIFY || o.kind == O_ASSIGN || o.kind == O_MODIFY_ALL))
					o.kind = o.kind == O_MODIFY_ALL ? O_VISIT_ALL : O_INSERT;
				if (swaps && o.kind == O_ASSIGN)
					o.kind = O_INSERT;
				s.note("thread ", t, ": ", op_name[o.kind], " c", o.c, " key ", o.key, " id ", o.id, " form ", o.form, " param ", o.param, "\n");
				prog[t].push_back(o);
				++total;
				mods += o.kind != O_VISIT && o.kind != O_CONTAINS && o.kind != O_VISIT_ALL && o.kind != O_SIZE;
			}
		}
		auto cfg = vs::draw_config(s);
		std::vector<std::function<void()>> th;
		for (int t = 0; t < n; ++t)
			th.push_back([this, t, &prog] {
				for (const Op& o : prog[t])
					exec(t, o);
			});
		vs::run(s, cfg, th);
		// final state
		State fin[NKeys];
		for (auto& f : fin)
			f = { -1, -1 };
		for (int c = 0; c < 2; ++c) {
			size_t cnt = 0;
			m[c]->cvisit_all([&](const auto& v) {
				K k = Cfg::key(v), z = Cfg::ccell(v).read();
				K& f = c ? fin[k].second : fin[k].first;
				CHECK(f == -1, "key ", k, " is in the container twice");
				f = z;
				++cnt;
			});
			CHECK_EQ(m[c]->size(), cnt, "size of container ", c);
			for (K k = 0; k < used; ++k)
				CHECK_EQ(m[c]->contains(k), (c ? fin[k].second : fin[k].first) >= 0, "contains(", k, ") of container ", c, " against visit_all");
		}
		if (swaps) {
			for (K k = 0; k < used; ++k) {
				long a = (init[k].first >= 0) + (init[k].second >= 0), b = (fin[k].first >= 0) + (fin[k].second >= 0);
				CHECK_EQ(b, a + delta[k], "copies of key ", k, " in both containers");
			}
		}
		else {
			for (K k = 0; k < used; ++k) {
				std::vector<Ev> e;
				for (int t = 0; t < n; ++t)
					for (auto& x : ev[t])
						if (x.key == k)
							e.push_back(x);
				for (int c = 0; c < 2; ++c) {
					Ev r{ READ, c, k };
					r.seen = c ? fin[k].second : fin[k].first;
					r.res = r.seen >= 0;
					r.t0 = r.t1 = ~0ull - 1;
					r.thread = 9;
					e.push_back(r);
				}
				if (e.size() > 64)
					continue;
				Lin l{ e, {}, 0 };
				if (!l.rec(0, init[k])) {
					std::string w = vpt::str("no order of the operations on key ", k, " explains their results; initially ", init[k].first, ",", init[k].second, " in the two containers");
					for (auto& x : e)
						w += "; " + x.show();
					CHECK(false, w);
				}
			}
		}
		if (vs::switches() >= 1 && total >= 3 && mods >= 2)
			s.nontrivial();
		if (swaps)
			s.classify("with swap");
		for (int x : special)
			s.classify(op_name[x]);
		for (auto& x : m)
			x.reset();
		CHECK_EQ(g_live, 0, "elements alive at the end");
	}
};
template<class Cfg>
void run(Src& s)
{
	g_live = 0;
	auto* r = new Run<Cfg>(s); // leaked on failure: the destructors would wait for locks of stopped threads
	for (auto& x : r->scratch)
		x.resize(NKeys);
	r->go();
	delete r;
}
using namespace seq;
#if VPT_PART == 0
PROP_FN(map_low, (run<MapOf<true, low_concurrency>>), 120000, 2000000, 0, true);
#elif VPT_PART == 1
PROP_FN(map_low_shared, (run<MapOf<true, low_concurrency_shared>>), 120000, 2000000, 0, true);
#elif VPT_PART == 2
PROP_FN(map_low_copy, (run<MapOf<false, low_concurrency>>), 120000, 2000000, 0, true);
#elif VPT_PART == 3
PROP_FN(map_medium, (run<MapOf<true, medium_concurrency>>), 50000, 800000, 0, true);
#elif VPT_PART == 4
PROP_FN(set_low, (run<SetOf<true, low_concurrency>>), 120000, 2000000, 0, true);
#elif VPT_PART == 5
PROP_FN(set_2_shared, (run<SetOf<false, 1 | shared_concurrency>>), 120000, 2000000, 0, true);
#endif

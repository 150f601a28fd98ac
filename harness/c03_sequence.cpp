// C03: seq::sequence against an abstract list of (key, address, iterator).
#include "linear.hpp"
#include <seq/sequence.hpp>

template<class C>
struct SeqH
{
	using T = typename C::value_type;
	using It = typename C::iterator;
	using diff = typename C::difference_type;
	using K = lin::K;
	struct Ent
	{
		K k;
		const T* p; // null: not pinned
		It it;
	};
	using Model = std::vector<Ent>;
	vpt::Src& s;
	C c[2];
	Model m[2];
	K counter = 0;
	size_t maxsize, nops = 0, grew = 0, holes = 0, fills = 0;

	SeqH(vpt::Src& src, size_t mx)
	  : s(src)
	  , maxsize(mx)
	{
	}
	static T mk(K k) { return ty::make<T>(k); }
	static K ky(const T& v) { return ty::key<T>(v); }
	K next()
	{
		++counter;
		if (s.raw(6) == 5)
			return (K)s.raw(7);
		return counter % 9999999 + 1;
	}
	static std::string show(const Model& mm)
	{
		std::ostringstream os;
		os << "[" << mm.size() << ":";
		for (size_t i = 0; i < mm.size() && i < 40; ++i)
			os << ' ' << mm[i].k;
		os << "]";
		return os.str();
	}
	// forget addresses: an operation documented to invalidate everything took place
	void unpin(int w)
	{
		for (Ent& e : m[w])
			e.p = nullptr;
	}
	// walk the container, check content, the stability of pinned elements, pin the others
	void full(int w, const char* what)
	{
		C& x = c[w];
		Model& mm = m[w];
		CHECK_EQ(x.size(), mm.size(), what);
		CHECK_EQ(x.empty(), mm.empty(), what);
		size_t i = 0;
		for (It it = x.begin(); it != x.end(); ++it, ++i) {
			if (i >= mm.size())
				throw vpt::Fail(vpt::str(what, ": iteration goes past size ", mm.size()));
			Ent& e = mm[i];
			if (ky(*it) != e.k)
				throw vpt::Fail(vpt::str(what, ": element ", i, " is ", ky(*it), ", expected ", e.k, " model ", show(mm)));
			if (e.p) {
				if (e.p != &*it)
					throw vpt::Fail(vpt::str(what, ": reference to element ", i, " (", e.k, ") was invalidated"));
				if (e.it != it || &*e.it != &*it)
					throw vpt::Fail(vpt::str(what, ": iterator to element ", i, " (", e.k, ") was invalidated"));
			}
			e.p = &*it;
			e.it = it;
		}
		CHECK_EQ(i, mm.size(), what);
		const C& cx = x;
		i = mm.size();
		for (auto it = cx.rbegin(); it != cx.rend(); ++it) {
			if (i == 0)
				throw vpt::Fail(vpt::str(what, ": reverse traversal goes past the front"));
			--i;
			if (ky(*it) != mm[i].k)
				throw vpt::Fail(vpt::str(what, ": reverse traversal: element ", i, " is ", ky(*it), ", expected ", mm[i].k));
		}
		CHECK_EQ(i, 0u, what);
		if (mm.size()) {
			CHECK_EQ(ky(x.front()), mm.front().k, what);
			CHECK_EQ(ky(x.back()), mm.back().k, what);
			CHECK_EQ(ky(cx.front()), mm.front().k, what);
			CHECK_EQ(ky(cx.back()), mm.back().k, what);
		}
		CHECK(x.capacity() >= x.size(), what, " capacity ", x.capacity(), " size ", x.size());
	}
	void probe(int w, const char* what)
	{
		CHECK_EQ(c[w].size(), m[w].size(), what);
		if (m[w].size() <= 400 || nops % 8 == 0)
			full(w, what);
	}
	Ent ent(K k) { return Ent{ k, nullptr, It() }; }
	size_t bulk() { return s.raw(10) == 9 ? s.raw(maxsize) : s.size(80); }
	It at(int w, size_t p)
	{
		// an iterator to position p, by one of the ways to get it
		C& x = c[w];
		size_t n = m[w].size();
		switch (s.raw(5)) {
			case 0:
				return x.iterator_at(p);
			case 1:
				return x.begin() + (diff)p;
			case 2:
				return x.end() - (diff)(n - p);
			case 3:
				if (p < n && m[w][p].p)
					return m[w][p].it;
			default: {
				It it = x.begin();
				for (size_t i = 0; i < p; ++i)
					++it;
				return it;
			}
		}
	}
	void check_new(int w, size_t idx, It it, K k, const char* what)
	{
		CHECK_EQ(ky(*it), k, what, " iterator");
		CHECK_EQ((size_t)(it - c[w].begin()), idx, what, " iterator position");
	}
	void insert_at(int w, size_t p, K k)
	{
		m[w].insert(m[w].begin() + p, ent(k));
	}
	void op(int w)
	{
		C& x = c[w];
		Model& mm = m[w];
		size_t n = mm.size();
		++nops;
		unsigned o = (unsigned)s.raw(30);
		if (n > maxsize && o < 10)
			o = 10 + o % 6;
		const char* what = "?";
		s.note("#", o);
		switch (o) {
			case 0:
			case 1: {
				what = "push_back";
				K k = next();
				unsigned kind = (unsigned)s.raw(4);
				if (kind == 0)
					x.push_back(mk(k));
				else if (kind == 1) {
					T& r = x.emplace_back(mk(k));
					CHECK(&r == &x.back(), what);
					CHECK_EQ(ky(r), k, what);
				}
				else if (kind == 2) {
					It it = x.emplace_back_iter(mk(k));
					check_new(w, n, it, k, "emplace_back_iter");
				}
				else if constexpr (lin::copyable<T>) {
					const T v = mk(k);
					x.push_back(v);
				}
				else
					x.push_back(mk(k));
				insert_at(w, n, k);
				break;
			}
			case 2:
			case 3: {
				what = "push_front";
				K k = next();
				unsigned kind = (unsigned)s.raw(4);
				if (kind == 0)
					x.push_front(mk(k));
				else if (kind == 1) {
					T& r = x.emplace_front(mk(k));
					CHECK(&r == &x.front(), what);
					CHECK_EQ(ky(r), k, what);
				}
				else if (kind == 2) {
					It it = x.emplace_front_iter(mk(k));
					check_new(w, 0, it, k, "emplace_front_iter");
				}
				else if constexpr (lin::copyable<T>) {
					const T v = mk(k);
					x.push_front(v);
				}
				else
					x.push_front(mk(k));
				insert_at(w, 0, k);
				break;
			}
			case 4:
			case 5:
			case 6: {
				what = "insert anywhere";
				size_t q = s.raw(4) == 3 ? s.size(40) : 1;
				s.note(" n=", q);
				for (size_t i = 0; i < q; ++i) {
					K k = next();
					It it;
					if (s.flip())
						it = x.emplace(mk(k));
					else if constexpr (lin::copyable<T>) {
						const T v = mk(k);
						it = x.insert(v);
					}
					else
						it = x.insert(mk(k));
					diff d = it - x.begin();
					CHECK(d >= 0 && d <= (diff)mm.size(), "insert: returned position ", d, " size ", mm.size());
					CHECK_EQ(ky(*it), k, what);
					if ((size_t)d < mm.size())
						++fills;
					insert_at(w, (size_t)d, k);
				}
				break;
			}
			case 7:
			case 8: {
				what = "push many";
				size_t q = bulk();
				bool front = s.flip();
				s.note(" n=", q, front ? " front" : " back");
				std::vector<Ent> v;
				for (size_t i = 0; i < q; ++i) {
					K k = counter++ % 9999999 + 1;
					v.push_back(ent(k));
					front ? x.push_front(mk(k)) : x.push_back(mk(k));
				}
				if (front)
					std::reverse(v.begin(), v.end());
				mm.insert(front ? mm.begin() : mm.end(), v.begin(), v.end());
				break;
			}
			case 9: {
				what = "insert one of its own elements";
				if constexpr (lin::copyable<T>) {
					if (!n)
						break;
					size_t p = s.raw(n);
					const T& v = *at(w, p);
					K k = mm[p].k;
					unsigned kind = (unsigned)s.raw(3);
					if (kind == 0) {
						x.push_back(v);
						insert_at(w, n, k);
					}
					else if (kind == 1) {
						x.push_front(v);
						insert_at(w, 0, k);
					}
					else {
						It it = x.insert(v);
						insert_at(w, (size_t)(it - x.begin()), k);
					}
				}
				break;
			}
			case 10:
			case 11: {
				what = "erase";
				if (!n)
					break;
				size_t p = s.raw(n);
				s.note(" at ", p);
				It it = x.erase(at(w, p));
				mm.erase(mm.begin() + p);
				CHECK_EQ((size_t)(it - x.begin()), p, "erase returns the next element");
				if (p < mm.size())
					CHECK_EQ(ky(*it), mm[p].k, what);
				else
					CHECK(it == x.end(), "erase of the last element returns end()");
				++holes;
				break;
			}
			case 12: {
				what = "erase(range)";
				size_t a = s.raw(n + 1), b = s.raw(3) == 0 ? s.raw(n + 1) : std::min(n, a + s.size(150));
				if (s.raw(8) == 7)
					a = 0;
				if (s.raw(8) == 7)
					b = n;
				if (a > b)
					std::swap(a, b);
				s.note(" [", a, ",", b, ")");
				It it = x.erase(at(w, a), at(w, b));
				mm.erase(mm.begin() + a, mm.begin() + b);
				CHECK_EQ((size_t)(it - x.begin()), a, what);
				CHECK((it == x.end()) == (a == mm.size()), what);
				++holes;
				break;
			}
			case 13: {
				what = "erase many";
				// every q-th element, or random ones
				unsigned q = 1 + (unsigned)s.raw(6);
				bool rnd = s.flip();
				size_t from = s.raw(n + 1), len = s.raw(n - from + 1);
				s.note(" 1/", q, " from ", from, " len ", len);
				It it = x.begin() + (diff)from;
				size_t i = from, cnt = 0;
				Model kept(mm.begin(), mm.begin() + from);
				for (; i < from + len; ++i, ++cnt) {
					CHECK_EQ(ky(*it), mm[i].k, "erase many");
					if (rnd ? s.raw(q) == 0 : cnt % q == 0)
						it = x.erase(it);
					else {
						kept.push_back(mm[i]);
						++it;
					}
				}
				kept.insert(kept.end(), mm.begin() + i, mm.end());
				mm.swap(kept);
				++holes;
				break;
			}
			case 14: {
				what = "pop_back";
				size_t q = s.raw(4) == 3 ? s.raw(n + 1) : 1;
				for (size_t i = 0; i < q && mm.size(); ++i) {
					x.pop_back();
					mm.pop_back();
				}
				break;
			}
			case 15: {
				what = "pop_front";
				size_t q = s.raw(4) == 3 ? s.raw(n + 1) : 1;
				q = std::min(q, mm.size());
				for (size_t i = 0; i < q; ++i)
					x.pop_front();
				mm.erase(mm.begin(), mm.begin() + q);
				break;
			}
			case 16: {
				what = "resize";
				size_t q = s.flip() ? bulk() : s.raw(2 * n + 3);
				s.note(" to ", q);
				K k = 0;
				if (s.flip() || !lin::copyable<T>)
					x.resize(q);
				else if constexpr (lin::copyable<T>) {
					k = next();
					x.resize(q, mk(k));
				}
				mm.resize(q, ent(k));
				break;
			}
			case 17: {
				what = "resize_front";
				size_t q = s.flip() ? bulk() : s.raw(2 * n + 3);
				s.note(" to ", q);
				K k = 0;
				if (s.flip() || !lin::copyable<T>)
					x.resize_front(q);
				else if constexpr (lin::copyable<T>) {
					k = next();
					x.resize_front(q, mk(k));
				}
				if (q > n)
					mm.insert(mm.begin(), q - n, ent(k));
				else
					mm.erase(mm.begin(), mm.begin() + (n - q));
				break;
			}
			case 18: {
				what = "assign";
				if constexpr (lin::copyable<T>) {
					unsigned kind = (unsigned)s.raw(4);
					size_t q = bulk();
					s.note(" kind ", kind, " n=", q);
					std::vector<T> v;
					std::vector<K> ks;
					for (size_t i = 0; i < q; ++i) {
						ks.push_back(counter++ % 9999999 + 1);
						v.push_back(mk(ks.back()));
					}
					if (kind == 0)
						x.assign(v.begin(), v.end());
					else if (kind == 1) {
						std::list<T> l(v.begin(), v.end());
						x.assign(l.begin(), l.end());
					}
					else if (kind == 2) {
						K k = next();
						x.assign(q, mk(k));
						ks.assign(q, k);
					}
					else {
						K a = next(), b = next();
						x.assign({ mk(a), mk(b) });
						ks = { a, b };
					}
					mm.clear();
					for (K k : ks)
						mm.push_back(ent(k));
				}
				break;
			}
			case 19: {
				what = "clear";
				if (s.raw(3) == 2) {
					x.clear();
					mm.clear();
				}
				break;
			}
			case 20: {
				what = "copy";
				if constexpr (lin::copyable<T>) {
					unsigned kind = (unsigned)s.raw(4);
					s.note(" kind ", kind);
					if (kind == 0) {
						C y(x);
						CHECK_EQ(y.size(), n, what);
						c[1 - w] = y;
					}
					else if (kind == 1)
						c[1 - w] = x;
					else if (kind == 2) {
						C y(x, x.get_allocator());
						c[1 - w].swap(y);
					}
					else {
						C& self = x;
						x = self;
						break;
					}
					m[1 - w] = mm;
					unpin(1 - w);
					full(1 - w, what);
				}
				break;
			}
			case 21: {
				what = "move";
				unsigned kind = (unsigned)s.raw(4);
				s.note(" kind ", kind);
				if (kind == 0) {
					// references stay valid through moves and swaps
					C y(std::move(x));
					CHECK_EQ(y.size(), n, what);
					x = std::move(y);
				}
				else if (kind == 1) {
					c[1 - w] = std::move(x);
					m[1 - w] = mm;
					full(1 - w, what);
					if (!x.empty() || s.flip())
						x.clear();
					mm.clear();
				}
				else if (kind == 2) {
					C y(std::move(x), x.get_allocator());
					x.swap(y);
				}
				else {
					x.swap(c[1 - w]);
					mm.swap(m[1 - w]);
					full(1 - w, what);
				}
				break;
			}
			case 22: {
				what = "element write";
				if (!n)
					break;
				size_t p = s.raw(n);
				K k = next();
				*at(w, p) = mk(k);
				mm[p].k = k;
				break;
			}
			case 23:
			case 24: {
				unsigned kind = (unsigned)s.raw(4);
				s.note(" kind ", kind);
				unpin(w);
				auto by_class = [](const Ent& a, const Ent& b) { return a.k / 8 < b.k / 8; };
				auto cls = [](const T& a, const T& b) { return ky(a) / 8 < ky(b) / 8; };
				if (kind == 0) {
					what = "sort()";
					if constexpr (std::is_same_v<T, ty::UPtr>)
						x.sort([](const T& a, const T& b) { return ky(a) < ky(b); });
					else
						x.sort();
					std::stable_sort(mm.begin(), mm.end(), [](const Ent& a, const Ent& b) { return a.k < b.k; });
				}
				else if (kind == 1) {
					what = "sort(less)";
					x.sort(cls);
					std::stable_sort(mm.begin(), mm.end(), by_class);
				}
				else if (kind == 2) {
					what = "sort(less, buffer)";
					if constexpr (std::is_default_constructible_v<T>) {
						std::vector<T> buf(s.size(n + 1));
						x.sort(cls, seq::buffer<T*>{ buf.data(), buf.size() });
						std::stable_sort(mm.begin(), mm.end(), by_class);
					}
				}
				else {
					what = "sort descending";
					x.sort([](const T& a, const T& b) { return ky(b) < ky(a); });
					std::stable_sort(mm.begin(), mm.end(), [](const Ent& a, const Ent& b) { return b.k < a.k; });
				}
				break;
			}
			case 25: {
				what = "shrink_to_fit";
				unpin(w);
				x.shrink_to_fit();
				CHECK(x.capacity() < x.size() + 64 && x.capacity() * sizeof(T) <= x.memory_footprint(), "shrink_to_fit capacity ", x.capacity());
				break;
			}
			case 26: {
				what = "reserve";
				x.reserve(s.size(1000));
				break;
			}
			case 27: {
				what = "iterator arithmetic";
				size_t a = s.raw(n + 1), b = s.raw(n + 1);
				s.note(" ", a, " ", b);
				It ia = at(w, a), ib = at(w, b);
				CHECK_EQ((diff)(ib - ia), (diff)b - (diff)a, what, " positions ", a, " ", b);
				CHECK_EQ(ia < ib, a < b, what, " < ", a, " ", b);
				CHECK_EQ(ia <= ib, a <= b, what, " <= ", a, " ", b);
				CHECK_EQ(ia > ib, a > b, what, " > ", a, " ", b);
				CHECK_EQ(ia >= ib, a >= b, what, " >= ", a, " ", b);
				CHECK_EQ(ia == ib, a == b, what, " == ", a, " ", b);
				It r = ia;
				r += (diff)b - (diff)a;
				CHECK(r == ib, what, " += from ", a, " to ", b);
				r -= (diff)b - (diff)a;
				CHECK(r == ia, what, " -= from ", b, " to ", a);
				typename C::const_iterator ca = ia;
				ca = ca + ((diff)b - (diff)a);
				CHECK(ca == ib, what, " const + from ", a, " to ", b);
				if (b < n)
					CHECK_EQ(ky(*ca), mm[b].k, what);
				break;
			}
			case 28: {
				what = "queue";
				bool front = s.flip();
				size_t q = bulk(), keep = s.size(200);
				s.note(front ? " front" : " back", " n=", q, " keep ", keep);
				std::deque<Ent> d(mm.begin(), mm.end());
				for (size_t i = 0; i < q; ++i) {
					K k = counter++ % 9999999 + 1;
					if (front) {
						x.push_front(mk(k));
						d.push_front(ent(k));
						if (d.size() > keep + 1) {
							x.pop_back();
							d.pop_back();
						}
					}
					else {
						x.push_back(mk(k));
						d.push_back(ent(k));
						if (d.size() > keep + 1) {
							x.pop_front();
							d.pop_front();
						}
					}
				}
				mm.assign(d.begin(), d.end());
				break;
			}
			case 29: {
				what = "construct";
				unsigned kind = (unsigned)s.raw(4);
				s.note(" kind ", kind);
				if (kind == 0) {
					size_t q = bulk();
					C y(q);
					c[w] = std::move(y);
					mm.assign(q, ent(0));
				}
				else if constexpr (lin::copyable<T>) {
					if (kind == 1) {
						size_t q = bulk();
						K k = next();
						C y(q, mk(k));
						c[w] = std::move(y);
						mm.assign(q, ent(k));
					}
					else if (kind == 2) {
						K a = next(), b = next(), d = next();
						C y({ mk(a), mk(b), mk(d) });
						c[w] = std::move(y);
						mm = { ent(a), ent(b), ent(d) };
					}
					else {
						std::vector<T> v;
						for (Ent& e : mm)
							v.push_back(mk(e.k));
						C y(v.begin(), v.end());
						c[w] = std::move(y);
						unpin(w);
					}
				}
				break;
			}
		}
		s.note(" ", what, w ? " [other]" : "", "; size ", m[w].size(), "\n");
		ty::check_violation();
		// plain writes and moves keep the pinned addresses, assignments may not
		if (o == 18 || o == 29)
			unpin(w);
		probe(w, what);
		if (m[w].size() > n)
			++grew;
	}
};
template<class C>
void sq(vpt::Src& s)
{
	ty::Ledger ledger;
	{
		SeqH<C> h(s, s.raw(4) == 3 ? 2500 : 300);
		s.repeat(40, 400, [&](size_t) { h.op(s.raw(5) == 4 ? 1 : 0); });
		h.full(0, "final");
		h.full(1, "final other");
		if (h.nops >= 5 && h.grew >= 2 && h.holes)
			s.nontrivial();
		if (h.fills)
			s.classify("unordered insertion filled a hole");
		size_t n = h.m[0].size();
		s.classify(n == 0 ? "final size 0" : n < 64 ? "final size 1-63" : n < 300 ? "final size 64-299" : "final size 300+");
	}
	ledger.settle();
}
#if VPT_PART == 0
PROP_FN(sq_int, (sq<seq::sequence<int>>), 3000);
#elif VPT_PART == 1
PROP_FN(sq_tstring, (sq<seq::sequence<seq::tstring>>), 2500);
#elif VPT_PART == 2
PROP_FN(sq_obj, (sq<seq::sequence<ty::Obj>>), 3000);
#elif VPT_PART == 3
PROP_FN(sq_uptr, (sq<seq::sequence<ty::UPtr>>), 2500);
#elif VPT_PART == 4
PROP_FN(sq_big, (sq<seq::sequence<ty::Big>>), 2500);
#elif VPT_PART == 5
PROP_FN(sq_robj_align, (sq<seq::sequence<ty::RObj, std::allocator<ty::RObj>, true>>), 2500);
#elif VPT_PART == 6
PROP_FN(sq_string_talloc, (sq<seq::sequence<std::string, ty::TrackAlloc<std::string, 0>>>), 2500);
#elif VPT_PART == 7
PROP_FN(sq_wide, (sq<seq::sequence<ty::Wide, std::allocator<ty::Wide>>>), 2500);
#endif

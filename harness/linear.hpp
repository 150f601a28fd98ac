// Model-based harness for the linear containers (devector, tiered_vector) against std::vector<int64_t>.
#pragma once
#include "types.hpp"
#include <algorithm>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <numeric>

namespace lin {
using vpt::Src;
using K = int64_t;
using Model = std::vector<K>;

inline std::string show(const Model& m, size_t lim = 40)
{
	std::ostringstream os;
	os << "[" << m.size() << ":";
	for (size_t i = 0; i < m.size() && i < lim; ++i)
		os << ' ' << m[i];
	os << "]";
	return os.str();
}

// Element types whose keys live in a small domain
template<class T>
constexpr K key_domain()
{
	return sizeof(T) == 1 ? 100 : 100000000;
}
template<class T>
constexpr bool copyable = std::is_copy_constructible_v<T>;

template<class C, class Tr>
struct Linear
{
	using T = typename C::value_type;
	using diff = typename C::difference_type;
	Src& s;
	C c[2];
	Model m[2];
	K counter = 0;
	size_t maxsize;
	size_t nops = 0, grew = 0, mid = 0, shrunk = 0;

	explicit Linear(Src& src, size_t mx)
	  : s(src)
	  , maxsize(mx)
	{
	}

	K next()
	{
		++counter;
		K d = key_domain<T>();
		if (s.raw(8) == 7)
			return (K)s.raw(5); // duplicates
		return counter % (d - 1) + 1;
	}
	static T mk(K k) { return ty::make<T>(k); }
	static K ky(const T& v) { return ty::key<T>(v); }

	void full(int w, const char* what)
	{
		const C& cc = c[w];
		const Model& mm = m[w];
		CHECK_EQ(cc.size(), mm.size(), what);
		CHECK_EQ(cc.empty(), mm.empty(), what);
		size_t i = 0;
		for (auto it = cc.begin(); it != cc.end(); ++it, ++i) {
			if (i >= mm.size())
				throw vpt::Fail(vpt::str(what, ": iteration goes past size ", mm.size()));
			if (ky(*it) != mm[i])
				throw vpt::Fail(vpt::str(what, ": element ", i, " is ", ky(*it), ", expected ", mm[i], " model ", show(mm)));
		}
		CHECK_EQ(i, mm.size(), what);
		for (i = 0; i < mm.size(); ++i)
			if (ky(cc[i]) != mm[i])
				throw vpt::Fail(vpt::str(what, ": operator[](", i, ") is ", ky(cc[i]), ", expected ", mm[i], " model ", show(mm)));
		if (!mm.empty()) {
			CHECK_EQ(ky(cc.front()), mm.front(), what);
			CHECK_EQ(ky(cc.back()), mm.back(), what);
		}
		Tr::extra(c[w], mm);
	}
	// cheap verification around a position
	void probe(int w, const char* what)
	{
		CHECK_EQ(c[w].size(), m[w].size(), what);
		size_t n = m[w].size();
		if (n <= 300 || (nops % 16) == 0)
			full(w, what);
		else {
			for (size_t i = 0; i < n; i += 1 + n / 61)
				CHECK_EQ(ky(c[w][i]), m[w][i], what, " at ", i);
			CHECK_EQ(ky(c[w].back()), m[w].back(), what);
		}
	}
	size_t pos(size_t n)
	{
		// positions biased to the ends and the middle
		switch (s.raw(6)) {
			case 0:
				return 0;
			case 1:
				return n;
			case 2:
				return n / 2;
			default:
				return s.raw(n + 1);
		}
	}
	size_t bulk()
	{
		return s.raw(10) == 9 ? s.raw(maxsize) : s.size(40);
	}

	template<class F>
	void with_range(size_t n, F&& f)
	{
		// the same values through random access, forward and input iterators
		std::vector<K> v;
		for (size_t i = 0; i < n; ++i)
			v.push_back(next());
		unsigned kind = (unsigned)s.raw(3);
		s.note(" range kind ", kind, " n=", n);
		std::vector<T> vt;
		for (K k : v)
			vt.push_back(mk(k));
		if (kind == 0) {
			if constexpr (copyable<T>)
				f(vt.begin(), vt.end(), v);
			else
				f(std::make_move_iterator(vt.begin()), std::make_move_iterator(vt.end()), v);
		}
		else if (kind == 1) {
			std::list<T> l(std::make_move_iterator(vt.begin()), std::make_move_iterator(vt.end()));
			if constexpr (copyable<T>)
				f(l.begin(), l.end(), v);
			else
				f(std::make_move_iterator(l.begin()), std::make_move_iterator(l.end()), v);
		}
		else {
			if constexpr (copyable<T>)
				f((const T*)vt.data(), (const T*)vt.data() + vt.size(), v);
			else
				f(std::make_move_iterator(vt.begin()), std::make_move_iterator(vt.end()), v);
		}
	}

	void op(int w)
	{
		C& x = c[w];
		Model& mm = m[w];
		size_t n = mm.size();
		++nops;
		unsigned o = (unsigned)s.raw(Tr::op_count);
		// keep the size bounded
		if (n > maxsize && o < 14)
			o = 14 + o % 4;
		const char* what = "?";
		s.note("#", o);
		switch (o) {
			case 0:
				what = "push_back(const&)";
				if constexpr (copyable<T>) {
					K k = next();
					const T v = mk(k);
					x.push_back(v);
					mm.push_back(k);
					break;
				}
			case 1: {
				what = "push_back(&&)";
				K k = next();
				x.push_back(mk(k));
				mm.push_back(k);
				break;
			}
			case 2: {
				what = "emplace_back";
				K k = next();
				auto&& r = x.emplace_back(mk(k));
				CHECK_EQ(ky(r), k, what);
				mm.push_back(k);
				CHECK(&r == &x.back(), what);
				break;
			}
			case 3:
				what = "push_front(const&)";
				if constexpr (copyable<T>) {
					K k = next();
					const T v = mk(k);
					x.push_front(v);
					mm.insert(mm.begin(), k);
					break;
				}
			case 4: {
				what = "push_front(&&)";
				K k = next();
				x.push_front(mk(k));
				mm.insert(mm.begin(), k);
				break;
			}
			case 5: {
				what = "emplace_front";
				K k = next();
				auto&& r = x.emplace_front(mk(k));
				CHECK_EQ(ky(r), k, what);
				mm.insert(mm.begin(), k);
				CHECK(&r == &x.front(), what);
				break;
			}
			case 6:
				what = "insert(pos,const&)";
				if constexpr (copyable<T>) {
					K k = next();
					size_t p = pos(n);
					s.note(" at ", p);
					const T v = mk(k);
					auto it = x.insert(x.begin() + (diff)p, v);
					mm.insert(mm.begin() + p, k);
					CHECK_EQ((size_t)(it - x.begin()), p, what);
					CHECK_EQ(ky(*it), k, what);
					++mid;
					break;
				}
			case 7: {
				what = "insert(pos,&&)";
				K k = next();
				size_t p = pos(n);
				s.note(" at ", p);
				auto it = x.insert(x.cbegin() + (diff)p, mk(k));
				mm.insert(mm.begin() + p, k);
				CHECK_EQ((size_t)(it - x.begin()), p, what);
				CHECK_EQ(ky(*it), k, what);
				++mid;
				break;
			}
			case 8: {
				what = "emplace(pos)";
				K k = next();
				size_t p = pos(n);
				s.note(" at ", p);
				Tr::emplace(x, p, mk(k));
				mm.insert(mm.begin() + p, k);
				++mid;
				break;
			}
			case 9:
			case 10: {
				what = "insert(pos,range)";
				size_t p = pos(n);
				s.note(" at ", p);
				with_range(bulk(), [&](auto b, auto e, const std::vector<K>& v) {
					auto it = x.insert(x.cbegin() + (diff)p, b, e);
					mm.insert(mm.begin() + p, v.begin(), v.end());
					CHECK_EQ((size_t)(it - x.begin()), p, what);
				});
				++mid;
				break;
			}
			case 11:
				what = "insert(pos,count,value)";
				if constexpr (copyable<T>) {
					size_t p = pos(n), q = bulk();
					K k = next();
					s.note(" at ", p, " n=", q);
					const T v = mk(k);
					auto it = x.insert(x.cbegin() + (diff)p, q, v);
					mm.insert(mm.begin() + p, q, k);
					CHECK_EQ((size_t)(it - x.begin()), p, what);
					break;
				}
				[[fallthrough]];
			case 12: {
				what = "insert(pos,ilist)";
				if constexpr (copyable<T>) {
					size_t p = pos(n);
					s.note(" at ", p);
					K a = next(), b = next(), d = next();
					auto it = x.insert(x.cbegin() + (diff)p, { mk(a), mk(b), mk(d) });
					mm.insert(mm.begin() + p, { a, b, d });
					CHECK_EQ((size_t)(it - x.begin()), p, what);
				}
				break;
			}
			case 13: {
				what = "push many";
				size_t q = bulk();
				bool front = s.flip();
				s.note(" n=", q, front ? " front" : " back");
				std::vector<K> v;
				for (size_t i = 0; i < q; ++i)
					v.push_back((counter++) % (key_domain<T>() - 1) + 1);
				for (K k : v)
					front ? x.push_front(mk(k)) : x.push_back(mk(k));
				if (front)
					std::reverse(v.begin(), v.end());
				mm.insert(front ? mm.begin() : mm.end(), v.begin(), v.end());
				break;
			}
			case 14: {
				what = "erase(pos)";
				if (!n)
					break;
				size_t p = pos(n - 1);
				s.note(" at ", p);
				auto it = x.erase(x.cbegin() + (diff)p);
				mm.erase(mm.begin() + p);
				CHECK_EQ((size_t)(it - x.begin()), p, what);
				if (p < mm.size())
					CHECK_EQ(ky(*it), mm[p], what);
				++mid;
				break;
			}
			case 15: {
				what = "erase(range)";
				size_t a = pos(n), b = s.raw(4) == 0 ? pos(n) : std::min(n, a + s.size(20));
				if (a > b)
					std::swap(a, b);
				s.note(" [", a, ",", b, ")");
				auto it = x.erase(x.cbegin() + (diff)a, x.cbegin() + (diff)b);
				mm.erase(mm.begin() + a, mm.begin() + b);
				CHECK_EQ((size_t)(it - x.begin()), a, what);
				++mid;
				break;
			}
			case 16: {
				what = "pop_back";
				size_t q = s.raw(8) == 7 ? s.raw(n + 1) : 1;
				for (size_t i = 0; i < q && mm.size(); ++i) {
					x.pop_back();
					mm.pop_back();
				}
				break;
			}
			case 17: {
				what = "pop_front";
				size_t q = s.raw(8) == 7 ? s.raw(n + 1) : 1;
				q = std::min(q, mm.size());
				for (size_t i = 0; i < q; ++i)
					x.pop_front();
				mm.erase(mm.begin(), mm.begin() + q);
				break;
			}
			case 18: {
				what = "resize";
				size_t q = s.flip() ? bulk() : n + s.size(8) - std::min<size_t>(n, s.size(8));
				s.note(" to ", q);
				if (s.flip() || !copyable<T>) {
					x.resize(q);
					mm.resize(q, 0);
				}
				else if constexpr (copyable<T>) {
					K k = next();
					x.resize(q, mk(k));
					mm.resize(q, k);
				}
				++shrunk;
				break;
			}
			case 19: {
				what = "resize_front";
				size_t q = s.flip() ? bulk() : n + s.size(8) - std::min<size_t>(n, s.size(8));
				s.note(" to ", q);
				K k = 0;
				if (s.flip() || !copyable<T>)
					x.resize_front(q);
				else if constexpr (copyable<T>) {
					k = next();
					x.resize_front(q, mk(k));
				}
				if (q > n)
					mm.insert(mm.begin(), q - n, k);
				else
					mm.erase(mm.begin(), mm.begin() + (n - q));
				++shrunk;
				break;
			}
			case 20: {
				what = "assign";
				unsigned kind = (unsigned)s.raw(3);
				s.note(" kind ", kind);
				if (kind == 0 || !copyable<T>)
					with_range(bulk(), [&](auto b, auto e, const std::vector<K>& v) {
						x.assign(b, e);
						mm.assign(v.begin(), v.end());
					});
				else if constexpr (copyable<T>) {
					if (kind == 1) {
						size_t q = bulk();
						K k = next();
						x.assign(q, mk(k));
						mm.assign(q, k);
					}
					else {
						K a = next(), b = next();
						x.assign({ mk(a), mk(b) });
						mm.assign({ a, b });
					}
				}
				break;
			}
			case 21:
				what = "clear";
				if (s.raw(3) == 2) {
					x.clear();
					mm.clear();
				}
				break;
			case 22: {
				what = "copy";
				if constexpr (copyable<T>) {
					unsigned kind = (unsigned)s.raw(4);
					s.note(" kind ", kind);
					if (kind == 0) {
						C y(x);
						CHECK_EQ(y.size(), n, what);
						c[1 - w] = y;
					}
					else if (kind == 1)
						c[1 - w] = x;
					else if (kind == 2) {
						C y(x, x.get_allocator());
						c[1 - w].swap(y);
					}
					else {
						C& self = x;
						x = self;
						break;
					}
					m[1 - w] = mm;
					probe(1 - w, what);
				}
				break;
			}
			case 23: {
				what = "move";
				unsigned kind = (unsigned)s.raw(4);
				s.note(" kind ", kind);
				if (kind == 0) {
					C y(std::move(x));
					CHECK_EQ(y.size(), n, what);
					if (s.chance(1, 4)) {
						// reuse the moved from container
						if (!x.empty() || s.flip())
							x.clear();
						CHECK_EQ(x.size(), (size_t)0, "an emptied moved from container");
						c[1 - w] = std::move(y);
						m[1 - w] = mm;
						mm.clear();
						probe(1 - w, what);
					}
					else
						x = std::move(y);
				}
				else if (kind == 1) {
					c[1 - w] = std::move(x);
					m[1 - w] = mm;
					probe(1 - w, what);
					// the source is valid but unspecified
					if (!x.empty() || s.flip())
						x.clear();
					mm.clear();
				}
				else if (kind == 2) {
					C y(std::move(x), x.get_allocator());
					x.swap(y);
				}
				else {
					x.swap(c[1 - w]);
					mm.swap(m[1 - w]);
					probe(1 - w, what);
				}
				break;
			}
			case 24: {
				what = "element write";
				if (!n)
					break;
				size_t p = s.raw(n);
				K k = next();
				unsigned kind = (unsigned)s.raw(4);
				s.note(" at ", p, " kind ", kind);
				if (kind == 0)
					x[p] = mk(k);
				else if (kind == 1)
					x.at(p) = mk(k);
				else if (kind == 2)
					*(x.begin() + (diff)p) = mk(k);
				else
					*(x.rbegin() + (diff)(n - 1 - p)) = mk(k);
				mm[p] = k;
				break;
			}
			case 25: {
				what = "at out of range";
				bool thrown = false;
				size_t p = n + s.raw(3);
				try {
					if (s.flip())
						(void)x.at(p);
					else
						(void)((const C&)x).at(p);
				}
				catch (const std::out_of_range&) {
					thrown = true;
				}
				CHECK(thrown, "at(", p, ") with size ", n);
				if (n) {
					CHECK_EQ(ky(x.at(n - 1)), mm[n - 1], what);
					CHECK_EQ(ky(((const C&)x).at(0)), mm[0], what);
				}
				break;
			}
			case 26: {
				what = "algorithms through iterators";
				unsigned kind = (unsigned)s.raw(4);
				s.note(" kind ", kind);
				if constexpr (std::is_copy_constructible_v<T>) {
					if (kind == 0) {
						std::sort(x.begin(), x.end(), [](const T& a, const T& b) { return ky(a) < ky(b); });
						std::sort(mm.begin(), mm.end());
					}
					else if (kind == 1) {
						size_t p = pos(n);
						std::rotate(x.begin(), x.begin() + (diff)p, x.end());
						std::rotate(mm.begin(), mm.begin() + p, mm.end());
					}
					else if (kind == 2) {
						std::reverse(x.begin(), x.end());
						std::reverse(mm.begin(), mm.end());
					}
					else {
						std::stable_sort(x.rbegin(), x.rend(), [](const T& a, const T& b) { return ky(a) < ky(b); });
						std::stable_sort(mm.rbegin(), mm.rend());
					}
				}
				break;
			}
			default:
				what = Tr::op(*this, w, o);
				break;
		}
		s.note(" ", what, w ? " [other]" : "", "; size ", m[w].size(), "\n");
		ty::check_violation();
		probe(w, what);
		if (m[w].size() > n)
			++grew;
	}
};

template<class C, class Tr>
void run(Src& s, size_t maxsize, size_t avgops)
{
	ty::Ledger ledger;
	{
		Linear<C, Tr> h(s, maxsize);
		s.repeat(avgops, 400, [&](size_t) { h.op(s.raw(5) == 4 ? 1 : 0); });
		h.full(0, "final");
		h.full(1, "final other");
		if (h.nops >= 5 && h.grew >= 2 && (h.mid || h.shrunk))
			s.nontrivial();
		size_t n = h.m[0].size();
		s.classify(n == 0 ? "final size 0" : n < 16 ? "final size 1-15" : n < 100 ? "final size 16-99" : n < 1000 ? "final size 100-999" : "final size 1000+");
	}
	ledger.settle();
}
} // namespace lin

// C10: every modifying operation of tiny_string against std::basic_string.
#include "strings.hpp"

using vpt::Src;
using st::cvt;
using st::Str;
using st::text;

namespace {

// a bidirectional iterator over characters
template<class C>
struct Bidi
{
	using value_type = C;
	using reference = const C&;
	using pointer = const C*;
	using difference_type = std::ptrdiff_t;
	using iterator_category = std::bidirectional_iterator_tag;
	const C* p;
	reference operator*() const { return *p; }
	Bidi& operator++() { return ++p, *this; }
	Bidi operator++(int) { return Bidi{ p++ }; }
	Bidi& operator--() { return --p, *this; }
	Bidi operator--(int) { return Bidi{ p-- }; }
	bool operator==(const Bidi& o) const { return p == o.p; }
	bool operator!=(const Bidi& o) const { return p != o.p; }
};

template<class T>
struct Hist
{
	using C = typename T::value_type;
	using M = std::basic_string<C>;
	using V = std::basic_string_view<C>;
	using A = typename T::allocator_type;
	using TV = seq::basic_tstring_view<C>;
	using O = seq::tiny_string<C, std::char_traits<C>, std::allocator<C>, 21>;
	static constexpr size_t npos = T::npos;

	Src& s;
	T* c[2];
	M m[2];
	unsigned mode;
	size_t cap;
	size_t ops = 0, grown = 0, inner = 0, heap = 0, shrunk = 0;

	static A al()
	{
		if constexpr (std::is_same_v<A, std::allocator<C>>)
			return A();
		else
			return A(5);
	}
	Hist(Src& src)
	  : s(src)
	  , c{ nullptr, nullptr }
	{
		mode = (unsigned)s.raw(5);
		cap = s.chance(1, 8) ? 600 : s.chance(1, 2) ? 40 : 160;
		c[0] = new T(al());
		c[1] = new T(al());
	}
	~Hist()
	{
		delete c[0];
		delete c[1];
	}
	M gen(size_t mx) { return text<C>(s, mode, mx); }
	M arg()
	{
		size_t mx = s.chance(1, 6) ? 200 : s.chance(1, 2) ? 6 : 34;
		return gen(mx < cap ? mx : cap);
	}
	// without a null character, for the null-terminated overloads
	static M nonul(M t)
	{
		for (C& x : t)
			if (x == 0)
				x = (C)'z';
		return t;
	}
	size_t pos(int w) { return st::position(s, m[w].size()); }
	size_t len(size_t left) { return st::length(s, left); }

	void check(int w, const char* op)
	{
		T& t = *c[w];
		const T& ct = t;
		const M& x = m[w];
		CHECK(t.size() == x.size(), op, ": size ", t.size(), ", expected ", x.size(), " ", cvt(x));
		CHECK(t.length() == x.size() && t.empty() == x.empty(), op, ": length/empty");
		CHECK(V(ct.data(), ct.size()) == V(x), op, ": ", cvt(M(t.data(), t.size())), ", expected ", cvt(x));
		CHECK(ct.c_str() == ct.data() && t.data() == ct.data(), op, ": c_str");
		CHECK(ct.c_str()[x.size()] == C(0), op, ": not null terminated, size ", x.size());
		CHECK(t.capacity() >= x.size(), op, ": capacity ", t.capacity(), " size ", x.size());
		CHECK(t.max_size() > t.size(), op, ": max_size");
		CHECK(std::equal(ct.begin(), ct.end(), x.begin(), x.end()) && std::equal(ct.rbegin(), ct.rend(), x.rbegin(), x.rend()), op, ": iteration");
		CHECK(t.begin() == ct.begin() && ct.cbegin() == ct.begin() && t.end() == ct.cend() && ct.crbegin() == ct.rbegin() && ct.crend() == ct.rend(), op, ": iterators");
		CHECK(t.get_allocator() == al(), op, ": the allocator changed");
		if (!x.empty()) {
			CHECK(t.front() == x.front() && ct.front() == x.front() && t.back() == x.back() && ct.back() == x.back(), op, ": front/back");
			size_t i = s.raw(x.size());
			CHECK(t[i] == x[i] && ct[i] == x[i] && t.at(i) == x[i] && ct.at(i) == x[i], op, ": element access");
		}
		if (x.size() > T::max_static_size)
			++heap;
		else
			CHECK(t.capacity() >= T::max_static_size, op, ": capacity below the static size");
	}
	// moved from: valid, unspecified content
	void resync(int w) { m[w].assign(c[w]->data(), c[w]->size()); }

	void append(int w)
	{
		T& t = *c[w];
		M& x = m[w];
		M a = arg();
		unsigned k = (unsigned)s.raw(21);
		s.note("append form ", k, " to ", w, " ", cvt(a), "\n");
		T* r = &t;
		switch (k) {
			case 0: r = &t.append(a), x.append(a); break;
			case 1: r = &t.append(V(a)), x.append(a); break;
			case 2: r = &t.append(T(a.data(), a.size(), al())), x.append(a); break;
			case 3: r = &t.append(O(a)), x.append(a); break;
			case 4: a = nonul(a), r = &t.append(a.c_str()), x.append(a); break;
			case 5: r = &t.append(a.data(), a.size()), x.append(a); break;
			case 6: {
				C ch = st::character<C>(s, mode);
				size_t n = a.size();
				r = &t.append(n, ch), x.append(n, ch);
				break;
			}
			case 7: r = &t.append(a.begin(), a.end()), x.append(a); break;
			case 8: {
				std::list<C> l(a.begin(), a.end());
				r = &t.append(l.begin(), l.end()), x.append(a);
				break;
			}
			case 9: {
				std::deque<C> l(a.begin(), a.end());
				r = &t.append(l.begin(), l.end()), x.append(a);
				break;
			}
			case 10: {
				C q = st::character<C>(s, mode);
				r = &t.append({ q, C('b'), C('c') }), x.append({ q, C('b'), C('c') });
				break;
			}
			case 11: {
				size_t p = st::position(s, a.size()), n = len(a.size() - p);
				r = &t.append(a, p, n), x.append(a, p, n);
				break;
			}
			case 12: {
				size_t p = st::position(s, a.size()), n = len(a.size() - p);
				r = &t.append(T(a.data(), a.size(), al()), p, n), x.append(a, p, n);
				break;
			}
			case 13: {
				size_t p = st::position(s, a.size()), n = len(a.size() - p);
				r = &t.append(V(a), p, n), x.append(V(a), p, n);
				break;
			}
			case 14: r = &(t += a), x += a; break;
			case 15: r = &(t += V(a)), x += a; break;
			case 16: r = &(t += O(a)), x += a; break;
			case 17: a = nonul(a), r = &(t += a.c_str()), x += a; break;
			case 18: {
				C q = st::character<C>(s, mode);
				r = &(t += q), x += q;
				r = &(t += { q, C('y') }), x += { q, C('y') };
				break;
			}
			case 19: // the other string
				if (m[1 - w].size() + x.size() <= 3 * cap)
					r = &t.append(*c[1 - w]), x.append(m[1 - w]);
				break;
			case 20: { // a view
				TV v(a.data(), a.size());
				r = &t.append(v), x.append(a);
				break;
			}
		}
		CHECK(r == &t, "append returns a reference to the string");
	}
	void assign(int w)
	{
		T& t = *c[w];
		M& x = m[w];
		M a = arg();
		unsigned k = (unsigned)s.raw(22);
		s.note("assign form ", k, " to ", w, " ", cvt(a), "\n");
		T* r = &t;
		switch (k) {
			case 0: r = &t.assign(a), x = a; break;
			case 1: r = &t.assign(V(a)), x = a; break;
			case 2: r = &t.assign(O(a)), x = a; break;
			case 3: {
				T o(a.data(), a.size(), al());
				r = &t.assign(o), x = a;
				CHECK(V(o.data(), o.size()) == V(a), "assign modified its argument");
				break;
			}
			case 4: {
				T o(a.data(), a.size(), al());
				r = &t.assign(std::move(o)), x = a;
				o.assign(1, C('k'));
				CHECK(o.size() == 1 && o[0] == C('k'), "a moved from string cannot be reused");
				break;
			}
			case 5: a = nonul(a), r = &t.assign(a.c_str()), x = a; break;
			case 6: r = &t.assign(a.data(), a.size()), x = a; break;
			case 7: {
				C ch = st::character<C>(s, mode);
				r = &t.assign(a.size(), ch), x.assign(a.size(), ch);
				break;
			}
			case 8: r = &t.assign(a.begin(), a.end()), x = a; break;
			case 9: {
				size_t q = 0;
				if (s.flip()) {
					r = &t.assign(st::InIt<C>{ &a, &q }, st::InIt<C>{}), x = a;
					break;
				}
				std::list<C> l(a.begin(), a.end());
				r = &t.assign(l.begin(), l.end()), x = a;
				break;
			}
			case 10: {
				std::deque<C> l(a.begin(), a.end());
				r = &t.assign(l.begin(), l.end()), x = a;
				break;
			}
			case 11: r = &t.assign({ C('p'), C('q'), C(0) }), x.assign({ C('p'), C('q'), C(0) }); break;
			case 12: {
				size_t p = st::position(s, a.size()), n = len(a.size() - p);
				r = &t.assign(T(a.data(), a.size(), al()), p, n), x.assign(a, p, n);
				break;
			}
			case 13: r = &(t = a), x = a; break;
			case 14: r = &(t = V(a)), x = a; break;
			case 15: r = &(t = O(a)), x = a; break;
			case 16: a = nonul(a), r = &(t = a.c_str()), x = a; break;
			case 17: {
				C q = st::character<C>(s, mode);
				r = &(t = q), x = q;
				break;
			}
			case 18: r = &(t = { C('v'), C('w') }), x = { C('v'), C('w') }; break;
			case 19: r = &(t = *c[1 - w]), x = m[1 - w]; break;
			case 20:
				r = &(t = std::move(*c[1 - w])), x = m[1 - w];
				resync(1 - w);
				break;
			case 21: {
				TV v(a.data(), a.size());
				r = &(t = v), x = a;
				break;
			}
		}
		CHECK(r == &t, "assign returns a reference to the string");
	}
	void insert(int w)
	{
		T& t = *c[w];
		M& x = m[w];
		M a = arg();
		size_t p = pos(w);
		unsigned k = (unsigned)s.raw(17);
		s.note("insert form ", k, " to ", w, " at ", p, " ", cvt(a), "\n");
		if (p && p < x.size() && a.size())
			++inner;
		T* r = &t;
		auto at = [&](auto it) { CHECK(it == t.begin() + p, "insert returns an iterator to position ", it - t.begin(), ", expected ", p); };
		switch (k) {
			case 0: r = &t.insert(p, a), x.insert(p, a); break;
			case 1: r = &t.insert(p, V(a)), x.insert(p, a); break;
			case 2: r = &t.insert(p, O(a)), x.insert(p, a); break;
			case 3: r = &t.insert(p, T(a.data(), a.size(), al())), x.insert(p, a); break;
			case 4: {
				size_t q = st::position(s, a.size()), n = len(a.size() - q);
				r = &t.insert(p, T(a.data(), a.size(), al()), q, n), x.insert(p, a, q, n);
				break;
			}
			case 5: a = nonul(a), r = &t.insert(p, a.c_str()), x.insert(p, a); break;
			case 6: r = &t.insert(p, a.data(), a.size()), x.insert(p, a); break;
			case 7: {
				C ch = st::character<C>(s, mode);
				r = &t.insert(p, a.size(), ch), x.insert(p, a.size(), ch);
				break;
			}
			case 8: {
				C ch = st::character<C>(s, mode);
				at(t.insert(t.cbegin() + p, a.size(), ch)), x.insert(p, a.size(), ch);
				break;
			}
			case 9: {
				C ch = st::character<C>(s, mode);
				at(t.insert(t.begin() + p, ch)), x.insert(p, 1, ch);
				break;
			}
			case 10: at(t.insert(t.begin() + p, a.begin(), a.end())), x.insert(p, a); break;
			case 11: {
				std::list<C> l(a.begin(), a.end());
				at(t.insert(t.cbegin() + p, l.begin(), l.end())), x.insert(p, a);
				break;
			}
			case 12: {
				std::deque<C> l(a.begin(), a.end());
				at(t.insert(t.cbegin() + p, l.begin(), l.end())), x.insert(p, a);
				break;
			}
			case 13: at(t.insert(t.begin() + p, { C('1'), C('2'), C('3') })), x.insert(x.begin() + p, { C('1'), C('2'), C('3') }); break;
			case 14: {
				// single pass iterators
				size_t q = 0;
				at(t.insert(t.begin() + p, st::InIt<C>{ &a, &q }, st::InIt<C>{})), x.insert(p, a);
				break;
			}
			case 15:
				if (m[1 - w].size() + x.size() <= 3 * cap)
					r = &t.insert(p, *c[1 - w]), x.insert(p, m[1 - w]);
				break;
			case 16: at(t.insert(t.cbegin() + p, a.data(), a.data() + a.size())), x.insert(p, a); break;
		}
		CHECK(r == &t, "insert returns a reference to the string");
	}
	void erase(int w)
	{
		T& t = *c[w];
		M& x = m[w];
		size_t p = pos(w);
		unsigned k = (unsigned)s.raw(4);
		s.note("erase form ", k, " from ", w, " at ", p, "\n");
		switch (k) {
			case 0: {
				size_t n = len(x.size() - p);
				s.note("  len ", n, "\n");
				CHECK(&t.erase(p, n) == &t, "erase returns a reference to the string");
				x.erase(p, n);
				break;
			}
			case 1:
				CHECK(&t.erase(p) == &t, "erase returns a reference to the string");
				x.erase(p);
				break;
			case 2:
				if (p < x.size()) {
					auto it = t.erase(t.cbegin() + p);
					CHECK(it == t.begin() + p, "erase: returned position");
					x.erase(x.begin() + p);
				}
				break;
			case 3: {
				size_t n = s.raw(x.size() - p + 1);
				auto it = t.erase(t.cbegin() + p, t.cbegin() + p + n);
				CHECK(it == t.begin() + p, "erase: returned position");
				x.erase(x.begin() + p, x.begin() + p + n);
				break;
			}
		}
		++inner;
	}
	void replace(int w)
	{
		T& t = *c[w];
		M& x = m[w];
		M a = arg();
		size_t p = pos(w), n = len(x.size() - p);
		unsigned k = (unsigned)s.raw(21);
		size_t rn = std::min(n, x.size() - p);
		s.note("replace form ", k, " in ", w, " at ", p, " len ", n, " ", cvt(a), "\n");
		if (rn && a.size())
			++inner;
		T* r = &t;
		typename T::const_iterator i1 = t.cbegin() + p, i2 = t.cbegin() + p + rn;
		size_t q = 0, l = npos;
		if (k >= 9 && k <= 11)
			q = st::position(s, a.size()), l = len(a.size() - q);
		C ch = st::character<C>(s, mode);
		M e = a;
		switch (k) {
			case 0: r = &t.replace(p, n, a); break;
			case 1: r = &t.replace(p, n, V(a)); break;
			case 2: r = &t.replace(p, n, O(a)); break;
			case 3: r = &t.replace(p, n, T(a.data(), a.size(), al())); break;
			case 4: e = a = nonul(a), r = &t.replace(p, n, a.c_str()); break;
			case 5: r = &t.replace(p, n, a.data(), a.size()); break;
			case 6: e.assign(a.size(), ch), r = &t.replace(p, n, a.size(), ch); break;
			case 7: r = &t.replace(i1, i2, a); break;
			case 8: r = &t.replace(i1, i2, V(a)); break;
			case 9: e = a.substr(q, l), r = &t.replace(p, n, T(a.data(), a.size(), al()), q, l); break;
			case 10: e = a.substr(q, l), r = &t.replace(p, n, a, q, l); break;
			case 11: e = a.substr(q, l), r = &t.replace(p, n, V(a), q, l); break;
			case 12: r = &t.replace(i1, i2, O(a)); break;
			case 13: e = a = nonul(a), r = &t.replace(i1, i2, a.c_str()); break;
			case 14: r = &t.replace(i1, i2, a.data(), a.size()); break;
			case 15: e.assign(a.size(), ch), r = &t.replace(i1, i2, a.size(), ch); break;
			case 16: r = &t.replace(i1, i2, a.begin(), a.end()); break;
			case 17: {
				size_t q = 0;
				if (s.flip()) {
					r = &t.replace(i1, i2, st::InIt<C>{ &a, &q }, st::InIt<C>{});
					break;
				}
				std::list<C> li(a.begin(), a.end());
				r = &t.replace(i1, i2, li.begin(), li.end());
				break;
			}
			case 18: {
				std::deque<C> li(a.begin(), a.end());
				r = &t.replace(i1, i2, li.begin(), li.end());
				break;
			}
			case 19: e = { C('7'), ch }, r = &t.replace(i1, i2, { C('7'), ch }); break;
			case 20:
				if (m[1 - w].size() + x.size() <= 3 * cap)
					e = m[1 - w], r = &t.replace(p, n, *c[1 - w]);
				else
					e = x.substr(p, n);
				break;
		}
		x.replace(p, n, e);
		CHECK(r == &t, "replace returns a reference to the string");
	}
	void replace_all(int w)
	{
		T& t = *c[w];
		M& x = m[w];
		M from = gen(3), to = gen(5);
		if (!x.empty() && s.chance(1, 2)) {
			size_t p = s.raw(x.size());
			from = x.substr(p, 1 + s.raw(4));
		}
		if (from.empty())
			from.assign(1, st::character<C>(s, mode));
		size_t start = s.chance(1, 2) ? 0 : pos(w);
		if (s.chance(1, 8))
			start = x.size() + s.raw(3);
		unsigned k = (unsigned)s.raw(5);
		if (k == 1)
			from = nonul(from), to = nonul(to);
		s.note("replace all form ", k, " in ", w, " ", cvt(from), " -> ", cvt(to), " from ", start, "\n");
		size_t expect = 0;
		M y = x;
		for (size_t p = start; (p = y.find(from, p)) != M::npos; p += to.size(), ++expect)
			y.replace(p, from.size(), to);
		if (y.size() > 4 * cap)
			return;
		size_t got = 0;
		switch (k) {
			case 0: got = t.replace(from.data(), from.size(), to.data(), to.size(), start); break;
			case 1: got = t.replace(from.c_str(), to.c_str(), start); break;
			case 2: got = t.replace(O(from), T(to.data(), to.size(), al()), start); break;
			case 3: got = t.replace(from, to, start); break;
			case 4: got = t.replace(V(from), V(to), start); break;
		}
		x = y;
		CHECK(got == expect, "replace: ", got, " replacements, expected ", expect);
	}
	void construct(int w)
	{
		M a = arg();
		M e = a;
		unsigned k = (unsigned)s.raw(16);
		s.note("construct form ", k, " ", w, " ", cvt(a), "\n");
		T* n = nullptr;
		long before = ty::live_allocs();
		switch (k) {
			case 0: n = new T(al()), e.clear(); break;
			case 1: e = a = nonul(a), n = new T(a.c_str(), al()); break;
			case 2: n = new T(a.data(), a.size(), al()); break;
			case 3: {
				C ch = st::character<C>(s, mode);
				e.assign(a.size(), ch), n = new T(a.size(), ch, al());
				break;
			}
			case 4: n = new T(a, al()); break;
			case 5: n = new T(V(a), al()); break;
			case 6: n = new T(*c[1 - w]), e = m[1 - w]; break;
			case 7: n = new T(*c[1 - w], al()), e = m[1 - w]; break;
			case 8: {
				size_t p = pos(1 - w), l = len(m[1 - w].size() - p);
				n = new T(*c[1 - w], p, l, al()), e = m[1 - w].substr(p, l);
				break;
			}
			case 9: {
				size_t p = pos(1 - w);
				n = new T(*c[1 - w], p, al()), e = m[1 - w].substr(p);
				break;
			}
			case 10:
				n = new T(std::move(*c[1 - w])), e = m[1 - w];
				resync(1 - w);
				check(1 - w, "moved from");
				break;
			case 11:
				n = new T(std::move(*c[1 - w]), al()), e = m[1 - w];
				resync(1 - w);
				check(1 - w, "moved from");
				break;
			case 12: n = new T(a.begin(), a.end(), al()); break;
			case 13: {
				std::list<C> l(a.begin(), a.end());
				n = new T(l.begin(), l.end(), al());
				break;
			}
			case 14: n = new T({ C('x'), C(0), C('y') }, al()), e = { C('x'), C(0), C('y') }; break;
			case 15: { // from another kind of string: allocator is the default one
				O o(a);
				T q(o);
				CHECK(V(q.data(), q.size()) == V(a) && q.c_str()[a.size()] == 0, "construction from another static size");
				TV v(a.data(), a.size());
				T q2(v);
				CHECK(V(q2.data(), q2.size()) == V(a) && q2.c_str()[a.size()] == 0, "construction from a view");
				n = new T(q.data(), q.size(), al());
				break;
			}
		}
		if (e.size() <= T::max_static_size && k != 10 && k != 11)
			CHECK(ty::live_allocs() == before, "construction form ", k, " of a string of size ", e.size(), " allocated, the static size is ", T::max_static_size);
		delete c[w];
		c[w] = n;
		m[w] = e;
	}
	// arguments that are (parts of) the string itself, as std::basic_string allows
	void alias(int w)
	{
		T& t = *c[w];
		M& x = m[w];
		if (x.size() > cap)
			return;
		size_t p = pos(w), q = pos(w), l = len(x.size() - q);
		size_t rl = std::min(l, x.size() - q), n = len(x.size() - p);
		unsigned k = (unsigned)s.raw(28);
		s.note("self argument form ", k, " of ", w, " pos ", p, " sub ", q, ",", l, " len ", n, "\n");
		M part = x.substr(q, l);
		switch (k) {
			case 0: t.append(t), x.append(M(x)); break;
			case 1: t.append(t, q, l), x.append(part); break;
			case 2: t.append(t.data() + q, rl), x.append(part); break;
			case 3: t += t, x += M(x); break;
			case 4: t.assign(t), (void)0; break;
			case 5: t.assign(t, q, l), x = part; break;
			case 6: t.assign(t.data() + q, rl), x = part; break;
			case 7: t.insert(p, t), x.insert(p, M(x)); break;
			case 8: t.insert(p, t, q, l), x.insert(p, part); break;
			case 9: t.insert(p, t.data() + q, rl), x.insert(p, part); break;
			case 10: t.replace(p, n, t), x.replace(p, n, M(x)); break;
			case 11: t.replace(p, n, t, q, l), x.replace(p, n, part); break;
			case 12: t.replace(p, n, t.data() + q, rl), x.replace(p, n, part); break;
			case 13: t = t.substr(q, l), x = part; break;
			case 14: t = *&t; break;
			case 15: t.assign(t.c_str() + q), x = M(part.c_str() == nullptr ? part.data() : M(x, q).c_str()); break;
			case 16: t.insert(p, t.c_str() + q), x.insert(p, M(M(x, q).c_str())); break;
			case 17: t.append(V(t.data() + q, rl)), x.append(part); break;
			case 18: t.append(t.c_str() + q), x.append(M(M(x, q).c_str())); break;
			// through iterator adaptors
			case 19: t.append(t.rend() - q - rl, t.rend() - q), x.append(part.rbegin(), part.rend()); break;
			case 20: t.assign(t.rend() - q - rl, t.rend() - q), x.assign(part.rbegin(), part.rend()); break;
			case 21: t.insert(t.cbegin() + p, t.crend() - q - rl, t.crend() - q), x.insert(x.cbegin() + p, part.rbegin(), part.rend()); break;
			case 22: {
				size_t m = std::min(n, x.size() - p);
				t.replace(t.cbegin() + p, t.cbegin() + p + m, t.rend() - q - rl, t.rend() - q), x.replace(p, m, M(part.rbegin(), part.rend()));
				break;
			}
			case 23: t.append(Bidi<C>{ t.data() + q }, Bidi<C>{ t.data() + q + rl }), x.append(part); break;
			case 24: t.assign(Bidi<C>{ t.data() + q }, Bidi<C>{ t.data() + q + rl }), x = part; break;
			case 25: t.insert(t.cbegin() + p, Bidi<C>{ t.data() + q }, Bidi<C>{ t.data() + q + rl }), x.insert(p, part); break;
			case 26: t.append(std::make_move_iterator(t.begin() + q), std::make_move_iterator(t.begin() + q + rl)), x.append(part); break;
			case 27: t.insert(t.cbegin() + p, std::make_move_iterator(t.begin() + q), std::make_move_iterator(t.begin() + q + rl)), x.insert(p, part); break;
		}
	}

	void step()
	{
		int w = (int)s.raw(2);
		T& t = *c[w];
		M& x = m[w];
		++ops;
		size_t before = x.size();
		const char* op = "?";
		switch (s.weighted({ 6, 4, 8, 7, 9, 7, 9, 3, 4, 3, 3, 3, 1, 2, 6, 3, 2, 4 })) {
			case 0: {
				op = "push_back";
				size_t n = 1 + s.raw(4);
				s.note("push_back ", n, " on ", w, "\n");
				for (size_t i = 0; i < n && x.size() < 3 * cap; ++i) {
					C ch = st::character<C>(s, mode);
					t.push_back(ch), x.push_back(ch);
				}
				break;
			}
			case 1: {
				op = "pop_back";
				size_t n = 1 + s.raw(4);
				s.note("pop_back ", n, " on ", w, "\n");
				for (size_t i = 0; i < n && !x.empty(); ++i)
					t.pop_back(), x.pop_back();
				break;
			}
			case 2:
				op = "append";
				if (x.size() < 2 * cap)
					append(w);
				break;
			case 3: op = "assign", assign(w); break;
			case 4:
				op = "insert";
				if (x.size() < 2 * cap)
					insert(w);
				break;
			case 5: op = "erase", erase(w); break;
			case 6:
				op = "replace";
				if (x.size() < 2 * cap)
					replace(w);
				break;
			case 7: op = "replace_all", replace_all(w); break;
			case 8: {
				op = "resize";
				size_t n = s.size(cap);
				C ch = st::character<C>(s, mode);
				bool d = s.flip();
				s.note("resize ", w, " to ", n, "\n");
				if (d)
					t.resize(n), x.resize(n);
				else
					t.resize(n, ch), x.resize(n, ch);
				break;
			}
			case 9: {
				op = "resize_front";
				size_t n = s.size(cap);
				C ch = s.flip() ? C(0) : st::character<C>(s, mode);
				s.note("resize_front ", w, " to ", n, "\n");
				if (ch == 0)
					t.resize_front(n);
				else
					t.resize_front(n, ch);
				if (n < x.size())
					x.erase(0, x.size() - n);
				else
					x.insert(0, n - x.size(), ch);
				break;
			}
			case 10: {
				op = "reserve";
				size_t n = s.size(cap);
				s.note("reserve ", w, " ", n, "\n");
				t.reserve(n);
				CHECK(t.capacity() >= n, "reserve(", n, "): capacity ", t.capacity());
				check(w, "reserve");
				if (s.chance(1, 3)) {
					// no reallocation up to the capacity
					const C* d = t.data();
					while (x.size() < n)
						t.push_back(C('r')), x.push_back(C('r'));
					CHECK(t.data() == d, "reserve(", n, "): reallocated before size ", n);
				}
				break;
			}
			case 11:
				op = "shrink_to_fit";
				s.note("shrink_to_fit ", w, "\n");
				t.shrink_to_fit();
				++shrunk;
				break;
			case 12:
				op = "clear";
				s.note("clear ", w, "\n");
				t.clear(), x.clear();
				break;
			case 13:
				op = "swap";
				s.note("swap\n");
				switch (s.raw(3)) {
					case 0: t.swap(*c[1 - w]), x.swap(m[1 - w]); break;
					case 1: {
						using std::swap;
						swap(*c[0], *c[1]);
						m[0].swap(m[1]);
						break;
					}
					default: t.swap(t); break;
				}
				break;
			case 14: op = "construct", construct(w); break;
			case 15:
				op = "self argument", alias(w);
				break;
			case 16:
				op = "write access";
				if (!x.empty()) {
					size_t i = s.raw(x.size());
					C ch = st::character<C>(s, mode);
					s.note("write ", w, " at ", i, "\n");
					switch (s.raw(6)) {
						case 0: t[i] = ch, x[i] = ch; break;
						case 1: t.at(i) = ch, x[i] = ch; break;
						case 2: t.data()[i] = ch, x[i] = ch; break;
						case 3: t.front() = ch, x.front() = ch; break;
						case 4: t.back() = ch, x.back() = ch; break;
						default: std::reverse(t.begin(), t.end()), std::reverse(x.begin(), x.end()); break;
					}
				}
				CHECK(st::throws_out_of_range([&] { t.at(x.size() + s.raw(3)); }), "at() beyond the end does not throw out_of_range");
				break;
			default:
				op = "extraction";
				if constexpr (std::is_same_v<C, char> || std::is_same_v<C, wchar_t>) {
					M in;
					s.times(1 + s.raw(3), [&](size_t) {
						in += gen(20);
						in += M(s.raw(3), s.flip() ? C(' ') : C('\n'));
					});
					s.note("extraction from ", cvt(in), "\n");
					std::basic_istringstream<C> i1(in), i2(in);
					std::streamsize wd = s.chance(1, 3) ? (std::streamsize)s.raw(9) : 0;
					for (int j = 0; j < 2; ++j) {
						i1.width(wd), i2.width(wd);
						i1 >> t, i2 >> x;
						CHECK(i1.rdstate() == i2.rdstate(), "extraction: state ", i1.rdstate(), ", expected ", i2.rdstate());
						CHECK(i2.fail() || i1.width() == i2.width(), "extraction: width");
						if (!i2.good())
							break;
						CHECK(i1.tellg() == i2.tellg(), "extraction: read ", i1.tellg(), " characters, expected ", i2.tellg());
						check(w, "extraction");
					}
				}
				break;
		}
		if (m[w].size() > before)
			++grown;
		check(w, op);
		check(1 - w, op);
	}
};

template<class T>
void run(Src& s)
{
	{
		Hist<T> h(s);
		h.check(0, "default construction");
		s.repeat(30, 120, [&](size_t) { h.step(); });
		if (h.ops >= 5 && h.grown >= 2 && h.inner >= 1)
			s.nontrivial();
		if (h.heap)
			s.classify("heap storage");
		if (h.shrunk)
			s.classify("shrink_to_fit");
	}
	ty::check_violation();
}

template<class C, class A, size_t N>
using TS = seq::tiny_string<C, std::char_traits<C>, A, N>;

#if VPT_PART == 0
PROP_FN(tstring, (run<seq::tstring>), 90000);
#elif VPT_PART == 1
PROP_FN(track_0, (run<TS<char, ty::TrackAlloc<char, 0>, 0>>), 90000);
#elif VPT_PART == 2
PROP_FN(char_28, (run<TS<char, std::allocator<char>, 28>>), 60000);
PROP_FN(track_119, (run<TS<char, ty::TrackAlloc<char, 15>, 119>>), 60000);
#elif VPT_PART == 3
PROP_FN(wstring, (run<seq::wtstring>), 60000);
PROP_FN(u16_10, (run<TS<char16_t, ty::TrackAlloc<char16_t, 0>, 10>>), 60000);
#elif VPT_PART == 4
PROP_FN(u32_track, (run<TS<char32_t, ty::TrackAlloc<char32_t, 2>, 0>>), 60000);
PROP_FN(char_16, (run<TS<char, ty::TrackAlloc<char, 4>, 16>>), 60000);
#endif

} // namespace

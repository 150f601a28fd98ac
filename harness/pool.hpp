// Histories over three containers of the same type: every operation of gen.hpp on each of them, and
// the operations that involve two of them, against their contents (C21, C22).
#pragma once
#include "gen.hpp"
#include <optional>

namespace pool {
using namespace gen;
using Item = std::pair<K, K>;
using Items = std::vector<Item>;

GEN_HAS(equal, std::declval<const C&>() == std::declval<const C&>())
GEN_HAS(not_equal, std::declval<const C&>() != std::declval<const C&>())
GEN_HAS(order, std::declval<const C&>() < std::declval<const C&>())

template<class T>
Item item(const T& v)
{
	return { rd<T>(v), 0 };
}
template<class A, class B>
Item item(const std::pair<A, B>& v)
{
	return { rd<std::remove_const_t<A>>(v.first), rd<B>(v.second) };
}
inline std::string show(const Items& v)
{
	std::string r = "{";
	for (size_t i = 0; i < v.size() && i < 30; ++i)
		r += (i ? " " : "") + std::to_string(v[i].first) + (v[i].second ? ":" + std::to_string(v[i].second) : "");
	return r + (v.size() > 30 ? " ...}" : "}");
}
template<class Tr>
Items items(const typename Tr::C& c)
{
	Items r;
	size_t n = c.size();
	if constexpr (Tr::concurrent)
		c.cvisit_all([&](const auto& v) { r.push_back(item(v)); });
	else
		for (auto it = c.begin(); it != c.end(); ++it) {
			r.push_back(item(*it));
			CHECK(r.size() <= n, "the traversal is longer than size() = ", n);
		}
	CHECK_EQ(r.size(), n, "traversal and size()");
	CHECK_EQ(c.empty(), n == 0, "empty()");
	if (!Tr::ordered)
		std::sort(r.begin(), r.end());
	return r;
}
template<class C>
int id_of(const C& c)
{
	return c.get_allocator().id;
}

template<class Tr, unsigned Flags>
struct Machine
{
	using C = typename Tr::C;
	using Alloc = typename C::allocator_type;
	static constexpr bool pocca = Flags & 1, pocma = Flags & 2, pocs = Flags & 4, always = Flags & 8, soccc = Flags & 16;
	Src& s;
	std::optional<C> c[3];
	Items m[3];
	int id[3];
	K dom;
	int next_id = 1;
	bool two_ids;
	bool cheap = false; // the contents are compared from time to time
	const char* last = "?";
	unsigned pairs = 0, unequal = 0;

	explicit Machine(Src& src)
	  : s(src)
	{
		scale().len = s.pick({ (size_t)1, (size_t)1, (size_t)6 });
		scale().hashes = s.pick({ (size_t)0, (size_t)0, (size_t)0, (size_t)1, (size_t)3, (size_t)20 });
		dom = s.pick({ (K)12, (K)60, (K)1000 });
		two_ids = s.flip();
		for (int i = 0; i < 3; ++i) {
			id[i] = norm(two_ids ? 1 + (int)s.raw(2) : 1);
			c[i].emplace(Alloc(id[i]));
		}
	}
	~Machine() { scale() = Scale(); }
	static int norm(int i) { return always ? 0 : i; }
	void verify(const char* what)
	{
		ty::check_violation();
		last = what;
		for (int i = 0; i < 3; ++i) {
			Items now = items<Tr>(*c[i]);
			CHECK(now == m[i], "after ", what, ": container ", i, " is ", show(now), " instead of ", show(m[i]));
			CHECK_EQ(id_of(*c[i]), id[i], "after ", what, ": allocator of container ", i);
		}
		ty::check_violation();
	}
	// any operation on one container
	void single(int i)
	{
		Ctx x;
		x.id = id[i];
		x.dom = dom;
		Op op = gen_op(s, Tr::op_count);
		Tr::apply(*c[i], op, x);
		m[i] = items<Tr>(*c[i]);
		if (cheap) {
			ty::check_violation();
			last = x.name;
		}
		else
			verify(x.name);
	}
	void modify(int i)
	{
		// another value for a key
		if constexpr (Tr::assoc) {
			if constexpr (Tr::is_map) {
				if (m[i].empty())
					return;
				size_t p = (size_t)s.raw(m[i].size());
				K nv = m[i][p].second + 1000;
				if constexpr (Tr::concurrent) {
					K key = m[i][p].first;
					c[i]->visit_all([&](auto& v) {
						if (item(v).first == key)
							v.second = mk<typename Tr::MT>(nv);
						return true;
					});
				}
				else {
					auto it = c[i]->begin();
					if (Tr::ordered)
						std::advance(it, (std::ptrdiff_t)p);
					else
						while (item(*it) != m[i][p])
							++it;
					it->second = mk<typename Tr::MT>(nv);
				}
				m[i][p].second = nv;
				if (!Tr::ordered)
					std::sort(m[i].begin(), m[i].end());
				verify("modification of a value");
			}
		}
	}
	void replace(int i, C&& n) // the i-th container becomes the new one
	{
		c[i].reset();
		ty::check_violation();
		c[i].emplace(std::move(n));
	}
	void two(int i, int j)
	{
		++pairs;
		if (id[i] != id[j])
			++unequal;
		switch (s.raw(10)) {
			case 0: { // copy construction
				c[i].reset();
				c[i].emplace(*c[j]);
				m[i] = m[j];
				id[i] = norm(soccc ? id[j] + 10 : id[j]);
				verify("copy construction");
				break;
			}
			case 1: {
				int a = norm(1 + (int)s.raw(2));
				c[i].reset();
				c[i].emplace(*c[j], Alloc(a));
				m[i] = m[j];
				id[i] = a;
				verify("copy construction with an allocator");
				break;
			}
			case 2:
			case 3: {
				C& r = (*c[i] = *c[j]);
				CHECK(&r == &*c[i], "result of the copy assignment");
				m[i] = m[j];
				if (pocca)
					id[i] = id[j];
				verify("copy assignment");
				break;
			}
			case 4: {
				c[i].reset();
				c[i].emplace(std::move(*c[j]));
				m[i] = m[j];
				id[i] = id[j];
				m[j] = items<Tr>(*c[j]);
				CHECK(m[j].empty(), "the source of a move construction is not empty");
				verify("move construction");
				break;
			}
			case 5: {
				int a = norm(1 + (int)s.raw(2));
				c[i].reset();
				c[i].emplace(std::move(*c[j]), Alloc(a));
				m[i] = m[j];
				id[i] = a;
				m[j] = items<Tr>(*c[j]);
				verify("move construction with an allocator");
				break;
			}
			case 6:
			case 7: {
				C& r = (*c[i] = std::move(*c[j]));
				CHECK(&r == &*c[i], "result of the move assignment");
				m[i] = m[j];
				if (pocma)
					id[i] = id[j];
				m[j] = items<Tr>(*c[j]);
				// the allocator of the source: its own or the one of the target
				int now = id_of(*c[j]);
				CHECK(now == id[j] || now == id[i], "allocator of the source of a move assignment: ", now);
				id[j] = now;
				verify("move assignment");
				break;
			}
			default: {
				if (!pocs && id[i] != id[j])
					return;
				c[i]->swap(*c[j]);
				std::swap(m[i], m[j]);
				std::swap(id[i], id[j]);
				verify("swap");
				break;
			}
		}
	}
	void self(int i)
	{
		C& o = *c[i];
		switch (s.raw(3)) {
			case 0:
				*c[i] = o;
				verify("self copy assignment");
				break;
			case 1:
				*c[i] = std::move(o);
				verify("self move assignment");
				break;
			default:
				c[i]->swap(o);
				verify("self swap");
		}
	}
	void compare(int i, int j)
	{
		bool eq = m[i] == m[j];
		bool set_equal = !Tr::ordered;
		if constexpr (Tr::assoc) // equality of hash tables does not consider the order
			set_equal = set_equal || Tr::is_ordered_table;
		if (set_equal) {
			Items a = m[i], b = m[j];
			std::sort(a.begin(), a.end());
			std::sort(b.begin(), b.end());
			eq = a == b;
		}
		if constexpr (has_equal<C>::value) {
			CHECK_EQ((*c[i] == *c[j]), eq, show(m[i]), " == ", show(m[j]));
			CHECK((*c[i] == *c[i]), "a == a, ", show(m[i]));
		}
		if constexpr (has_not_equal<C>::value)
			CHECK_EQ((*c[i] != *c[j]), !eq, show(m[i]), " != ", show(m[j]));
		if constexpr (has_order<C>::value) {
			bool lt = m[i] < m[j], gt = m[j] < m[i];
			CHECK_EQ((*c[i] < *c[j]), lt, show(m[i]), " < ", show(m[j]));
			CHECK_EQ((*c[i] > *c[j]), gt, show(m[i]), " > ", show(m[j]));
			CHECK_EQ((*c[i] <= *c[j]), !gt, show(m[i]), " <= ", show(m[j]));
			CHECK_EQ((*c[i] >= *c[j]), !lt, show(m[i]), " >= ", show(m[j]));
		}
		ty::check_violation();
	}
	void step(unsigned pair_weight)
	{
		int i = (int)s.raw(3), j = (i + 1 + (int)s.raw(2)) % 3;
		switch (s.weighted({ 10, pair_weight, 2, 3, 2 })) {
			case 0: single(i); break;
			case 1: two(i, j); break;
			case 2: self(i); break;
			case 3: compare(i, j); break;
			default: modify(i);
		}
	}
};

// strings, as sequences of characters
template<class C_>
struct Text
{
	using C = C_;
	using Char = typename C::value_type;
	using Alloc = typename C::allocator_type;
	static constexpr bool assoc = false, unique = false, sorted = false, concurrent = false, ordered = true;
	static constexpr unsigned op_count = 16;
	static C make(int id) { return C(Alloc(id)); }
	static void apply(C& c, const Op& op, Ctx& x)
	{
		size_t n = c.size(), l = len_of(op), p = pos_of(op.a, n), q = std::min(n - p, l);
		std::basic_string<Char> t;
		for (size_t i = 0; i < l; ++i) {
			t += (Char)('a' + key_of(op, i, 26));
			x.used.push_back((K)t.back());
		}
		Char ch = (Char)('a' + key_of(op, l, 26));
		x.used.push_back((K)ch);
		if (n > 300 && op.o < 7)
			c.clear();
		n = c.size();
		p = std::min(p, n);
		q = std::min(n - p, q);
		switch (op.o) {
			case 0: x.name = "append"; x.strong = true; { Armed a(x); c.append(t.data(), l); } return;
			case 1: x.name = "push_back"; x.strong = true; { Armed a(x); c.push_back(ch); } return;
			case 2: x.name = "insert"; x.strong = true; { Armed a(x); c.insert(p, t.data(), l); } return;
			case 3: x.name = "insert(n, c)"; x.strong = true; { Armed a(x); c.insert(p, l, ch); } return;
			case 4: x.name = "assign"; x.strong = true; { Armed a(x); c.assign(t.data(), l); } return;
			case 5: x.name = "assign(n, c)"; x.strong = true; { Armed a(x); c.assign(l, ch); } return;
			case 6: x.name = "replace"; x.strong = true; { Armed a(x); c.replace(p, q, t.data(), l); } return;
			case 7: x.name = "erase"; { Armed a(x); c.erase(p, q); } return;
			case 8: x.name = "pop_back"; if (n) { Armed a(x); c.pop_back(); } return;
			case 9: x.name = "resize"; x.strong = true; { Armed a(x); c.resize(op.a & 1 ? n + l : p, ch); } return;
			case 10: x.name = "reserve"; x.strong = true; { Armed a(x); c.reserve(l * 3); } return;
			case 11: x.name = "shrink_to_fit"; x.strong = true; { Armed a(x); c.shrink_to_fit(); } return;
			case 12: x.name = "clear"; { Armed a(x); c.clear(); } return;
			case 13: x.name = "construction"; x.strong = true; { Armed a(x); C d(t.begin(), t.end(), Alloc(x.id)); C e(c, Alloc(x.id + 1)); C f(e); C g(l, ch, Alloc(x.id)); } return;
			case 14: x.name = "copy assignment"; x.strong = true; { C d(t.data(), l, Alloc(x.id)); Armed a(x); c = d; } return;
			case 15: x.name = "operator+="; x.strong = true; { Armed a(x); c += ch; } return;
		}
	}
	static void add(C& c, K k) { c.push_back((Char)k); }
};
} // namespace pool

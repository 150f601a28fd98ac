// C02: tiered_vector against an abstract sequence.
#include "linear.hpp"
#include <seq/tiered_vector.hpp>

template<class C_>
struct TvTraits
{
	using C = C_;
	using T = typename C::value_type;
	static constexpr unsigned op_count = 33;
	static void extra(const C& c, const lin::Model& m)
	{
		size_t i = m.size();
		for (auto it = c.rbegin(); it != c.rend(); ++it) {
			if (i == 0)
				throw vpt::Fail("reverse traversal goes past the front");
			--i;
			if (ty::key<T>(*it) != m[i])
				throw vpt::Fail(vpt::str("reverse traversal: element ", i, " is ", ty::key<T>(*it), " expected ", m[i]));
		}
		CHECK_EQ(i, 0u, "reverse traversal");
		i = 0;
		c.for_each(0, m.size(), [&](const T& v) {
			if (ty::key<T>(v) != m[i])
				throw vpt::Fail(vpt::str("for_each: element ", i, " is ", ty::key<T>(v), " expected ", m[i]));
			++i;
		});
		CHECK_EQ(i, m.size(), "for_each");
	}
	static void emplace(C& c, size_t p, T&& v)
	{
		auto k = ty::key<T>(v);
		auto& r = (k & 1) ? c.emplace(p, std::move(v)) : c.emplace(c.cbegin() + (std::ptrdiff_t)p, std::move(v));
		CHECK_EQ(ty::key<T>(r), k, "emplace returns the new element");
		CHECK(&r == &c[p], "emplace at ", p);
	}
	template<class H>
	static const char* op(H& h, int w, unsigned o)
	{
		vpt::Src& s = h.s;
		C& c = h.c[w];
		auto& m = h.m[w];
		size_t n = m.size();
		switch (o) {
			case 27: {
				size_t a = h.pos(n), b = h.pos(n);
				if (a > b)
					std::swap(a, b);
				s.note(" [", a, ",", b, ")");
				size_t i = a;
				c.for_each(a, b, [&](T& v) {
					CHECK_EQ(ty::key<T>(v), m[i], "for_each at ", i);
					auto k = h.next();
					v = h.mk(k);
					m[i] = k;
					++i;
				});
				CHECK_EQ(i, b, "for_each count");
				return "for_each(range)";
			}
			case 28: {
				// position based forms
				unsigned kind = (unsigned)s.raw(5);
				size_t p = h.pos(n);
				auto k = h.next();
				s.note(" kind ", kind, " at ", p);
				if (kind == 0) {
					c.insert(p, h.mk(k));
					m.insert(m.begin() + p, k);
				}
				else if (kind == 1) {
					if (p == n)
						return "erase(size_t) none";
					c.erase(p);
					m.erase(m.begin() + p);
				}
				else if (kind == 2) {
					size_t q = std::min(n, p + s.size(100));
					c.erase(p, q);
					m.erase(m.begin() + p, m.begin() + q);
				}
				else if constexpr (lin::copyable<T>) {
					if (kind == 3) {
						size_t q = h.bulk();
						c.insert(p, q, h.mk(k));
						m.insert(m.begin() + p, q, k);
					}
					else {
						const T v = h.mk(k);
						c.insert(p, v);
						m.insert(m.begin() + p, k);
					}
				}
				return "position based";
			}
			case 29: {
				size_t p = h.pos(n);
				auto it = c.iterator_at(p);
				CHECK_EQ((size_t)(it - c.begin()), p, "iterator_at");
				auto cit = ((const C&)c).iterator_at(p);
				CHECK_EQ((size_t)(cit - c.cbegin()), p, "iterator_at const");
				if (p < n) {
					CHECK_EQ(ty::key<T>(*it), m[p], "iterator_at");
					CHECK_EQ(ty::key<T>(*cit), m[p], "iterator_at const");
				}
				else
					CHECK(it == c.end(), "iterator_at(size())");
				return "iterator_at";
			}
			case 30: {
				// many insertions or erasures at random places
				size_t q = s.size(60);
				bool ins = s.flip();
				for (size_t i = 0; i < q; ++i) {
					size_t p = s.raw(m.size() + 1);
					if (ins) {
						auto k = h.next();
						c.insert(p, h.mk(k));
						m.insert(m.begin() + p, k);
					}
					else if (p < m.size()) {
						c.erase(p);
						m.erase(m.begin() + p);
					}
				}
				++h.mid;
				return ins ? "insert many" : "erase many";
			}
			case 31: {
				// a queue
				bool front = s.flip();
				size_t q = h.bulk();
				size_t keep = s.size(200);
				s.note(front ? " front" : " back", " n=", q, " keep ", keep);
				std::deque<lin::K> d(m.begin(), m.end());
				for (size_t i = 0; i < q; ++i) {
					auto k = (h.counter++) % (lin::key_domain<T>() - 1) + 1;
					if (front) {
						c.push_front(h.mk(k));
						d.push_front(k);
						if (d.size() > keep + 1) {
							CHECK_EQ(ty::key<T>(c.back()), d.back(), "queue");
							c.pop_back();
							d.pop_back();
						}
					}
					else {
						c.push_back(h.mk(k));
						d.push_back(k);
						if (d.size() > keep + 1) {
							CHECK_EQ(ty::key<T>(c.front()), d.front(), "queue");
							c.pop_front();
							d.pop_front();
						}
					}
				}
				m.assign(d.begin(), d.end());
				return "queue";
			}
			case 32: {
				// construction
				unsigned kind = (unsigned)s.raw(5);
				s.note(" kind ", kind);
				if (kind == 0) {
					size_t q = h.bulk();
					C y(q);
					c = std::move(y);
					m.assign(q, 0);
				}
				else if (kind == 1) {
					C y;
					CHECK_EQ(y.size(), 0u);
					CHECK(y.begin() == y.end());
					c.swap(y);
					m.clear();
				}
				else if constexpr (lin::copyable<T>) {
					if (kind == 2) {
						size_t q = h.bulk();
						auto k = h.next();
						C y(q, h.mk(k));
						c = std::move(y);
						m.assign(q, k);
					}
					else if (kind == 3) {
						auto a = h.next(), b = h.next();
						C y({ h.mk(a), h.mk(b) });
						c = std::move(y);
						m = { a, b };
					}
					else
						h.with_range(h.bulk(), [&](auto b, auto e, const std::vector<lin::K>& v) {
							C y(b, e);
							c = std::move(y);
							m.assign(v.begin(), v.end());
						});
				}
				return "construct";
			}
		}
		return "none";
	}
};
template<class C>
void tv(vpt::Src& s)
{
	lin::run<C, TvTraits<C>>(s, s.raw(6) == 5 ? 3000 : 250, 40);
}
template<class T, unsigned Min, unsigned Max>
using TV = seq::tiered_vector<T, std::allocator<T>, Min, Max>;
#if VPT_PART == 0
PROP_FN(tv_int, (tv<seq::tiered_vector<int>>), 2500);
#elif VPT_PART == 1
PROP_FN(tv_tstring, (tv<seq::tiered_vector<seq::tstring>>), 2000);
#elif VPT_PART == 2
PROP_FN(tv_obj, (tv<seq::tiered_vector<ty::Obj>>), 2500);
#elif VPT_PART == 3
PROP_FN(tv_uptr_8, (tv<TV<ty::UPtr, 8, 64>>), 2500);
#elif VPT_PART == 4
PROP_FN(tv_long_4_4, (tv<TV<long, 4, 4>>), 2500);
#elif VPT_PART == 5
PROP_FN(tv_char_1_16, (tv<TV<unsigned char, 1, 16>>), 2000);
#elif VPT_PART == 6
PROP_FN(tv_string_2, (tv<TV<std::string, 2, 128>>), 2000);
#elif VPT_PART == 7
PROP_FN(tv_robj_4_32, (tv<TV<ty::RObj, 4, 32>>), 2500);
#endif

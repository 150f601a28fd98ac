// C01: devector against an abstract sequence.
#include "linear.hpp"
#include <seq/devector.hpp>

template<class T>
struct DvTraits
{
	using C = seq::devector<T>;
	static constexpr unsigned op_count = 34;
	static void extra(const C& c, const lin::Model& m)
	{
		CHECK_EQ(c.capacity(), c.front_capacity() + c.size() + c.back_capacity());
		CHECK(c.data() == c.begin());
		CHECK_EQ((size_t)(c.end() - c.begin()), m.size());
		size_t i = m.size();
		for (auto it = c.rbegin(); it != c.rend(); ++it)
			CHECK_EQ(ty::key<T>(*it), m[--i], "reverse traversal");
	}
	static void emplace(C& c, size_t p, T&& v)
	{
		auto k = ty::key<T>(v);
		auto it = c.emplace(c.cbegin() + p, std::move(v));
		CHECK_EQ((size_t)(it - c.begin()), p);
		CHECK_EQ(ty::key<T>(*it), k);
	}
	template<class H>
	static const char* op(H& h, int w, unsigned o)
	{
		vpt::Src& s = h.s;
		C& c = h.c[w];
		auto& m = h.m[w];
		size_t n = m.size();
		switch (o) {
			case 27: {
				size_t q = h.bulk();
				s.note(" ", q);
				c.reserve(q);
				CHECK(c.capacity() >= q, "reserve(", q, ")");
				return "reserve";
			}
			case 28: {
				size_t q = h.bulk();
				s.note(" ", q);
				c.reserve_back(q);
				CHECK(c.back_capacity() >= q, "reserve_back(", q, ")");
				const T* d = c.data();
				for (size_t i = 0; i < q; ++i) {
					auto k = h.next();
					c.push_back(h.mk(k));
					m.push_back(k);
				}
				if (n)
					CHECK(c.data() == d, "reserve_back(", q, ") then as many push_back moved the elements");
				return "reserve_back";
			}
			case 29: {
				size_t q = h.bulk();
				s.note(" ", q);
				c.reserve_front(q);
				CHECK(c.front_capacity() >= q, "reserve_front(", q, ")");
				const T* e = c.data() + n;
				for (size_t i = 0; i < q; ++i) {
					auto k = h.next();
					c.push_front(h.mk(k));
					m.insert(m.begin(), k);
				}
				if (n)
					CHECK(c.data() + m.size() == e, "reserve_front(", q, ") then as many push_front moved the elements");
				return "reserve_front";
			}
			case 30:
				c.shrink_to_fit();
				CHECK_EQ(c.capacity(), n, "shrink_to_fit");
				return "shrink_to_fit";
			case 31:
			case 32:
				// arguments that refer to elements of the container
				if constexpr (lin::copyable<T>) {
					if (!n)
						return "alias (empty)";
					size_t i = s.raw(n), p = h.pos(n);
					unsigned kind = (unsigned)s.raw(7);
					s.note(" kind ", kind, " from ", i, " to ", p);
					auto k = m[i];
					switch (kind) {
						case 0:
							c.push_back(c[i]);
							m.push_back(k);
							break;
						case 1:
							c.push_front(c[i]);
							m.insert(m.begin(), k);
							break;
						case 2:
							c.emplace_back(c[i]);
							m.push_back(k);
							break;
						case 3:
							c.emplace_front(c[i]);
							m.insert(m.begin(), k);
							break;
						case 4:
							c.insert(c.cbegin() + p, c[i]);
							m.insert(m.begin() + p, k);
							break;
						case 5:
							c.emplace(c.cbegin() + p, c[i]);
							m.insert(m.begin() + p, k);
							break;
						default: {
							size_t q = h.bulk();
							c.insert(c.cbegin() + p, q, c[i]);
							m.insert(m.begin() + p, q, k);
							break;
						}
					}
					s.classify("aliasing insertion");
				}
				return "alias";
			case 33: {
				// a queue: push at one end, pop at the other
				bool front = s.flip();
				size_t q = h.bulk();
				s.note(front ? " front" : " back", " n=", q);
				for (size_t i = 0; i < q; ++i) {
					auto k = h.next();
					if (front) {
						c.push_front(h.mk(k));
						m.insert(m.begin(), k);
						if (m.size() > 3) {
							c.pop_back();
							m.pop_back();
						}
					}
					else {
						c.push_back(h.mk(k));
						m.push_back(k);
						if (m.size() > 3) {
							c.pop_front();
							m.erase(m.begin());
						}
					}
				}
				return "queue";
			}
		}
		return "none";
	}
};
template<class T>
void dv(vpt::Src& s)
{
	lin::run<seq::devector<T>, DvTraits<T>>(s, 120, 40);
}
using PairIS = std::pair<int, std::string>;
#if VPT_PART == 0
PROP_FN(devector_int, dv<int>, 6000);
PROP_FN(devector_tstring, dv<seq::tstring>, 6000);
PROP_FN(devector_obj, dv<ty::Obj>, 6000);
#elif VPT_PART == 1
PROP_FN(devector_string, dv<std::string>, 5000);
PROP_FN(devector_robj, dv<ty::RObj>, 6000);
PROP_FN(devector_uptr, dv<ty::UPtr>, 5000);
#else
PROP_FN(devector_char, dv<unsigned char>, 3000);
PROP_FN(devector_big, dv<ty::Big>, 3000);
PROP_FN(devector_tobj, dv<ty::TObj>, 6000);
#endif

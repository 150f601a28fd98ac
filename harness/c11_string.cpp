// C11: the observers of tiny_string and tstring_view against std::basic_string(_view).
#include "strings.hpp"
#include <iomanip>
#include <memory>
#include <seq/hash.hpp>

using st::cvt;
using st::text;
using vpt::Src;

namespace {

inline int sgn(int v)
{
	return v < 0 ? -1 : v > 0;
}

// H: the type under test (string or view); S2: another tiny_string type
template<class H>
struct Obs
{
	using C = typename H::value_type;
	using M = std::basic_string<C>;
	using V = std::basic_string_view<C>;
	using TV = seq::basic_tstring_view<C>;
	using O = seq::tiny_string<C, std::char_traits<C>, std::allocator<C>, 21>;
	using O0 = seq::tiny_string<C, std::char_traits<C>, std::allocator<C>, 0>;
	static constexpr bool is_view = std::is_same_v<H, TV>;
	static constexpr size_t npos = H::npos;
	static_assert(H::npos == M::npos);

	Src& s;
	unsigned mode;
	M a;
	std::unique_ptr<C[]> buf; // storage of a view: exactly the characters
	std::unique_ptr<H> h;

	Obs(Src& src)
	  : s(src)
	{
	}
	static M nonul(M t)
	{
		for (C& x : t)
			if (x == 0)
				x = (C)'z';
		return t;
	}
	// a needle related to the text
	M needle()
	{
		M n;
		if (!a.empty() && s.chance(2, 3)) {
			size_t p = s.raw(a.size());
			n = a.substr(p, s.chance(1, 3) ? npos : 1 + s.raw(24));
			if (!n.empty() && s.chance(1, 3))
				n[s.raw(n.size())] = st::character<C>(s, mode);
			if (s.chance(1, 6))
				n.push_back(st::character<C>(s, mode));
		}
		else
			n = text<C>(s, mode, s.chance(1, 4) ? 40 : 4);
		return n;
	}
	// any position, also beyond the end
	size_t any_pos()
	{
		switch (s.raw(8)) {
			case 0: return npos;
			case 1: return a.size() + s.raw(4);
			case 2: return npos - s.raw(4);
			default: return st::position(s, a.size());
		}
	}

#define BOTH(what, e1, e2)                                                                                                                                                                              \
	do {                                                                                                                                                                                            \
		auto g = (e1);                                                                                                                                                                          \
		auto w = (e2);                                                                                                                                                                          \
		CHECK(g == w, what, " of ", cvt(n), " from ", p, " in ", cvt(a), ": ", (long long)g, ", expected ", (long long)w);                                                                      \
	} while (0)

	void finds()
	{
		const H& t = *h;
		V x(a);
		M n = needle();
		size_t p = any_pos();
		C c = n.empty() ? st::character<C>(s, mode) : n[0];
		M z = nonul(n);
		O o(n);
		O0 o0(n.data(), n.size());
		TV v(n.data(), n.size());
		s.note("find in ", cvt(a), " of ", cvt(n), " from ", p, "\n");
		BOTH("find(tiny_string)", t.find(o, p), x.find(n, p));
		BOTH("find(tiny_string)", t.find(o0), x.find(n));
		BOTH("find(view)", t.find(v, p), x.find(n, p));
		BOTH("find(basic_string)", t.find(n, p), x.find(n, p));
		BOTH("find(string_view)", t.find(V(n), p), x.find(n, p));
		BOTH("find(string_view)", t.find(V(n)), x.find(n));
		BOTH("find(ptr)", t.find(z.c_str(), p), x.find(z, p));
		BOTH("find(ptr)", t.find(z.c_str()), x.find(z));
		BOTH("find(ptr, n)", t.find(n.data(), p, n.size()), x.find(n, p));
		BOTH("find(char)", t.find(c, p), x.find(c, p));
		BOTH("find(char)", t.find(c), x.find(c));
		BOTH("rfind(tiny_string)", t.rfind(o, p), x.rfind(n, p));
		BOTH("rfind(tiny_string)", t.rfind(o0), x.rfind(n));
		BOTH("rfind(view)", t.rfind(v, p), x.rfind(n, p));
		BOTH("rfind(basic_string)", t.rfind(n, p), x.rfind(n, p));
		BOTH("rfind(string_view)", t.rfind(V(n), p), x.rfind(n, p));
		BOTH("rfind(ptr)", t.rfind(z.c_str(), p), x.rfind(z, p));
		BOTH("rfind(ptr)", t.rfind(z.c_str()), x.rfind(z));
		BOTH("rfind(ptr, n)", t.rfind(n.data(), p, n.size()), x.rfind(n, p));
		BOTH("rfind(char)", t.rfind(c, p), x.rfind(c, p));
		BOTH("rfind(char)", t.rfind(c), x.rfind(c));
		BOTH("find_first_of(tiny_string)", t.find_first_of(o, p), x.find_first_of(n, p));
		BOTH("find_first_of(view)", t.find_first_of(v), x.find_first_of(n));
		BOTH("find_first_of(ptr)", t.find_first_of(z.c_str(), p), x.find_first_of(z, p));
		BOTH("find_first_of(ptr)", t.find_first_of(z.c_str()), x.find_first_of(z));
		BOTH("find_first_of(ptr, n)", t.find_first_of(n.data(), p, n.size()), x.find_first_of(n, p));
		BOTH("find_first_of(char)", t.find_first_of(c, p), x.find_first_of(c, p));
		BOTH("find_last_of(tiny_string)", t.find_last_of(o, p), x.find_last_of(n, p));
		BOTH("find_last_of(view)", t.find_last_of(v), x.find_last_of(n));
		BOTH("find_last_of(ptr)", t.find_last_of(z.c_str(), p), x.find_last_of(z, p));
		BOTH("find_last_of(ptr)", t.find_last_of(z.c_str()), x.find_last_of(z));
		BOTH("find_last_of(ptr, n)", t.find_last_of(n.data(), p, n.size()), x.find_last_of(n, p));
		BOTH("find_last_of(char)", t.find_last_of(c, p), x.find_last_of(c, p));
		BOTH("find_first_not_of(tiny_string)", t.find_first_not_of(o, p), x.find_first_not_of(n, p));
		BOTH("find_first_not_of(view)", t.find_first_not_of(v), x.find_first_not_of(n));
		BOTH("find_first_not_of(ptr)", t.find_first_not_of(z.c_str(), p), x.find_first_not_of(z, p));
		BOTH("find_first_not_of(ptr)", t.find_first_not_of(z.c_str()), x.find_first_not_of(z));
		BOTH("find_first_not_of(ptr, n)", t.find_first_not_of(n.data(), p, n.size()), x.find_first_not_of(n, p));
		BOTH("find_first_not_of(char)", t.find_first_not_of(c, p), x.find_first_not_of(c, p));
		BOTH("find_last_not_of(tiny_string)", t.find_last_not_of(o, p), x.find_last_not_of(n, p));
		BOTH("find_last_not_of(view)", t.find_last_not_of(v), x.find_last_not_of(n));
		BOTH("find_last_not_of(ptr)", t.find_last_not_of(z.c_str(), p), x.find_last_not_of(z, p));
		BOTH("find_last_not_of(ptr)", t.find_last_not_of(z.c_str()), x.find_last_not_of(z));
		BOTH("find_last_not_of(ptr, n)", t.find_last_not_of(n.data(), p, n.size()), x.find_last_not_of(n, p));
		BOTH("find_last_not_of(char)", t.find_last_not_of(c, p), x.find_last_not_of(c, p));
	}
	static size_t occurrences(V x, V n, size_t p)
	{
		size_t r = 0;
		for (p = x.find(n, p); p != V::npos; p = x.find(n, p + n.size()))
			++r;
		return r;
	}
	void counts()
	{
		const H& t = *h;
		M n = needle();
		if (n.empty())
			n.assign(1, st::character<C>(s, mode));
		M z = nonul(n);
		size_t p = any_pos();
		TV v(n.data(), n.size());
		s.note("count\n");
		BOTH("count(ptr, n)", t.count(n.data(), n.size(), p), occurrences(a, n, p));
		BOTH("count(ptr)", t.count(z.c_str()), occurrences(a, z, 0));
		BOTH("count(view)", t.count(v, p), occurrences(a, n, p));
		BOTH("count(basic_string)", t.count(n), occurrences(a, n, 0));
		BOTH("count(string_view)", t.count(V(n), p), occurrences(a, n, p));
		BOTH("count(char)", t.count(n[0], p), occurrences(a, n.substr(0, 1), p));
	}
	void relations(const M& b)
	{
		const H& t = *h;
		V x(a), y(b);
		int e = sgn(x.compare(y));
		s.note("compare ", cvt(a), " and ", cvt(b), "\n");
		O o(b);
		O0 o0(b.data(), b.size());
		TV v(b.data(), b.size());
		auto all = [&](const char* what, const auto& r) {
			CHECK((t == r) == (e == 0) && (r == t) == (e == 0), "== with ", what, " ", cvt(a), " ", cvt(b));
			CHECK((t != r) == (e != 0) && (r != t) == (e != 0), "!= with ", what, " ", cvt(a), " ", cvt(b));
			CHECK((t < r) == (e < 0) && (r < t) == (e > 0), "< with ", what, " ", cvt(a), " ", cvt(b));
			CHECK((t <= r) == (e <= 0) && (r <= t) == (e >= 0), "<= with ", what, " ", cvt(a), " ", cvt(b));
			CHECK((t > r) == (e > 0) && (r > t) == (e < 0), "> with ", what, " ", cvt(a), " ", cvt(b));
			CHECK((t >= r) == (e >= 0) && (r >= t) == (e <= 0), ">= with ", what, " ", cvt(a), " ", cvt(b));
		};
		all("tiny_string", o);
		all("tstring", o0);
		all("view", v);
		all("basic_string", b);
		all("string_view", y);
		auto cmp = [&](const char* what, int g, int w) { CHECK(sgn(g) == sgn(w), "compare(", what, ") of ", cvt(a), " and ", cvt(b), ": ", g, ", expected sign ", sgn(w)); };
		cmp("tiny_string", t.compare(o), e);
		cmp("view", t.compare(v), e);
		cmp("basic_string", t.compare(b), e);
		cmp("string_view", t.compare(y), e);
		cmp("self", t.compare(t), 0);
		size_t p = st::position(s, a.size()), l = st::length(s, a.size() - p);
		size_t q = st::position(s, b.size()), k = st::length(s, b.size() - q);
		cmp("pos, len, basic_string", t.compare(p, l, b), x.compare(p, l, y));
		cmp("pos, len, string_view", t.compare(p, l, y), x.compare(p, l, y));
		cmp("pos, len, ptr, n", t.compare(p, l, b.data(), b.size()), x.compare(p, l, y));
		cmp("pos, len, tiny_string, pos, len", t.compare(p, l, o, q, k), x.compare(p, l, y, q, k));
		if constexpr (!is_view)
			cmp("pos, len, tiny_string", t.compare(p, l, o), x.compare(p, l, y));
		{
			const M z = nonul(b);
			int ez = sgn(x.compare(z));
			const C* r = z.c_str();
			CHECK((t == r) == (ez == 0) && (r == t) == (ez == 0) && (t != r) == (ez != 0) && (r != t) == (ez != 0), "== with a pointer ", cvt(a), " ", cvt(z));
			CHECK((t < r) == (ez < 0) && (r < t) == (ez > 0) && (t > r) == (ez > 0) && (r > t) == (ez < 0), "< with a pointer ", cvt(a), " ", cvt(z));
			CHECK((t <= r) == (ez <= 0) && (r <= t) == (ez >= 0) && (t >= r) == (ez >= 0) && (r >= t) == (ez <= 0), "<= with a pointer ", cvt(a), " ", cvt(z));
			cmp("ptr", t.compare(r), ez);
			cmp("pos, len, ptr", t.compare(p, l, r), x.compare(p, l, z));
		}
		// equal strings have equal hashes, whatever their type
		if (e == 0) {
			size_t hv = seq::hasher<H>()(t);
			CHECK(seq::hasher<H>()(o) == hv && seq::hasher<H>()(v) == hv && seq::hasher<H>()(b) == hv && seq::hasher<H>()(y) == hv, "hasher: equal strings, different hashes");
			CHECK(std::hash<H>()(t) == std::hash<O>()(o) && std::hash<H>()(b) == std::hash<H>()(v), "std::hash: equal strings, different hashes");
			CHECK(seq::hasher<M>()(b) == hv && seq::hasher<V>()(y) == hv && seq::hasher<O>()(o) == hv, "hasher: equal strings, different hashes");
		}
	}
	void copies()
	{
		const H& t = *h;
		size_t p = st::position(s, a.size()), l = st::length(s, a.size() - p);
		s.note("copy/substr ", cvt(a), " pos ", p, " len ", l, "\n");
		{
			size_t n = std::min(l, a.size() - p);
			std::unique_ptr<C[]> b(new C[n + 1]);
			b[n] = (C)0x55;
			size_t r = t.copy(b.get(), l, p);
			CHECK(r == n && V(b.get(), n) == V(a).substr(p, l) && b[n] == (C)0x55, "copy returned ", r);
			std::unique_ptr<C[]> b2(new C[a.size() + 1]);
			CHECK(t.copy(b2.get(), npos) == a.size() && V(b2.get(), a.size()) == V(a), "copy");
		}
		{
			TV u = t.substr(p, l);
			V w = V(a).substr(p, l);
			CHECK(u.size() == w.size() && V(u.data(), u.size()) == w, "substr");
			CHECK(u.data() == t.data() + p, "substr is not a view");
			CHECK(t.substr(p).size() == a.size() - p, "substr");
		}
		size_t bad = a.size() + 1 + s.raw(3);
		C d[1];
		CHECK(st::throws_out_of_range([&] { (void)t.substr(bad, l); }), "substr beyond the end does not throw");
		CHECK(st::throws_out_of_range([&] { (void)t.copy(d, 0, bad); }), "copy from beyond the end does not throw");
		CHECK(st::throws_out_of_range([&] { (void)t.at(bad - 1); }), "at beyond the end does not throw");
		M c1 = t;
		CHECK(c1 == a, "conversion to basic_string");
		CHECK(seq::string_data(t) == t.data() && seq::string_size(t) == a.size(), "string_data, string_size");
		CHECK(t.size() == a.size() && t.length() == a.size() && t.empty() == a.empty() && V(t.data(), t.size()) == V(a), "content");
		CHECK(std::equal(t.begin(), t.end(), a.begin(), a.end()) && std::equal(t.cbegin(), t.cend(), a.begin(), a.end()), "iteration");
		CHECK(std::equal(t.rbegin(), t.rend(), a.rbegin(), a.rend()) && std::equal(t.crbegin(), t.crend(), a.rbegin(), a.rend()), "reverse iteration");
		if (!a.empty()) {
			size_t i = s.raw(a.size());
			CHECK(t[i] == a[i] && t.at(i) == a[i] && t.front() == a.front() && t.back() == a.back(), "element access");
		}
	}
	void plus()
	{
		const H& t = *h;
		M b = text<C>(s, mode, 30), z = nonul(b);
		s.note("concatenation ", cvt(a), " and ", cvt(b), "\n");
		O o(b);
		TV v(b.data(), b.size());
		C c = st::character<C>(s, mode);
		auto same = [&](const char* what, const auto& g, const M& w) {
			CHECK(V(g.data(), g.size()) == V(w) && g.c_str()[g.size()] == 0, "operator+ with ", what, ": ", cvt(M(g.data(), g.size())), ", expected ", cvt(w));
		};
		same("tiny_string", t + o, a + b);
		same("tiny_string", o + t, b + a);
		same("view", t + v, a + b);
		same("view", v + t, b + a);
		same("basic_string", t + b, a + b);
		same("basic_string", b + t, b + a);
		same("string_view", t + V(b), a + b);
		same("string_view", V(b) + t, b + a);
		same("pointer", t + z.c_str(), a + z);
		same("pointer", z.c_str() + t, z + a);
		same("character", t + c, a + c);
		same("character", c + t, c + a);
		same("itself", t + t, a + a);
	}
	void output()
	{
		if constexpr (std::is_same_v<C, char> || std::is_same_v<C, wchar_t>) {
			const H& t = *h;
			std::basic_ostringstream<C> o1, o2;
			int w = (int)s.raw(30);
			unsigned adj = (unsigned)s.raw(4);
			s.note("output ", cvt(a), " width ", w, " adjust ", adj, "\n");
			auto set = [&](auto& os) {
				os.fill(C('*'));
				if (adj == 1)
					os << std::left;
				if (adj == 2)
					os << std::right;
				if (adj == 3)
					os << std::internal;
				os << std::setw(w);
			};
			set(o1), set(o2);
			o1 << t << t << C('.');
			o2 << a << a << C('.');
			CHECK(o1.str() == o2.str(), "operator<<: ", cvt(o1.str()), ", expected ", cvt(o2.str()));
			CHECK(o1.width() == o2.width() && o1.rdstate() == o2.rdstate(), "operator<<: width or state");
			o1.setstate(std::ios_base::failbit), o2.setstate(std::ios_base::failbit);
			o1 << t, o2 << a;
			CHECK(o1.str() == o2.str() && o1.fail(), "operator<< on a failed stream");
		}
	}
	void views()
	{
		// a view keeps the characters and the size it is given
		V x(a);
		O o(a);
		s.note("views ", cvt(a), "\n");
		auto same = [&](const char* what, const TV& v, const C* d, size_t n) {
			CHECK(v.size() == n && v.length() == n && v.empty() == (n == 0) && (n == 0 || v.data() == d) && v.c_str() == v.data(), "view ", what);
		};
		M z = nonul(a);
		same("default", TV(), nullptr, 0);
		same("from basic_string", TV(a), a.data(), a.size());
		same("from string_view", TV(x), a.data(), a.size());
		same("from tiny_string", TV(o), o.data(), o.size());
		same("from pointer", TV(z.c_str()), z.data(), z.size());
		same("from pointer and size", TV(a.data(), a.size()), a.data(), a.size());
		if (!a.empty())
			same("from range", TV(a.begin(), a.end()), a.data(), a.size());
		TV v, u(z);
		v = a;
		same("= basic_string", v, a.data(), a.size());
		v = z.c_str();
		same("= pointer", v, z.data(), z.size());
		v = x;
		same("= string_view", v, a.data(), a.size());
		v = o;
		same("= tiny_string", v, o.data(), o.size());
		v = u;
		same("= view", v, z.data(), z.size());
		v = TV(a);
		v.swap(u);
		same("swap", u, a.data(), a.size());
		same("swap", v, z.data(), z.size());
		std::swap(v, u);
		same("std::swap", v, a.data(), a.size());
		if constexpr (!is_view) {
			// owning strings built from views own their characters
			M tmp = a;
			H q{ TV(tmp) };
			H q2;
			q2 = TV(tmp);
			tmp.assign(tmp.size(), C('!'));
			CHECK(V(q.data(), q.size()) == V(a) && V(q2.data(), q2.size()) == V(a), "a string built from a view does not own its characters");
		}
	}

	void build()
	{
		mode = (unsigned)s.raw(5);
		a = text<C>(s, mode, s.chance(1, 5) ? 120 : 40);
		if constexpr (is_view) {
			buf.reset(new C[a.size()]);
			std::copy(a.begin(), a.end(), buf.get());
			h.reset(new H(buf.get(), a.size()));
		}
		else
			h.reset(new H(a.data(), a.size()));
	}
	void go()
	{
		build();
		if (a.size() > 3)
			s.nontrivial();
		s.repeat(5, 30, [&](size_t) {
			switch (s.weighted({ 8, 2, 6, 2, 2, 2, 1 })) {
				case 0: finds(); break;
				case 1: counts(); break;
				case 2: {
					M b;
					switch (s.raw(4)) {
						case 0: b = a; break;
						case 1: b = text<C>(s, mode, 40); break;
						case 2:
							b = a;
							if (!b.empty())
								b[s.raw(b.size())] = st::character<C>(s, mode);
							break;
						default:
							b = a;
							if (s.flip())
								b.resize(s.raw(b.size() + 1));
							else
								b += text<C>(s, mode, 5);
							break;
					}
					relations(b);
					break;
				}
				case 3: copies(); break;
				case 4: plus(); break;
				case 5: output(); break;
				default: views(); break;
			}
		});
	}
};

template<class H>
void run(Src& s)
{
	Obs<H> o(s);
	o.go();
}
template<class C, size_t N>
using TS = seq::tiny_string<C, std::char_traits<C>, std::allocator<C>, N>;

#if VPT_PART == 0
PROP_FN(tstring, (run<seq::tstring>), 150000);
PROP_FN(tview, (run<seq::tstring_view>), 150000);
#elif VPT_PART == 1
PROP_FN(char_28, (run<TS<char, 28>>), 80000);
PROP_FN(char_119, (run<TS<char, 119>>), 80000);
#elif VPT_PART == 2
PROP_FN(wstring, (run<seq::wtstring>), 80000);
PROP_FN(wview, (run<seq::wtstring_view>), 80000);
#elif VPT_PART == 3
PROP_FN(u16, (run<TS<char16_t, 10>>), 80000);
PROP_FN(u32view, (run<seq::basic_tstring_view<char32_t>>), 80000);
#endif

} // namespace

// C17: sorting, merging, reversing and unique against the std stable algorithms.
#include "types.hpp"
#include <algorithm>
#include <deque>
#include <list>
#include <seq/algorithm.hpp>
#include <seq/devector.hpp>
#include <seq/sequence.hpp>
#include <seq/tiered_vector.hpp>
#include <vector>

using vpt::Src;
using K = int64_t;

// A value with the class it is compared by and its original rank.
struct Item
{
	int32_t c, rank;
	Item(int32_t a = 0, int32_t b = 0)
	  : c(a)
	  , rank(b)
	{
	}
};
struct SItem
{
	// not relocatable for the library, owns memory
	std::string c;
	int32_t rank = 0;
	SItem() {}
	SItem(int32_t a, int32_t b)
	  : c(ty::key_string(a))
	  , rank(b)
	{
	}
};
struct UItem
{
	// move only, relocatable by size and unique_ptr
	std::unique_ptr<int32_t> c;
	int32_t rank = 0;
	UItem() {}
	UItem(int32_t a, int32_t b)
	  : c(new int32_t(a))
	  , rank(b)
	{
	}
};
namespace seq {
template<>
struct is_relocatable<UItem>
{
	static constexpr bool value = true;
};
}
struct BItem
{
	int32_t c, rank;
	int64_t pad[6];
	BItem(int32_t a = 0, int32_t b = 0)
	  : c(a)
	  , rank(b)
	{
		for (int64_t& p : pad)
			p = a + 3 * b;
	}
};
// comparators see the class only
static int32_t cls(const Item& v) { return v.c; }
static int32_t cls(const BItem& v)
{
	for (int64_t p : v.pad)
		if (p != v.c + 3 * v.rank)
			return -1;
	return v.c;
}
static int32_t cls(const SItem& v) { return (int32_t)ty::key<std::string>(v.c); }
static int32_t cls(const UItem& v) { return v.c ? *v.c : -1; }

struct In
{
	std::vector<std::pair<int32_t, int32_t>> v; // class, rank
	bool desc, par;
};
// A comparator with optional order reversal and class merging (by 4)
struct Cmp
{
	bool desc;
	int div;
	template<class T>
	bool operator()(const T& a, const T& b) const
	{
		int32_t x = cls(a) / div, y = cls(b) / div;
		return desc ? y < x : x < y;
	}
	bool operator()(const std::pair<int32_t, int32_t>& a, const std::pair<int32_t, int32_t>& b) const
	{
		int32_t x = a.first / div, y = b.first / div;
		return desc ? y < x : x < y;
	}
};
// classes made of runs of various shapes
static std::vector<std::pair<int32_t, int32_t>> gen(Src& s, size_t n, int32_t domain)
{
	std::vector<std::pair<int32_t, int32_t>> v;
	v.reserve(n);
	unsigned shape = (unsigned)s.raw(7);
	if (n > 3000) {
		// large inputs come from their own generator so that they cost few choices
		uint64_t rng = s.raw(0);
		int32_t cur = 0;
		size_t run = 1 + s.raw(400);
		while (v.size() < n) {
			uint64_t r = vpt::splitmix(rng);
			size_t len = 1 + r % run;
			unsigned kind = shape == 0 ? 4 : shape == 1 ? 0 : shape == 2 ? 1 : (unsigned)((r >> 32) % 5);
			if (kind != 4 || shape > 2)
				cur = (int32_t)((r >> 20) % domain);
			for (size_t i = 0; i < len && v.size() < n; ++i) {
				uint64_t q = vpt::splitmix(rng);
				if (kind == 0)
					cur = std::min(domain - 1, cur + (int32_t)(q % 3));
				else if (kind == 1)
					cur = std::max(0, cur - (int32_t)(q % 3));
				else if (kind == 2 || kind == 4)
					cur = (int32_t)(q % domain);
				v.push_back({ cur, 0 });
			}
		}
	}
	else
		while (v.size() < n) {
			size_t b = s.open();
			size_t left = n - v.size();
			unsigned kind = shape < 4 ? shape : (unsigned)s.raw(5);
			size_t len = shape < 4 ? left : std::min(left, 1 + s.raw(shape == 4 ? 20 : shape == 5 ? 200 : 600));
			int32_t cur = kind == 1 ? domain - 1 : (shape < 4 ? 0 : (int32_t)s.raw(domain));
			uint64_t rng = s.raw(0);
			for (size_t i = 0; i < len; ++i) {
				uint64_t q = vpt::splitmix(rng);
				if (kind == 0)
					cur = std::min(domain - 1, cur + (int32_t)(q % 3));
				else if (kind == 1)
					cur = std::max(0, cur - (int32_t)(q % 3));
				else if (kind == 2)
					cur = (int32_t)(q % domain);
				else if (kind == 3)
					cur = (q % 16) == 0 ? (int32_t)((q >> 8) % domain) : std::min(domain - 1, cur + 1);
				v.push_back({ cur, 0 });
			}
			s.close(b);
		}
	for (size_t i = 0; i < v.size(); ++i)
		v[i].second = (int32_t)i;
	return v;
}
static size_t gen_size(Src& s)
{
	if (s.raw(60) == 59)
		return s.flip() ? s.raw(20000) : 8188 + s.raw(8);
	switch (s.raw(9)) {
		case 0:
		case 1:
			return s.raw(20);
		case 2:
		case 3:
			return s.raw(130);
		case 4:
			return 120 + s.raw(20);
		case 5:
		case 6:
			return s.raw(600);
		case 7:
			return s.pick<size_t>({ 8, 16, 64, 127, 128, 129, 256, 512, 1024 }) + s.raw(3);
		default:
			return s.raw(3000);
	}
}
template<class It>
static void check_result(It it, It end, const std::vector<std::pair<int32_t, int32_t>>& want, const char* what)
{
	size_t i = 0;
	for (; it != end; ++it, ++i) {
		if (i >= want.size())
			throw vpt::Fail(vpt::str(what, ": too many elements"));
		int32_t c = cls(*it);
		if (c != want[i].first || it->rank != want[i].second)
			throw vpt::Fail(vpt::str(what, ": element ", i, " of ", want.size(), " is (", c, ", rank ", it->rank, "), expected (", want[i].first, ", rank ", want[i].second, ")"));
	}
	CHECK_EQ(i, want.size(), what);
}
template<class T, class C>
static C make_c(const std::vector<std::pair<int32_t, int32_t>>& v)
{
	C c;
	for (auto& p : v)
		c.push_back(T(p.first, p.second));
	return c;
}
template<class It, class Cm>
static void sort_it(Src& s, It b, It e, size_t n, Cm cmp, unsigned kind)
{
	using T = typename std::iterator_traits<It>::value_type;
	switch (kind) {
		case 0:
			seq::net_sort(b, e, cmp);
			break;
		case 1:
			seq::net_sort_size(b, n, cmp, seq::default_buffer);
			break;
		case 2:
			seq::net_sort(b, e, cmp, seq::medium_buffer);
			break;
		case 3:
			seq::net_sort_size(b, n, cmp, seq::small_buffer);
			break;
		case 4:
			seq::net_sort(b, e, cmp, seq::tiny_buffer);
			break;
		case 5:
			seq::net_sort_size(b, n, cmp, seq::null_buffer);
			break;
		default: {
			// user buffers of any size, guarded by the sanitizer
			size_t q = s.raw(3) == 0 ? 0 : s.raw(3) == 0 ? s.raw(n + 1) : s.raw(160);
			if (s.raw(6) == 5)
				q = s.pick<size_t>({ 1, 7, 8, 16, 64, 127, 128, 129 });
			s.note("user buffer of ", q, "\n");
			std::unique_ptr<T[]> buf(new T[q]);
			if (kind == 6)
				seq::net_sort(b, e, cmp, seq::buffer<T*>{ buf.get(), q });
			else
				seq::net_sort_size(b, n, cmp, seq::buffer<T*>{ buf.get(), q });
		}
	}
}
template<class T, class C>
static void sort_prop(Src& s)
{
	size_t n = gen_size(s);
	int32_t domain = s.pick<int32_t>({ 2, 3, 8, 30, 300, 100000 });
	auto v = gen(s, n, domain);
	Cmp cmp{ s.flip(), s.flip() ? 1 : 4 };
	unsigned kind = (unsigned)s.raw(8);
	s.note("n=", n, " domain ", domain, cmp.desc ? " descending" : "", " classes /", cmp.div, " buffer kind ", kind, "\n");
	if (n <= 60)
		for (auto& p : v)
			s.note(" ", p.first);
	C c = make_c<T, C>(v);
	auto want = v;
	std::stable_sort(want.begin(), want.end(), cmp);
	sort_it(s, c.begin(), c.end(), n, cmp, kind);
	check_result(c.begin(), c.end(), want, "net_sort");
	if (n >= 9 && want != v)
		s.nontrivial();
	s.classify(n < 16 ? "sort <16" : n < 128 ? "sort 16-127" : n < 1000 ? "sort 128-999" : "sort 1000+");
}
template<class T, class C>
static void inplace_merge_prop(Src& s)
{
	size_t n = s.raw(12) == 0 ? s.raw(6000) : s.size(400);
	int32_t domain = s.pick<int32_t>({ 2, 8, 100, 100000 });
	auto v = gen(s, n, domain);
	Cmp cmp{ s.flip(), s.flip() ? 1 : 4 };
	unsigned kind = (unsigned)s.raw(7);
	if (s.flip()) {
		size_t mid = s.raw(3) == 0 ? (s.flip() ? std::min<size_t>(n, s.raw(4)) : n - std::min<size_t>(n, s.raw(4))) : s.raw(n + 1);
		s.note("inplace_merge n=", n, " mid ", mid, " kind ", kind, "\n");
		std::stable_sort(v.begin(), v.begin() + mid, cmp);
		std::stable_sort(v.begin() + mid, v.end(), cmp);
		C c = make_c<T, C>(v);
		auto want = v;
		std::inplace_merge(want.begin(), want.begin() + mid, want.end(), cmp);
		auto m = c.begin();
		std::advance(m, mid);
		switch (kind) {
			case 0:
				seq::inplace_merge(c.begin(), m, c.end(), cmp);
				break;
			case 1:
				seq::inplace_merge(c.begin(), m, c.end(), cmp, seq::medium_buffer);
				break;
			case 2:
				seq::inplace_merge(c.begin(), m, c.end(), cmp, seq::small_buffer);
				break;
			case 3:
				seq::inplace_merge(c.begin(), m, c.end(), cmp, seq::tiny_buffer);
				break;
			default: {
				size_t q = s.raw(3) == 0 ? 0 : s.raw(n + 2);
				std::unique_ptr<T[]> buf(new T[q]);
				seq::inplace_merge(c.begin(), m, c.end(), cmp, seq::buffer<T*>{ buf.get(), q });
			}
		}
		check_result(c.begin(), c.end(), want, "inplace_merge");
		if (mid && mid < n && want != v)
			s.nontrivial();
	}
	else if constexpr (std::is_same_v<typename std::iterator_traits<typename C::iterator>::iterator_category, std::random_access_iterator_tag>) {
		// several consecutive sorted runs, none of them empty
		std::vector<size_t> cuts{ 0 };
		size_t runs = 1 + s.raw(20);
		for (size_t i = 0; i < runs; ++i)
			cuts.push_back(s.raw(n + 1));
		cuts.push_back(n);
		std::sort(cuts.begin(), cuts.end());
		cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
		if (cuts.size() < 2)
			return;
		for (size_t i = 0; i + 1 < cuts.size(); ++i)
			std::stable_sort(v.begin() + cuts[i], v.begin() + cuts[i + 1], cmp);
		s.note("inplace_merge of ", cuts.size() - 1, " runs n=", n, " kind ", kind, "\n");
		C c = make_c<T, C>(v);
		auto want = v;
		std::stable_sort(want.begin(), want.end(), cmp);
		std::vector<typename C::iterator> its;
		for (size_t x : cuts)
			its.push_back(c.begin() + (std::ptrdiff_t)x);
		if (kind < 3)
			seq::inplace_merge(its.data(), its.size(), cmp);
		else {
			size_t q = s.raw(3) == 0 ? 0 : s.raw(n + 2);
			std::unique_ptr<T[]> buf(new T[q]);
			seq::inplace_merge(its.data(), its.size(), cmp, seq::buffer<T*>{ buf.get(), q });
		}
		check_result(c.begin(), c.end(), want, "inplace_merge of runs");
		if (cuts.size() > 3 && want != v)
			s.nontrivial();
	}
}
template<class T, class C1, class C2>
static void merge_prop(Src& s)
{
	bool lopsided = s.raw(3) == 0;
	size_t n1 = s.size(300), n2 = lopsided ? s.raw(6) : s.size(300);
	if (s.flip())
		std::swap(n1, n2);
	int32_t domain = s.pick<int32_t>({ 2, 8, 100, 100000 });
	Cmp cmp{ s.flip(), s.flip() ? 1 : 4 };
	auto a = gen(s, n1, domain), b = gen(s, n2, domain);
	for (auto& p : b)
		p.second += 1000000;
	std::stable_sort(a.begin(), a.end(), cmp);
	std::stable_sort(b.begin(), b.end(), cmp);
	std::vector<std::pair<int32_t, int32_t>> want(n1 + n2);
	std::merge(a.begin(), a.end(), b.begin(), b.end(), want.begin(), cmp);
	C1 c1 = make_c<T, C1>(a);
	C2 c2 = make_c<T, C2>(b);
	s.note("merge ", n1, " + ", n2, "\n");
	std::vector<T> out(n1 + n2);
	if (s.flip()) {
		auto e = seq::merge(std::make_move_iterator(c1.begin()), std::make_move_iterator(c1.end()), std::make_move_iterator(c2.begin()), std::make_move_iterator(c2.end()), out.begin(), cmp);
		CHECK(e == out.end(), "merge returns the end of its output");
		check_result(out.begin(), out.end(), want, "merge of moved elements");
	}
	else if constexpr (std::is_copy_constructible_v<T>) {
		if (s.flip()) {
			auto e = seq::merge(c1.begin(), c1.end(), c2.begin(), c2.end(), out.begin(), cmp);
			CHECK(e == out.end(), "merge returns the end of its output");
		}
		else {
			std::deque<T> lo(n1 + n2);
			auto e = seq::merge(c1.begin(), c1.end(), c2.begin(), c2.end(), lo.begin(), cmp);
			CHECK(e == lo.end(), "merge returns the end of its output");
			check_result(lo.begin(), lo.end(), want, "merge to a deque");
			out.assign(lo.begin(), lo.end());
		}
		check_result(out.begin(), out.end(), want, "merge");
		check_result(c1.begin(), c1.end(), a, "input of merge");
		check_result(c2.begin(), c2.end(), b, "input of merge");
	}
	if (n1 && n2 && n1 + n2 > 4)
		s.nontrivial();
}
template<class T, class C>
static void reverse_prop(Src& s)
{
	size_t n = s.size(300);
	int32_t domain = s.pick<int32_t>({ 2, 5, 50, 100000 });
	auto v = gen(s, n, domain);
	Cmp cmp{ s.flip(), s.flip() ? 1 : 4 };
	Cmp rev{ !cmp.desc, cmp.div };
	std::stable_sort(v.begin(), v.end(), rev); // non increasing, ranks increasing among equivalents
	auto want = v;
	std::stable_sort(want.begin(), want.end(), cmp);
	C c = make_c<T, C>(v);
	s.note("reverse_descending n=", n, "\n");
	seq::reverse_descending(c.begin(), c.end(), cmp);
	check_result(c.begin(), c.end(), want, "reverse_descending");
	if (n >= 3)
		s.nontrivial();
}
struct HashI
{
	int mode;
	template<class T>
	size_t operator()(const T& v) const
	{
		size_t h = (size_t)cls(v);
		return mode == 0 ? 0 : mode == 1 ? h : mode == 2 ? h & 3 : h * 0x9E3779B97F4A7C15ull;
	}
};
struct EqI
{
	template<class T>
	bool operator()(const T& a, const T& b) const
	{
		return cls(a) == cls(b);
	}
};
template<class T, class C>
static void unique_prop(Src& s)
{
	size_t n = s.size(400);
	int32_t domain = s.pick<int32_t>({ 2, 10, 100, 100000 });
	auto v = gen(s, n, domain);
	std::vector<std::pair<int32_t, int32_t>> want;
	for (auto& p : v)
		if (std::find_if(want.begin(), want.end(), [&](auto& q) { return q.first == p.first; }) == want.end())
			want.push_back(p);
	C c = make_c<T, C>(v);
	s.note("unique n=", n, "\n");
	for (auto& p : v)
		s.note(" ", p.first);
	auto e = seq::unique(c.begin(), c.end(), HashI{ (int)s.raw(4) }, EqI());
	check_result(c.begin(), e, want, "unique");
	CHECK_EQ((size_t)std::distance(e, c.end()), n - want.size(), "unique: end");
	if (n >= 3 && want.size() < n)
		s.nontrivial();
}
// plain arithmetic and string values: the default comparator and hasher
template<class T>
static void plain(Src& s)
{
	size_t n = gen_size(s);
	auto v = gen(s, n, s.pick<int32_t>({ 2, 30, 300, 100000 }));
	std::vector<T> a;
	for (auto& p : v)
		a.push_back(ty::make<T>(p.first));
	auto b = a;
	std::stable_sort(b.begin(), b.end());
	auto c = a;
	seq::net_sort(c.begin(), c.end());
	CHECK(b == c, "net_sort of plain values n=", n);
	std::list<T> l(a.begin(), a.end());
	seq::net_sort_size(l.begin(), n);
	CHECK(std::equal(b.begin(), b.end(), l.begin(), l.end()), "net_sort_size of a list n=", n);
	std::deque<T> d(a.begin(), a.end());
	seq::net_sort(d.rbegin(), d.rend(), std::less<>(), seq::small_buffer);
	CHECK(std::equal(b.begin(), b.end(), d.rbegin(), d.rend()), "net_sort of reverse iterators n=", n);
	auto raw = a;
	seq::net_sort(raw.data(), raw.data() + n, std::greater<>());
	std::stable_sort(a.begin(), a.end(), std::greater<>());
	CHECK(raw == a, "net_sort descending n=", n);
	if (n <= 400) {
		auto u = c;
		for (auto& p : v)
			(void)p;
		std::vector<T> orig, want;
		for (auto& p : v)
			orig.push_back(ty::make<T>(p.first));
		for (auto& x : orig)
			if (std::find(want.begin(), want.end(), x) == want.end())
				want.push_back(x);
		auto e = seq::unique(orig.begin(), orig.end());
		orig.erase(e, orig.end());
		CHECK(orig == want, "unique of plain values n=", n);
	}
	if (n >= 9)
		s.nontrivial();
}
template<class T>
using VT = std::vector<T>;
#if VPT_PART == 0
PROP_FN(sort_vec_item, (sort_prop<Item, std::vector<Item>>), 3000);
PROP_FN(sort_list_item, (sort_prop<Item, std::list<Item>>), 1000);
PROP_FN(im_vec_item, (inplace_merge_prop<Item, std::vector<Item>>), 2000);
PROP_FN(im_list_item, (inplace_merge_prop<Item, std::list<Item>>), 1500);
#elif VPT_PART == 1
PROP_FN(sort_vec_sitem, (sort_prop<SItem, std::vector<SItem>>), 1200);
PROP_FN(sort_list_sitem, (sort_prop<SItem, std::list<SItem>>), 700);
PROP_FN(im_vec_sitem, (inplace_merge_prop<SItem, std::vector<SItem>>), 1500);
PROP_FN(unique_sitem, (unique_prop<SItem, std::vector<SItem>>), 1500);
#elif VPT_PART == 2
PROP_FN(sort_vec_uitem, (sort_prop<UItem, std::vector<UItem>>), 2000);
PROP_FN(im_vec_uitem, (inplace_merge_prop<UItem, std::vector<UItem>>), 1500);
PROP_FN(merge_uitem, (merge_prop<UItem, std::vector<UItem>, std::list<UItem>>), 1500);
PROP_FN(unique_uitem, (unique_prop<UItem, std::list<UItem>>), 1500);
#elif VPT_PART == 3
PROP_FN(sort_tv_item, (sort_prop<Item, seq::tiered_vector<Item>>), 1000);
PROP_FN(sort_dv_bitem, (sort_prop<BItem, seq::devector<BItem>>), 1200);
PROP_FN(im_dv_bitem, (inplace_merge_prop<BItem, seq::devector<BItem>>), 1200);
#elif VPT_PART == 4
PROP_FN(sort_seq_item, (sort_prop<Item, seq::sequence<Item>>), 1200);
PROP_FN(sort_deque_item, (sort_prop<Item, std::deque<Item>>), 1200);
PROP_FN(im_deque_item, (inplace_merge_prop<Item, std::deque<Item>>), 1200);
#elif VPT_PART == 5
PROP_FN(merge_vv_item, (merge_prop<Item, std::vector<Item>, std::vector<Item>>), 2500);
PROP_FN(merge_lv_sitem, (merge_prop<SItem, std::list<SItem>, std::vector<SItem>>), 1500);
PROP_FN(merge_vv_bitem, (merge_prop<BItem, std::deque<BItem>, std::vector<BItem>>), 1500);
PROP_FN(rev_vec_item, (reverse_prop<Item, std::vector<Item>>), 2000);
PROP_FN(rev_list_sitem, (reverse_prop<SItem, std::list<SItem>>), 1500);
PROP_FN(unique_item, (unique_prop<Item, std::vector<Item>>), 2000);
#elif VPT_PART == 6
PROP_FN(plain_int, (plain<int>), 1200);
PROP_FN(plain_string, (plain<std::string>), 500);
PROP_FN(plain_tstring, (plain<seq::tstring>), 600);
#elif VPT_PART == 7
PROP_FN(plain_double, (plain<double>), 1200);
PROP_FN(plain_short, (plain<short>), 700);
PROP_FN(plain_u64, (plain<uint64_t>), 1200);
#endif

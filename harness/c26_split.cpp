// C26: split() and replace() against a direct reading of the documented rules.
#include "vpt.hpp"
#include "types.hpp"
#include <iterator>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <vector>
#include <seq/format.hpp>

using vpt::Src;
template<class C>
using Str = std::basic_string<C>;
template<class C>
using View = std::basic_string_view<C>;

template<class C>
std::string show(const Str<C>& t)
{
	std::string r = "\"";
	for (C c : t) {
		auto u = (unsigned long)(std::make_unsigned_t<C>)c;
		if (u >= 32 && u < 127)
			r += (char)u;
		else
			r += "\\x" + std::to_string(u) + ";";
	}
	return r + "\"";
}
template<class C>
std::string show(const std::vector<Str<C>>& v)
{
	std::string r;
	for (auto& t : v)
		r += "[" + show(t) + "]";
	return r;
}
template<class C>
C gen_char(Src& s, unsigned mode)
{
	switch (mode) {
		case 0: return (C)s.pick<char>({ 'a', 'b', ',' });
		case 1: return (C)s.pick<char>({ 'a', ' ', '\t', '\n', '\v', '\f', '\r', 'b' });
		case 2: return (C)(std::make_unsigned_t<C>)s.bits64();
		default: return (C)s.pick<unsigned>({ 'a', 'b', 0, 0x80, 0xff, 0x120, ' ', 0xa0 });
	}
}
template<class C>
Str<C> gen_text(Src& s, unsigned mode, size_t mx)
{
	Str<C> t;
	size_t n = s.size(mx);
	for (size_t i = 0; i < n; ++i)
		t += gen_char<C>(s, mode);
	return t;
}
// text on a block that ends with it
template<class C>
struct Exact
{
	std::unique_ptr<C[]> p;
	size_t n;
	explicit Exact(const Str<C>& t)
	  : p(new C[t.size() + 1])
	  , n(t.size())
	{
		std::copy(t.begin(), t.end(), p.get() + 1);
	}
	View<C> view() const { return View<C>(p.get() + 1, n); }
};
template<class C>
bool space(C c)
{
	return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r';
}
enum SkipKind
{
	NoSkip,
	Empty,
	White,
	Space
};
template<class C>
bool skipped(const Str<C>& t, int k)
{
	switch (k) {
		case NoSkip: return false;
		case Empty: return t.empty();
		case White: return t.find_first_not_of((C)' ') == t.npos;
		default:
			for (C c : t)
				if (!space(c))
					return false;
			return true;
	}
}
// kind: 0 string, 1 char, 2 any char, 3 not any char, 4 word
template<class C>
std::vector<Str<C>> model(const Str<C>& t, int kind, const Str<C>& m, int skip)
{
	std::vector<Str<C>> r;
	if ((kind == 0 || kind == 2) && m.empty()) {
		for (C c : t)
			r.push_back(Str<C>(1, c));
	}
	else {
		Str<C> cur;
		for (size_t i = 0; i < t.size();) {
			size_t len = 0;
			switch (kind) {
				case 0: len = t.compare(i, m.size(), m) == 0 ? m.size() : 0; break;
				case 1: len = t[i] == m[0]; break;
				case 2: len = m.find(t[i]) != m.npos; break;
				case 3: len = m.find(t[i]) == m.npos; break;
				default: len = space(t[i]); break;
			}
			if (len) {
				r.push_back(cur);
				cur.clear();
				i += len;
			}
			else
				cur += t[i++];
		}
		r.push_back(cur);
	}
	std::vector<Str<C>> k;
	for (auto& x : r)
		if (!skipped(x, skip))
			k.push_back(x);
	return k;
}
template<class C, class Range>
void compare(Src& s, const Range& r, const std::vector<Str<C>>& want, const C* begin, const C* end, const char* what)
{
	std::vector<Str<C>> got;
	size_t guard = 0;
	for (const auto& v : r) {
		CHECK(++guard < 10000, what, ": no end");
		got.push_back(Str<C>(v.data(), v.size()));
		if (begin)
			CHECK(v.data() >= begin && v.data() + v.size() <= end, what, ": not a part of the source");
	}
	if (got != want) {
		s.note("\n ", what, "\n   got: ", show(got).c_str(), "\n  want: ", show(want).c_str(), "\n");
		CHECK(false, what, ": got ", show(got), " instead of ", show(want));
	}
	// multi pass, post increment, ->
	auto it = r.begin();
	auto save = it;
	for (size_t i = 0; i < want.size(); ++i) {
		CHECK(it != r.end(), what, ": early end");
		CHECK_EQ(it->size(), want[i].size(), what, ": operator->");
		if (s.raw(4) == 0)
			save = it;
		auto old = it++;
		CHECK(Str<C>(old->data(), old->size()) == want[i], what, ": post increment");
		CHECK(!(old == it), what, ": equal iterators at different positions");
	}
	CHECK(it == r.end(), what, ": end");
	if (want.size()) {
		size_t left = (size_t)std::distance(save, r.end()), left2 = (size_t)std::distance(save, r.end());
		CHECK_EQ(left, left2, what, ": two passes");
	}
	CHECK_EQ((size_t)std::distance(r.begin(), r.end()), want.size(), what, ": distance");
}
template<class C, class Src_, class M>
void with_skip(Src& s, const Src_& src, const M& m, int skip, const std::vector<Str<C>>& want, const C* b, const C* e)
{
	switch (skip) {
		case NoSkip:
			if (s.flip())
				compare<C>(s, seq::split(src, m), want, b, e, "split");
			else
				compare<C>(s, seq::split(src, m, seq::no_skip{}), want, b, e, "split, no_skip");
			break;
		case Empty: compare<C>(s, seq::split(src, m, seq::skip_empty{}), want, b, e, "split, skip_empty"); break;
		case White: compare<C>(s, seq::split(src, m, seq::skip_whitespace{}), want, b, e, "split, skip_whitespace"); break;
		default: compare<C>(s, seq::split(src, m, seq::skip_space{}), want, b, e, "split, skip_space"); break;
	}
}
template<class C, class S>
void with_match(Src& s, const S& src, int kind, const Str<C>& m, int skip, const std::vector<Str<C>>& want, const C* b, const C* e)
{
	// the set of characters or the pattern as a view on an exact block
	Exact<C> em(m);
	switch (kind) {
		case 0:
			if (s.flip())
				with_skip<C>(s, src, seq::by_string(em.view()), skip, want, b, e);
			else
				with_skip<C>(s, src, seq::by_string(m), skip, want, b, e);
			break;
		case 1: with_skip<C>(s, src, seq::by_char(m[0]), skip, want, b, e); break;
		case 2: with_skip<C>(s, src, seq::by_any_char(em.view()), skip, want, b, e); break;
		case 3: with_skip<C>(s, src, seq::by_not_any_char(em.view()), skip, want, b, e); break;
		default: with_skip<C>(s, src, seq::by_word(), skip, want, b, e); break;
	}
}
template<class C>
void split(Src& s)
{
	unsigned mode = (unsigned)s.raw(4);
	Str<C> t = gen_text<C>(s, mode, 40);
	int kind = (int)s.raw(5), skip = (int)s.raw(4);
	Str<C> m = gen_text<C>(s, mode, kind == 0 ? 3 : 4);
	if (kind == 1 && m.empty())
		m = gen_char<C>(s, mode);
	if (kind == 0 && !t.empty() && s.flip()) {
		size_t p = s.raw(t.size());
		m = t.substr(p, s.raw(4));
	}
	if (kind != 4 && s.chance(1, 3) && !m.empty())
		// more delimiters, next to each other and at both ends
		s.times(1 + s.raw(4), [&](size_t) { t.insert(s.pick<size_t>({ 0, t.size(), s.raw(t.size() + 1) }), kind == 3 ? Str<C>(1, (C)'z') : m); });
	static const char* kn[] = { "by_string", "by_char", "by_any_char", "by_not_any_char", "by_word" };
	static const char* sn[] = { "no_skip", "skip_empty", "skip_whitespace", "skip_space" };
	s.note(show(t).c_str(), " ", kn[kind], " ", show(m).c_str(), " ", sn[skip]);
	auto want = model<C>(t, kind, m, skip);
	s.classify(kn[kind]);
	if (want.size() > 1)
		s.nontrivial();
	switch (s.raw(4)) {
		case 0: {
			Exact<C> e(t);
			with_match<C>(s, e.view(), kind, m, skip, want, e.view().data(), e.view().data() + t.size());
			break;
		}
		case 1: with_match<C>(s, t, kind, m, skip, want, t.data(), t.data() + t.size()); break;
		case 2: {
			seq::tiny_string<C> u(t.data(), t.size());
			with_match<C>(s, u, kind, m, skip, want, u.data(), u.data() + t.size());
			break;
		}
		default: {
			if (t.find((C)0) != t.npos)
				t = t.substr(0, t.find((C)0));
			want = model<C>(t, kind, m, skip);
			const C* p = t.c_str();
			with_match<C>(s, p, kind, m, skip, want, t.data(), t.data() + t.size());
			break;
		}
	}
	// splitting and joining again by the same separator gives back the text
	if (kind == 0 && !m.empty()) {
		auto r = seq::split(t, seq::by_string(m));
		Str<C> back = seq::join(m, r);
		CHECK(back == t, "join(split(t)) is not t: ", show(back));
	}
}
template<class C>
void replace(Src& s)
{
	unsigned mode = (unsigned)s.raw(4);
	Str<C> t = gen_text<C>(s, mode, 40), m, n = gen_text<C>(s, mode, 5);
	if (s.flip() && !t.empty())
		m = t.substr(s.raw(t.size()), 1 + s.raw(3));
	else
		m = gen_char<C>(s, mode) + gen_text<C>(s, mode, 3);
	s.times(s.raw(4), [&](size_t) { t.insert(s.pick<size_t>({ 0, t.size(), s.raw(t.size() + 1) }), m); });
	s.note(show(t).c_str(), " replace ", show(m).c_str(), " by ", show(n).c_str());
	Str<C> want;
	size_t found = 0;
	for (size_t i = 0; i < t.size();) {
		if (t.compare(i, m.size(), m) == 0) {
			want += n;
			i += m.size();
			++found;
		}
		else
			want += t[i++];
	}
	if (found)
		s.nontrivial();
	Exact<C> et(t), em(m), en(n);
	Str<C> got;
	switch (s.raw(3)) {
		case 0: got = seq::replace<Str<C>>(t, m, n); break;
		case 1: got = seq::replace<Str<C>>(et.view(), em.view(), en.view()); break;
		default: {
			auto r = seq::replace<seq::tiny_string<C>>(et.view(), m, n);
			got = Str<C>(r.data(), r.size());
			break;
		}
	}
	CHECK(got == want, "replace: got ", show(got), " instead of ", show(want));
}
PROP_FN(split_char, split<char>, 300000);
PROP_FN(split_wchar, split<wchar_t>, 150000);
PROP_FN(replace_char, replace<char>, 120000);
PROP_FN(replace_wchar, replace<wchar_t>, 60000);

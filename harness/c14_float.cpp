// C14: floating point <-> text.
// Parts: 0 double/char, 1 float and long double/char, 2 other character types.
#include "vpt.hpp"
#include "types.hpp"
#include <seq/charconv.hpp>
#include <cmath>
#include <cstring>
#include <cstdlib>
#include <limits>
#include <memory>
#include <string>
#include <vector>

using vpt::Src;
using u64 = unsigned long long;
using LD = long double;

template<class Char>
struct Exact
{
	std::unique_ptr<Char[]> p;
	size_t n;
	explicit Exact(size_t n)
	  : p(new Char[n ? n : 1])
	  , n(n)
	{
	}
	Char* begin() { return n ? p.get() : p.get() + 1; }
	Char* end() { return begin() + n; }
};
// relative inexactness allowed to both directions
template<class T>
constexpr LD tolerance()
{
	return std::is_same_v<T, float> ? 1e-6L : std::is_same_v<T, double> ? 4e-15L : 4e-15L;
}
static LD p10(int e) { return powl(10.L, (LD)e); }

// decimal texts of all kinds, used to make values and texts
static std::string number_text(Src& s, unsigned maxdigits, int maxexp)
{
	std::string t;
	size_t ni = s.raw(8) == 0 ? 0 : 1 + s.size(s.raw(6) == 0 ? maxdigits : 12);
	unsigned kind = (unsigned)s.raw(5);
	auto dig = [&] {
		return (char)('0' + (kind == 0 ? 9 : kind == 1 ? 0 : kind == 2 ? (s.raw(8) == 0 ? 1 : 0) : s.raw(10)));
	};
	for (size_t i = 0; i < ni; ++i)
		t += i == 0 && kind != 0 ? (char)('0' + s.raw(10)) : dig();
	if (s.raw(3) != 0) {
		t += '.';
		size_t nf = s.size(s.raw(6) == 0 ? maxdigits : 12);
		if (s.raw(5) == 0) {
			size_t z = s.size(s.raw(8) == 0 ? maxdigits : 6);
			t.append(z, '0');
		}
		for (size_t i = 0; i < nf; ++i)
			t += dig();
		if (s.raw(4) == 0)
			t += '5';
	}
	if (s.raw(2) == 0) {
		t += s.flip() ? 'e' : 'E';
		unsigned g = (unsigned)s.raw(4);
		if (g == 1)
			t += '+';
		else if (g >= 2)
			t += '-';
		int e = s.raw(3) == 0 ? (int)s.raw((u64)maxexp + 40) : (int)s.raw(40);
		if (s.raw(5) == 0)
			t += '0';
		t += std::to_string(e);
	}
	return t;
}
template<class T>
static T gen_value(Src& s)
{
	using L = std::numeric_limits<T>;
	T v;
	switch (s.raw(10)) {
		case 0: // any bits
			if constexpr (sizeof(T) == 4) {
				uint32_t b = (uint32_t)s.bits64();
				memcpy(&v, &b, 4);
			}
			else {
				u64 b = s.bits64();
				double d;
				memcpy(&d, &b, 8);
				v = (T)d;
				if constexpr (sizeof(T) > 8) {
					if (s.flip()) {
						v = (T)(LD)(s.bits64() | (1ull << 63));
						v = ldexpl(v, (int)s.raw(32760) - 16440);
					}
				}
			}
			break;
		case 1:
			v = s.pick({ L::max(), L::min(), L::denorm_min(), L::epsilon(), L::infinity(), L::quiet_NaN(), (T)0, (T)1, (T)10, std::nextafter((T)1, (T)0), std::nextafter((T)10, (T)0), (T)9.5, (T)0.5, (T)0.1, (T)0.0999999999999 });
			break;
		case 2: // integers
			v = (T)(s.bits64() >> s.raw(64));
			break;
		case 3: { // power of ten and neighbours
			int e = (int)s.raw((u64)(2 * L::max_exponent10)) - L::max_exponent10;
			v = (T)p10(s.flip() ? e : e % 20);
			int k = (int)s.raw(5) - 2;
			for (; k > 0; --k)
				v = std::nextafter(v, L::infinity());
			for (; k < 0; ++k)
				v = std::nextafter(v, (T)0);
			break;
		}
		case 4: // nines and halves
			v = (T)strtold((std::string(1 + s.raw(8), '9') + "." + std::string(s.raw(18), '9') + s.pick<const char*>({ "", "5", "4" }) + "e-" + std::to_string(s.raw(12))).c_str(), nullptr);
			break;
		default:
			v = (T)strtold(number_text(s, 25, L::max_exponent10).c_str(), nullptr);
	}
	if (s.flip())
		v = -v;
	return v;
}
static seq::chars_format gen_fmt(Src& s) { return s.pick({ seq::general, seq::fixed, seq::scientific }); }
static const char* fname(seq::chars_format f) { return f == seq::general ? "general" : f == seq::fixed ? "fixed" : "scientific"; }

template<class T, class Char>
static void write(Src& s)
{
	T v = gen_value<T>(s);
	seq::chars_format fmt = seq::general;
	int prec = 6;
	char dot = '.', exp = 'e';
	bool upper = false;
	unsigned form = (unsigned)s.raw(6);
	if (form >= 1)
		fmt = gen_fmt(s);
	if (form >= 2)
		prec = s.raw(8) == 0 ? (int)s.raw(60) : s.raw(20) == 0 ? (int)s.raw(400) : (int)s.raw(19);
	bool neg_prec = form >= 2 && s.raw(30) == 0; // a negative precision is the default one
	if (neg_prec)
		prec = 6;
	if (form >= 3) {
		dot = s.pick({ '.', ',', ';' });
		exp = s.pick({ 'e', 'E', 'p' });
		upper = s.flip();
	}
	s.note("to_chars(", (LD)v, ") ", fname(fmt), " precision ", prec, "\n");
	auto call = [&](Char* a, Char* b) {
		int p = neg_prec ? -1 : prec;
		switch (form) {
			case 0:
				return seq::to_chars(a, b, v);
			case 1:
				return seq::to_chars(a, b, v, fmt);
			case 2:
				return seq::to_chars(a, b, v, fmt, p);
			default:
				return seq::to_chars(a, b, v, fmt, p, dot, exp, upper);
		}
	};
	LD x = (LD)v;
	bool neg = std::signbit(v);
	LD ax = fabsl(x);
	// decimal exponent of the value
	int X = 0;
	bool finite = std::isfinite(v);
	if (finite && ax > 0) {
		X = (int)floorl(log10l(ax));
		if (ax >= p10(X + 1))
			++X;
		if (ax < p10(X))
			--X;
	}
	// with room enough: the largest integral part, the precision and all that surrounds
	size_t ample = (size_t)(fmt == seq::fixed && X > 0 ? X : 0) + (size_t)prec + 60;
	Exact<Char> buf(ample);
	std::fill(buf.begin(), buf.end(), (Char)'~');
	auto r = call(buf.begin(), buf.end());
	CHECK(r.ec == std::errc(), "to_chars(", x, ") fails with ", ample, " characters");
	CHECK(r.ptr > buf.begin() && r.ptr <= buf.end(), "end of to_chars(", x, ")");
	std::string t;
	for (Char* p = buf.begin(); p != r.ptr; ++p) {
		CHECK(*p > 0 && *p < 128 && *p != '~', "character ", (long)*p, " in to_chars(", x, ")");
		t += (char)*p;
	}
	std::string show = vpt::str("to_chars(", std::hexfloat, x, " = ", std::defaultfloat, x, ", ", fname(fmt), ", ", prec, ") = ", t.size() > 400 ? t.substr(0, 200) + " ... " + t.substr(t.size() - 150) : t, ":");
	s.note(t.size() > 120 ? t.substr(0, 100) + "..." : t, "\n");
	size_t i = 0;
	if (std::isnan(v)) {
		if (t[0] == '-')
			++i;
		CHECK_EQ(t.substr(i), std::string(upper ? "NAN" : "nan"), show);
		return;
	}
	CHECK_EQ(t[0] == '-', neg, show, "sign");
	if (neg)
		++i;
	if (std::isinf(v)) {
		CHECK_EQ(t.substr(i), std::string(upper ? "INF" : "inf"), show);
		return;
	}
	// the shape
	size_t a = i;
	while (i < t.size() && isdigit((unsigned char)t[i]))
		++i;
	size_t ni = i - a, nf = 0;
	CHECK(ni >= 1, show, " no integral part");
	CHECK(ni == 1 || t[a] != '0', show, " leading zero");
	std::string norm = t.substr(0, i);
	if (i < t.size() && t[i] == dot) {
		norm += '.';
		++i;
		size_t b = i;
		while (i < t.size() && isdigit((unsigned char)t[i]))
			++i;
		nf = i - b;
		norm += t.substr(b, nf);
		CHECK(nf >= 1, show, " a dot and nothing");
		CHECK(t[i - 1] != '0', show, " trailing zero");
	}
	bool hasexp = i < t.size();
	int E = 0;
	if (hasexp) {
		CHECK(t[i] == exp, show, " exponent character");
		std::string e = t.substr(i + 1);
		CHECK(e.size() >= 3 && (e[0] == '+' || e[0] == '-') && e.find_first_not_of("0123456789", 1) == std::string::npos, show, " exponent");
		CHECK(e.size() == 3 || e[1] != '0', show, " exponent digits");
		E = atoi(e.c_str());
		norm += "e" + e;
	}
	int P = prec;
	if (fmt == seq::general && P == 0)
		P = 1;
	LD unit;
	if (fmt == seq::fixed) {
		CHECK(!hasexp, show, " exponent in fixed format");
		CHECK(nf <= (size_t)P, show, " more digits than the precision");
		unit = p10(-P);
	}
	else if (fmt == seq::scientific) {
		CHECK(hasexp, show, " no exponent in scientific format");
		CHECK(nf <= (size_t)P, show, " more digits than the precision");
		CHECK(ni == 1, show, " one digit before the dot");
		CHECK(t[a] != '0' || ax == 0, show, " the first digit is 0");
		// 17 digits are computed
		unit = p10(X - std::min(P, 17));
	}
	else {
		if (hasexp) {
			CHECK(ni == 1, show, " one digit before the dot");
			CHECK(t[a] != '0' || ax == 0, show, " the first digit is 0");
		}
		// the choice of printf's %g, with the exponent before or after rounding (of a value as precise as claimed)
		bool with = false, without = false;
		for (LD f : { 1 - tolerance<double>(), (LD)1, 1 + tolerance<double>() }) {
			char tmp[600];
			snprintf(tmp, sizeof(tmp), "%.*Le", P - 1, std::min(ax * f, std::numeric_limits<LD>::max()));
			int XR = atoi(strchr(tmp, 'e') + 1);
			(P > XR && XR >= -4 ? without : with) = true;
		}
		(P > X && X >= -4 ? without : with) = true;
		if (P <= 17)
			CHECK(hasexp ? with : without, show, " choice of the format");
		size_t sig = 0;
		bool lead = true;
		for (char c : norm.substr(0, norm.find('e')))
			if (isdigit((unsigned char)c)) {
				if (c != '0')
					lead = false;
				if (!lead)
					++sig;
			}
		CHECK(hasexp || nf == 0 || (int)sig <= std::max(P, 1) || nf == (size_t)std::max(0, P - 1 - X), show, " more digits than the precision");
		CHECK(!hasexp || (int)nf <= P - 1, show, " more digits than the precision");
		unit = p10(X - std::min(P - 1, 17));
	}
	// the value
	LD o = strtold(norm.c_str(), nullptr);
	LD err = fabsl(fabsl(o) - ax);
	// the fractional part is computed with a precision of 1e-17
	LD tol = 0.5L * unit + ax * tolerance<double>() + (hasexp ? 0 : 5e-17L);
	bool top = std::isinf(o) && ax + 2 * unit >= std::numeric_limits<LD>::max(); // rounded above the maximum
	CHECK(err <= tol || top, show, " off by ", err, " (", ax != 0 ? err / ax : 0, " relative), expected at most ", tol);
	(void)E;
	// the same in a small buffer
	size_t room = s.raw(t.size() + 4);
	Exact<Char> small(room);
	auto q = call(small.begin(), small.end());
	if (q.ec == std::errc()) {
		CHECK_EQ((size_t)(q.ptr - small.begin()), t.size(), show, " in a buffer of ", room);
		for (size_t k = 0; k < t.size(); ++k)
			CHECK_EQ((long)small.begin()[k], (long)t[k], show, " in a buffer of ", room);
	}
	else {
		CHECK(q.ec == std::errc::value_too_large, show, " in a buffer of ", room);
		CHECK(q.ptr == small.end(), show, " failure must return last");
	}
	// and back
	if (P <= 17) {
		T b = 7;
		auto rr = seq::from_chars((const Char*)buf.begin(), (const Char*)r.ptr, b, seq::general, dot);
		if (exp != 'p' || !hasexp) {
			CHECK(rr.ec == std::errc() && rr.ptr == r.ptr, show, " read back stops at ", rr.ptr - buf.begin());
			if (ax >= (LD)std::numeric_limits<T>::min() && fabsl(o) <= (LD)std::numeric_limits<T>::max() * (1 - tolerance<T>()))
				CHECK(fabsl((LD)b - o) <= fabsl(o) * tolerance<T>() || fabsl(o) < (LD)std::numeric_limits<T>::min(), show, " read back as ", (LD)b);
		}
	}
	s.classify(fname(fmt));
	s.classify(vpt::str("magnitude ", ax == 0 ? "0" : X < -15 ? "<1e-15" : X < -4 ? "<1e-4" : X < 0 ? "<1" : X < 6 ? "<1e6" : X < 17 ? "<1e17" : "large").c_str());
	if (ax != 0)
		s.nontrivial();
}

template<class T, class Char>
static void read(Src& s)
{
	using UC = std::make_unsigned_t<Char>;
	using L = std::numeric_limits<T>;
	seq::chars_format fmt = gen_fmt(s);
	char dot = s.raw(4) == 0 ? ',' : '.';
	std::string t;
	std::vector<u64> tail;
	if (s.raw(8) != 0) {
		unsigned sp = s.raw(4) == 0 ? (unsigned)s.raw(4) : 0;
		for (unsigned i = 0; i < sp; ++i)
			t += s.pick({ ' ', '\t', '\n', '\v', '\f', '\r' });
		if (s.raw(3) == 0)
			t += s.pick<const char*>({ "+", "-", "-", "+-", "- " });
		switch (s.raw(8)) {
			case 0:
				t += s.pick<const char*>({ "nan", "NaN", "NAN", "inf", "INF", "Inf", "na", "in", "infinity", "n", "i", "nax", "inx", "iof", "", ".", "e", ".e1", "1.", "1.e1", "1e", "1e+", "1e-", "0e", "1.5e", "1.5ex", "1e+x", ".5", "00.5", "5..", "1.2.3", "1e5e5", "0x10" });
				break;
			default:
				t += number_text(s, s.raw(10) == 0 ? 400 : 40, L::max_exponent10 > 308 && s.flip() ? 308 : L::max_exponent10);
		}
		for (char& c : t)
			if (c == '.')
				c = dot;
		if (s.raw(3) == 0) {
			size_t n = 1 + s.size(2);
			for (size_t i = 0; i < n; ++i)
				switch (s.raw(3)) {
					case 0:
						tail.push_back((u64)(unsigned char)s.pick({ ' ', '.', ',', 'e', 'E', '+', '-', 'x', '\n', '/', ':', 'n', 'i' }));
						break;
					case 1:
						tail.push_back((u64)(UC)s.pick<int>({ 0, -1, 255, 127, 128, 256 + '0', 256 + 'e', 512 + '9' }));
						break;
					default:
						tail.push_back((u64)(UC)s.bits64());
				}
		}
	}
	else {
		size_t n = s.size(10);
		for (size_t i = 0; i < n; ++i)
			t += s.pick({ '0', '1', '9', '.', 'e', 'E', '-', '+', ' ', '5', ',', 'n', 'a', 'i', 'f' });
	}
	std::vector<u64> txt;
	for (char c : t)
		txt.push_back((u64)(unsigned char)c);
	for (u64 c : tail)
		txt.push_back(sizeof(Char) == 4 && c == 0xffffffffull ? 0xfffffffeull : c);
	Exact<Char> in(txt.size());
	for (size_t i = 0; i < txt.size(); ++i)
		in.begin()[i] = (Char)txt[i];
	std::string show;
	for (u64 c : txt)
		show += c > 32 && c < 127 ? std::string(1, (char)c) : vpt::str("\\", c);
	show = vpt::str("from_chars(", show, ", ", fname(fmt), ", dot ", dot, ")");
	s.note(show.c_str(), "\n");

	// the documented syntax, that of std::from_chars with leading spaces and +
	size_t n = txt.size(), i = 0;
	auto at = [&](size_t k) { return k < n ? txt[k] : 0; };
	auto dig = [&](size_t k) { return k < n && txt[k] >= '0' && txt[k] <= '9'; };
	while (i < n && (at(i) == ' ' || (at(i) >= 9 && at(i) <= 13)))
		++i;
	bool neg = false, ok = true;
	if (at(i) == '+' || at(i) == '-') {
		neg = at(i) == '-';
		++i;
	}
	auto word = [&](const char* w) {
		for (size_t k = 0; w[k]; ++k)
			if (i + k >= n || (at(i + k) | 32) != (u64)w[k] || at(i + k) > 127)
				return false;
		return true;
	};
	T got = 7;
	auto r = fmt == seq::general && dot == '.' && s.flip() ? seq::from_chars((const Char*)in.begin(), (const Char*)in.end(), got)
	  : dot == '.' && s.flip()				? seq::from_chars((const Char*)in.begin(), (const Char*)in.end(), got, fmt)
								: seq::from_chars((const Char*)in.begin(), (const Char*)in.end(), got, fmt, dot);
	size_t where = (size_t)(r.ptr - in.begin());
	CHECK(where <= n, show, " stops outside of its input");
	if (word("nan") || word("inf")) {
		CHECK(r.ec == std::errc(), show, " fails");
		bool full = word("infinity");
		CHECK(where == i + 3 || (full && where == i + 8), show, " stops at ", where);
		if (word("nan"))
			CHECK(std::isnan(got), show, " gives ", (LD)got);
		else
			CHECK(std::isinf(got) && std::signbit(got) == neg, show, " gives ", (LD)got);
		s.classify("nan, inf");
		return;
	}
	size_t st = i, nd = 0;
	std::string norm;
	while (dig(i)) {
		norm += (char)at(i++);
		++nd;
	}
	if (at(i) == (u64)(unsigned char)dot && i < n && (nd || dig(i + 1))) {
		norm += '.';
		++i;
		while (dig(i)) {
			norm += (char)at(i++);
			++nd;
		}
	}
	ok = nd > 0;
	bool hasexp = false;
	if (ok && fmt != seq::fixed && (at(i) == 'e' || at(i) == 'E')) {
		size_t k = i + 1;
		if (at(k) == '+' || at(k) == '-')
			++k;
		if (dig(k)) {
			norm += "e";
			++i;
			hasexp = true;
			if (!dig(i))
				norm += (char)at(i++);
			while (dig(i))
				norm += (char)at(i++);
		}
	}
	if (fmt == seq::scientific && !hasexp)
		ok = false;
	(void)st;
	if (!ok) {
		CHECK(r.ec == std::errc::invalid_argument, show, " succeeds with ", (LD)got);
		CHECK(where == 0, show, " failure must return first");
		CHECK(got == 0, show, " value of a failure");
		s.classify("no number");
		return;
	}
	CHECK(r.ec == std::errc(), show, " fails");
	CHECK_EQ(where, i, show, " stops elsewhere");
	CHECK(!std::isnan(got), show, " gives nan");
	CHECK_EQ((bool)std::signbit(got), neg, show, " sign");
	LD x = strtold(norm.c_str(), nullptr), g = fabsl((LD)got);
	const LD tol = tolerance<T>(), mx = (LD)L::max(), mn = (LD)L::min();
	if (x > mx)
		CHECK(std::isinf(got) || (!std::isinf(x) && x <= mx * (1 + tol) && g >= mx * (1 - tol)), show, " gives ", (LD)got, ", expected an infinity");
	else if (x < mn)
		CHECK(g == 0 || (g <= mn * (1 + tol) && (fabsl(g - x) <= x * tol + 8 * (LD)L::denorm_min())), show, " gives ", (LD)got, ", expected ", x, " or 0");
	else
		CHECK(fabsl(g - x) <= x * tol || (std::isinf(got) && x >= mx * (1 - tol)), show, " gives ", (LD)got, ", expected ", x, " relative error ", fabsl(g - x) / x);
	s.classify(x == 0 ? "zero" : x > mx ? "overflow" : x < mn ? "underflow" : nd > 18 ? "long" : "short");
	if (nd > 1)
		s.nontrivial();
}
#if VPT_PART == 0
PROP_FN(write_double, (write<double, char>), 250000);
PROP_FN(read_double, (read<double, char>), 500000);
#elif VPT_PART == 1
PROP_FN(write_float, (write<float, char>), 100000);
PROP_FN(read_float, (read<float, char>), 200000);
PROP_FN(write_ldouble, (write<long double, char>), 100000);
PROP_FN(read_ldouble, (read<long double, char>), 200000);
#else
PROP_FN(write_wchar, (write<double, wchar_t>), 80000);
PROP_FN(read_wchar, (read<double, wchar_t>), 150000);
PROP_FN(write_char16, (write<double, char16_t>), 60000);
PROP_FN(read_char16, (read<double, char16_t>), 100000);
#endif

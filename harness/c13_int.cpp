// C13: integer <-> text against std::to_chars and a reading of the documented syntax.
// Parts: 0 char, 1 wchar_t and char32_t, 2 char16_t and unsigned char.
#include "vpt.hpp"
#include "types.hpp"
#include <seq/charconv.hpp>
#include <charconv>
#include <limits>
#include <memory>
#include <string>
#include <vector>

using vpt::Src;
using u64 = unsigned long long;

// an array of exactly n characters, whose bounds are checked by the address sanitizer
template<class Char>
struct Exact
{
	std::unique_ptr<Char[]> p;
	size_t n;
	explicit Exact(size_t n)
	  : p(new Char[n ? n : 1])
	  , n(n)
	{
	}
	Char* begin() { return n ? p.get() : p.get() + 1; }
	Char* end() { return begin() + n; }
};

// values: limits, powers of the base and neighbours, repeated digits, any number of bits
template<class T>
static T gen_value(Src& s, unsigned base)
{
	using L = std::numeric_limits<T>;
	u64 v = 0;
	switch (s.raw(6)) {
		case 0:
			v = s.raw(300);
			break;
		case 1:
			v = (u64)L::max() - s.raw(4);
			break;
		case 2:
			v = (u64)L::min() + s.raw(4);
			break;
		case 3: {
			v = 1;
			unsigned n = (unsigned)s.raw(65);
			for (unsigned i = 0; i < n && v <= ~0ull / base; ++i)
				v *= base;
			v = v * (1 + s.raw(base - 1)) + s.raw(3) - 1;
			break;
		}
		case 4: {
			unsigned d = (unsigned)s.raw(base);
			unsigned n = (unsigned)s.raw(65);
			for (unsigned i = 0; i < n && v <= ~0ull / base - 1; ++i)
				v = v * base + d;
			break;
		}
		default:
			v = s.bits64() >> s.raw(64);
	}
	if (L::is_signed && s.flip())
		v = 0 - v;
	return (T)v;
}
static const char* base_name(unsigned b) { return b == 10 ? "base 10" : b == 16 ? "base 16" : b == 2 ? "base 2" : "other base"; }
static unsigned gen_base(Src& s)
{
	switch (s.raw(4)) {
		case 0:
			return 10;
		case 1:
			return 16;
		case 2:
			return s.pick({ 2u, 8u, 36u });
		default:
			return 2 + (unsigned)s.raw(35);
	}
}
template<class T>
static std::string digits_of(T v, unsigned base)
{
	char b[80];
	auto r = std::to_chars(b, b + 80, v, (int)base);
	return std::string(b, r.ptr);
}

template<class T, class Char>
static void write(Src& s)
{
	unsigned base = gen_base(s);
	T v = gen_value<T>(s, base);
	seq::integral_chars_format fmt;
	bool dflt = s.raw(3) == 0;
	if (!dflt) {
		fmt.integral_min_width = (unsigned char)(s.raw(3) == 0 ? s.raw(256) : s.raw(70));
		fmt.hex_prefix = s.flip();
		fmt.upper_case = s.flip();
	}
	std::string d = digits_of(v, base), want;
	if (d[0] == '-') {
		want = "-";
		d.erase(0, 1);
	}
	if (base == 16 && fmt.hex_prefix && v != 0)
		want += "0x";
	if (d.size() < fmt.integral_min_width)
		want.append(fmt.integral_min_width - d.size(), '0');
	for (char c : d)
		want += fmt.upper_case ? (char)toupper(c) : c;
	size_t room;
	switch (s.raw(4)) {
		case 0:
			room = want.size();
			break;
		case 1:
			room = want.size() + s.raw(4);
			break;
		case 2:
			room = s.raw(want.size() + 1);
			break;
		default:
			room = want.size() + s.raw(400);
	}
	s.note("to_chars(", want, ") base ", base, " width ", (int)fmt.integral_min_width, " room ", room, "\n");
	Exact<Char> buf(room);
	std::fill(buf.begin(), buf.end(), (Char)'~');
	auto r = dflt && base == 10 && s.flip() ? seq::to_chars(buf.begin(), buf.end(), v)
	  : dflt && s.flip()		       ? seq::to_chars(buf.begin(), buf.end(), v, (int)base)
					       : seq::to_chars(buf.begin(), buf.end(), v, (int)base, fmt);
	if (want.size() <= room) {
		CHECK(r.ec == std::errc(), "to_chars fails for ", want, " and ", room, " characters");
		CHECK_EQ((size_t)(r.ptr - buf.begin()), want.size(), "length of to_chars");
		for (size_t i = 0; i < want.size(); ++i)
			CHECK_EQ((long)buf.begin()[i], (long)want[i], "character ", i, " of ", want);
		for (size_t i = want.size(); i < room; ++i)
			CHECK_EQ((long)buf.begin()[i], (long)'~', "to_chars wrote after its result");
		// back
		if (s.flip()) {
			Exact<Char> in(want.size());
			std::copy(buf.begin(), buf.begin() + want.size(), in.begin());
			T b = (T)77;
			auto rr = seq::from_chars((const Char*)in.begin(), (const Char*)in.end(), b, (int)base);
			CHECK(rr.ec == std::errc(), "from_chars of ", want, " base ", base);
			CHECK(rr.ptr == in.end(), "from_chars of ", want, " base ", base, " stops at ", rr.ptr - in.begin());
			CHECK_EQ(b, v, "from_chars of ", want, " base ", base);
		}
	}
	else {
		CHECK(r.ec == std::errc::value_too_large, "to_chars succeeds for ", want, " and ", room, " characters");
		CHECK(r.ptr == buf.end(), "to_chars failure must return last");
	}
	s.classify(base_name(base));
	if (d.size() > 1 || room < want.size())
		s.nontrivial();
}

static int digit(u64 c, unsigned base)
{
	int d = c >= '0' && c <= '9' ? (int)(c - '0') : c >= 'a' && c <= 'z' ? (int)(c - 'a' + 10) : c >= 'A' && c <= 'Z' ? (int)(c - 'A' + 10) : 99;
	return d < (int)base ? d : -1;
}
template<class T, class Char>
static void read(Src& s)
{
	using UC = std::make_unsigned_t<Char>;
	unsigned base = gen_base(s);
	std::vector<u64> txt;
	auto put = [&](const std::string& t) {
		for (char c : t)
			txt.push_back((u64)(unsigned char)c);
	};
	if (s.raw(6) != 0) {
		// built from the grammar
		unsigned sp = s.raw(3) == 0 ? (unsigned)s.raw(5) : 0;
		for (unsigned i = 0; i < sp; ++i)
			put(s.pick<const char*>({ " ", "\t", "\n", "\v", "\f", "\r" }));
		if (s.raw(4) == 0)
			put(s.pick<const char*>({ "+", "-", "-", "+-", "--", "+ " }));
		if (base == 16 ? s.raw(3) == 0 : s.raw(20) == 0)
			put(s.pick<const char*>({ "0x", "0X", "0x", "1x", "00x", "x" }));
		switch (s.raw(5)) {
			case 0:
				break;
			case 1: {
				// any number of digits: overflow
				size_t n = s.size(80);
				for (size_t i = 0; i < n; ++i) {
					unsigned d = (unsigned)s.raw(base);
					txt.push_back((u64)(d < 10 ? '0' + d : (s.flip() ? 'a' : 'A') + d - 10));
				}
				break;
			}
			default: {
				if (s.raw(4) == 0)
					put(std::string(s.raw(20), '0'));
				T v = gen_value<T>(s, base);
				std::string d = digits_of(v, base);
				bool up = s.flip();
				for (char& c : d)
					c = up ? (char)toupper(c) : c;
				put(d);
			}
		}
		if (s.raw(3) == 0) {
			// what follows
			size_t n = 1 + s.size(3);
			for (size_t i = 0; i < n; ++i)
				switch (s.raw(4)) {
					case 0:
						put(s.pick<const char*>({ " ", ".", "e", "x", "g", "z", "/", ":", "@", "[", "`", "{", "-", "+", "_", "Z", "G" }));
						break;
					case 1:
						txt.push_back((u64)(UC)s.pick<int>({ 0, -1, 255, 254, 127, 128 }));
						break;
					case 2: // characters whose low bits look like digits or letters
						txt.push_back((u64)(UC)(s.raw(4) * 256 + s.pick<unsigned>({ '0', '9', 'a', 'A', 'F', 'f', ' ', 'X' }) + s.pick<unsigned>({ 0, 0x20, 0x80 })));
						break;
					default:
						txt.push_back((u64)(UC)s.bits64());
				}
		}
	}
	else {
		size_t n = s.size(8);
		for (size_t i = 0; i < n; ++i)
			txt.push_back((u64)(UC)(unsigned char)s.pick({ ' ', '0', '0', '1', '7', 'x', 'X', '-', '+', 'a', 'F', 'z', '9', '.', '\n', '/', ':' }));
	}
	// WEOF is not a character
	if (sizeof(Char) == 4)
		for (u64& c : txt)
			c = c == 0xffffffffull ? 0xfffffffeull : c;
	Exact<Char> in(txt.size());
	for (size_t i = 0; i < txt.size(); ++i)
		in.begin()[i] = (Char)txt[i];
	std::string show;
	for (u64 c : txt)
		show += c > 32 && c < 127 ? std::string(1, (char)c) : vpt::str("\\", c);
	s.note("from_chars(", show, ") base ", base, " ", std::is_signed_v<T> ? "signed" : "unsigned", " ", sizeof(T), "\n");
	// the documented reading
	size_t n = txt.size(), i = 0;
	auto at = [&](size_t k) { return k < n ? txt[k] : 0; };
	while (i < n && (at(i) == ' ' || (at(i) >= 9 && at(i) <= 13)))
		++i;
	bool ok = true, neg = false, lenient = false;
	if (i < n && at(i) == '+')
		++i;
	else if (i < n && at(i) == '-') {
		neg = true;
		ok = std::is_signed_v<T>;
		++i;
	}
	if (base == 16 && at(i) == '0' && (at(i + 1) == 'x' || at(i + 1) == 'X') && i + 1 < n) {
		if (i + 2 < n && digit(at(i + 2), 16) >= 0)
			i += 2;
		else
			lenient = true; // "0x" and no digit: 0, or no number
	}
	size_t st = i;
	unsigned __int128 v = 0;
	bool over = false;
	const unsigned __int128 lim = neg ? (unsigned __int128)0 - (unsigned __int128)(__int128)std::numeric_limits<T>::min() : (unsigned __int128)std::numeric_limits<T>::max();
	for (; i < n && digit(at(i), base) >= 0; ++i) {
		v = v * base + (unsigned)digit(at(i), base);
		if (v > lim) {
			over = true;
			v = lim;
		}
	}
	ok = ok && i > st;
	T got = (T)77;
	auto r = base == 10 && s.flip() ? seq::from_chars((const Char*)in.begin(), (const Char*)in.end(), got)
					: seq::from_chars((const Char*)in.begin(), (const Char*)in.end(), got, (int)base);
	if (lenient && r.ec != std::errc())
		ok = false;
	if (ok) {
		CHECK(r.ec == std::errc(), "from_chars of ", show, " base ", base, " fails");
		CHECK_EQ((size_t)(r.ptr - in.begin()), i, "from_chars of ", show, " base ", base, " stops elsewhere");
		if (!over) {
			T want = (T)(neg ? (unsigned __int128)0 - v : v);
			CHECK_EQ((long long)got, (long long)want, "from_chars of ", show, " base ", base);
		}
	}
	else {
		CHECK(r.ec == std::errc::invalid_argument, "from_chars of ", show, " base ", base, " succeeds with ", (long long)got);
		CHECK(r.ptr == in.begin(), "from_chars failure must return first");
		CHECK_EQ((long long)got, 0ll, "value of a failed from_chars");
	}
	s.classify(!ok ? "no number" : over ? "overflow" : i < n ? "number and more" : "number");
	if (n > 1)
		s.nontrivial();
}
template<class Char>
static void wr(Src& s)
{
	switch (s.raw(11)) {
		case 0: return write<int, Char>(s);
		case 1: return write<unsigned, Char>(s);
		case 2: return write<long, Char>(s);
		case 3: return write<unsigned long, Char>(s);
		case 4: return write<long long, Char>(s);
		case 5: return write<unsigned long long, Char>(s);
		case 6: return write<short, Char>(s);
		case 7: return write<unsigned short, Char>(s);
		case 8: return write<char, Char>(s);
		case 9: return write<signed char, Char>(s);
		default: return write<unsigned char, Char>(s);
	}
}
template<class Char>
static void rd(Src& s)
{
	switch (s.raw(11)) {
		case 0: return read<int, Char>(s);
		case 1: return read<unsigned, Char>(s);
		case 2: return read<long, Char>(s);
		case 3: return read<unsigned long, Char>(s);
		case 4: return read<long long, Char>(s);
		case 5: return read<unsigned long long, Char>(s);
		case 6: return read<short, Char>(s);
		case 7: return read<unsigned short, Char>(s);
		case 8: return read<char, Char>(s);
		case 9: return read<signed char, Char>(s);
		default: return read<unsigned char, Char>(s);
	}
}
#if VPT_PART == 0
PROP_FN(write_char, wr<char>, 400000);
PROP_FN(read_char, rd<char>, 600000);
#elif VPT_PART == 1
PROP_FN(write_wchar, wr<wchar_t>, 150000);
PROP_FN(read_wchar, rd<wchar_t>, 250000);
PROP_FN(write_char32, wr<char32_t>, 100000);
PROP_FN(read_char32, rd<char32_t>, 200000);
#else
PROP_FN(write_char16, wr<char16_t>, 150000);
PROP_FN(read_char16, rd<char16_t>, 250000);
PROP_FN(write_uchar, wr<unsigned char>, 50000);
PROP_FN(read_uchar, rd<unsigned char>, 100000);
#endif

// C16: formatting objects (fmt, join, slots, functors) against a direct rendering of their elements.
// Parts: 0 single values, 1-2 several values, 3 nested and slots, 4 join, 5 wide characters.
#include "vpt.hpp"
#include "types.hpp"
#include <charconv>
#include <deque>
#include <iterator>
#include <list>
#include <memory>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <vector>
#include <seq/format.hpp>

using vpt::Src;

// ---- custom types ---------------------------------------------------------------------------------

// streamable, and its operator<< uses the format module itself
struct Re
{
	int a = 0;
	friend std::ostream& operator<<(std::ostream& o, const Re& p) { return o << seq::fmt("R") << seq::fmt(p.a) << seq::fmt("<", p.a, ">").c(9).f('_') << seq::fmt("r"); }
	std::string model() const
	{
		std::string n = std::to_string(a), t = "<" + n + ">";
		if (t.size() < 9) {
			size_t l = (9 - t.size()) / 2;
			t = std::string(l, '_') + t + std::string(9 - t.size() - l, '_');
		}
		else
			t = t.substr((t.size() - 9) / 2, 9);
		return "R" + n + t + "r";
	}
};
// streamable the usual way
struct Pt
{
	int x = 0;
	std::string s;
	friend std::ostream& operator<<(std::ostream& o, const Pt& p) { return o << p.x << '/' << p.s; }
	std::string model() const { return std::to_string(x) + "/" + s; }
};
namespace seq {
// the example of the documentation
template<class T, bool Slot>
class ostream_format<std::pair<T, T>, Slot> : public base_ostream_format<std::pair<T, T>, ostream_format<std::pair<T, T>, Slot>>
{
	using base_type = base_ostream_format<std::pair<T, T>, ostream_format<std::pair<T, T>, Slot>>;

public:
	ostream_format()
	  : base_type()
	{
	}
	explicit ostream_format(const std::pair<T, T>& v)
	  : base_type(v)
	{
	}
	template<class String>
	size_t to_string(String& out) const
	{
		size_t prev = out.size();
		out.append("(");
		ostream_format<T>(this->value().first, this->numeric_fmt()).append(out);
		out.append(", ");
		ostream_format<T>(this->value().second, this->numeric_fmt()).append(out);
		out.append(")");
		return out.size() - prev;
	}
};
}

// ---- model ----------------------------------------------------------------------------------------

template<class C>
using Str = std::basic_string<C>;
template<class C>
Str<C> widen(const std::string& t)
{
	return Str<C>(t.begin(), t.end());
}
template<class C>
std::string narrow(const Str<C>& t)
{
	std::string r;
	for (C c : t) {
		auto u = (unsigned long)(std::make_unsigned_t<C>)c;
		if (u >= 32 && u < 127)
			r += (char)u;
		else
			r += "\\x" + std::to_string(u) + ";";
	}
	return r;
}

struct Layout
{
	int align = 0; // 1 left 2 right 3 center
	unsigned width = 0;
	char32_t fill = ' ';

	template<class C>
	Str<C> apply(const Str<C>& t, bool truncate) const
	{
		if (!align || t.size() == width)
			return t;
		if (t.size() > width) {
			if (!truncate)
				return t;
			size_t d = t.size() - width;
			return t.substr(align == 1 ? 0 : align == 2 ? d : d / 2, width);
		}
		size_t d = width - t.size(), l = align == 1 ? 0 : align == 2 ? d : d / 2;
		return Str<C>(l, (C)fill) + t + Str<C>(d - l, (C)fill);
	}
};
static unsigned gen_width(Src& s)
{
	switch (s.raw(8)) {
		case 0: return 1 + (unsigned)s.raw(3);
		case 1: return 13 + (unsigned)s.raw(6);
		case 2: return 1 + (unsigned)s.raw(100);
		case 3: return s.raw(8) == 0 ? (unsigned)(1 + s.raw(3000)) : 8;
		default: return 1 + (unsigned)s.raw(24);
	}
}
// A random layout option; o: any formatting object
template<class C, class O>
void layout_op(Src& s, O& o, Layout& m)
{
	auto fillc = [&] { return (char32_t)s.pick<unsigned>({ '*', '-', '0', 'x', ' ', 0x7e, sizeof(C) > 1 ? 0x263au : '#' }); };
	switch (s.raw(9)) {
		case 0: m.align = 1; m.width = gen_width(s); s.note(".l(", m.width, ")"); if (s.flip()) o.l((int)m.width); else o.left((int)m.width); break;
		case 1: m.align = 2; m.width = gen_width(s); s.note(".r(", m.width, ")"); if (s.flip()) o.r((int)m.width); else o.right((int)m.width); break;
		case 2: m.align = 3; m.width = gen_width(s); s.note(".c(", m.width, ")"); if (s.flip()) o.c((int)m.width); else o.center((int)m.width); break;
		case 3:
		case 4: m.fill = fillc(); s.note(".f(", (unsigned)m.fill, ")"); if (s.flip()) o.f(m.fill); else o.fill(m.fill); break;
		case 5:
			if (s.raw(3) == 0) {
				m = Layout();
				s.note(".no_align()");
				o.no_align();
			}
			break;
		case 6: {
			m.align = (int)s.raw(4);
			m.width = m.align ? gen_width(s) : 0;
			m.fill = fillc();
			s.note(".set_width_format(", m.align, ",", m.width, ",", (unsigned)m.fill, ")");
			o.set_width_format(seq::width_format((unsigned short)m.width, (char)m.align, m.fill));
			CHECK_EQ(o.width(), m.width, "width()");
			CHECK_EQ((int)o.alignment(), m.align, "alignment()");
			CHECK(o.fill_character() == m.fill, "fill_character()");
			break;
		}
		default: break;
	}
}

// ---- specifications of elements ---------------------------------------------------------------------
// A Spec holds the value and the model of one element:
//   arg()            what is given to fmt()
//   text()           the expected text
//   option(s, el)    a random option on the element el of a formatting object
//   fresh(s)         a new value, returns what is given to the call operator
//   reset(c)

template<class T>
T gen_num(Src& s)
{
	if constexpr (std::is_same_v<T, bool>)
		return s.flip();
	else if constexpr (std::is_integral_v<T>)
		return (T)s.bits64();
	else {
		T v;
		switch (s.raw(8)) {
			case 0: v = (T)s.raw(100); break;
			case 1: v = (T)(int64_t)s.bits64(); break;
			case 2: v = s.pick<T>({ 0, -(T)0., std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), (T)1e22, (T)9.9999999 }); break;
			case 3: v = (T)std::ldexp((long double)(int64_t)s.bits64(), (int)s.raw(200) - 130); break;
			default: v = (T)((long double)(int64_t)s.in<int>(-100000, 100000) / s.pick<int>({ 1, 2, 8, 10, 100, 1000, 3, 7 })); break;
		}
		return v;
	}
}
template<class T>
std::string num_note(T v)
{
	if constexpr (std::is_floating_point_v<T>) {
		char b[64];
		snprintf(b, sizeof b, "%La", (long double)v);
		return b;
	}
	else if constexpr (std::is_signed_v<T>)
		return std::to_string((long long)v);
	else
		return std::to_string((unsigned long long)v);
}

struct NumOpts
{
	int base = 10;
	bool up = false, pre = false, asch = false;
	char ff = 'g', dot = '.';
	int prec = 6;
};
template<class C, class T>
Str<C> num_text(T v, const NumOpts& o)
{
	if constexpr (std::is_integral_v<T>) {
		if (o.asch)
			return Str<C>(1, (C)v);
		char b[80];
		std::to_chars_result r{};
		bool neg = false;
		if constexpr (std::is_signed_v<T>) {
			neg = v < 0;
			r = std::to_chars(b, b + 80, (long long)v, o.base);
		}
		else
			r = std::to_chars(b, b + 80, (unsigned long long)v, o.base);
		std::string t(b, r.ptr);
		if (neg)
			t.erase(0, 1);
		if (o.up)
			for (char& c : t)
				c = (char)toupper(c);
		if (o.base == 16 && o.pre && v != 0 && !std::is_same_v<T, bool>)
			t = "0x" + t;
		return widen<C>((neg ? "-" : "") + t);
	}
	else {
		std::vector<C> b(8192);
		char f = (char)toupper(o.ff);
		bool upper = f == o.ff;
		auto r = seq::to_chars(b.data(), b.data() + b.size(), v, f == 'E' ? seq::scientific : f == 'F' ? seq::fixed : seq::general, o.prec, o.dot, upper ? 'E' : 'e', upper);
		CHECK(r.ec == std::errc(), "oracle: to_chars");
		return Str<C>(b.data(), r.ptr);
	}
}
template<class T, class O>
void num_option(Src& s, O& o, NumOpts& m)
{
	if constexpr (std::is_integral_v<T>) {
		switch (s.raw(6)) {
			case 0: m.base = 2 + (int)s.raw(35); s.note(".b(", m.base, ")"); if (s.flip()) o.b((char)m.base); else o.base((char)m.base); break;
			case 1: m.base = s.pick<int>({ 16, 8, 2, 10 }); s.note(".b(", m.base, ")"); o.base((char)m.base); break;
			case 2: m.up = true; s.note(".u()"); if (s.flip()) o.u(); else o.upper(); break;
			case 3: m.pre = true; s.note(".h()"); if (s.flip()) o.h(); else o.hex_prefix(); break;
			case 4:
				if (s.raw(4) == 0) {
					m.asch = true;
					s.note(".c()");
					if (s.flip())
						o.c();
					else
						o.as_char();
				}
				break;
			default: {
				m = NumOpts();
				seq::numeric_format nf;
				m.base = s.pick<int>({ 10, 16, 36 });
				nf.base((char)m.base);
				if ((m.up = s.flip()))
					nf.u();
				if ((m.pre = s.flip()))
					nf.h();
				s.note(".set_numeric_format(", m.base, m.up, m.pre, ")");
				o.set_numeric_format(nf);
				break;
			}
		}
	}
	else {
		switch (s.raw(6)) {
			case 0: m.ff = s.pick<char>({ 'e', 'E', 'f', 'F', 'g', 'G' }); s.note(".t(", m.ff, ")"); if (s.flip()) o.t(m.ff); else o.format(m.ff); break;
			case 1: {
				unsigned k = (unsigned)s.raw(3);
				bool up = s.flip();
				m.ff = (up ? "EFG" : "efg")[k];
				s.note(".t(", m.ff, ")");
				seq::chars_format cf = k == 0 ? seq::scientific : k == 1 ? seq::fixed : seq::general;
				if (s.flip())
					o.t(cf, up);
				else
					o.format(cf, up);
				break;
			}
			case 2:
			case 3: m.prec = (int)(s.raw(10) ? s.raw(20) : s.raw(256)); s.note(".p(", m.prec, ")"); if (s.flip()) o.p(m.prec); else o.precision(m.prec); CHECK_EQ((int)o.precision(), m.prec, "precision()"); break;
			case 4: m.dot = s.pick<char>({ ',', '.', '|' }); s.note(".d(", m.dot, ")"); if (s.flip()) o.d(m.dot); else o.dot(m.dot); break;
			default: break;
		}
	}
}

enum Kind
{
	Raw,
	Obj,
	Slot
};

// an object of ostream_format<T, K == Slot> obtained one of the possible ways
template<class T, Kind K>
auto make_num(Src& s, T v, NumOpts& m)
{
	using R = seq::ostream_format<T, K == Slot>;
	using namespace seq;
	if constexpr (std::is_same_v<T, bool>) {
		return R(v);
	}
	else if constexpr (std::is_integral_v<T>) {
#define FORM(text, obj, slot, ...)                                                                                                                                                                     \
	{                                                                                                                                                                                              \
		s.note(K == Slot ? "_" text : text);                                                                                                                                                   \
		__VA_ARGS__;                                                                                                                                                                           \
		if constexpr (K == Slot)                                                                                                                                                               \
			return R(slot);                                                                                                                                                                \
		else                                                                                                                                                                                   \
			return R(obj);                                                                                                                                                                 \
	}
		switch (s.raw(12)) {
			case 0: FORM("hex", seq::hex(v), _hex(v), m.base = 16)
			case 1: FORM("x", seq::x(v), _x(v), m.base = 16)
			case 2: FORM("X", seq::X(v), _X(v), m.base = 16, m.up = true)
			case 3: FORM("oct", seq::oct(v), _oct(v), m.base = 8)
			case 4: FORM("o", seq::o(v), _o(v), m.base = 8)
			case 5: FORM("bin", seq::bin(v), _bin(v), m.base = 2)
			case 6: FORM("dec", seq::dec(v), _dec(v))
			case 7: FORM("d", seq::d(v), _d(v))
			case 8: FORM("u", seq::u(v), _u(v))
			case 9: FORM("fmt<>", fmt<T>()(v), _fmt<T>()(v))
			case 10: FORM("ch", ch(v), _ch(v), m.asch = true)
			default: FORM("fmt", fmt(v), _fmt(v))
		}
	}
	else {
		char c = s.pick<char>({ 'e', 'E', 'f', 'F', 'g', 'G' });
		switch (s.raw(9)) {
			case 0: FORM("e", seq::e(v), _e(v), m.ff = 'e')
			case 1: FORM("E", seq::E(v), _E(v), m.ff = 'E')
			case 2: FORM("f", seq::f(v), _f(v), m.ff = 'f')
			case 3: FORM("F", seq::F(v), _F(v), m.ff = 'F')
			case 4: FORM("g", seq::g(v), _g(v), m.ff = 'g')
			case 5: FORM("G", seq::G(v), _G(v), m.ff = 'G')
			case 6: FORM("fmt<>", fmt<T>()(v), _fmt<T>()(v))
			case 7: FORM("fmt(,c)", fmt(v, c), _fmt(v, c), m.ff = c)
			default: FORM("fmt", fmt(v), _fmt(v))
		}
	}
#undef FORM
}

template<class C, class T, Kind K>
struct Num
{
	static constexpr bool is_slot = K == Slot;
	using obj_type = seq::ostream_format<T, K == Slot>;
	T v;
	NumOpts n;
	Layout l;
	obj_type o;
	void init(Src& s)
	{
		v = gen_num<T>(s);
		s.note(typeid(T).name(), " ", num_note(v).c_str(), " ");
		if (K != Raw) {
			o = make_num<T, K>(s, v, n);
			s.times(s.size(4), [&](size_t) { option(s, o); });
		}
		s.note(" ; ");
	}
	std::conditional_t<K == Raw, const T&, const obj_type&> arg() const
	{
		if constexpr (K == Raw)
			return v;
		else
			return o;
	}
	Str<C> text() const { return l.apply(num_text<C>(v, n), false); }
	template<class O>
	void option(Src& s, O& el)
	{
		if (s.flip())
			num_option<T>(s, el, n);
		else
			layout_op<C>(s, el, l);
	}
	T fresh(Src& s)
	{
		v = gen_num<T>(s);
		s.note(num_note(v).c_str(), ",");
		return v;
	}
	template<class O>
	void special(Src& s, O& el)
	{
		// other forms of the call operator
		switch (s.raw(3)) {
			case 0: {
				// an object of another type: value only
				int w = (int)s.raw(100);
				v = (T)w;
				s.note("(hex<int>(", w, "))");
				if constexpr (std::is_same_v<T, int> && K != Slot)
					el(w);
				else
					el(seq::hex(w).c(10));
				break;
			}
			case 1: {
				// the same type: everything
				obj_type f;
				Num m;
				m.v = fresh(s);
				f(m.v);
				s.note("(same type");
				s.times(2, [&](size_t) { m.option(s, f); });
				s.note(")");
				n = m.n;
				l = m.l;
				el(f);
				break;
			}
			default:
				s.note("(null)");
				el(seq::null);
				break;
		}
	}
	void adopt()
	{
		// received a default ostream_format<T, false> with the value
		if (K != Slot) {
			n = NumOpts();
			l = Layout();
		}
	}
	void reset(char32_t c)
	{
		v = T();
		if (c)
			l.fill = c;
	}
};

template<class C>
Str<C> gen_text(Src& s)
{
	size_t n;
	switch (s.raw(6)) {
		case 0: n = s.raw(3); break;
		case 1: n = 12 + s.raw(8); break;
		case 2: n = s.raw(10) ? s.raw(40) : s.raw(400); break;
		default: n = s.raw(10); break;
	}
	Str<C> t;
	bool any = s.raw(5) == 0;
	for (size_t i = 0; i < n; ++i)
		t += any ? (C)(1 + s.raw(sizeof(C) == 1 ? 255 : 3000)) : (C)('a' + (i + n) % 26);
	return t;
}

// Form: 0 std::string, 1 const C*, 2 string_view, 3 tiny_string
template<class C, int Form, Kind K>
struct Text
{
	static constexpr bool is_slot = K == Slot;
	using view = seq::basic_tstring_view<C>;
	using obj_type = seq::ostream_format<view, K == Slot>;
	Str<C>* v = nullptr;
	std::deque<Str<C>> keep; // values are held as views
	std::deque<seq::tiny_string<C>> keept;
	Layout l;
	obj_type o;
	using arg_raw = std::conditional_t<Form == 0, const Str<C>&, std::conditional_t<Form == 1, const C*, std::conditional_t<Form == 2, std::basic_string_view<C>, const seq::tiny_string<C>&>>>;

	arg_raw raw() const
	{
		if constexpr (Form == 0)
			return *v;
		else if constexpr (Form == 1)
			return v->c_str();
		else if constexpr (Form == 2)
			return *v;
		else
			return keept.back();
	}
	void gen(Src& s)
	{
		keep.push_back(gen_text<C>(s));
		v = &keep.back();
		if (Form == 3)
			keept.emplace_back(v->data(), v->size());
		s.note("\"", narrow(*v).c_str(), "\"");
	}
	void init(Src& s)
	{
		gen(s);
		if (K != Raw) {
			if constexpr (K == Slot) {
				if (s.flip())
					o = seq::_fmt(raw());
				else if constexpr (std::is_same_v<C, char>)
					o = seq::_str()(raw());
				else
					o = seq::_str<C>()(raw());
			}
			else {
				switch (s.raw(4)) {
					case 0: o = seq::fmt<view>()(raw()); break;
					case 1: o = seq::str<C>()(raw()); break;
					case 2: o = seq::fmt((const C*)v->data(), v->size()); break;
					default: o = seq::fmt(raw()); break;
				}
			}
			s.times(s.size(4), [&](size_t) { option(s, o); });
		}
		s.note(" ; ");
	}
	std::conditional_t<K == Raw, arg_raw, const obj_type&> arg() const
	{
		if constexpr (K == Raw)
			return raw();
		else
			return o;
	}
	Str<C> text() const { return l.apply(*v, true); }
	template<class O>
	void option(Src& s, O& el)
	{
		layout_op<C>(s, el, l);
	}
	arg_raw fresh(Src& s)
	{
		gen(s);
		return raw();
	}
	template<class O>
	void special(Src& s, O& el)
	{
		switch (s.raw(3)) {
			case 0: {
				l.fill = s.pick<char>({ '=', '+' });
				keep.emplace_back();
				v = &keep.back();
				s.note("(fill(", (char)l.fill, "))");
				el(seq::fill(l.fill));
				break;
			}
			case 1: {
				obj_type f;
				Layout m;
				s.note("(same type");
				layout_op<C>(s, f, m);
				s.note(")");
				f(fresh(s));
				l = m;
				el(f);
				break;
			}
			default:
				s.note("(null)");
				el(seq::null);
				break;
		}
	}
	void adopt()
	{
		if (K != Slot)
			l = Layout();
	}
	void reset(char32_t c)
	{
		keep.emplace_back();
		v = &keep.back();
		if (c)
			l.fill = c;
	}
};

// pointers
template<class P, Kind K>
struct Ptr
{
	static constexpr bool is_slot = K == Slot;
	using obj_type = seq::ostream_format<const void*, K == Slot>;
	P v = nullptr;
	Layout l;
	obj_type o;
	void init(Src& s)
	{
		v = (P)(uintptr_t)s.bits64();
		s.note("ptr ", num_note((uintptr_t)v).c_str());
		if (K != Raw) {
			if constexpr (K == Slot)
				o = seq::_fmt(v);
			else
				o = seq::fmt(v);
			s.times(s.size(4), [&](size_t) { option(s, o); });
		}
		s.note(" ; ");
	}
	std::conditional_t<K == Raw, P, const obj_type&> arg() const
	{
		if constexpr (K == Raw)
			return v;
		else
			return o;
	}
	std::string text() const { return l.apply(std::to_string((uintptr_t)v), false); }
	template<class O>
	void option(Src& s, O& el)
	{
		layout_op<char>(s, el, l);
	}
	P fresh(Src& s)
	{
		v = (P)(uintptr_t)s.bits64();
		s.note("ptr ", num_note((uintptr_t)v).c_str());
		return v;
	}
	template<class O>
	void special(Src& s, O& el)
	{
		s.note("(null)");
		el(seq::null);
	}
	void adopt()
	{
		if (K != Slot)
			l = Layout();
	}
	void reset(char32_t c)
	{
		v = nullptr;
		if (c)
			l.fill = c;
	}
};

// objects with an operator<<
template<class T, Kind K>
struct Custom
{
	static constexpr bool is_slot = K == Slot;
	using obj_type = seq::ostream_format<T, K == Slot>;
	std::deque<T> keep;
	Layout l;
	std::unique_ptr<obj_type> o;
	const T& gen(Src& s)
	{
		T t;
		if constexpr (std::is_same_v<T, Re>)
			t.a = (int)s.bits64();
		else {
			t.x = (int)s.raw(1000);
			t.s = gen_text<char>(s);
		}
		s.note(t.model().c_str());
		keep.push_back(t);
		return keep.back();
	}
	void init(Src& s)
	{
		gen(s);
		if (K != Raw) {
			if constexpr (K == Slot)
				o.reset(new obj_type(seq::_fmt(keep.back())));
			else
				o.reset(new obj_type(seq::fmt(keep.back())));
			s.times(s.size(4), [&](size_t) { option(s, *o); });
		}
		s.note(" ; ");
	}
	std::conditional_t<K == Raw, const T&, const obj_type&> arg() const
	{
		if constexpr (K == Raw)
			return keep.back();
		else
			return *o;
	}
	std::string text() const { return l.apply(keep.back().model(), true); }
	template<class O>
	void option(Src& s, O& el)
	{
		layout_op<char>(s, el, l);
	}
	const T& fresh(Src& s) { return gen(s); }
	template<class O>
	void special(Src& s, O& el)
	{
		s.note("(null)");
		el(seq::null);
	}
	void adopt()
	{
		if (K != Slot)
			l = Layout();
	}
	void reset(char32_t c)
	{
		// the value is a pointer: kept
		if (c)
			l.fill = c;
	}
};

// std::pair: the specialization above; numeric options apply to both members
template<class T, Kind K>
struct Pair
{
	static constexpr bool is_slot = K == Slot;
	using P = std::pair<T, T>;
	using obj_type = seq::ostream_format<P, K == Slot>;
	std::deque<P> keep;
	NumOpts n;
	Layout l;
	std::unique_ptr<obj_type> o;
	Pair() { n.ff = 10; } // the base class only knows the default format of arithmetic types
	const P& gen(Src& s)
	{
		keep.emplace_back(gen_num<T>(s), gen_num<T>(s));
		s.note("(", num_note(keep.back().first).c_str(), " ", num_note(keep.back().second).c_str(), ")");
		return keep.back();
	}
	void init(Src& s)
	{
		gen(s);
		if (K != Raw) {
			if constexpr (K == Slot)
				o.reset(new obj_type(seq::_fmt(keep.back())));
			else
				o.reset(new obj_type(seq::fmt(keep.back())));
			s.times(s.size(4), [&](size_t) { option(s, *o); });
		}
		s.note(" ; ");
	}
	std::conditional_t<K == Raw, const P&, const obj_type&> arg() const
	{
		if constexpr (K == Raw)
			return keep.back();
		else
			return *o;
	}
	std::string text() const
	{
		NumOpts m = n;
		if (m.ff == 10)
			m.ff = 'G'; // 10 <= 'Z'
		return l.apply("(" + num_text<char>(keep.back().first, m) + ", " + num_text<char>(keep.back().second, m) + ")", true);
	}
	template<class O>
	void option(Src& s, O& el)
	{
		if (s.flip())
			num_option<T>(s, el, n);
		else
			layout_op<char>(s, el, l);
	}
	const P& fresh(Src& s) { return gen(s); }
	template<class O>
	void special(Src& s, O& el)
	{
		s.note("(null)");
		el(seq::null);
	}
	void adopt()
	{
		if (K != Slot) {
			l = Layout();
			n = NumOpts();
			n.ff = 10;
		}
	}
	void reset(char32_t c)
	{
		if (c)
			l.fill = c;
	}
};

// fmt(fmt(x)): Inner is a Spec of kind Obj or Slot
template<class C, class Inner>
struct Twice
{
	static constexpr bool is_slot = false;
	using obj_type = seq::ostream_format<typename Inner::obj_type, false>;
	Inner in;
	Layout l;
	obj_type o;
	void init(Src& s)
	{
		s.note("fmt(");
		in.init(s);
		s.note(")");
		auto a = in.arg();
		if (s.flip())
			o = seq::fmt(a);
		else
			o = seq::fmt(std::move(a));
		s.times(s.size(3), [&](size_t) { layout_op<C>(s, o, l); });
		s.note(" ; ");
	}
	const obj_type& arg() const { return o; }
	Str<C> text() const { return l.apply(in.text(), true); }
	template<class O>
	void option(Src& s, O& el)
	{
		switch (s.raw(3)) {
			case 0: in.option(s, el.value()); break;
			default: layout_op<C>(s, el, l); break;
		}
	}
	decltype(auto) fresh(Src& s) { return in.fresh(s); }
	template<class O>
	void special(Src& s, O& el)
	{
		if (s.flip())
			in.special(s, el.value());
		else
			el(seq::null);
	}
	void adopt() {}
	void reset(char32_t c)
	{
		in.reset(0);
		if (c)
			l.fill = c;
	}
};

// a nested fmt(...), or _fmt(...) if IsSlot, of several elements
template<class C, bool IsSlot, class... Specs>
struct Nest
{
	static constexpr bool is_slot = IsSlot;
	std::tuple<Specs...> specs;
	Layout l;
	static auto build(const std::tuple<Specs...>& t)
	{
		return std::apply(
		  [](const auto&... sp) {
			  if constexpr (IsSlot)
				  return seq::_fmt(sp.arg()...);
			  else
				  return seq::fmt(sp.arg()...);
		  },
		  t);
	}
	using obj_type = decltype(build(std::declval<const std::tuple<Specs...>&>()));
	obj_type o;
	void init(Src& s)
	{
		s.note(IsSlot ? "_fmt(" : "fmt(");
		std::apply([&](auto&... sp) { (sp.init(s), ...); }, specs);
		s.note(")");
		o = build(specs);
		s.times(s.size(3), [&](size_t) { layout_op<C>(s, o, l); });
		s.note(" ; ");
	}
	const obj_type& arg() const { return o; }
	Str<C> text() const
	{
		Str<C> t;
		std::apply([&](auto&... sp) { ((t += sp.text()), ...); }, specs);
		return l.apply(t, true);
	}
	template<class O>
	void option(Src& s, O& el)
	{
		if (s.flip())
			layout_op<C>(s, el, l);
		else
			inner_option(s, el, s.raw(sizeof...(Specs)), std::index_sequence_for<Specs...>());
	}
	template<class O, size_t... I>
	void inner_option(Src& s, O& el, size_t i, std::index_sequence<I...>)
	{
		((i == I ? std::get<I>(specs).option(s, el.template get<I>()) : (void)0), ...);
	}
	template<class F>
	static auto slots_only(F& sp)
	{
		if constexpr (F::is_slot)
			return std::tuple<F*>(&sp);
		else
			return std::tuple<>();
	}
	auto replaced()
	{
		constexpr size_t nslots = (size_t(Specs::is_slot) + ... + 0);
		if constexpr (nslots != 0)
			return std::apply([](auto&... sp) { return std::tuple_cat(slots_only(sp)...); }, specs);
		else
			return std::apply([](auto&... sp) { return std::make_tuple(&sp...); }, specs);
	}
	// new values, given through a multi formatting object
	auto fresh(Src& s)
	{
		auto t = replaced();
		return std::apply(
		  [&](auto*... sp) {
			  s.note("fmt(");
			  (sp->fresh_and_adopt(s), ...);
			  s.note(")");
			  return seq::fmt(sp->last()...);
		  },
		  t);
	}
	template<class O>
	void special(Src& s, O& el)
	{
		option(s, el);
	}
	void reset(char32_t c)
	{
		std::apply([&](auto&... sp) { (sp.reset(c), ...); }, specs);
	}
};
// elements of a Nest
template<class Spec>
struct In : Spec
{
	void fresh_and_adopt(Src& s)
	{
		this->fresh(s);
		this->adopt();
	}
	decltype(auto) last() const
	{
		if constexpr (has_raw<Spec>::value)
			return Spec::raw();
		else if constexpr (has_keep<Spec>::value)
			return (Spec::keep.back());
		else
			return (Spec::v);
	}
	template<class S, class = void>
	struct has_raw : std::false_type
	{
	};
	template<class S>
	struct has_raw<S, std::void_t<decltype(std::declval<const S&>().raw())>> : std::true_type
	{
	};
	template<class S, class = void>
	struct has_keep : std::false_type
	{
	};
	template<class S>
	struct has_keep<S, std::void_t<decltype(std::declval<const S&>().keep)>> : std::true_type
	{
	};
};

// ---- all the ways to get the text ---------------------------------------------------------------------

template<class C, class F>
void routes(Src& s, const F& f, const Str<C>& want, const char* what)
{
	auto same = [&](const Str<C>& got, const char* how) {
		if (got != want) {
			s.note("\n  ", what, " by ", how, "\n   got: ", narrow(got).c_str(), "\n  want: ", narrow(want).c_str(), "\n");
			CHECK(false, what, " by ", how, ": got ", narrow(got), " instead of ", narrow(want));
		}
	};
	size_t from = s.raw(9), count = 1 + s.raw(3);
	for (size_t k = 0; k < count; ++k) {
		switch ((from + k * 4) % 9) {
			case 0: {
				if (sizeof(C) > 1 && want.find((C)-1) != want.npos)
					break; // the end of file value: not for streams
				std::basic_ostringstream<C> os;
				if (s.flip())
					os << std::hex << std::showpos << std::uppercase << std::scientific << std::left << std::boolalpha;
				if (s.flip())
					os.fill('@');
				if (s.flip())
					os.width(9);
				os << f;
				CHECK(os.good(), what, ": stream state");
				same(os.str(), "operator<<");
				break;
			}
			case 1: {
				Str<C> t = f;
				same(t, "conversion to std::basic_string");
				break;
			}
			case 2: {
				if constexpr (std::is_same_v<C, char>)
					same(f.str(), "str()");
				else
					same(f.template str<Str<C>>(), "str<>()");
				break;
			}
			case 3: {
				seq::tiny_string<C> t = f;
				same(Str<C>(t.data(), t.size()), "conversion to tiny_string");
				CHECK(t.c_str()[t.size()] == 0, "terminator");
				auto t2 = f.template str<seq::tiny_string<C, std::char_traits<C>, std::allocator<C>, 30>>();
				same(Str<C>(t2.data(), t2.size()), "str<tiny_string>()");
				break;
			}
			case 4: {
				Str<C> pre = gen_text<C>(s), t = pre;
				auto& r = f.append(t);
				CHECK(&r == &t, "append() returns its argument");
				CHECK(t.substr(0, pre.size()) == pre, what, ": append changed the string");
				same(t.substr(pre.size()), "append(std::basic_string)");
				break;
			}
			case 5: {
				Str<C> pre = gen_text<C>(s);
				seq::tiny_string<C> t(pre.data(), pre.size());
				f.append(t);
				Str<C> u(t.data(), t.size());
				CHECK(u.substr(0, pre.size()) == pre, what, ": append changed the string");
				same(u.substr(pre.size()), "append(tiny_string)");
				break;
			}
			case 6: {
				F g = f;
				std::unique_ptr<C[]> b(new C[want.size() + 1]);
				C* base = want.size() ? b.get() : b.get() + 1;
				base += want.size() ? 1 : 0; // the block ends with the text
				C* e = g.to_chars(base);
				CHECK_EQ(e - base, (ptrdiff_t)want.size(), what, " by to_chars");
				same(Str<C>(base, e), "to_chars");
				break;
			}
			case 7: {
				F g = f;
				size_t mx = s.flip() ? s.raw(want.size() + 3) : want.size();
				std::unique_ptr<C[]> b(new C[mx + 1]);
				C* base = b.get() + 1;
				auto r = g.to_chars(base, mx);
				CHECK_EQ(r.second, want.size(), what, " by to_chars(", mx, "): size");
				size_t n = mx < want.size() ? mx : want.size();
				CHECK_EQ((size_t)(r.first - base), n, what, " by to_chars(", mx, "): end");
				CHECK(Str<C>(base, n) == want.substr(0, n), what, " by to_chars(", mx, "): ", narrow(Str<C>(base, n)), " instead of ", narrow(want));
				break;
			}
			default: {
				auto g = f;
				std::list<C> l(want.size() + 1);
				auto it = g.to_iter(l.begin());
				same(Str<C>(l.begin(), it), "to_iter");
				std::vector<C> v(want.size() + 1);
				auto it2 = g.to_iter(v.begin());
				same(Str<C>(v.begin(), it2), "to_iter");
				break;
			}
		}
	}
}

// ---- properties -----------------------------------------------------------------------------------------

// one formatting object of one value
template<class C, class Spec>
void single(Src& s)
{
	Spec sp;
	sp.init(s);
	auto f = sp.arg();
	routes<C>(s, f, sp.text(), "fmt(value)");
	auto copy = *f;
	Str<C> before = sp.text();
	std::remove_const_t<decltype(copy)> g = copy;
	bool nt = false;
	s.repeat(4, 12, [&](size_t) {
		nt = true;
		s.note("\n");
		switch (s.raw(5)) {
			case 0:
			case 1: sp.option(s, g); break;
			case 2: s.note("("); { auto& r = g(sp.fresh(s)); CHECK((const void*)&r == (const void*)&g, "operator() returns *this"); } s.note(")"); break;
			case 3: sp.special(s, g); break;
			default: {
				char32_t c = s.flip() ? 0 : '%';
				s.note("reset(", (unsigned)c, ")");
				sp.reset(c);
				g.reset(c);
				break;
			}
		}
		routes<C>(s, g, sp.text(), "changed object");
	});
	routes<C>(s, copy, before, "copy of an object changed since");
	if (nt)
		s.nontrivial();
}

template<class... Specs>
struct Multi
{
	std::tuple<Specs...> specs;
	static constexpr size_t N = sizeof...(Specs);
	static constexpr size_t NSlots = (size_t(Specs::is_slot) + ... + 0);

	template<class C>
	Str<C> text(const Layout& l)
	{
		Str<C> t;
		std::apply([&](auto&... sp) { ((t += sp.text()), ...); }, specs);
		return l.apply(t, true);
	}
	template<class F, size_t... I>
	void at(F&& f, size_t i, std::index_sequence<I...>)
	{
		((i == I ? f(std::integral_constant<size_t, I>()) : (void)0), ...);
	}
	template<class F>
	void at(F&& f, size_t i)
	{
		at(f, i, std::index_sequence_for<Specs...>());
	}
	template<size_t I>
	auto& spec()
	{
		return std::get<I>(specs);
	}
	// a new value, or null, for element I
	template<size_t I, unsigned Mask>
	decltype(auto) value_or_null(Src& s)
	{
		using Sp = std::tuple_element_t<I, std::tuple<Specs...>>;
		constexpr bool nested_multi = is_nest<Sp>::value;
		if constexpr (((Mask >> I) & 1) || nested_multi)
			return spec<I>().fresh(s);
		else {
			s.note("null,");
			return (seq::null);
		}
	}
	template<class T>
	struct is_nest : std::false_type
	{
	};
	template<class C, bool S, class... A>
	struct is_nest<Nest<C, S, A...>> : std::true_type
	{
	};
	template<unsigned Mask, class F, size_t... I>
	void call_masked(Src& s, F& f, std::index_sequence<I...>)
	{
		// braces: left to right
		auto t = std::tuple<decltype(value_or_null<I, Mask>(s))...>{ value_or_null<I, Mask>(s)... };
		auto& r = f(std::get<I>(t)...);
		CHECK((const void*)&r == (const void*)&f, "operator() returns *this");
	}
	template<unsigned Mask, class F>
	void call(Src& s, F& f)
	{
		s.note("f(");
		call_masked<Mask>(s, f, std::index_sequence_for<Specs...>());
		s.note(")");
	}
	template<class F>
	static auto slot_ptr(F& sp)
	{
		if constexpr (F::is_slot)
			return std::tuple<F*>(&sp);
		else
			return std::tuple<>();
	}
	template<class F>
	void call_slots(Src& s, F& f)
	{
		s.note("f(slots ");
		std::apply([&](auto*... sp) { call_list(f, std::tuple<decltype(sp->fresh(s))...>{ sp->fresh(s)... }); }, std::apply([](auto&... sp) { return std::tuple_cat(slot_ptr(sp)...); }, specs));
		s.note(")");
	}
	template<class F, class T>
	void call_list(F& f, T&& t)
	{
		std::apply([&](auto&&... a) { f(a...); }, t);
	}

	template<class C, class F>
	void ops(Src& s, F& f, Layout& l)
	{
		F copy = *f;
		Str<C> before = text<C>(l);
		routes<C>(s, f, before, "fmt(values)");
		bool nt = false;
		s.repeat(4, 12, [&](size_t) {
			nt = true;
			s.note("\n");
			switch (s.raw(9)) {
				case 0: layout_op<C>(s, f, l); break;
				case 1:
					at(
					  [&](auto i) {
						  constexpr size_t I = decltype(i)::value;
						  s.note("get<", I, ">");
						  spec<I>().option(s, f.template get<I>());
					  },
					  s.raw(N));
					break;
				case 2:
					at(
					  [&](auto i) {
						  constexpr size_t I = decltype(i)::value;
						  s.note("set<", I, ">(");
						  decltype(auto) v = spec<I>().fresh(s);
						  f.template set<I>(v);
						  s.note(")");
					  },
					  s.raw(N));
					break;
				case 3:
					at(
					  [&](auto i) {
						  constexpr size_t I = decltype(i)::value;
						  s.note("f(pos<", I, ">");
						  decltype(auto) v = spec<I>().fresh(s);
						  f(seq::pos<I>(), v);
						  s.note(")");
					  },
					  s.raw(N));
					break;
				case 4: {
					s.note("f(pos<", N - 1, ", 0>");
					decltype(auto) v = spec<N - 1>().fresh(s);
					decltype(auto) w = spec<0>().fresh(s);
					f(seq::pos<N - 1, 0>(), v, w);
					s.note(")");
					break;
				}
				case 5:
					at(
					  [&](auto i) {
						  constexpr size_t I = decltype(i)::value;
						  s.note("get<", I, ">()");
						  spec<I>().special(s, f.template get<I>());
					  },
					  s.raw(N));
					break;
				case 6:
					if (s.raw(4) == 0) {
						char32_t c = s.flip() ? 0 : '%';
						s.note("reset(", (unsigned)c, ")");
						std::apply([&](auto&... sp) { (sp.reset(c), ...); }, specs);
						f.reset(c);
					}
					break;
				default:
					if constexpr (NSlots == 0) {
						switch (s.raw(4)) {
							case 0: call<0x55555555u>(s, f); break;
							case 1: call<0xaaaaaaaau>(s, f); break;
							default: call<0xffffffffu>(s, f); break;
						}
					}
					else
						call_slots(s, f);
					break;
			}
			routes<C>(s, f, text<C>(l), "changed object");
		});
		routes<C>(s, copy, before, "copy of an object changed since");
		if (nt)
			s.nontrivial();
	}
	template<class C>
	void run(Src& s)
	{
		std::apply([&](auto&... sp) { (sp.init(s), ...); }, specs);
		auto f = std::apply([](auto&... sp) { return seq::fmt(sp.arg()...); }, specs);
		Layout l;
		s.note("\n f = fmt(...)");
		s.times(s.size(3), [&](size_t) { layout_op<C>(s, f, l); });
		ops<C>(s, f, l);
	}
};
template<class C, class... Specs>
void multi(Src& s)
{
	Multi<Specs...> m;
	m.template run<C>(s);
}
// Positions given to fmt(): pos<Last, First>
template<class C, class... Specs>
void positional(Src& s)
{
	Multi<Specs...> m;
	std::apply([&](auto&... sp) { (sp.init(s), ...); }, m.specs);
	constexpr size_t N = sizeof...(Specs);
	auto f = std::apply([](auto&... sp) { return seq::fmt(seq::pos<N - 1, 0>(), sp.arg()...); }, m.specs);
	Layout l;
	s.note("\n f = fmt(pos<", N - 1, ",0>,...)");
	routes<C>(s, f, m.template text<C>(l), "fmt(pos, values)");
	s.repeat(4, 8, [&](size_t) {
		s.nontrivial();
		s.note("\n");
		switch (s.raw(3)) {
			case 0: layout_op<C>(s, f, l); break;
			case 1: {
				decltype(auto) v = m.template spec<1>().fresh(s);
				f(seq::pos<1>(), v);
				break;
			}
			default: {
				decltype(auto) v = m.template spec<N - 1>().fresh(s);
				decltype(auto) w = m.template spec<0>().fresh(s);
				f(v, w);
				break;
			}
		}
		routes<C>(s, f, m.template text<C>(l), "changed object");
	});
}

// ---- join ---------------------------------------------------------------------------------------------------

template<class C>
Str<C> gen_sep(Src& s)
{
	if (s.raw(8) == 0)
		return Str<C>(1, (C)',') + Str<C>(1, (C)0) + gen_text<C>(s);
	return s.raw(4) ? widen<C>(s.pick<const char*>({ ", ", ",", "", "|", " -- " })) : gen_text<C>(s);
}
template<class C, class T>
T gen_elem(Src& s)
{
	if constexpr (std::is_arithmetic_v<T>)
		return gen_num<T>(s);
	else {
		Str<C> t = gen_text<C>(s);
		return T(t.data(), t.size());
	}
}
template<class C, class T>
Str<C> elem_text(const T& v, const NumOpts& n, const Layout& l)
{
	if constexpr (std::is_arithmetic_v<T>)
		return l.apply(num_text<C>(v, n), false);
	else
		return l.apply(Str<C>(v.data(), v.size()), true);
}
template<class C, class Cont>
void join_range(Src& s)
{
	using T = typename Cont::value_type;
	Str<C> sep = gen_sep<C>(s);
	size_t n = s.size(12);
	Cont c;
	std::deque<Str<C>> keep;
	for (size_t i = 0; i < n; ++i) {
		if constexpr (std::is_same_v<T, seq::basic_tstring_view<C>>) {
			keep.push_back(gen_text<C>(s));
			c.push_back(T(keep.back().data(), keep.back().size()));
		}
		else
			c.push_back(gen_elem<C, T>(s));
	}
	s.note("sep \"", narrow(sep).c_str(), "\" ", n, " elements ");
	NumOpts no;
	Layout el, l;
	auto want = [&] {
		Str<C> t;
		bool first = true;
		for (const auto& v : c) {
			if (!first)
				t += sep;
			first = false;
			t += elem_text<C, T>(v, no, el);
		}
		return l.apply(t, true);
	};
	if (n > 1)
		s.nontrivial();
	auto run = [&](auto f) {
		routes<C>(s, f, want(), "join");
		s.repeat(2, 5, [&](size_t) {
			layout_op<C>(s, f, l);
			routes<C>(s, f, want(), "join with layout");
		});
		// within fmt
		s.note("fmt(\"[\", join, n)");
		Str<C> br = widen<C>("[");
		Str<C> w = br + want() + widen<C>(std::to_string(n));
		routes<C>(s, seq::fmt(br, f, n), w, "fmt(join)");
	};
	if (s.flip()) {
		if constexpr (std::is_arithmetic_v<T>) {
			Num<C, T, Obj> sp;
			sp.init(s);
			no = sp.n;
			el = sp.l;
			run(seq::join(sep, c, sp.o));
		}
		else if constexpr (std::is_same_v<T, seq::basic_tstring_view<C>>) {
			Text<C, 0, Obj> sp;
			sp.init(s);
			el = sp.l;
			run(seq::join(sep, c, sp.o));
		}
		else
			run(seq::join(sep, seq::iterator_range<typename Cont::const_iterator>(c.begin(), c.end())));
	}
	else if (s.flip())
		run(seq::join(sep, c));
	else
		run(seq::_join(sep, c));
}
template<class C, class... Specs>
void join_args(Src& s)
{
	Multi<Specs...> m;
	std::apply([&](auto&... sp) { (sp.init(s), ...); }, m.specs);
	Str<C> sep = gen_sep<C>(s);
	s.note("join \"", narrow(sep).c_str(), "\"");
	auto f = std::apply([&](auto&... sp) { return seq::join(sep, sp.arg()...); }, m.specs);
	Layout l;
	auto want = [&] {
		Str<C> t;
		size_t i = 0;
		std::apply([&](auto&... sp) { ((t += (i++ ? sep : Str<C>()) + sp.text()), ...); }, m.specs);
		return l.apply(t, true);
	};
	routes<C>(s, f, want(), "join(values)");
	s.repeat(3, 8, [&](size_t) {
		s.nontrivial();
		s.note("\n");
		switch (s.raw(3)) {
			case 0: layout_op<C>(s, f, l); break;
			case 1: {
				if constexpr (Multi<Specs...>::NSlots == 0)
					m.template call<0xffffffffu>(s, f);
				else
					m.call_slots(s, f);
				break;
			}
			default: {
				decltype(auto) v = m.template spec<1>().fresh(s);
				f(seq::pos<1>(), v);
				break;
			}
		}
		routes<C>(s, f, want(), "changed join");
	});
}
// initializer_list is a view of the full expression
static void join_init(Src& s)
{
	int a = (int)s.bits64(), b = (int)s.bits64(), c = (int)s.bits64();
	double x = gen_num<double>(s), y = gen_num<double>(s);
	NumOpts n;
	std::string want = std::to_string(a) + ", " + std::to_string(b) + ", " + std::to_string(c);
	std::ostringstream os;
	os << seq::join(", ", { a, b, c });
	CHECK_EQ(os.str(), want, "join(initializer_list)");
	CHECK_EQ(seq::join(", ", { a, b, c }).str(), want, "join(initializer_list).str()");
	want = "<" + num_text<char>(x, n) + "|" + num_text<char>(y, n) + ">";
	CHECK_EQ(seq::fmt("<", seq::join("|", { x, y }), ">").str(), want, "fmt(join(initializer_list))");
	Num<char, double, Obj> sp;
	sp.init(s);
	auto el = [&](double v) {
		sp.v = v;
		return sp.text();
	};
	want = el(x) + "|" + el(y);
	CHECK_EQ(seq::join("|", { x, y }, sp.o).str(), want, "join(initializer_list, format)");
	unsigned w = gen_width(s);
	char32_t fc = s.pick<char>({ '*', ' ', 'a' });
	CHECK_EQ(seq::rep(fc, (int)w).str(), std::string(w, (char)fc), "rep()");
	s.nontrivial();
}

using std::pair;
template<class T>
using RN = Num<char, T, Raw>;
template<class T>
using ON = Num<char, T, Obj>;
template<class T>
using SN = Num<char, T, Slot>;
template<int F>
using RT = Text<char, F, Raw>;
template<int F>
using OT = Text<char, F, Obj>;
template<int F>
using ST = Text<char, F, Slot>;

#define P1(name, ...) static void name(Src& s) { __VA_ARGS__(s); }

#if VPT_PART == 0
template<class... S>
void any_single(Src& s)
{
	size_t i = s.raw(sizeof...(S)), k = 0;
	((k++ == i ? single<char, S>(s) : (void)0), ...);
}
static void ints(Src& s) { any_single<ON<int>, ON<long>, ON<unsigned long long>, ON<signed char>, ON<char>, ON<unsigned char>, ON<short>, ON<unsigned short>, ON<unsigned>, ON<long long>, SN<int>, SN<size_t>, ON<bool>>(s); }
static void floats(Src& s) { any_single<ON<double>, ON<float>, ON<long double>, SN<double>>(s); }
static void texts(Src& s) { any_single<OT<0>, OT<1>, OT<2>, OT<3>, ST<0>, ST<3>, Ptr<void*, Obj>, Ptr<int*, Obj>, Ptr<const double*, Slot>>(s); }
static void customs(Src& s) { any_single<Custom<Re, Obj>, Custom<Pt, Obj>, Custom<Pt, Slot>, Pair<double, Obj>, Pair<int, Obj>, Twice<char, ON<int>>, Twice<char, OT<1>>, Twice<char, Twice<char, OT<0>>>, Twice<char, Custom<Re, Obj>>>(s); }
PROP_FN(ints, ints, 30000);
PROP_FN(floats, floats, 20000);
PROP_FN(texts, texts, 20000);
PROP_FN(customs, customs, 20000);
#endif

#if VPT_PART == 1
static void m1(Src& s) { multi<char, RT<1>, RN<int>, RT<0>>(s); }
static void m2(Src& s) { multi<char, ON<double>, RT<3>, ON<unsigned>, OT<1>, RN<double>>(s); }
static void m3(Src& s) { multi<char, RN<int>, RN<double>>(s); }
static void m4(Src& s) { multi<char, OT<0>, OT<2>, RT<1>>(s); }
PROP_FN(str_int_str, m1, 12000);
PROP_FN(five, m2, 10000);
PROP_FN(two_numbers, m3, 12000);
PROP_FN(three_texts, m4, 12000);
#endif

#if VPT_PART == 2
static void m1(Src& s) { multi<char, Custom<Re, Raw>, RT<1>, Custom<Pt, Obj>, ON<long>>(s); }
static void m2(Src& s) { multi<char, Pair<double, Raw>, Ptr<void*, Raw>, Pair<int, Obj>, Ptr<int*, Obj>>(s); }
static void m3(Src& s) { multi<char, Twice<char, ON<short>>, RT<2>, Twice<char, OT<1>>, RN<float>>(s); }
static void m4(Src& s) { multi<char, ON<bool>, ON<char>, RN<unsigned char>, ON<long double>>(s); }
static void p1(Src& s) { positional<char, RN<int>, RT<1>, ON<double>>(s); }
PROP_FN(with_customs, m1, 10000);
PROP_FN(pairs_pointers, m2, 10000);
PROP_FN(twice, m3, 10000);
PROP_FN(chars, m4, 10000);
PROP_FN(positional, p1, 10000);
#endif

#if VPT_PART == 3
using N1 = Nest<char, false, In<RT<1>>, In<RN<int>>>;
using N2 = Nest<char, false, In<OT<0>>, In<ON<double>>, In<RT<1>>>;
using N3 = Nest<char, true, RT<1>, In<ST<0>>, RT<1>, In<SN<int>>>;
static void m1(Src& s) { multi<char, RT<1>, N1, RN<int>>(s); }
static void m2(Src& s) { multi<char, N2, RT<0>, N1>(s); }
static void m3(Src& s) { multi<char, RT<1>, SN<int>, RT<1>, ST<1>, ON<double>, SN<double>>(s); }
static void m4(Src& s) { multi<char, RT<1>, N3, ON<int>, SN<long>>(s); }
PROP_FN(nested, m1, 10000);
PROP_FN(nested_options, m2, 10000);
PROP_FN(slots, m3, 12000);
PROP_FN(nested_slots, m4, 10000);
#endif

#if VPT_PART == 4
static void j1(Src& s) { join_range<char, std::vector<int>>(s); }
static void j2(Src& s) { join_range<char, std::list<double>>(s); }
static void j3(Src& s) { join_range<char, std::vector<std::string>>(s); }
static void j4(Src& s) { join_range<char, std::vector<seq::tstring>>(s); }
static void j7(Src& s) { join_range<char, std::vector<seq::tstring_view>>(s); }
PROP_FN(vector_view, j7, 10000);
// width_format::format on a part of a string
static void part_of_string(Src& s)
{
	std::string t = gen_text<char>(s);
	size_t from = s.raw(t.size() + 1), to = from + s.raw(t.size() - from + 1);
	Layout l;
	struct
	{
		seq::width_format w;
		void l(int x) { w.l((unsigned short)x); }
		void r(int x) { w.r((unsigned short)x); }
		void c(int x) { w.c((unsigned short)x); }
		void left(int x) { w.left((unsigned short)x); }
		void right(int x) { w.right((unsigned short)x); }
		void center(int x) { w.center((unsigned short)x); }
		void f(char32_t x) { w.f(x); }
		void fill(char32_t x) { w.fill(x); }
		void no_align() { w.reset(); }
		void set_width_format(seq::width_format x) { w = x; }
		unsigned short width() { return w.width; }
		char alignment() { return w.alignment; }
		char32_t fill_character() { return w.pad; }
	} o;
	s.note(narrow(t).c_str(), " [", from, ",", to, ")");
	s.times(1 + s.raw(3), [&](size_t) { layout_op<char>(s, o, l); });
	std::string want = t.substr(0, from) + l.apply(t.substr(from, to - from), true) + t.substr(to), got = t;
	seq::width_format::format(got, from, to, o.w);
	CHECK(got == want, "width_format::format: ", narrow(got), " instead of ", narrow(want));
	seq::tstring ts(t.data(), t.size());
	seq::width_format::format(ts, from, to, o.w);
	CHECK(std::string(ts.data(), ts.size()) == want, "width_format::format(tiny_string): ", narrow(std::string(ts.data(), ts.size())), " instead of ", narrow(want));
	CHECK_EQ(o.w.has_format(), l.align != 0, "has_format()");
	if (t.size() > 2 && l.align)
		s.nontrivial();
}
PROP_FN(part_of_string, part_of_string, 15000);
static void j5(Src& s) { join_args<char, RN<int>, RT<1>, ON<double>>(s); }
static void j6(Src& s) { join_args<char, SN<int>, RT<0>, ST<1>>(s); }
PROP_FN(vector_int, j1, 10000);
PROP_FN(list_double, j2, 10000);
PROP_FN(vector_string, j3, 10000);
PROP_FN(vector_tstring, j4, 10000);
PROP_FN(args, j5, 10000);
PROP_FN(args_slots, j6, 10000);
PROP_FN(initializer_list, join_init, 10000);
#endif

#if VPT_PART == 5
using W = wchar_t;
using U = char16_t;
static void m1(Src& s) { multi<W, Text<W, 1, Raw>, Num<W, int, Obj>, Text<W, 0, Obj>, Num<W, double, Obj>>(s); }
static void m2(Src& s) { multi<W, Text<W, 1, Raw>, Num<W, long, Slot>, Text<W, 3, Slot>>(s); }
static void m4(Src& s) { single<W, Text<W, 0, Obj>>(s); }
static void j1(Src& s) { join_args<W, Num<W, int, Raw>, Text<W, 1, Raw>, Num<W, double, Obj>>(s); }
static void j2(Src& s) { join_range<W, std::vector<std::wstring>>(s); }
static void n1(Src& s) { single<W, Num<W, int, Obj>>(s); }
static void n2(Src& s) { single<W, Num<W, double, Obj>>(s); }
PROP_FN(wide_int, n1, 6000);
PROP_FN(wide_double, n2, 6000);
PROP_FN(wide, m1, 10000);
PROP_FN(wchar_slots, m2, 10000);
PROP_FN(wchar_text, m4, 10000);
PROP_FN(wchar_join, j1, 10000);
PROP_FN(wchar_join_vector, j2, 10000);
#endif

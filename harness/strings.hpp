// Generators of texts, positions and lengths for the string properties (C10, C11).
#pragma once
#include "types.hpp"
#include "vpt.hpp"
#include <algorithm>
#include <deque>
#include <list>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <seq/tiny_string.hpp>

namespace st {

using vpt::Src;

template<class C>
using Str = std::basic_string<C>;

// printable form
template<class C>
std::string cvt(const std::basic_string<C>& t)
{
	std::string r = "\"";
	char b[16];
	for (C c : t) {
		auto u = (unsigned long)(typename std::make_unsigned<C>::type)c;
		if (u >= 32 && u < 127)
			r += (char)u;
		else {
			snprintf(b, sizeof b, "\\x%lx;", u);
			r += b;
		}
	}
	return r + "\"";
}

// mode 0: a, b; 1: letters; 2: any character; 3: extremes (0, signs); 4: a with rare b
template<class C>
C character(Src& s, unsigned mode)
{
	using U = typename std::make_unsigned<C>::type;
	switch (mode) {
		case 0: return (C)(U)('a' + s.raw(2));
		case 1: return (C)(U)('a' + s.raw(26));
		case 2: return (C)(U)s.bits64();
		case 3: return (C)(U)s.pick<uint64_t>({ 'a', 0, 0x7f, 0x80, 0xff, 0x100, (uint64_t)-1, 0x7fff, 0x8000, 0x7fffffff, 0x80000000u, 1, ' ' });
		default: return (C)(s.chance(1, 9) ? 'b' : 'a');
	}
}
template<class C>
Str<C> text(Src& s, unsigned mode, size_t mx)
{
	size_t n;
	switch (s.raw(4)) {
		case 0: n = s.raw(4); break;
		case 1: n = 11 + s.raw(8); break; // around the usual static sizes
		default: n = s.raw(mx + 1); break;
	}
	if (n > mx)
		n = mx;
	Str<C> r;
	r.reserve(n);
	if (n > 2 && s.chance(1, 4)) {
		// periodic
		size_t per = 1 + s.raw(n < 9 ? n : 9);
		for (size_t i = 0; i < per; ++i)
			r.push_back(character<C>(s, mode));
		while (r.size() < n)
			r.push_back(r[r.size() - per]);
		if (s.flip())
			r[s.raw(n)] = character<C>(s, mode);
	}
	else if (n > 40) {
		uint64_t z = s.raw(0);
		for (size_t i = 0; i < n; ++i) {
			uint64_t v = vpt::splitmix(z);
			using U = typename std::make_unsigned<C>::type;
			r.push_back((C)(U)(mode == 2 || mode == 3 ? v : mode == 0 ? 'a' + (v & 1) : mode == 1 ? 'a' + v % 26 : v % 9 ? 'a' : 'b'));
		}
	}
	else
		for (size_t i = 0; i < n; ++i)
			r.push_back(character<C>(s, mode));
	return r;
}
// a valid position: [0, size]
inline size_t position(Src& s, size_t size)
{
	switch (s.raw(6)) {
		case 0: return 0;
		case 1: return size;
		case 2: return size ? size - 1 : 0;
		case 3: return size ? 1 : 0;
		default: return s.raw(size + 1);
	}
}
// a length, also larger than what is left
inline size_t length(Src& s, size_t left)
{
	switch (s.raw(8)) {
		case 0: return (size_t)-1;
		case 1: return (size_t)-1 - s.raw(4);
		case 2: return left + s.raw(3);
		case 3: return 0;
		default: return s.raw(left + 1);
	}
}
// single pass iterator over a text; copies share the position
template<class C>
struct InIt
{
	using iterator_category = std::input_iterator_tag;
	using value_type = C;
	using difference_type = std::ptrdiff_t;
	using pointer = const C*;
	using reference = const C&;
	const Str<C>* t = nullptr;
	size_t* p = nullptr; // null: end
	reference operator*() const { return (*t)[*p]; }
	InIt& operator++()
	{
		++*p;
		return *this;
	}
	C operator++(int) { return (*t)[(*p)++]; }
	bool at_end() const { return !p || *p >= t->size(); }
	friend bool operator==(const InIt& a, const InIt& b) { return a.at_end() == b.at_end(); }
	friend bool operator!=(const InIt& a, const InIt& b) { return a.at_end() != b.at_end(); }
};
template<class F>
bool throws_out_of_range(F f)
{
	try {
		f();
	}
	catch (const std::out_of_range&) {
		return true;
	}
	return false;
}

} // namespace st

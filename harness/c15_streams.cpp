// C15: the same content read through memory buffers, std::istream objects and files gives the same values.
// Parts: 0 char, 1 wchar_t and char16_t.
#include "vpt.hpp"
#include <seq/charconv.hpp>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <limits>
#include <memory>
#include <sstream>
#include <string>
#include <type_traits>
#include <unistd.h>
#include <vector>

using vpt::Src;
using u64 = unsigned long long;

// A stream buffer that delivers its content by pieces of chosen lengths, and can be positioned
template<class Char>
struct Chunks : std::basic_streambuf<Char>
{
	using B = std::basic_streambuf<Char>;
	using Tr = typename B::traits_type;
	using pos_type = typename B::pos_type;
	using off_type = typename B::off_type;
	std::basic_string<Char> data, piece;
	std::vector<size_t> lens;
	size_t at = 0, turn = 0; // position of the end of the current piece
	Chunks(const std::basic_string<Char>& d, std::vector<size_t> l)
	  : data(d)
	  , lens(std::move(l))
	{
	}
	typename Tr::int_type underflow() override
	{
		if (this->gptr() < this->egptr())
			return Tr::to_int_type(*this->gptr());
		size_t n = std::min(lens[turn++ % lens.size()], data.size() - at);
		if (n == 0)
			return Tr::eof();
		// a new block for each piece, so that old characters are not read again
		piece = std::basic_string<Char>(data, at, n);
		at += n;
		this->setg(&piece[0], &piece[0], &piece[0] + n);
		return Tr::to_int_type(*this->gptr());
	}
	pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override
	{
		off_type cur = (off_type)at - (this->egptr() - this->gptr());
		off_type p = dir == std::ios_base::beg ? off : dir == std::ios_base::cur ? cur + off : (off_type)data.size() + off;
		if (p < 0 || p > (off_type)data.size())
			return pos_type(off_type(-1));
		if (p != cur || dir == std::ios_base::beg) {
			this->setg(nullptr, nullptr, nullptr);
			at = (size_t)p;
		}
		return pos_type(p);
	}
	pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};

// The same for FILE objects
struct Cookie
{
	std::string data;
	std::vector<size_t> lens;
	size_t at = 0, turn = 0;
	static ssize_t rd(void* c, char* buf, size_t n)
	{
		Cookie& k = *(Cookie*)c;
		n = std::min({ n, k.lens[k.turn++ % k.lens.size()], k.data.size() - std::min(k.at, k.data.size()) });
		if (n == 0)
			return 0;
		memcpy(buf, k.data.data() + k.at, n);
		k.at += n;
		return (ssize_t)n;
	}
	static int sk(void* c, off64_t* off, int wh)
	{
		Cookie& k = *(Cookie*)c;
		off64_t p = wh == SEEK_SET ? *off : wh == SEEK_CUR ? (off64_t)k.at + *off : (off64_t)k.data.size() + *off;
		if (p < 0) // like files, accept positions past the end
			return -1;
		k.at = (size_t)p;
		*off = p;
		return 0;
	}
	FILE* open() { return fopencookie(this, "r", cookie_io_functions_t{ rd, nullptr, sk, nullptr }); }
};

struct Num
{
	u64 bits[2] = { 0, 0 };
	bool operator==(const Num& o) const { return bits[0] == o.bits[0] && bits[1] == o.bits[1]; }
};
template<class T>
static Num num(T v)
{
	Num n;
	if (std::is_floating_point<T>::value && v != v)
		n.bits[1] = ~0ull; // all the nan are the same
	else
		memcpy(n.bits, &v, std::is_same<T, long double>::value ? 10 : sizeof(T));
	return n;
}
enum Type
{
	Int,
	Unsigned,
	Short,
	Long,
	ULong,
	Float,
	Double,
	LDouble
};
static const char* tname(Type t)
{
	static const char* n[] = { "int", "unsigned", "short", "long", "unsigned long", "float", "double", "long double" };
	return n[t];
}

template<class Char>
struct Reader
{
	std::string name;
	virtual ~Reader() {}
	virtual u64 tell() = 0;
	virtual u64 seek(u64) = 0;
	virtual void back() = 0;
	virtual Char getc() = 0;
	virtual u64 read(Char*, size_t) = 0;
	virtual seq::StreamState state() = 0;
	virtual void set_state(seq::StreamState) = 0;
	virtual void reset() = 0;
	virtual bool ok() = 0;
	virtual bool is_open() = 0;
	virtual Num number(Type t, int base, seq::chars_format fmt, char dot) = 0;
	virtual std::basic_string<Char> word(bool line, bool tiny) = 0;
	// closes the stream, checks the position of what it reads from, and opens it again
	virtual void reopen(u64 pos, bool destroy) = 0;
};
template<class Char, class Stream>
struct ReaderOf : Reader<Char>
{
	std::unique_ptr<Stream> st;
	u64 tell() override { return st->tell(); }
	u64 seek(u64 p) override { return st->seek(p); }
	void back() override { st->back(); }
	Char getc() override { return (Char)st->getc(); }
	u64 read(Char* d, size_t n) override { return st->read(d, n); }
	seq::StreamState state() override { return st->state(); }
	void set_state(seq::StreamState s) override { st->set_state(s); }
	void reset() override { st->reset(); }
	bool ok() override
	{
		CHECK_EQ((bool)*st, st->is_ok(), this->name.c_str());
		return st->is_ok();
	}
	bool is_open() override { return st->is_open(); }
	template<class T>
	Num integer(int base)
	{
		T v = (T)77;
		Stream& r = base == 10 ? seq::from_stream(*st, v) : seq::from_stream(*st, v, base);
		CHECK(&r == st.get(), "from_stream returns its argument");
		return num(v);
	}
	template<class T>
	Num real(seq::chars_format fmt, char dot)
	{
		T v = (T)77;
		Stream& r = fmt == seq::general && dot == '.' ? seq::from_stream(*st, v) : seq::from_stream(*st, v, fmt, dot);
		CHECK(&r == st.get(), "from_stream returns its argument");
		return num(v);
	}
	Num number(Type t, int base, seq::chars_format fmt, char dot) override
	{
		switch (t) {
			case Int:
				return integer<int>(base);
			case Unsigned:
				return integer<unsigned>(base);
			case Short:
				return integer<short>(base);
			case Long:
				return integer<long>(base);
			case ULong:
				return integer<unsigned long>(base);
			case Float:
				return real<float>(fmt, dot);
			case Double:
				return real<double>(fmt, dot);
			default:
				return real<long double>(fmt, dot);
		}
	}
	std::basic_string<Char> word(bool line, bool tiny) override
	{
		if (tiny) {
			seq::tiny_string<Char> v(5, (Char)'z');
			line ? seq::read_line_from_stream(*st, v) : seq::from_stream(*st, v);
			return std::basic_string<Char>(v.begin(), v.end());
		}
		std::basic_string<Char> v(5, (Char)'z');
		line ? seq::read_line_from_stream(*st, v) : seq::from_stream(*st, v);
		return v;
	}
};
template<class Char>
struct BufferReader : ReaderOf<Char, seq::buffer_input_stream<Char>>
{
	std::unique_ptr<Char[]> copy;
	size_t n;
	std::basic_string<Char> str;
	int how;
	BufferReader(const std::basic_string<Char>& data, size_t pos, int how)
	  : copy(new Char[data.size() + 1])
	  , n(data.size())
	  , str(data)
	  , how(how)
	{
		this->name = "buffer_input_stream";
		std::copy(data.begin(), data.end(), copy.get());
		if (how == 1) {
			// without room for a terminator
			copy.reset(new Char[n ? n : 1]);
			std::copy(data.begin(), data.end(), copy.get());
		}
		else
			copy[n] = 0;
		make();
		this->st->seek(pos);
	}
	void make()
	{
		using S = seq::buffer_input_stream<Char>;
		switch (how) {
			case 0:
			case 1:
				this->st.reset(new S(copy.get(), n));
				break;
			case 2:
				this->st.reset(new S(str));
				break;
			default: // null terminated
				this->st.reset(str.find((Char)0) == str.npos ? new S((const Char*)copy.get()) : new S(copy.get(), n));
		}
		CHECK_EQ(this->st->size(), n, "size of a buffer");
	}
	bool at_end() { return this->st->at_end(); }
	void reopen(u64 pos, bool destroy) override
	{
		this->st->close();
		CHECK(!this->st->is_open(), this->name.c_str(), " open after close");
		make();
		this->st->seek(pos);
	}
};
template<class Char, unsigned N>
struct StdReader : ReaderOf<Char, seq::std_input_stream<Char, N>>
{
	std::basic_string<Char> data;
	std::unique_ptr<Chunks<Char>> cb;
	std::unique_ptr<std::basic_istream<Char>> is;
	bool by_open;
	using S = seq::std_input_stream<Char, N>;
	StdReader(const std::basic_string<Char>& d, size_t pos, std::vector<size_t> lens, const char* file, bool by_open, bool eof)
	  : data(d)
	  , by_open(by_open)
	{
		if (file)
			is.reset(open_file(file, (Char*)nullptr));
		else if (lens.empty())
			is.reset(new std::basic_istringstream<Char>(d));
		else {
			cb.reset(new Chunks<Char>(d, std::move(lens)));
			is.reset(new std::basic_istream<Char>(cb.get()));
		}
		this->name = vpt::str("std_input_stream<", N, ">", file ? " on a file" : cb ? " on pieces" : " on a string");
		if (eof && pos == d.size()) {
			// the stream knows that its end was reached
			is->ignore(1000000);
		}
		else if (pos)
			is->seekg(pos);
		make();
	}
	~StdReader() { this->st.reset(); }
	template<class C>
	static std::basic_istream<C>* open_file(const char* f, C*)
	{
		return nullptr;
	}
	static std::istream* open_file(const char* f, char*) { return new std::ifstream(f, std::ios::binary); }
	void make()
	{
		if (by_open) {
			this->st.reset(new S());
			CHECK(!this->st->is_open(), this->name.c_str(), " open by default");
			CHECK(this->st->open(*is), this->name.c_str(), " open fails");
		}
		else
			this->st.reset(new S(*is));
		CHECK(this->st->is_open(), this->name.c_str(), " not open");
	}
	void reopen(u64 pos, bool destroy) override
	{
		if (destroy)
			this->st.reset();
		else {
			this->st->close();
			CHECK(!this->st->is_open(), this->name.c_str(), " open after close");
		}
		CHECK(is->good(), this->name.c_str(), " state of the istream after close");
		CHECK_EQ((u64)is->tellg(), pos, this->name.c_str(), " position of the istream after close");
		if (pos < data.size()) {
			CHECK((Char)is->get() == data[pos], this->name.c_str(), " istream after close");
			is->seekg(pos);
		}
		make();
	}
};
template<unsigned N>
struct FileReader : ReaderOf<char, seq::file_input_stream<N>>
{
	std::string data;
	std::unique_ptr<Cookie> ck;
	FILE* f = nullptr;
	std::string path;
	bool own, by_open;
	using S = seq::file_input_stream<N>;
	FileReader(const std::string& d, size_t pos, std::vector<size_t> lens, const char* file, bool by_open, bool own, bool eof)
	  : data(d)
	  , path(file ? file : "")
	  , own(own)
	  , by_open(by_open)
	{
		if (file) {
			this->name = vpt::str("file_input_stream<", N, "> on a file name");
			make();
			this->st->seek(pos);
			return;
		}
		ck.reset(new Cookie{ d, lens });
		this->name = vpt::str("file_input_stream<", N, "> on a FILE");
		open(pos);
		if (eof && pos == d.size())
			CHECK_EQ(fgetc(f), EOF);
		make();
	}
	~FileReader()
	{
		this->st.reset();
		if (f && !own)
			fclose(f);
	}
	void open(size_t pos)
	{
		ck->at = 0;
		f = ck->open();
		if (ck->lens[0] & 1)
			setvbuf(f, nullptr, _IONBF, 0);
		if (pos)
			CHECK_EQ(fseek(f, (long)pos, SEEK_SET), 0);
	}
	void make()
	{
		if (by_open) {
			this->st.reset(new S());
			CHECK(!this->st->is_open(), this->name.c_str(), " open by default");
			CHECK(ck ? this->st->open(f, own) : this->st->open(path.c_str(), "rb"), this->name.c_str(), " open fails");
		}
		else
			this->st.reset(ck ? new S(f, own) : new S(path.c_str(), "rb"));
		CHECK(this->st->is_open(), this->name.c_str(), " not open");
	}
	void reopen(u64 pos, bool destroy) override
	{
		if (destroy)
			this->st.reset();
		else {
			this->st->close();
			CHECK(!this->st->is_open(), this->name.c_str(), " open after close");
		}
		if (!ck) {
			make();
			this->st->seek(pos);
			return;
		}
		if (own)
			open(pos);
		else {
			CHECK_EQ((u64)ftell(f), pos, this->name.c_str(), " position of the FILE after close");
			if (pos < data.size()) {
				int c = fgetc(f);
				CHECK_EQ(c, (int)(unsigned char)data[pos], this->name.c_str(), " FILE after close");
				ungetc(c, f);
			}
		}
		make();
	}
};

static bool space(u64 c) { return c == ' ' || (c >= 9 && c <= 13); }

template<class Char>
static std::basic_string<Char> gen_content(Src& s)
{
	using UC = std::make_unsigned_t<Char>;
	std::basic_string<Char> d;
	auto ascii = [&](const std::string& t) {
		for (char c : t)
			d += (Char)(unsigned char)c;
	};
	s.repeat(s.raw(10) == 0 ? 400 : 20, 2000, [&](size_t) {
		switch (s.raw(9)) {
			case 0:
			case 1: // integers
				ascii(s.pick<const char*>({ "", "", "-", "+" }));
				if (s.raw(6) == 0)
					ascii(s.pick<const char*>({ "0x", "0X", "00" }));
				ascii(std::to_string(s.bits64() >> s.raw(64)));
				break;
			case 2: { // numbers
				ascii(s.pick<const char*>({ "", "", "-", "+" }));
				size_t n = s.raw(12);
				for (size_t i = 0; i < n; ++i)
					ascii(std::string(1, (char)('0' + s.raw(10))));
				if (s.flip())
					ascii(s.pick<const char*>({ ".", ".", "," }));
				n = s.raw(s.raw(4) == 0 ? 40 : 8);
				for (size_t i = 0; i < n; ++i)
					ascii(std::string(1, (char)('0' + s.raw(10))));
				if (s.raw(3) == 0)
					ascii(vpt::str(s.pick<const char*>({ "e", "E" }), s.pick<const char*>({ "", "-", "+" }), s.raw(s.raw(8) == 0 ? 6000 : 40)));
				break;
			}
			case 3: // words
			{
				size_t n = 1 + s.size(6);
				for (size_t i = 0; i < n; ++i)
					ascii(std::string(1, (char)(33 + s.raw(94))));
				break;
			}
			case 4:
				ascii(s.pick<const char*>({ "nan", "NaN", "inf", "-INF", "+inf", "infinity", "na", "in", "-", "+", ".", "e5", "-.", "1e", "1e+", "0x", "abcdef", "ABC", "zz" }));
				break;
			case 5:
				for (size_t i = 0, n = 1 + s.size(2); i < n; ++i)
					ascii(s.pick<const char*>({ "\n", "\r\n", "\n\n", "\r" }));
				break;
			case 6: // any character
				for (size_t i = 0, n = 1 + s.size(2); i < n; ++i) {
					u64 c = s.flip() ? s.bits64() : s.pick<u64>({ 0, 255, 127, 128, 256 + '0', 256 + ' ', 512 + '\n', 0x0a00 });
					Char ch = (Char)(UC)c;
					if (sizeof(Char) > 1 && ch == (Char)-1)
						ch = (Char)-2; // the end for char_traits
					d += ch;
				}
				break;
			default:
				for (size_t i = 0, n = 1 + s.size(2); i < n; ++i)
					ascii(std::string(1, s.pick({ ' ', ' ', '\t', '\n', '\v', '\f', '\r' })));
		}
	});
	return d;
}

template<class Char>
static void add_more(Src& s, std::vector<std::unique_ptr<Reader<Char>>>& r, const std::basic_string<Char>& d, size_t pos, const std::function<std::vector<size_t>()>& lens, const char* file)
{
	(void)file;
	r.emplace_back(new StdReader<Char, 1>(d, pos, lens(), nullptr, s.flip(), s.flip()));
	r.emplace_back(new StdReader<Char, 3>(d, pos, {}, nullptr, s.flip(), s.flip()));
	r.emplace_back(new StdReader<Char, 32>(d, pos, lens(), nullptr, s.flip(), s.flip()));
}
template<>
void add_more<char>(Src& s, std::vector<std::unique_ptr<Reader<char>>>& r, const std::string& d, size_t pos, const std::function<std::vector<size_t>()>& lens, const char* file)
{
	switch (s.raw(4)) {
		case 0:
			r.emplace_back(new StdReader<char, 1>(d, pos, {}, nullptr, s.flip(), s.flip()));
			r.emplace_back(new StdReader<char, 7>(d, pos, lens(), nullptr, s.flip(), s.flip()));
			r.emplace_back(new FileReader<1>(d, pos, lens(), nullptr, s.flip(), s.flip(), s.flip()));
			r.emplace_back(new FileReader<5>(d, pos, lens(), nullptr, s.flip(), s.flip(), s.flip()));
			break;
		case 1:
			r.emplace_back(new StdReader<char, 32>(d, pos, {}, nullptr, s.flip(), s.flip()));
			r.emplace_back(new StdReader<char, 3>(d, pos, lens(), nullptr, s.flip(), s.flip()));
			r.emplace_back(new FileReader<2>(d, pos, lens(), nullptr, s.flip(), s.flip(), s.flip()));
			r.emplace_back(new FileReader<32>(d, pos, lens(), nullptr, s.flip(), s.flip(), s.flip()));
			break;
		case 2:
			r.emplace_back(new StdReader<char, 2>(d, pos, {}, nullptr, s.flip(), s.flip()));
			r.emplace_back(new StdReader<char, 32>(d, pos, lens(), nullptr, s.flip(), s.flip()));
			r.emplace_back(new FileReader<300>(d, pos, lens(), nullptr, s.flip(), s.flip(), s.flip()));
			r.emplace_back(new FileReader<3>(d, pos, lens(), nullptr, s.flip(), s.flip(), s.flip()));
			break;
		default:
			r.emplace_back(new StdReader<char, 3>(d, pos, {}, file, s.flip(), s.flip()));
			r.emplace_back(new StdReader<char, 300>(d, pos, lens(), nullptr, s.flip(), s.flip()));
			r.emplace_back(new FileReader<32>(d, pos, {}, file, s.flip(), true, s.flip()));
			r.emplace_back(new FileReader<4>(d, pos, lens(), nullptr, s.flip(), s.flip(), s.flip()));
	}
}

struct TmpFile
{
	char path[64] = "/tmp/vpt_c15_XXXXXX";
	TmpFile()
	{
		int fd = mkstemp(path);
		CHECK(fd >= 0, "mkstemp");
		close(fd);
	}
	~TmpFile() { unlink(path); }
};

template<class Char>
static void streams(Src& s)
{
	using Str = std::basic_string<Char>;
	using UC = std::make_unsigned_t<Char>;
	Str d = gen_content<Char>(s);
	const u64 n = d.size();
	u64 pos = s.raw(3) == 0 ? s.raw(n + 1) : s.raw(12) == 0 ? n : 0;
	auto lens = [&]() {
		std::vector<size_t> l;
		size_t k = 1 + s.raw(4);
		for (size_t i = 0; i < k; ++i)
			l.push_back(1 + (s.flip() ? s.raw(4) : s.raw(70)));
		return l;
	};
	std::unique_ptr<TmpFile> tmp;
	if (sizeof(Char) == 1) {
		tmp.reset(new TmpFile);
		std::ofstream(tmp->path, std::ios::binary).write((const char*)d.data(), (std::streamsize)d.size());
	}
	std::vector<std::unique_ptr<Reader<Char>>> rs;
	BufferReader<Char>* buf = new BufferReader<Char>(d, pos, (int)s.raw(4));
	rs.emplace_back(buf);
	add_more<Char>(s, rs, d, pos, lens, tmp ? tmp->path : nullptr);
	if (n < 300) {
		std::string show;
		for (Char c : d)
			show += c > 32 && c < 127 ? std::string(1, (char)c) : vpt::str("\\", (u64)(UC)c, ";");
		s.note("content ", show.c_str(), "\n");
	}
	else
		s.note("content of ", n, " characters\n");
	s.note("start at ", pos, "\n");
	seq::StreamState state = seq::Ok;
	size_t ops = 0, reads = 0, moves = 0;
	auto verify = [&](const char* what) {
		for (auto& r : rs) {
			CHECK_EQ(r->tell(), pos, r->name.c_str(), " position after ", what);
			CHECK_EQ((int)r->state(), (int)state, r->name.c_str(), " state after ", what);
			CHECK_EQ(r->ok(), state == seq::Ok, r->name.c_str(), " state after ", what);
			CHECK(r->is_open(), r->name.c_str(), " closed after ", what);
		}
		CHECK_EQ(buf->at_end(), pos == n, "at_end after ", what);
	};
	verify("construction");
	s.repeat(30, 300, [&](size_t) {
		++ops;
		switch (s.weighted({ 4, 2, 2, 2, 5, 4, 8, 8, 1, 1, 1, 1 })) {
			case 0: { // character
				s.note("getc\n");
				for (auto& r : rs) {
					Char c = r->getc();
					CHECK_EQ((u64)(UC)c, pos < n ? (u64)(UC)d[pos] : (u64)(UC)(Char)EOF, r->name.c_str(), " getc");
				}
				if (pos < n)
					++pos;
				else
					state = seq::EndOfFile;
				verify("getc");
				break;
			}
			case 1: { // block
				size_t k = s.raw(4) == 0 ? (size_t)s.raw(n + 4) : s.size(12);
				s.note("read ", k, "\n");
				size_t m = (size_t)std::min<u64>(k, n - pos);
				for (auto& r : rs) {
					std::unique_ptr<Char[]> b(new Char[k ? k : 1]);
					u64 got = r->read(b.get(), k);
					CHECK_EQ(got, m, r->name.c_str(), " read of ", k);
					for (size_t i = 0; i < m; ++i)
						CHECK_EQ((u64)(UC)b[i], (u64)(UC)d[pos + i], r->name.c_str(), " read of ", k, " character ", i);
				}
				pos += m;
				if (k > m)
					state = seq::EndOfFile;
				verify("read");
				++moves;
				break;
			}
			case 2: { // one or several characters back
				size_t k = 1 + s.size(2);
				s.note("back ", k, "\n");
				for (size_t i = 0; i < k; ++i) {
					for (auto& r : rs)
						r->back();
					if (pos)
						--pos;
				}
				verify("back");
				++moves;
				break;
			}
			case 3: { // any position
				u64 p;
				switch (s.raw(4)) {
					case 0:
						p = s.raw(n + 1);
						break;
					case 1:
						p = std::min(n, pos + s.raw(12));
						break;
					case 2:
						p = pos - std::min<u64>(pos, s.raw(12));
						break;
					default:
						p = s.pick<u64>({ 0, n, pos, n ? n - 1 : 0 });
				}
				s.note("seek ", p, "\n");
				for (auto& r : rs)
					CHECK_EQ(r->seek(p), p, r->name.c_str(), " seek returns");
				pos = p;
				verify("seek");
				++moves;
				break;
			}
			case 4:
			case 5: { // words and lines
				bool line = s.raw(3) == 0, tiny = s.flip();
				s.note(line ? "line\n" : "word\n");
				u64 p = pos;
				while (p < n && space((u64)(UC)d[p]))
					++p;
				Str w;
				if (p == n)
					state = seq::EndOfFile;
				else {
					while (p < n && (line ? !(d[p] == (Char)'\n' || d[p] == (Char)'\r') : !space((u64)(UC)d[p])))
						w += d[p++];
					state = seq::Ok;
				}
				for (auto& r : rs) {
					Str g = r->word(line, tiny);
					CHECK_EQ(g.size(), w.size(), r->name.c_str(), " length of a ", line ? "line" : "word");
					CHECK(g == w, r->name.c_str(), " characters of a ", line ? "line" : "word");
				}
				pos = p;
				verify(line ? "read_line_from_stream" : "from_stream of a string");
				++reads;
				break;
			}
			case 6:
			case 7: { // numbers
				Type t = s.pick({ Int, Unsigned, Short, Long, ULong, Float, Double, LDouble, Double, Int });
				bool real = t >= Float;
				int base = real || s.raw(3) != 0 ? 10 : s.pick({ 16, 16, 2, 8, 36, 11 });
				seq::chars_format fmt = real && s.raw(4) == 0 ? s.pick({ seq::fixed, seq::scientific }) : seq::general;
				char dot = real && s.raw(8) == 0 ? ',' : '.';
				s.note(tname(t), " base ", base, " format ", fmt == seq::general ? "general" : fmt == seq::fixed ? "fixed" : "scientific", " dot ", dot, "\n");
				u64 p = pos;
				while (p < n && space((u64)(UC)d[p]))
					++p;
				// what from_chars reads
				Num ref;
				const Char* a = d.data() + pos;
				const Char* b = d.data() + n;
				seq::from_chars_result<Char> fr{ a, std::errc() };
				auto from = [&](auto v) {
					if constexpr (std::is_floating_point<decltype(v)>::value)
						fr = seq::from_chars(a, b, v, fmt, dot);
					else
						fr = seq::from_chars(a, b, v, base);
					ref = num(v);
				};
				switch (t) {
					case Int:
						from(int());
						break;
					case Unsigned:
						from(unsigned());
						break;
					case Short:
						from(short());
						break;
					case Long:
						from(long());
						break;
					case ULong:
						from(0ul);
						break;
					case Float:
						from(float());
						break;
					case Double:
						from(double());
						break;
					default:
						from((long double)0);
				}
				std::vector<Num> got;
				for (auto& r : rs)
					got.push_back(r->number(t, base, fmt, dot));
				for (size_t i = 0; i < rs.size(); ++i)
					CHECK(got[i] == ref, rs[i]->name.c_str(), " value read as ", tname(t), " at ", pos);
				if (fr.ec == std::errc()) {
					state = seq::Ok;
					pos += (u64)(fr.ptr - a);
				}
				else {
					CHECK(ref == num(0), "value of a failure");
					state = rs[0]->state();
					u64 q = rs[0]->tell();
					CHECK(state != seq::Ok, "state after a failure to read ", tname(t));
					if (p == n) {
						// nothing but spaces
						CHECK(state == seq::EndOfFile, "state at the end");
						CHECK(q == pos || q == n, "position at the end");
					}
					else {
						CHECK_EQ(q, pos, "position after a failure to read ", tname(t));
						u64 f = p;
						if (d[f] == (Char)'+' || d[f] == (Char)'-')
							++f;
						if (f < n && !(d[f] < 128 && d[f] > 0 && strchr("0123456789.,nNiIxX", (int)d[f])) && (real || base == 10))
							CHECK(state == seq::BadInputFormat, "state after a failure to read ", tname(t));
					}
					pos = q;
				}
				verify(vpt::str("from_stream of ", tname(t)).c_str());
				// a plain decimal number, read without the library
				if (fr.ec == std::errc() && (base == 10)) {
					std::string txt;
					for (u64 i = p; i < pos; ++i)
						txt += d[i] < 128 && d[i] > 0 ? (char)d[i] : '?';
					if (txt.size() <= 9 && txt.find_first_not_of("0123456789", txt[0] == '-') == txt.npos) {
						long v = atol(txt.c_str());
						Num e = t == Int ? num((int)v) : t == Unsigned ? num((unsigned)v) : t == Short ? num((short)v) : t == Long ? num(v) : t == ULong ? num((unsigned long)v) : ref;
						if (t != Short || v == (short)v)
							CHECK(e == ref, "value of ", txt.c_str());
					}
				}
				++reads;
				break;
			}
			case 8: { // the state
				state = s.pick({ seq::Ok, seq::EndOfFile, seq::BadInputFormat });
				bool rst = s.flip();
				if (rst)
					state = seq::Ok;
				s.note("state ", (int)state, "\n");
				for (auto& r : rs)
					rst ? r->reset() : r->set_state(state);
				verify("set_state");
				break;
			}
			case 9: { // close
				bool destroy = s.flip();
				s.note(destroy ? "destroy\n" : "close\n");
				for (auto& r : rs)
					r->reopen(pos, destroy);
				state = seq::Ok;
				verify("close and open");
				++moves;
				break;
			}
			case 10: { // past the end
				u64 p = n + 1 + s.raw(s.flip() ? 3 : 400);
				s.note("seek past the end ", p, "\n");
				for (auto& r : rs) {
					r->reset();
					u64 q = r->seek(p);
					CHECK_EQ(r->tell(), q, r->name.c_str(), " seek past the end returns");
					CHECK(q <= p, r->name.c_str(), " position after a seek past the end");
					r->reset();
					Char c = r->getc();
					CHECK_EQ((u64)(UC)c, q < n ? (u64)(UC)d[q] : (u64)(UC)(Char)EOF, r->name.c_str(), " getc after a seek past the end");
					CHECK_EQ(r->state() == seq::EndOfFile, q >= n, r->name.c_str(), " state after a seek past the end");
					r->reset();
				}
				u64 back = s.raw(n + 1);
				for (auto& r : rs)
					CHECK_EQ(r->seek(back), back, r->name.c_str(), " seek returns");
				pos = back;
				state = seq::Ok;
				verify("seek past the end");
				break;
			}
			default: { // everything to the end
				s.note("words to the end\n");
				for (auto& r : rs) {
					u64 p = pos;
					r->reset();
					size_t guard = 0;
					while (true) {
						Str w = r->word(false, false);
						if (!r->ok()) {
							CHECK(w.empty(), r->name.c_str(), " word at the end");
							break;
						}
						while (p < n && space((u64)(UC)d[p]))
							++p;
						for (Char c : w)
							CHECK(p < n && d[p++] == c, r->name.c_str(), " word at ", p);
						CHECK(!w.empty() && (p == n || space((u64)(UC)d[p])), r->name.c_str(), " word at ", p);
						CHECK(++guard <= n, r->name.c_str(), " does not reach the end");
					}
					while (p < n && space((u64)(UC)d[p]))
						++p;
					CHECK_EQ(p, n, r->name.c_str(), " the end is reported too early");
				}
				pos = n;
				state = seq::EndOfFile;
				verify("words to the end");
				u64 back = s.raw(n + 1);
				for (auto& r : rs)
					r->seek(back);
				pos = back;
			}
		}
	});
	s.classify(n == 0 ? "no content" : n < 32 ? "content < 32" : n < 300 ? "content < 300" : "content >= 300");
	if (ops >= 4 && reads >= 2 && moves >= 1 && n > 4)
		s.nontrivial();
}

#if VPT_PART == 0
PROP_FN(streams_char, streams<char>, 50000);
#else
PROP_FN(streams_wchar, streams<wchar_t>, 30000);
PROP_FN(streams_char16, streams<char16_t>, 30000);
#endif

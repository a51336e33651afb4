// Text streams for symbolic execution: the part of the C++ stream library the code under test uses,
// with the extraction rules of libstdc++ in the classic locale. Only used for the symbolic build; the
// native build (replay and trace validation) uses the real streams.
#pragma once
#include <bits/stdc++.h>
#include "sv.h"
namespace std
{
// files written or to be read, by name
struct sv_file { string name, text; };
inline vector<sv_file>& sv_files() { static vector<sv_file> f; return f; }
// numbers written to a stream are kept as values: \x01 and the position in this list
inline vector<double>& sv_numbers() { static vector<double> f; return f; }
// smallest precision a number was written with
inline streamsize& sv_min_precision() { static streamsize p = 1000; return p; }
class sv_stream
{
public:
	typedef char char_type;
	typedef char_traits<char> traits_type;
	typedef int int_type;
	sv_stream() : mPos(0), mEof(false), mFail(false), mFile(-1) {}
	explicit sv_stream(const string& s, ios_base::openmode = ios_base::in | ios_base::out) : mText(s), mPos(0), mEof(false), mFail(false), mFile(-1) {}
	// input
	bool good() const { return !mEof && !mFail; }
	bool eof() const { return mEof; }
	bool fail() const { return mFail; }
	bool bad() const { return false; }
	bool operator!() const { return mFail; }
	explicit operator bool() const { return !mFail; }
	void clear(ios_base::iostate s = ios_base::goodbit) { mEof = s & ios_base::eofbit; mFail = s & (ios_base::failbit | ios_base::badbit); }
	void setstate(ios_base::iostate s) { if (s & ios_base::eofbit) mEof = true; if (s & (ios_base::failbit | ios_base::badbit)) mFail = true; }
	ios_base::iostate rdstate() const { return (mEof ? ios_base::eofbit : ios_base::goodbit) | (mFail ? ios_base::failbit : ios_base::goodbit); }
	void str(const string& s) { mText = s; mPos = 0; }
	string str() const { return mText; }
	streamoff tellg() { if (!good()) mFail = true; return mFail ? streamoff(-1) : streamoff(mPos); }
	sv_stream& seekg(streamoff p) { mEof = false; if (!mFail) { if (p < 0 || (size_t)p > mText.size()) mFail = true; else mPos = (size_t)p; } return *this; }
	int peek() { if (!good()) { mFail = true; return -1; } if (mPos >= mText.size()) { mEof = true; return -1; } return (unsigned char)mText[mPos]; }
	int get() { if (!good()) { mFail = true; return -1; } if (mPos >= mText.size()) { mEof = mFail = true; return -1; } return (unsigned char)mText[mPos++]; }
	sv_stream& get(char& c) { int r = get(); if (r >= 0) c = (char)r; return *this; }
	sv_stream& unget() { mEof = false; if (!mFail && mPos > 0) --mPos; else mFail = true; return *this; }
	sv_stream& ignore(streamsize n = 1, int d = -1)
	{
		if (!good()) { mFail = true; return *this; }
		for (; n > 0; --n)
		{
			if (mPos >= mText.size()) { mEof = true; break; }
			if ((unsigned char)mText[mPos++] == d) break;
		}
		return *this;
	}
	static bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
	void skip() { while (mPos < mText.size() && space(mText[mPos])) ++mPos; if (mPos >= mText.size()) mEof = true; }
	bool enter() { if (good()) { skip(); if (mEof) mFail = true; } else mFail = true; return !mFail; }
	bool at(size_t i) const { return i < mText.size(); }
	template<class U> static U convert(U v, bool neg) { return neg ? U(0) - v : v; }
	// integers: magnitude, sign and overflow
	bool integer(unsigned long& v, bool& neg, bool& over)
	{
		v = 0; neg = over = false;
		bool any = false;
		if (at(mPos) && (mText[mPos] == '-' || mText[mPos] == '+')) neg = mText[mPos++] == '-';
		while (at(mPos) && mText[mPos] >= '0' && mText[mPos] <= '9')
		{
			unsigned long d = (unsigned long)(mText[mPos++] - '0');
			any = true;
			if (v > ~0ul / 10) over = true;
			else { v *= 10; if (v > ~0ul - d) over = true; else v += d; }
		}
		if (!at(mPos)) mEof = true;
		return any;
	}
	template<class T> sv_stream& extractU(T& r)
	{
		if (!enter()) return *this;
		unsigned long v; bool neg, over;
		if (!integer(v, neg, over)) { r = 0; mFail = true; }
		else if (over || v > (unsigned long)numeric_limits<T>::max()) { r = numeric_limits<T>::max(); mFail = true; }
		else r = neg ? (T)(0 - v) : (T)v;
		return *this;
	}
	template<class T> sv_stream& extractS(T& r)
	{
		if (!enter()) return *this;
		unsigned long v, m = (unsigned long)numeric_limits<T>::max(); bool neg, over;
		if (!integer(v, neg, over)) { r = 0; mFail = true; }
		else if (over || v > m + (neg ? 1 : 0)) { r = neg ? numeric_limits<T>::min() : numeric_limits<T>::max(); mFail = true; }
		else r = neg ? (T)(0 - v) : (T)v;
		return *this;
	}
	template<class T> sv_stream& extractF(T& r)
	{
		if (!enter()) return *this;
		size_t b = mPos;
		bool mant = false, dec = false, sci = false, expo = false;
		if (at(mPos) && (mText[mPos] == '-' || mText[mPos] == '+')) ++mPos;
		for (; at(mPos); ++mPos)
		{
			char c = mText[mPos];
			if (c >= '0' && c <= '9') { if (sci) expo = true; else mant = true; }
			else if (c == '.' && !dec && !sci) dec = true;
			else if ((c == 'e' || c == 'E') && !sci && mant)
			{
				sci = true;
				if (at(mPos + 1) && (mText[mPos + 1] == '-' || mText[mPos + 1] == '+')) ++mPos;
			}
			else break;
		}
		if (!at(mPos)) mEof = true;
		if (!mant || (sci && !expo)) { r = T(0); mFail = true; }
		else r = (T)sv_parse_dec_(mText.data() + b, mPos - b);
		return *this;
	}
	sv_stream& operator>>(unsigned short& r) { return extractU(r); }
	sv_stream& operator>>(unsigned& r) { return extractU(r); }
	sv_stream& operator>>(unsigned long& r) { return extractU(r); }
	sv_stream& operator>>(unsigned long long& r) { return extractU(r); }
	sv_stream& operator>>(short& r) { return extractS(r); }
	sv_stream& operator>>(int& r) { return extractS(r); }
	sv_stream& operator>>(long& r) { return extractS(r); }
	sv_stream& operator>>(long long& r) { return extractS(r); }
	sv_stream& operator>>(double& r) { return extractF(r); }
	sv_stream& operator>>(float& r) { return extractF(r); }
	sv_stream& operator>>(char& c) { if (enter()) c = mText[mPos++]; return *this; }
	sv_stream& operator>>(string& s)
	{
		if (!enter()) return *this;
		s.clear();
		while (at(mPos) && !space(mText[mPos])) s += mText[mPos++];
		if (!at(mPos)) mEof = true;
		return *this;
	}
	sv_stream& operator>>(sv_stream& (*f)(sv_stream&)) { return f(*this); }
	sv_stream& operator>>(basic_istream<char>& (*)(basic_istream<char>&)) { skip(); return *this; }
	sv_stream& line(string& s, char d)
	{
		s.clear();
		if (!good()) { mFail = true; return *this; }
		bool any = false;
		while (at(mPos))
		{
			char c = mText[mPos++];
			any = true;
			if (c == d) return *this;
			s += c;
		}
		mEof = true;
		if (!any) mFail = true;
		return *this;
	}
	// output
	sv_stream& put(char c) { out() += c; return *this; }
	sv_stream& write(const char* p, streamsize n) { out().append(p, (size_t)n); return *this; }
	sv_stream& flush() { return *this; }
	streamsize precision() const { return mPrec; }
	streamsize precision(streamsize p) { streamsize o = mPrec; mPrec = p; return o; }
	streamsize width(streamsize = 0) { return 0; }
	ios_base::fmtflags flags(ios_base::fmtflags f = ios_base::fmtflags()) { return f; }
	ios_base::fmtflags setf(ios_base::fmtflags f) { return f; }
	ios_base::fmtflags setf(ios_base::fmtflags f, ios_base::fmtflags) { return f; }
	locale imbue(const locale&) { return locale(); }
	template<class T> sv_stream& decimal(T v, bool neg)
	{
		char b[24]; int n = 0;
		unsigned long u = neg ? 0ul - (unsigned long)v : (unsigned long)v;
		u = sv::conc(u);
		do { b[n++] = (char)('0' + u % 10); u /= 10; } while (u);
		string& o = out();
		if (neg) o += '-';
		while (n) o += b[--n];
		return *this;
	}
	sv_stream& number(double v)
	{
		if (mPrec < sv_min_precision()) sv_min_precision() = mPrec;
		sv_numbers().push_back(v);
		out() += '\x01';
		return decimal(sv_numbers().size() - 1, false);
	}
	sv_stream& operator<<(const char* s) { out() += s; return *this; }
	sv_stream& operator<<(const string& s) { out() += s; return *this; }
	sv_stream& operator<<(char c) { out() += c; return *this; }
	sv_stream& operator<<(signed char c) { out() += (char)c; return *this; }
	sv_stream& operator<<(unsigned char c) { out() += (char)c; return *this; }
	sv_stream& operator<<(bool v) { out() += v ? '1' : '0'; return *this; }
	sv_stream& operator<<(unsigned short v) { return decimal(v, false); }
	sv_stream& operator<<(unsigned v) { return decimal(v, false); }
	sv_stream& operator<<(unsigned long v) { return decimal(v, false); }
	sv_stream& operator<<(unsigned long long v) { return decimal(v, false); }
	sv_stream& operator<<(short v) { return decimal((long)v, v < 0); }
	sv_stream& operator<<(int v) { return decimal((long)v, v < 0); }
	sv_stream& operator<<(long v) { return decimal(v, v < 0); }
	sv_stream& operator<<(long long v) { return decimal((long)v, v < 0); }
	sv_stream& operator<<(double v) { return number(v); }
	sv_stream& operator<<(float v) { return number(v); }
	template<class T> sv_stream& operator<<(const complex<T>& v) { out() += '('; number(v.real()); out() += ','; number(v.imag()); out() += ')'; return *this; }
	// end of line is the only manipulator of this kind that writes
	sv_stream& operator<<(basic_ostream<char>& (*f)(basic_ostream<char>&))
	{
		if (f == static_cast<basic_ostream<char>& (*)(basic_ostream<char>&)>(endl<char, char_traits<char>>)) out() += '\n';
		return *this;
	}
	sv_stream& operator<<(ios_base& (*)(ios_base&)) { return *this; }
	// formatting that does not change values within the printed precision
	sv_stream& operator<<(const decltype(setprecision(1))& p) { mPrec = p._M_n; return *this; }
	sv_stream& operator<<(const decltype(setw(1))&) { return *this; }
	// files
	void open(const string& n, ios_base::openmode m = ios_base::in | ios_base::out)
	{
		mFile = -1;
		for (size_t i = 0; i < sv_files().size(); ++i) if (sv_files()[i].name == n) mFile = (int)i;
		if (m & ios_base::out)
		{
			if (mFile < 0) { sv_files().push_back(sv_file{n, ""}); mFile = (int)sv_files().size() - 1; }
			else if (!(m & ios_base::app)) sv_files()[mFile].text.clear();
		}
		else if (mFile < 0) mFail = true;
		else mText = sv_files()[mFile].text;
		mOut = m & ios_base::out;
	}
	bool is_open() const { return mFile >= 0; }
	void close() { if (mFile < 0) mFail = true; mFile = -1; }
	// character level access
	struct sentry { bool ok; explicit sentry(sv_stream& s, bool noskip = false) { if (!s.good()) s.mFail = true; else if (!noskip) s.enter(); ok = s.good(); } explicit operator bool() const { return ok; } };
	sv_stream* rdbuf() { return this; }
	int sgetc() { return at(mPos) ? (unsigned char)mText[mPos] : -1; }
	int sbumpc() { return at(mPos) ? (unsigned char)mText[mPos++] : -1; }
	int snextc() { return sbumpc() < 0 ? -1 : sgetc(); }
protected:
	string& out() { if (mFile >= 0 && mOut) return sv_files()[mFile].text; return mText; }
	string mText;
	size_t mPos;
	bool mEof, mFail, mOut = false;
	int mFile;
	streamsize mPrec = 6;
};
inline sv_stream& getline(sv_stream& s, string& l, char d = '\n') { return s.line(l, d); }
typedef sv_stream sv_istringstream;
typedef sv_stream sv_ostringstream;
typedef sv_stream sv_stringstream;
class sv_ofstream : public sv_stream
{
public:
	sv_ofstream() {}
	explicit sv_ofstream(const string& n, ios_base::openmode m = ios_base::out) { sv_stream::open(n, m | ios_base::out); }
	void open(const string& n, ios_base::openmode m = ios_base::out) { sv_stream::open(n, m | ios_base::out); }
};
class sv_ifstream : public sv_stream
{
public:
	sv_ifstream() {}
	explicit sv_ifstream(const string& n, ios_base::openmode m = ios_base::in) { sv_stream::open(n, ios_base::in); }
	void open(const string& n, ios_base::openmode m = ios_base::in) { sv_stream::open(n, ios_base::in); }
};
// reading a whole stream through buffer iterators
struct sv_buf_iterator
{
	typedef input_iterator_tag iterator_category;
	typedef char value_type;
	typedef ptrdiff_t difference_type;
	typedef const char* pointer;
	typedef char reference;
	sv_stream* s;
	sv_buf_iterator() : s(nullptr) {}
	sv_buf_iterator(sv_stream& t) : s(&t) {}
	bool end() const { return !s || s->peek() < 0; }
	char operator*() const { return (char)s->peek(); }
	sv_buf_iterator& operator++() { s->get(); return *this; }
	sv_buf_iterator operator++(int) { sv_buf_iterator c = *this; s->get(); return c; }
	bool operator==(const sv_buf_iterator& o) const { return end() == o.end(); }
	bool operator!=(const sv_buf_iterator& o) const { return end() != o.end(); }
};
template<class C> using sv_istreambuf_iterator = sv_buf_iterator;
// writing through an iterator
template<class T, class C = char> struct sv_ostream_iterator
{
	typedef output_iterator_tag iterator_category;
	typedef void value_type;
	typedef void difference_type;
	typedef void pointer;
	typedef void reference;
	sv_stream* s;
	const char* d;
	sv_ostream_iterator(sv_stream& t, const char* delim = nullptr) : s(&t), d(delim) {}
	sv_ostream_iterator& operator=(const T& v) { *s << v; if (d) *s << d; return *this; }
	sv_ostream_iterator& operator*() { return *this; }
	sv_ostream_iterator& operator++() { return *this; }
	sv_ostream_iterator& operator++(int) { return *this; }
};
}
#define istream sv_stream
#define ostream sv_stream
#define iostream sv_stream
#define streambuf sv_stream
#define istringstream sv_istringstream
#define ostringstream sv_ostringstream
#define stringstream sv_stringstream
#define ifstream sv_ifstream
#define ofstream sv_ofstream
#define ostream_iterator sv_ostream_iterator
#define istreambuf_iterator sv_istreambuf_iterator

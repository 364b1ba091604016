// Minimal stream library used only for the symbolic encoding (the replay build uses the real one).
// Output streams collect text; values that are symbolic are printed as "<sym>".
#ifndef SYMSTREAM_HPP
#define SYMSTREAM_HPP
#include <stdexcept>
#include <iosfwd>
#include <algorithm>
#include <functional>
#include <bitset>
#include <cstdio>
#include <cstring>
#include <limits>
#include <string>
#include <vector>
extern "C" int sym_is(long v);
extern "C" int snprintf(char *, size_t, const char *, ...) noexcept;
namespace std {
typedef long streamsize;
typedef long streamoff;
class ios_base {
  public:
    typedef unsigned fmtflags;
    typedef unsigned openmode;
    typedef unsigned iostate;
    typedef unsigned seekdir;
    static constexpr openmode in = 1, out = 2, binary = 4, trunc = 8, app = 16, ate = 32;
    static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static constexpr seekdir beg = 0, cur = 1, end = 2;
    static constexpr fmtflags dec = 2, hex = 8, oct = 64, left = 32, right = 128, fixed = 4, scientific = 256, boolalpha = 1, skipws = 4096, floatfield = 260, basefield = 74, adjustfield = 176, showbase = 512;
    class Init {};
    class failure {};
    iostate st_ = 0;
    fmtflags flags_ = dec;
    streamsize prec_ = 6, width_ = 0;
    streamsize precision() const { return prec_; }
    streamsize precision(streamsize p) { streamsize o = prec_; prec_ = p; return o; }
    streamsize width() const { return width_; }
    streamsize width(streamsize p) { streamsize o = width_; width_ = p; return o; }
    fmtflags flags() const { return flags_; }
    fmtflags flags(fmtflags f) { fmtflags o = flags_; flags_ = f; return o; }
    fmtflags setf(fmtflags f) { fmtflags o = flags_; flags_ |= f; return o; }
    fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = flags_; flags_ = (flags_ & ~m) | f; return o; }
    void unsetf(fmtflags f) { flags_ &= ~f; }
};
template <> class basic_ios<char, char_traits<char>> : public ios_base {
  public:
    bool good() const { return st_ == 0; }
    bool eof() const { return st_ & eofbit; }
    bool fail() const { return st_ & (badbit | failbit); }
    bool bad() const { return st_ & badbit; }
    explicit operator bool() const { return !fail(); }
    bool operator!() const { return fail(); }
    void clear(iostate s = 0) { st_ = s; }
    void setstate(iostate s) { st_ |= s; }
    iostate rdstate() const { return st_; }
    virtual ~basic_ios() {}
};
template <> class basic_ostream<char, char_traits<char>> : public virtual basic_ios<char, char_traits<char>> {
  public:
    string ob_;
    bool sink_ = false;
    basic_ostream() {}
    explicit basic_ostream(bool sink) : sink_(sink) {}
    void put_(const char *s, size_t n) { if (!sink_) ob_.append(s, n); width_ = 0; }
    void puts_(const char *s) { if (!sink_) ob_.append(s); width_ = 0; }
    basic_ostream &write(const char *s, streamsize n) { if (!sink_) { if (st_ & (badbit | failbit)) return *this; ob_.append(s, n); } return *this; }
    basic_ostream &put(char c) { put_(&c, 1); return *this; }
    basic_ostream &flush() { return *this; }
    basic_ostream &operator<<(long v) {
        if (sink_) return *this;
        if (sym_is(v)) { puts_("<sym>"); return *this; }
        char b[40];
        snprintf(b, 40, "%ld", v);
        puts_(b);
        return *this;
    }
    basic_ostream &operator<<(unsigned long v) { return *this << (long)v; }
    basic_ostream &operator<<(long long v) { return *this << (long)v; }
    basic_ostream &operator<<(unsigned long long v) { return *this << (long)v; }
    basic_ostream &operator<<(int v) { return *this << (long)v; }
    basic_ostream &operator<<(unsigned v) { return *this << (long)v; }
    basic_ostream &operator<<(short v) { return *this << (long)v; }
    basic_ostream &operator<<(unsigned short v) { return *this << (long)v; }
    basic_ostream &operator<<(bool v) { return *this << (long)v; }
    basic_ostream &operator<<(double v) {
        if (sink_) return *this;
        long k;
        memcpy(&k, &v, 8);
        if (sym_is(k)) { puts_("<sym>"); return *this; }
        char b[64];
        snprintf(b, 64, "%g", v);
        puts_(b);
        return *this;
    }
    basic_ostream &operator<<(float v) { return *this << (double)v; }
    basic_ostream &operator<<(long double v) { return *this << (double)v; }
    basic_ostream &operator<<(const void *) { puts_("ptr"); return *this; }
    basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
    basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
};
inline ostream &operator<<(ostream &o, const char *s) { o.puts_(s); return o; }
inline ostream &operator<<(ostream &o, char c) { o.put_(&c, 1); return o; }
inline ostream &operator<<(ostream &o, unsigned char c) { char d = (char)c; o.put_(&d, 1); return o; }
inline ostream &operator<<(ostream &o, signed char c) { char d = (char)c; o.put_(&d, 1); return o; }
inline ostream &operator<<(ostream &o, const string &s) { o.put_(s.data(), s.size()); return o; }
inline ostream &operator<<(ostream &o, string_view s) { o.put_(s.data(), s.size()); return o; }
inline ostream &endl(ostream &o) { char c = '\n'; o.put_(&c, 1); return o; }
inline ostream &ends(ostream &o) { return o; }
inline ostream &flush(ostream &o) { return o; }
inline ios_base &boolalpha(ios_base &b) { return b; }
inline ios_base &noboolalpha(ios_base &b) { return b; }
inline ios_base &scientific(ios_base &b) { return b; }
inline ios_base &fixed(ios_base &b) { return b; }
inline ios_base &defaultfloat(ios_base &b) { return b; }
inline ios_base &left(ios_base &b) { return b; }
inline ios_base &right(ios_base &b) { return b; }
inline ios_base &internal(ios_base &b) { return b; }
inline ios_base &showpos(ios_base &b) { return b; }
inline ios_base &noshowpos(ios_base &b) { return b; }
inline ios_base &hex(ios_base &b) { return b; }
inline ios_base &dec(ios_base &b) { return b; }
inline ios_base &skipws(ios_base &b) { return b; }
struct __ssetw { int n; };
inline __ssetw setw(int n) { return {n}; }
inline __ssetw setprecision(int n) { return {n}; }
template <class C> inline __ssetw setfill(C) { return {0}; }
inline __ssetw setiosflags(unsigned) { return {0}; }
inline ostream &operator<<(ostream &o, __ssetw) { return o; }

template <> class basic_istream<char, char_traits<char>> : public virtual basic_ios<char, char_traits<char>> {
  public:
    string ib_;
    size_t ip_ = 0;
    streamsize gc_ = 0;
    basic_istream &read(char *s, streamsize n) {
        gc_ = 0;
        if (st_ & (badbit | failbit)) { st_ |= failbit; return *this; }
        streamsize a = (streamsize)(ib_.size() - ip_);
        streamsize k = n < a ? n : a;
        if (k > 0) memcpy(s, ib_.data() + ip_, k);
        ip_ += k;
        gc_ = k;
        if (k < n) st_ |= eofbit | failbit;
        return *this;
    }
    streamsize gcount() const { return gc_; }
    int get() { if (ip_ < ib_.size()) return (unsigned char)ib_[ip_++]; st_ |= eofbit | failbit; return -1; }
    int peek() { if (ip_ < ib_.size()) return (unsigned char)ib_[ip_]; st_ |= eofbit; return -1; }
    basic_istream &seekg(streamoff o, unsigned dir = 0) { st_ &= ~eofbit; ip_ = dir == 0 ? o : dir == 1 ? ip_ + o : ib_.size() + o; return *this; }
    streamoff tellg() { return (st_ & (failbit | badbit)) ? -1 : (streamoff)ip_; }
    basic_istream &ignore(streamsize n = 1, int = -1) { while (n-- > 0 && ip_ < ib_.size()) ip_++; return *this; }
};
inline istream &ws(istream &i) { while (i.ip_ < i.ib_.size() && (i.ib_[i.ip_] == ' ' || (i.ib_[i.ip_] >= 9 && i.ib_[i.ip_] <= 13))) i.ip_++; return i; }
inline istream &operator>>(istream &i, string &s) {
    if (!i.good()) { i.st_ |= ios_base::failbit; return i; }
    ws(i);
    s.clear();
    while (i.ip_ < i.ib_.size() && !(i.ib_[i.ip_] == ' ' || (i.ib_[i.ip_] >= 9 && i.ib_[i.ip_] <= 13))) s += i.ib_[i.ip_++];
    if (i.ip_ >= i.ib_.size()) i.st_ |= ios_base::eofbit;
    if (s.empty()) i.st_ |= ios_base::failbit;
    return i;
}
inline istream &getline(istream &i, string &s, char d = '\n') {
    s.clear();
    if (i.ip_ >= i.ib_.size()) { i.st_ |= ios_base::eofbit | ios_base::failbit; return i; }
    while (i.ip_ < i.ib_.size()) { char c = i.ib_[i.ip_++]; if (c == d) return i; s += c; }
    i.st_ |= ios_base::eofbit;
    return i;
}
template <> class basic_iostream<char, char_traits<char>> : public basic_istream<char>, public basic_ostream<char> {};
template <> class basic_ostringstream<char, char_traits<char>, allocator<char>> : public basic_ostream<char> {
  public:
    basic_ostringstream() {}
    explicit basic_ostringstream(unsigned) {}
    explicit basic_ostringstream(const string &) {}
    string str() const { return ob_; }
    void str(const string &s) { ob_ = s; }
};
template <> class basic_istringstream<char, char_traits<char>, allocator<char>> : public basic_istream<char> {
  public:
    explicit basic_istringstream(const string &s, unsigned = 0) { ib_ = s; }
    string str() const { return ib_; }
};
template <> class basic_stringstream<char, char_traits<char>, allocator<char>> : public basic_iostream<char> {
  public:
    basic_stringstream() {}
    explicit basic_stringstream(const string &s) { ob_ = s; ib_ = s; }
    string str() const { return ob_; }
    void str(const string &s) { ob_ = s; }
};
struct __symfile { string name, data; };
inline vector<__symfile> &__symfs() { static vector<__symfile> *v = new vector<__symfile>(); return *v; }
inline __symfile *__symfind(const char *n) {
    for (auto &f : __symfs()) if (f.name == n) return &f;
    return nullptr;
}
inline void __symput(const char *n, const string &d) {
    if (auto *f = __symfind(n)) { f->data = d; return; }
    __symfs().push_back({n, d});
}
template <> class basic_ofstream<char, char_traits<char>> : public basic_ostream<char> {
  public:
    string nm_;
    bool open_ = false;
    basic_ofstream() {}
    explicit basic_ofstream(const string &n, unsigned m = ios_base::out) { open(n, m); }
    explicit basic_ofstream(const char *n, unsigned m = ios_base::out) { open(n, m); }
    void open(const string &n, unsigned = ios_base::out) {
        if (n.size() == 0 || n[n.size() - 1] == '/' || n.find("/nonexistent") == 0) { st_ |= failbit; return; }
        nm_ = n; open_ = true; __symput(n.c_str(), string());
    }
    void open(const char *n, unsigned m = ios_base::out) { open(string(n), m); }
    bool is_open() const { return open_; }
    void close() { if (open_) __symput(nm_.c_str(), ob_); else st_ |= failbit; open_ = false; }
    ~basic_ofstream() { if (open_) __symput(nm_.c_str(), ob_); }
};
template <> class basic_ifstream<char, char_traits<char>> : public basic_istream<char> {
  public:
    bool open_ = false;
    basic_ifstream() {}
    explicit basic_ifstream(const string &n, unsigned m = ios_base::in) { open(n, m); }
    explicit basic_ifstream(const char *n, unsigned m = ios_base::in) { open(n, m); }
    void open(const string &n, unsigned m = ios_base::in) {
        __symfile *f = __symfind(n.c_str());
        if (!f) { st_ |= failbit; return; }
        ib_ = f->data; open_ = true;
        if (m & ios_base::ate) ip_ = ib_.size();
    }
    void open(const char *n, unsigned m = ios_base::in) { open(string(n), m); }
    bool is_open() const { return open_; }
    void close() { open_ = false; }
};
inline ostream &__symcout() { static ostream *o = new ostream(true); return *o; }
struct __symsink : ostream { __symsink() : ostream(true) {} };
inline __symsink cout, cerr, clog;
} // namespace std
#endif

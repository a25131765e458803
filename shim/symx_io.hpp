// Stream classes over the in-memory file system (stand-ins for <fstream>, <sstream>, <iostream>, <iomanip>).
#pragma once
#include <iosfwd>
#include <limits>
#include <iterator>
#include <bits/localefwd.h>
#include <string>
#include <string_view>
#include <vector>
#include <cstring>
#include <cstdint>
#include <system_error>
#include <cstdio>
#include <fcntl.h>
#include <unistd.h>
#include <bits/ios_base.h>
#include "../rt/vfs.h"
namespace std {
struct symx_ios {
  typedef std::streampos pos_type; typedef std::streamoff off_type; typedef char char_type; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir; typedef unsigned fmtflags;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static constexpr seekdir beg = 0, cur = 1, end = 2;
  static constexpr fmtflags fixed = 1, scientific = 2, hexf = 4, boolalphaf = 8; 
  struct failure : std::system_error { failure(const char* m) : std::system_error(std::make_error_code(std::errc::io_error), m) {} };
  iostate st_ = 0, exc_ = 0; int width_ = 0; char fill_ = ' '; int base_ = 10; bool boolalpha_ = false; int prec_ = 6;
  bool good() const { return st_ == 0; } bool eof() const { return st_ & eofbit; } bool fail() const { return st_ & (failbit | badbit); } bool bad() const { return st_ & badbit; }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  iostate rdstate() const { return st_; } void clear(iostate s = 0) { st_ = s; if (st_ & exc_) throw failure("stream"); } void setstate(iostate s) { clear(st_ | s); }
  void exceptions(iostate e) { exc_ = e; clear(st_); }
  long precision() const { return prec_; } long precision(long p) { long o = prec_; prec_ = p; return o; } long width() const { return width_; } long width(long w) { long o = width_; width_ = w; return o; } char fill() const { return fill_; } char fill(char c) { char o = fill_; fill_ = c; return o; }
  template <class L> void imbue(const L&) {}
  template <class T> void copyfmt(const T&) {}
};
inline symx_ios& hex(symx_ios& s) { s.base_ = 16; return s; } inline symx_ios& dec(symx_ios& s) { s.base_ = 10; return s; } inline symx_ios& fixed(symx_ios& s) { return s; } inline symx_ios& boolalpha(symx_ios& s) { s.boolalpha_ = true; return s; } inline symx_ios& scientific(symx_ios& s) { return s; }
struct symx_setw { int n; }; struct symx_setfill { char c; }; struct symx_setprec { int n; };
inline symx_setw setw(int n) { return {n}; } inline symx_setfill setfill(char c) { return {c}; } inline symx_setprec setprecision(int n) { return {n}; }
struct symx_ostream : virtual symx_ios {
  virtual bool put_(const char* p, size_t n) { return true; } virtual bool sync_() { return true; } virtual int64_t tell_() { return -1; } virtual bool seekp_(int64_t, int) { return false; }
  virtual ~symx_ostream() {}
  symx_ostream& write(const char* p, std::streamsize n) { if (good()) { if (n > 0 && !put_(p, (size_t)n)) setstate(badbit); } return *this; }
  symx_ostream& put(char c) { return write(&c, 1); }
  symx_ostream& flush() { if (!bad() && !sync_()) setstate(badbit); return *this; }
  std::streampos tellp() { return fail() ? std::streampos(-1) : std::streampos(tell_()); } symx_ostream& seekp(std::streamoff o, int w = 0) { if (!fail() && !seekp_(o, w)) setstate(failbit); return *this; }
  symx_ostream& seekp(std::streampos o) { return seekp((std::streamoff)o, 0); }
  void pad_(const char* p, size_t n) { int w = width_; width_ = 0; for (int i = (int)n; i < w; i++) write(&fill_, 1); write(p, n); }
  void num_(unsigned long long u, bool neg) { char b[40]; int k = 40; do { unsigned d = u % base_; b[--k] = d < 10 ? '0' + d : 'a' + d - 10; u /= base_; } while (u); if (neg) b[--k] = '-'; pad_(b + k, 40 - k); }
  symx_ostream& operator<<(symx_ostream& (*f)(symx_ostream&)) { return f(*this); } symx_ostream& operator<<(symx_ios& (*f)(symx_ios&)) { f(*this); return *this; }
  symx_ostream& operator<<(bool v) { if (boolalpha_) { const char* t = v ? "true" : "false"; pad_(t, strlen(t)); } else num_(v, false); return *this; }
#define SYMX_I(T) symx_ostream& operator<<(T v) { if (base_ != 10) num_((unsigned long long)(std::make_unsigned_t<T>)v, false); else num_(v < 0 ? 0ULL - (unsigned long long)v : (unsigned long long)v, v < 0); return *this; }
  SYMX_I(short) SYMX_I(int) SYMX_I(long) SYMX_I(long long) SYMX_I(unsigned short) SYMX_I(unsigned) SYMX_I(unsigned long) SYMX_I(unsigned long long)
#undef SYMX_I
  symx_ostream& operator<<(float) { pad_("<f>", 3); return *this; } symx_ostream& operator<<(double) { pad_("<f>", 3); return *this; } symx_ostream& operator<<(long double) { pad_("<f>", 3); return *this; } symx_ostream& operator<<(const void*) { pad_("<p>", 3); return *this; }
};
inline symx_ostream& operator<<(symx_ostream& o, char c) { o.pad_(&c, 1); return o; } inline symx_ostream& operator<<(symx_ostream& o, signed char c) { o.pad_((char*)&c, 1); return o; } inline symx_ostream& operator<<(symx_ostream& o, unsigned char c) { o.pad_((char*)&c, 1); return o; }
inline symx_ostream& operator<<(symx_ostream& o, const char* s) { o.pad_(s, strlen(s)); return o; } inline symx_ostream& operator<<(symx_ostream& o, const std::string& s) { o.pad_(s.data(), s.size()); return o; } inline symx_ostream& operator<<(symx_ostream& o, std::string_view s) { o.pad_(s.data(), s.size()); return o; }
inline symx_ostream& operator<<(symx_ostream& o, symx_setw w) { o.width_ = w.n; return o; } inline symx_ostream& operator<<(symx_ostream& o, symx_setfill w) { o.fill_ = w.c; return o; } inline symx_ostream& operator<<(symx_ostream& o, symx_setprec w) { return o; }
inline symx_ostream& endl(symx_ostream& o) { char c = '\n'; o.write(&c, 1); return o.flush(); } inline symx_ostream& flush(symx_ostream& o) { return o.flush(); }
template <class D, class T> requires(std::is_base_of_v<symx_ostream, D> && !std::is_same_v<D, symx_ostream>) inline D&& operator<<(D&& o, const T& v) { static_cast<symx_ostream&>(o) << v; return (D&&)o; }
struct symx_istream : virtual symx_ios {
  symx_istream* rdbuf() { return this; }
  std::streamsize gc_ = 0;
  virtual size_t get_(char*, size_t) { return 0; } virtual int peek_() { return -1; } virtual int64_t tellg_() { return -1; } virtual bool seek_(int64_t, int) { return false; }
  virtual ~symx_istream() {}
  bool sentry_() { if (!good()) { setstate(failbit); return false; } return true; }
  symx_istream& read(char* p, std::streamsize n) { gc_ = 0; if (!sentry_()) return *this; if (n > 0) { gc_ = (std::streamsize)get_(p, (size_t)n); if (gc_ < n) setstate(eofbit | failbit); } return *this; }
  std::streamsize gcount() const { return gc_; }
  int get() { gc_ = 0; if (!sentry_()) return -1; char c; if (get_(&c, 1) != 1) { setstate(eofbit | failbit); return -1; } gc_ = 1; return (unsigned char)c; }
  symx_istream& get(char& c) { int r = get(); if (r >= 0) c = (char)r; return *this; }
  int peek() { gc_ = 0; if (!good()) return -1; int r = peek_(); if (r < 0) setstate(eofbit); return r; }
  symx_istream& ignore(std::streamsize n = 1) { char c; while (n-- > 0) { if (get_(&c, 1) != 1) { setstate(eofbit); break; } } return *this; }
  std::streampos tellg() { return fail() ? std::streampos(-1) : std::streampos(tellg_()); }
  symx_istream& seekg(std::streamoff o, int w) { st_ &= ~eofbit; if (!fail() && !seek_(o, w)) setstate(failbit); return *this; } symx_istream& seekg(std::streampos o) { return seekg((std::streamoff)o, 0); }
  bool ws_() { while (true) { int c = peek_(); if (c < 0) { setstate(eofbit); return false; } if (c == ' ' || (c >= 9 && c <= 13)) { char t; get_(&t, 1); } else return true; } }
  symx_istream& operator>>(std::string& s) { s.clear(); if (!sentry_()) return *this; if (!ws_()) { setstate(failbit); return *this; } while (true) { int c = peek_(); if (c < 0) { setstate(eofbit); break; } if (c == ' ' || (c >= 9 && c <= 13)) break; char t; get_(&t, 1); s += t; } return *this; }
  symx_istream& operator>>(char& c) { if (!sentry_()) return *this; if (!ws_()) { setstate(failbit); return *this; } get_(&c, 1); return *this; }
  template <class T> requires(std::is_integral_v<T>) symx_istream& operator>>(T& v) { if (!sentry_()) return *this; if (!ws_()) { v = 0; setstate(failbit); return *this; } bool neg = false; int c = peek_(); if (c == '-' || c == '+') { neg = c == '-'; char t; get_(&t, 1); } unsigned long long u = 0; bool any = false, ovf = false; while (true) { c = peek_(); if (c < 0) { setstate(eofbit); break; } int d; if (c >= '0' && c <= '9') d = c - '0'; else if (base_ == 16 && c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (base_ == 16 && c >= 'A' && c <= 'F') d = c - 'A' + 10; else break; char t; get_(&t, 1); any = true; if (u > (~0ULL - d) / base_) ovf = true; u = u * base_ + d; } if (!any) { v = 0; setstate(failbit); return *this; } if constexpr (std::is_signed_v<T>) { unsigned long long lim = neg ? 0ULL - (unsigned long long)(long long)std::numeric_limits<T>::min() : (unsigned long long)std::numeric_limits<T>::max(); if (ovf || u > lim) { v = neg ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max(); setstate(failbit); } else v = (T)(neg ? 0ULL - u : u); } else { if (ovf || u > std::numeric_limits<T>::max()) { v = std::numeric_limits<T>::max(); setstate(failbit); } else v = (T)(neg ? 0ULL - u : u); } return *this; }
  symx_istream& operator>>(symx_ios& (*f)(symx_ios&)) { f(*this); return *this; }
};
inline symx_istream& getline(symx_istream& i, std::string& s, char d = '\n') { s.clear(); if (!i.sentry_()) return i; bool any = false; while (true) { char c; if (i.get_(&c, 1) != 1) { i.setstate(any ? symx_ios::eofbit : symx_ios::eofbit | symx_ios::failbit); break; } any = true; if (c == d) break; s += c; } return i; }
struct symx_iostream : symx_istream, symx_ostream { using symx_istream::operator>>; using symx_ostream::operator<<; };
inline symx_ostream& operator<<(symx_ostream& o, symx_istream* i) { char b[64]; size_t k, t = 0; while ((k = i->get_(b, 64)) > 0) { o.write(b, k); t += k; } if (t == 0) o.setstate(symx_ios::failbit); return o; }
struct symx_isbuf_it { typedef std::input_iterator_tag iterator_category; typedef char value_type; typedef ptrdiff_t difference_type; typedef const char* pointer; typedef char reference; symx_istream* i = nullptr; symx_isbuf_it() {} symx_isbuf_it(symx_istream& s) : i(&s) {} symx_isbuf_it(symx_istream* s) : i(s) {} bool e() const { return !i || i->peek_() < 0; } char operator*() const { return (char)i->peek_(); } symx_isbuf_it& operator++() { char c; i->get_(&c, 1); return *this; } symx_isbuf_it operator++(int) { auto t = *this; ++*this; return t; } bool operator==(const symx_isbuf_it& o) const { return e() == o.e(); } bool operator!=(const symx_isbuf_it& o) const { return e() != o.e(); } };
template <class C, class...> using symx_isbuf_iter_t = symx_isbuf_it;
// ---- files
struct symx_filecore {
  int fd = -1; std::string wbuf; bool rd = false, wr = false; bool failedw = false;
  bool isopen() const { return fd >= 0; }
  bool openf(const char* p, unsigned m) { if (fd >= 0) return false; int fl; bool in = m & symx_ios::in, out = m & symx_ios::out, tr = m & symx_ios::trunc, ap = m & symx_ios::app; if (ap) fl = (in ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; else if (in && out) fl = O_RDWR | (tr ? O_CREAT | O_TRUNC : 0); else if (out) fl = O_WRONLY | O_CREAT | O_TRUNC; else fl = O_RDONLY; fd = symx_open(p, fl, 0644); if (fd < 0) return false; if (m & symx_ios::ate) symx_lseek(fd, 0, SEEK_END); rd = in; wr = out || ap; return true; }
  bool flushw() { size_t o = 0; while (o < wbuf.size()) { ssize_t k = symx_write(fd, wbuf.data() + o, wbuf.size() - o); if (k <= 0) { wbuf.clear(); return false; } o += (size_t)k; } wbuf.clear(); return true; }
  bool putw(const char* p, size_t n) { if (fd < 0 || !wr) return false; if (wbuf.size() + n > 8191) { if (!flushw()) return false; if (n >= 8191) { size_t o = 0; while (o < n) { ssize_t k = symx_write(fd, p + o, n - o); if (k <= 0) return false; o += (size_t)k; } return true; } } wbuf.append(p, n); return true; }
  bool closef() { if (fd < 0) return false; bool ok = flushw(); symx_close(fd); fd = -1; return ok; }
  size_t getr(char* p, size_t n) { if (fd < 0 || !rd) return 0; flushw(); size_t o = 0; while (o < n) { ssize_t k = symx_read(fd, p + o, n - o); if (k <= 0) break; o += (size_t)k; } return o; }
  int peekr() { if (fd < 0 || !rd) return -1; unsigned char c; off_t o = symx_lseek(fd, 0, SEEK_CUR); return symx_pread(fd, &c, 1, o) == 1 ? c : -1; }
  bool seekf(int64_t o, int w) { if (fd < 0 || !flushw()) return false; return symx_lseek(fd, o, w == 0 ? SEEK_SET : w == 1 ? SEEK_CUR : SEEK_END) >= 0; }
  int64_t tellf() { if (fd < 0) return -1; if (wr && !wbuf.empty()) { struct stat s; symx_fstat(fd, &s); } return symx_lseek(fd, 0, SEEK_CUR) + (int64_t)wbuf.size(); }
};
template <class P> inline std::string symx_pathstr(const P& p) { if constexpr (std::is_convertible_v<const P&, std::string>) return std::string(p); else return p.string(); }
struct symx_ifstream : symx_istream { symx_filecore f; symx_ifstream() {} template <class P> explicit symx_ifstream(const P& p, unsigned m = symx_ios::in) { open(p, m); } symx_ifstream(symx_ifstream&& o) : symx_ios(o), symx_istream(o), f(std::move(o.f)) { o.f.fd = -1; } symx_ifstream(const symx_ifstream&) = delete; symx_ifstream& operator=(symx_ifstream&& o) { f.closef(); f = std::move(o.f); o.f.fd = -1; st_ = o.st_; return *this; } ~symx_ifstream() { if (f.fd >= 0) f.closef(); }
  template <class P> void open(const P& p, unsigned m = symx_ios::in) { if (!f.openf(symx_pathstr(p).c_str(), m | symx_ios::in)) setstate(failbit); else clear(); } bool is_open() const { return f.isopen(); } void close() { if (!f.closef()) setstate(failbit); }
  size_t get_(char* p, size_t n) override { return f.getr(p, n); } int peek_() override { return f.peekr(); } int64_t tellg_() override { return f.tellf(); } bool seek_(int64_t o, int w) override { return f.seekf(o, w); } };
struct symx_ofstream : symx_ostream { symx_filecore f; symx_ofstream() {} template <class P> explicit symx_ofstream(const P& p, unsigned m = symx_ios::out) { open(p, m); } symx_ofstream(symx_ofstream&& o) : symx_ios(o), symx_ostream(o), f(std::move(o.f)) { o.f.fd = -1; o.f.wbuf.clear(); } symx_ofstream(const symx_ofstream&) = delete; symx_ofstream& operator=(symx_ofstream&& o) { f.closef(); f = std::move(o.f); o.f.fd = -1; o.f.wbuf.clear(); st_ = o.st_; return *this; } ~symx_ofstream() { if (f.fd >= 0) f.closef(); }
  template <class P> void open(const P& p, unsigned m = symx_ios::out) { if (!f.openf(symx_pathstr(p).c_str(), m | symx_ios::out)) setstate(failbit); else clear(); } bool is_open() const { return f.isopen(); } void close() { if (!f.closef()) setstate(failbit); }
  bool put_(const char* p, size_t n) override { return f.putw(p, n); } bool sync_() override { return f.fd < 0 || f.flushw(); } int64_t tell_() override { return f.tellf(); } bool seekp_(int64_t o, int w) override { return f.seekf(o, w); } };
struct symx_fstream : symx_iostream { symx_filecore f; symx_fstream() {} template <class P> explicit symx_fstream(const P& p, unsigned m = symx_ios::in | symx_ios::out) { open(p, m); } ~symx_fstream() { if (f.fd >= 0) f.closef(); }
  template <class P> void open(const P& p, unsigned m = symx_ios::in | symx_ios::out) { if (!f.openf(symx_pathstr(p).c_str(), m)) setstate(failbit); else clear(); } bool is_open() const { return f.isopen(); } void close() { if (!f.closef()) setstate(failbit); }
  size_t get_(char* p, size_t n) override { return f.getr(p, n); } int peek_() override { return f.peekr(); } int64_t tellg_() override { return f.tellf(); } bool seek_(int64_t o, int w) override { return f.seekf(o, w); }
  bool put_(const char* p, size_t n) override { return f.putw(p, n); } bool sync_() override { return f.fd < 0 || f.flushw(); } int64_t tell_() override { return f.tellf(); } bool seekp_(int64_t o, int w) override { return f.seekf(o, w); } };
// ---- strings
struct symx_strcore { std::string b; size_t rp = 0, wp = 0; size_t get(char* p, size_t n) { size_t k = b.size() - rp; if (k > n) k = n; memcpy(p, b.data() + rp, k); rp += k; return k; } int peek() { return rp < b.size() ? (unsigned char)b[rp] : -1; } bool put(const char* p, size_t n) { b.append(p, n); return true; } bool seek(int64_t o, int w) { int64_t t = (w == 0 ? 0 : w == 1 ? (int64_t)rp : (int64_t)b.size()) + o; if (t < 0 || t > (int64_t)b.size()) return false; rp = t; return true; } };
struct symx_ostringstream : symx_ostream { symx_strcore c; symx_ostringstream() {} explicit symx_ostringstream(unsigned) {} explicit symx_ostringstream(const std::string& s, unsigned = 0) { c.b = s; } std::string str() const { return c.b; } void str(const std::string& s) { c.b = s; } bool put_(const char* p, size_t n) override { return c.put(p, n); } int64_t tell_() override { return c.b.size(); } };
struct symx_istringstream : symx_istream { symx_strcore c; symx_istringstream() {} explicit symx_istringstream(std::string s, unsigned = 0) { c.b = std::move(s); } std::string str() const { return c.b; } void str(const std::string& s) { c.b = s; c.rp = 0; } size_t get_(char* p, size_t n) override { return c.get(p, n); } int peek_() override { return c.peek(); } int64_t tellg_() override { return c.rp; } bool seek_(int64_t o, int w) override { return c.seek(o, w); } };
struct symx_stringstream : symx_iostream { symx_strcore c; symx_stringstream() {} explicit symx_stringstream(unsigned) {} explicit symx_stringstream(std::string s, unsigned = 0) { c.b = std::move(s); } std::string str() const { return c.b; } void str(const std::string& s) { c.b = s; c.rp = 0; } size_t get_(char* p, size_t n) override { return c.get(p, n); } int peek_() override { return c.peek(); } int64_t tellg_() override { return c.rp; } bool seek_(int64_t o, int w) override { return c.seek(o, w); } bool put_(const char* p, size_t n) override { return c.put(p, n); } int64_t tell_() override { return c.b.size(); } };
struct symx_nullout : symx_ostream { bool put_(const char*, size_t) override { return true; } };
inline symx_nullout symx_cout_obj, symx_cerr_obj; inline symx_ostream &cout = symx_cout_obj, &cerr = symx_cerr_obj, &clog = symx_cerr_obj;
}
#define istreambuf_iterator symx_isbuf_iter_t
#define ios symx_ios
#define ostream symx_ostream
#define istream symx_istream
#define iostream symx_iostream
#define ifstream symx_ifstream
#define ofstream symx_ofstream
#define fstream symx_fstream
#define stringstream symx_stringstream
#define ostringstream symx_ostringstream
#define istringstream symx_istringstream

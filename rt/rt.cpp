// Support library linked into every symbolic run: the out-of-line parts of libstdc++/libc that the encoded code calls.
#include <string>
#include <stdexcept>
#include <system_error>
#include <new>
#include <typeinfo>
#include <exception>
#include <functional>
#include <variant>
#include <any>
#include <optional>
#include <memory>
#include <future>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <chrono>
#include <map>
#include <list>
#include <unordered_map>
#include <random>
#include <cstdarg>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cerrno>
#include <ctype.h>
#include "symx.h"
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; } return 0; }
int strcasecmp(const char* a, const char* b) { while (*a && tolower(*a) == tolower(*b)) { a++; b++; } return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strdup(const char* s) { size_t n = strlen(s); char* r = (char*)malloc(n + 1); memcpy(r, s, n + 1); return r; }
}
extern "C" char* symx_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
extern "C" char* symx_strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
extern "C" void* symx_memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return nullptr; }
extern "C" char* symx_strstr(const char* h, const char* n) { size_t l = strlen(n); for (; ; h++) { if (strncmp(h, n, l) == 0) return (char*)h; if (!*h) return nullptr; } }
extern "C" {
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
char* strerror(int) { static char b[] = "error"; return b; }
char* strerror_r(int, char*, size_t) { return strerror(0); }
static uint64_t parseU(const char* s, char** e, int base, bool& neg, bool& ovf, bool& any) {
  const char* p = s; while (isspace((unsigned char)*p)) p++; neg = false; ovf = false; any = false; if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  uint64_t v = 0, cut = ~0ULL / base, lim = ~0ULL % base;
  for (;; p++) { unsigned c = (unsigned char)*p, l = c | 32; unsigned dg = 0u - (unsigned)((c - '0') < 10u), al = 0u - (unsigned)((l - 'a') < 26u); unsigned d = (dg & (c - '0')) | (al & (l - 'a' + 10)) | (~(dg | al) & 99u); if (d >= (unsigned)base) break; any = true; ovf |= (v > cut) | ((v == cut) & (d > lim)); v = v * base + d; }
  if (e) *e = (char*)(any ? p : s); return v;
}
unsigned long strtoul(const char* s, char** e, int b) { bool n, o, a; uint64_t v = parseU(s, e, b, n, o, a); if (o) { errno = ERANGE; return ~0UL; } return n ? -v : v; }
long strtol(const char* s, char** e, int b) { bool n, o, a; uint64_t v = parseU(s, e, b, n, o, a); if (o || v > (n ? 1ULL << 63 : (1ULL << 63) - 1)) { errno = ERANGE; return n ? LONG_MIN : LONG_MAX; } return n ? (long)(0 - v) : (long)v; }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
double strtod(const char* s, char** e) { const char* p = s; while (isspace((unsigned char)*p)) p++; bool neg = false; if (*p == '-' || *p == '+') { neg = *p == '-'; p++; } double v = 0; bool any = false; while (isdigit((unsigned char)*p)) { v = v * 10 + (*p - '0'); p++; any = true; } if (*p == '.') { p++; double sc = 0.1; while (isdigit((unsigned char)*p)) { v += (*p - '0') * sc; sc /= 10; p++; any = true; } } if (any && (*p == 'e' || *p == 'E')) { const char* q = p + 1; bool en = false; if (*q == '-' || *q == '+') { en = *q == '-'; q++; } if (isdigit((unsigned char)*q)) { int x = 0; while (isdigit((unsigned char)*q)) { x = x * 10 + (*q - '0'); q++; } while (x--) v = en ? v / 10 : v * 10; p = q; } } if (e) *e = (char*)(any ? p : s); return neg ? -v : v; }
double nextafter(double x, double y) { if (x != x || y != y) return x + y; if (x == y) return y; uint64_t u; memcpy(&u, &x, 8); uint64_t mag = u << 1; bool up = x < y, neg = u >> 63; uint64_t r = mag == 0 ? (up ? 1 : (1ULL << 63 | 1)) : (up != neg ? u + 1 : u - 1); double d; memcpy(&d, &r, 8); return d; }
float strtof(const char* s, char** e) { return (float)strtod(s, e); }
int abs(int x) { return x < 0 ? -x : x; } long labs(long x) { return x < 0 ? -x : x; } long long llabs(long long x) { return x < 0 ? -x : x; }
// minimal printf family: integers, strings, chars; concrete floating point with %f, other floating point printed as <f>
int vsnprintf(char* b, size_t n, const char* f, va_list ap) {
  size_t k = 0; auto put = [&](char c) { if (k + 1 < n) b[k] = c; k++; };
  for (; *f; f++) {
    if (*f != '%') { put(*f); continue; } f++;
    bool zero = false, left = false; while (*f == '0' || *f == '-' || *f == '+' || *f == ' ' || *f == '#') { if (*f == '0') zero = true; if (*f == '-') left = true; f++; }
    int width = 0; if (*f == '*') { width = va_arg(ap, int); f++; } while (isdigit((unsigned char)*f)) width = width * 10 + *f++ - '0';
    int prec = -1; if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } while (isdigit((unsigned char)*f)) prec = prec * 10 + *f++ - '0'; }
    int l = 0; while (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'h') { if (*f != 'h') l++; f++; }
    char t[80]; int tl = 0; const char* src = t;
    switch (*f) {
      case '%': put('%'); continue;
      case 'c': t[0] = (char)va_arg(ap, int); tl = 1; break;
      case 's': src = va_arg(ap, const char*); if (!src) src = "(null)"; tl = 0; while (src[tl] && (prec < 0 || tl < prec)) tl++; break;
      case 'd': case 'i': { long long v = l ? va_arg(ap, long) : va_arg(ap, int); bool ng = v < 0; unsigned long long u = ng ? 0ULL - v : v; char r[24]; int q = 0; do { r[q++] = '0' + u % 10; u /= 10; } while (u); while (q < prec) r[q++] = '0'; if (zero && prec < 0) while (q + (ng ? 1 : 0) < width && q < 23) r[q++] = '0'; if (ng) r[q++] = '-'; while (q) t[tl++] = r[--q]; break; }
      case 'u': case 'x': case 'X': case 'p': { unsigned long long u = (l || *f == 'p') ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); unsigned bs = *f == 'u' ? 10 : 16; char r[24]; int q = 0; unsigned up = (*f == 'X' ? 'A' : 'a') - 10 - '0'; auto dig = [&] { unsigned d = u % bs; r[q++] = (char)('0' + d + ((0u - (unsigned)(d > 9)) & up)); u /= bs; }; if (zero && prec < 0 && width > 0 && width < 23) { for (int i = 0; i < width; i++) dig(); } else dig(); while (u) dig(); while (q < prec) r[q++] = '0'; if (zero && prec < 0) while (q < width && q < 23) r[q++] = '0'; while (q) t[tl++] = r[--q]; break; }
      case 'f': { double v = va_arg(ap, double); uint64_t bits; memcpy(&bits, &v, 8); const char* q = "<f>"; int E = (int)((bits >> 52) & 2047);
        if (symx_is_symbolic(bits)) { while (*q) t[tl++] = *q++; break; } if (bits >> 63) t[tl++] = '-'; if (E == 2047) { q = bits << 12 ? "nan" : "inf"; while (*q) t[tl++] = *q++; break; } int P = prec < 0 ? 6 : prec; if (P > 20 || E > 1023 + 160) { q = "<f>"; while (*q) t[tl++] = *q++; break; }
        uint64_t m = (bits & ((1ull << 52) - 1)) | (E ? 1ull << 52 : 0); int e = (E ? E : 1) - 1075; uint32_t L[12] = {(uint32_t)m, (uint32_t)(m >> 32)}; auto mul = [&](uint32_t x) { uint64_t c = 0; for (auto& w : L) { c += (uint64_t)w * x; w = (uint32_t)c; c >>= 32; } }; for (int i = 0; i < P; i++) mul(10); for (; e > 0; e--) mul(2);
        bool half = false, rest = false; for (; e < 0; e++) { rest |= half; half = L[0] & 1; for (int i = 0; i < 12; i++) L[i] = L[i] >> 1 | (i < 11 ? L[i + 1] << 31 : 0); } if (half && (rest || (L[0] & 1))) for (int i = 0; i < 12 && ++L[i] == 0; i++) {}
        char r[72]; int k2 = 0; for (;;) { bool z = true; for (auto w : L) z &= !w; if (z && k2 > P) break; uint64_t c = 0; for (int i = 11; i >= 0; i--) { c = c << 32 | L[i]; L[i] = (uint32_t)(c / 10); c %= 10; } r[k2++] = '0' + (int)c; } while (k2 > 0) { if (k2 == P) t[tl++] = '.'; t[tl++] = r[--k2]; } break; }
      default: { if (*f == 'f' || *f == 'g' || *f == 'e') (void)va_arg(ap, double); const char* q = "<f>"; while (*q) t[tl++] = *q++; }
    }
    if (!left) for (int i = tl; i < width; i++) put(' ');
    for (int i = 0; i < tl; i++) put(src[i]);
    if (left) for (int i = tl; i < width; i++) put(' ');
  }
  if (n) b[k < n ? k : n - 1] = 0; return (int)k;
}
int snprintf(char* b, size_t n, const char* f, ...) { va_list a; va_start(a, f); int r = vsnprintf(b, n, f, a); va_end(a); return r; }
int sprintf(char* b, const char* f, ...) { va_list a; va_start(a, f); int r = vsnprintf(b, 1 << 20, f, a); va_end(a); return r; }
int printf(const char*, ...) { return 0; } void perror(const char*) {} int puts(const char*) { return 0; }
int fflush(FILE*) { return 0; }
int symx_fprintf(FILE*, const char*, ...) { return 0; }
unsigned char __stub_stdin[8];
uint64_t symx_clock_ns = 1700000000000000000ULL, symx_clock_step = 1000; 
int clock_gettime(clockid_t, struct timespec* t) { symx_clock_ns += symx_clock_step; t->tv_sec = symx_clock_ns / 1000000000ULL; t->tv_nsec = symx_clock_ns % 1000000000ULL; return 0; }
int gettimeofday(struct timeval* t, void*) { symx_clock_ns += symx_clock_step; t->tv_sec = symx_clock_ns / 1000000000ULL; t->tv_usec = symx_clock_ns % 1000000000ULL / 1000; return 0; }
long sysconf(int n) { return n == _SC_PAGESIZE ? 4096 : n == _SC_NPROCESSORS_ONLN ? (long)symx_param("cpus", 2) : -1; }
int getpagesize() { return 4096; }
void qsort(void* b, size_t n, size_t sz, int (*c)(const void*, const void*)) { char* p = (char*)b; char* t = (char*)malloc(sz); for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && c(p + (j - 1) * sz, p + j * sz) > 0; j--) { memcpy(t, p + j * sz, sz); memcpy(p + j * sz, p + (j - 1) * sz, sz); memcpy(p + (j - 1) * sz, t, sz); } free(t); }
}
// ------------------------------------------------------------ libstdc++ pieces
namespace std {
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; } bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
static const char* dupc(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() : _M_p(dupc("", 0)) {}
__cow_string::__cow_string(const string& s) : _M_p(dupc(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(dupc(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(dupc(o._M_p, strlen(o._M_p))) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = dupc(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) { o._M_p = dupc("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
logic_error::logic_error(const string& s) : _M_msg(s) {} logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {} logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return _M_msg._M_p; }
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; } logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg((__cow_string&&)o._M_msg) {} logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = (__cow_string&&)o._M_msg; return *this; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {} runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {} runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; } runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg((__cow_string&&)o._M_msg) {} runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = (__cow_string&&)o._M_msg; return *this; }
#define EXC(T, B) T::T(const string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
EXC(domain_error, logic_error) EXC(invalid_argument, logic_error) EXC(length_error, logic_error) EXC(out_of_range, logic_error) EXC(range_error, runtime_error) EXC(overflow_error, runtime_error) EXC(underflow_error, runtime_error)
system_error::~system_error() noexcept {}
struct SymxCat : error_category { const char* n; constexpr SymxCat(const char* x) : n(x) {} const char* name() const noexcept override { return n; } string message(int) const override { return n; } };
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int v) const noexcept { return error_condition(v, *this); }
bool error_category::equivalent(int v, const error_condition& c) const noexcept { return default_error_condition(v) == c; }
bool error_category::equivalent(const error_code& c, int v) const noexcept { return *this == c.category() && c.value() == v; }
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
static SymxCat& gcat() { static SymxCat* c = new SymxCat("generic"); return *c; }
static SymxCat& scat() { static SymxCat* c = new SymxCat("system"); return *c; }
static SymxCat& fcat() { static SymxCat* c = new SymxCat("future"); return *c; }
inline namespace _V2 { const error_category& generic_category() noexcept { return gcat(); } const error_category& system_category() noexcept { return scat(); } }
const error_category& future_category() noexcept { return fcat(); }
future_error::~future_error() noexcept {} const char* future_error::what() const noexcept { return "future_error"; }
void __throw_bad_exception() { throw bad_exception(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); } void __throw_domain_error(const char* s) { throw domain_error(s); } void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); } void __throw_out_of_range(const char* s) { throw out_of_range(s); } void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); } void __throw_range_error(const char* s) { throw range_error(s); } void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); } void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); } void __throw_future_error(int e) { throw future_error(make_error_code(future_errc(e))); }
void __throw_bad_optional_access();
// ---- red-black tree (balanced shape is not observable: plain BST with the same header protocol)
static _Rb_tree_node_base* rbInc(_Rb_tree_node_base* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static _Rb_tree_node_base* rbDec(_Rb_tree_node_base* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return rbInc(x); } const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return rbInc((_Rb_tree_node_base*)x); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return rbDec(x); } const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return rbDec((_Rb_tree_node_base*)x); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  if (h._M_left == z) h._M_left = z->_M_right ? [](auto* q) { while (q->_M_left) q = q->_M_left; return q; }(z->_M_right) : z->_M_parent;
  if (h._M_right == z) h._M_right = z->_M_left ? [](auto* q) { while (q->_M_right) q = q->_M_right; return q; }(z->_M_left) : z->_M_parent;
  auto repl = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v) { if (h._M_parent == u) h._M_parent = v; else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v; if (v) v->_M_parent = u->_M_parent; };
  if (!z->_M_left) repl(z, z->_M_right); else if (!z->_M_right) repl(z, z->_M_left);
  else { auto* y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { auto* t = this; do { auto* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { auto t = x._M_next; x._M_next = y._M_next; y._M_next = t; t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
// hash tables: one bucket up to 256 elements (bucket placement is not observable; keeps keys symbolic)
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { return n <= 1024 ? 1 : 4099; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const { if (e + i > 256 && b == 1) return {true, 4099}; return {false, 0}; }
}
size_t _Hash_bytes(const void*, size_t n, size_t) { return n; }
size_t _Fnv_hash_bytes(const void*, size_t n, size_t) { return n; }
// ---- threads
void thread::_M_start_thread(_State_ptr st, void (*)()) { _State* p = st.release(); pthread_t t; int e = pthread_create(&t, nullptr, [](void* a) -> void* { unique_ptr<_State> s((_State*)a); s->_M_run(); return nullptr; }, p); if (e) { delete p; __throw_system_error(e); } _M_id = id(t); }
thread::_State::~_State() {}
void thread::join() { if (_M_id == id()) __throw_system_error(EINVAL); pthread_join(native_handle(), nullptr); _M_id = id(); }
void thread::detach() { if (_M_id == id()) __throw_system_error(EINVAL); pthread_detach(native_handle()); _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return (unsigned)symx_param("cpus", 2); }
namespace this_thread { void __sleep_for(chrono::seconds, chrono::nanoseconds) { sched_yield(); } }
condition_variable::condition_variable() noexcept {} condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait((pthread_cond_t*)native_handle(), l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal((pthread_cond_t*)native_handle()); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast((pthread_cond_t*)native_handle()); }
namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { symx_clock_ns += symx_clock_step; return time_point(duration((long)symx_clock_ns)); }
steady_clock::time_point steady_clock::now() noexcept { symx_clock_ns += symx_clock_step; return time_point(duration((long)symx_clock_ns)); }
} }
void random_device::_M_init(const string&) {} void random_device::_M_fini() {} unsigned random_device::_M_getval() { return 0x12345u; }
void __atomic_futex_dummy();
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { syscall(202, a, 128, v, nullptr); return true; }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool, chrono::seconds, chrono::nanoseconds) { syscall(202, a, 128, v, nullptr); return true; }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { syscall(202, a, 129, 0x7fffffff); }
__future_base::_Result_base::_Result_base() {} __future_base::_Result_base::~_Result_base() {}
__thread void* __once_callable; __thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
extern "C" int pthread_once(pthread_once_t* o, void (*f)()) { if (*o == 0) { *o = 1; f(); *o = 2; } return 0; }
bool _Sp_make_shared_tag::_S_eq(const type_info& t) noexcept { return false; }
} // namespace std
extern "C" { void* __dso_handle = nullptr; }
extern "C" unsigned long symx___isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
extern "C" long symx___isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }

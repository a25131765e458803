// Native runtime for the harness API: replays a recorded path (inputs in order) against the natively compiled code.
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <csetjmp>
#include <exception>
#include <stdexcept>
#include <unistd.h>
#include <sys/syscall.h>
static FILE* fo;
struct In { std::string n; unsigned w; std::string hex; };
static std::vector<In> ins; static size_t pos; static std::map<std::string, int64_t> params; static bool diverged;
static void die(int c) { fflush(fo); fflush(stdout); _exit(c); }
static unsigned __int128 next(const char* n, unsigned w) {
  while (pos < ins.size() && ins[pos].n.rfind("math", 0) == 0 && strncmp(n, "math", 4) != 0) pos++;
  if (pos >= ins.size()) { fprintf(fo, "EXTRA %s\n", n); diverged = true; return 0; }
  In& i = ins[pos++]; if (i.w != w) { fprintf(fo, "DIVERGED want %s:%u have %s:%u at %zu\n", n, w, i.n.c_str(), i.w, pos - 1); die(11); }
  unsigned __int128 v = 0; for (char c : i.hex) v = v * 16 + (c <= '9' ? c - '0' : c - 'a' + 10); return v;
}
struct Try { jmp_buf jb; int code; }; static std::vector<Try*> tries;
extern "C" {
uint8_t symx_u8(const char* n) { return (uint8_t)next(n, 8); } uint16_t symx_u16(const char* n) { return (uint16_t)next(n, 16); } uint32_t symx_u32(const char* n) { return (uint32_t)next(n, 32); } uint64_t symx_u64(const char* n) { return (uint64_t)next(n, 64); }
float symx_f32(const char* n) { uint32_t u = symx_u32(n); float f; memcpy(&f, &u, 4); return f; } double symx_f64(const char* n) { uint64_t u = symx_u64(n); double f; memcpy(&f, &u, 8); return f; }
bool symx_bool(const char* n) { return next(n, 1) & 1; } void symx_bytes(void* p, size_t n, const char* nm) { for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = symx_u8(nm); }
uint64_t symx_range(uint64_t lo, uint64_t hi, const char* n) { uint64_t v = symx_u64(n); if (v < lo || v > hi) { if (diverged) return lo; fprintf(fo, "DIVERGED range %s\n", n); die(12); } return v; }
uint64_t symx_concretize(uint64_t v) { return v; }
void symx_assume(bool c) { if (!c) { fprintf(fo, "ASSUMEFAIL\n"); die(12); } }
void symx_check(bool c, const char* m) { if (!c) { fprintf(fo, "CHECKFAIL %s\n", m); die(10); } }
void symx_check_known(bool c, const char* m, const char* id, bool pred) { if (!c) { if (pred) { fprintf(fo, "KNOWN %s %s\n", id, m); die(13); } fprintf(fo, "CHECKFAIL %s\n", m); die(10); } }
void symx_fail(const char* m) { fprintf(fo, "CHECKFAIL %s\n", m); die(10); __builtin_unreachable(); }
void symx_known_fail(const char* m, const char* id) { fprintf(fo, "KNOWN %s %s\n", id, m); die(13); __builtin_unreachable(); }
void symx_reach(const char* l) { fprintf(fo, "REACH %s\n", l); }
void symx_out(const char* n, uint64_t v) { fprintf(fo, "OUT %s=0x%llx\n", n, (unsigned long long)v); }
int64_t symx_param(const char* k, int64_t d) { auto i = params.find(k); return i == params.end() ? d : i->second; }
bool symx_is_symbolic(uint64_t) { return false; } bool symx_in_engine() { return false; }
int symx_try(void (*fn)(void*), void* a) { Try t; t.code = 0; tries.push_back(&t); size_t depth = tries.size(); int r; if (setjmp(t.jb) == 0) { try { fn(a); r = 0; } catch (...) { r = 2; } } else r = tries[depth - 1]->code; tries.resize(depth - 1); return r; }
void symx_abort_try(int c) { if (tries.empty()) { fprintf(fo, "CHECKFAIL abort_try outside try\n"); die(10); } tries.back()->code = c; longjmp(tries.back()->jb, 1); }
void symx_trace(const char* m, ...) { va_list ap; va_start(ap, m); fprintf(stderr, "TRACE "); vfprintf(stderr, m, ap); fprintf(stderr, "\n"); va_end(ap); }
void symx_end_path() { fprintf(fo, "END\n"); die(0); __builtin_unreachable(); }
int64_t symx_heap_live() { return 0; }
long symx_raw_syscall(long nr, ...) { va_list ap; va_start(ap, nr); long a[6]; for (auto& x : a) x = va_arg(ap, long); va_end(ap); return syscall(nr, a[0], a[1], a[2], a[3], a[4], a[5]); }
void symx_main();
}
extern "C" { uint64_t symx_clock_ns = 1700000000000000000ull, symx_clock_step = 1000; }
#include <chrono>
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { symx_clock_ns += symx_clock_step; return time_point(duration((long)symx_clock_ns)); }
} } }
int main(int argc, char** argv) {
  fo = fdopen(dup(1), "w"); setvbuf(fo, nullptr, _IOLBF, 0); FILE* f = fopen(argv[1], "r"); if (!f) return 3; char* line = nullptr; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) { std::string l(line, n); while (!l.empty() && l.back() == '\n') l.pop_back(); if (l.empty()) continue;
    std::vector<std::string> t; size_t i = 0; while (i <= l.size()) { size_t j = l.find('\t', i); if (j == std::string::npos) j = l.size(); t.push_back(l.substr(i, j - i)); i = j + 1; }
    if (t[0] == "param") params[t[1]] = strtoll(t[2].c_str(), nullptr, 0); else ins.push_back({t[1], (unsigned)atoi(t[2].c_str()), t[3]}); }
  fclose(f);
  std::set_terminate([] { fprintf(fo, "TERMINATE\n"); die(14); });
  symx_main();
  if (diverged) die(11); fprintf(fo, "END\n"); die(0); return 0;
}

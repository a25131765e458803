// Interface between harnesses and the symbolic executor (or the native replay runtime).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint8_t symx_u8(const char* name); uint16_t symx_u16(const char* name); uint32_t symx_u32(const char* name); uint64_t symx_u64(const char* name);
float symx_f32(const char* name); double symx_f64(const char* name); bool symx_bool(const char* name);
void symx_bytes(void* p, size_t n, const char* name);
uint64_t symx_range(uint64_t lo, uint64_t hi, const char* name);   // inclusive, symbolic
uint64_t symx_concretize(uint64_t v);                               // fork on the value
void symx_assume(bool c);
void symx_check(bool c, const char* msg);
void symx_check_known(bool c, const char* msg, const char* id, bool pred);
[[noreturn]] void symx_fail(const char* msg);
[[noreturn]] void symx_known_fail(const char* msg, const char* id);
void symx_reach(const char* label);
void symx_out(const char* name, uint64_t v);
int64_t symx_param(const char* key, int64_t def);
bool symx_is_symbolic(uint64_t v);
bool symx_in_engine();
int symx_try(void (*fn)(void*), void* arg);   // 0 normal, 2 exception escaped, other: symx_abort_try code
[[noreturn]] void symx_abort_try(int code);
void symx_trace(const char* m, ...);
[[noreturn]] void symx_end_path();
int64_t symx_heap_live();
}
inline uint64_t symx_pick(uint64_t lo, uint64_t hi, const char* name) { return symx_concretize(symx_range(lo, hi, name)); }
template <class F> int symx_attempt(F&& f) { return symx_try([](void* p) { (*static_cast<decltype(&f)>(p))(); }, (void*)&f); }
#define CHECK(c) symx_check((c), #c)
// boolean connectives without short-circuit branching (keep the solver query whole)
inline bool B_and(bool a, bool b) { return a & b; }
inline bool B_or(bool a, bool b) { return a | b; }
inline bool B_imp(bool a, bool b) { return !a | b; }
extern "C" uint64_t symx_clock_ns, symx_clock_step; // the wall clock advances by step at every reading

// Harness API.  The same harness is linked against the symbolic run-time (rt.cpp) for the solver
// run and against the plain replay run-time (replay.cpp) for confirming a counterexample natively.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
extern "C" {
// fresh symbolic input of `bits` bits (1..64); `name` must be a literal
uint64_t sym_var(const char * name, int bits);
// like sym_var, but the concrete value is enumerated (one path per feasible value) in [0,n)
uint64_t sym_choice(const char * name, uint64_t n);
void sym_assume_(bool c);
void sym_assert_(bool c, const char * label);
void sym_cover(const char * label);
void sym_make(void * p, size_t n, const char * name);  // n symbolic bytes
// concretise: fork one path per feasible value
uint64_t sym_pin(uint64_t v, int bits);
void sym_end();  // end this path
int sym_replaying();
void sym_note(const char * fmt, ...);  // printed on replay only
bool sym_and(bool a, bool b);           // no-fork boolean connectives
void sym_register(const char * name, void (*fn)());
}
static inline double sym_f64(const char * n)
{
  uint64_t v = sym_var(n, 64);
  double d;
  __builtin_memcpy(&d, &v, 8);
  return d;
}
static inline float sym_f32(const char * n)
{
  uint32_t v = (uint32_t)sym_var(n, 32);
  float d;
  __builtin_memcpy(&d, &v, 4);
  return d;
}
static inline bool sym_bool(const char * n) { return sym_var(n, 1) & 1; }
static inline uint8_t sym_u8(const char * n) { return (uint8_t)sym_var(n, 8); }
static inline uint16_t sym_u16(const char * n) { return (uint16_t)sym_var(n, 16); }
static inline uint32_t sym_u32(const char * n) { return (uint32_t)sym_var(n, 32); }
static inline int32_t sym_i32(const char * n) { return (int32_t)sym_var(n, 32); }
static inline uint64_t sym_u64(const char * n) { return sym_var(n, 64); }
static inline int64_t sym_i64(const char * n) { return (int64_t)sym_var(n, 64); }
#define sym_assume(c) sym_assume_(static_cast<bool>(c))
#define sym_assert(c, label) sym_assert_(static_cast<bool>(c), label)
struct SymReg { SymReg(const char * n, void (*f)()) { sym_register(n, f); } };
#define SYM_HARNESS(id) \
  static void harness_##id(); \
  static SymReg symreg_##id(#id, &harness_##id); \
  static void harness_##id()

// Harness API.  Under symx these are intercepted; natively (replay, translator
// validation) they are defined by native_rt.cpp and read values from a file.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
double sym_f64(const char* name);
float sym_f32(const char* name);
uint64_t sym_u64(const char* name);
int64_t sym_i64(const char* name);
uint32_t sym_u32(const char* name);
int32_t sym_i32(const char* name);
uint8_t sym_u8(const char* name);
bool sym_bool(const char* name);
double sym_angle(const char* name);  // angle used through sin/cos only
uint64_t sym_choice(const char* name, uint64_t lo, uint64_t hi);  // enumerated
void sym_assume(bool c);
void sym_check(bool c, const char* label);
void sym_check_nopool(bool c, const char* label);
void sym_pool(bool c);   // assumption that may be sliced away
void sym_pool_clear();
void sym_hint(bool c);   // preference for counterexample models only
void sym_reach(const char* label);
void sym_end();
bool sym_and(bool a, bool b);
bool sym_or(bool a, bool b);
bool sym_not(bool a);
double sym_ite_f64(bool c, double a, double b);
uint64_t sym_ite_u64(bool c, uint64_t a, uint64_t b);
bool sym_same_f64(double a, double b);       // same bits / same real
bool sym_identical_f64(double a, double b);  // same term (native: same bits)
bool sym_finite_f64(double a);
bool sym_is_symbolic();
bool sym_is_const_f64(double a);
double sym_margin();
void sym_trace_f64(const char* label, double v);
void sym_trace_u64(const char* label, uint64_t v);
void sym_thread(uint64_t k);         // what follows runs on thread k
void sym_run_on_thread(void (*f)());  // native
void sym_debug_f64(const char* label, double v);
}
#ifdef SYMX
#define SYM_CASE(n) extern "C" void case_##n()
#else
struct SymReg { SymReg(const char* name, void (*fn)()); };
#define SYM_CASE(n) extern "C" void case_##n(); static SymReg reg_##n{#n, case_##n}; extern "C" void case_##n()
#endif
inline void sym_on_thread(void (*f)()) {
#ifdef SYMX
  sym_thread(1);
  f();
  sym_thread(0);
#else
  sym_run_on_thread(f);
#endif
}
inline bool sym_implies(bool a, bool b) { return sym_or(sym_not(a), b); }
inline bool sym_iff(bool a, bool b) { return sym_or(sym_and(a, b), sym_and(sym_not(a), sym_not(b))); }
template <class... T> inline bool sym_all(bool a, T... r) {
  if constexpr (sizeof...(r) == 0) return a; else return sym_and(a, sym_all(r...));
}
template <class... T> inline bool sym_any(bool a, T... r) {
  if constexpr (sizeof...(r) == 0) return a; else return sym_or(a, sym_any(r...));
}
// Comparisons with a small margin: the symbolic check asks for a violation by
// more than the margin, the native replay fails from half of it.
inline bool near(double a, double b) { double m = sym_margin(); return sym_and(a - b <= m, b - a <= m); }
inline bool nearTol(double a, double b, double tol) { double m = sym_margin() * (tol / 1e-6); return sym_and(a - b <= m, b - a <= m); }
inline void check_near(double a, double b, const char* label) { sym_check(near(a, b), label); }
inline void check_ge(double a, double b, const char* label) { sym_check(a - b >= -sym_margin(), label); }
inline void check_le(double a, double b, const char* label) { check_ge(b, a, label); }
inline double sqr(double a) { return a * a; }
// free bounded real input (bounds only steer models unless assumed)
inline double sym_real(const char* name, double bound = 50) {
  double v = sym_f64(name);
  sym_hint(sym_and(v <= bound, v >= -bound));
  return v;
}
// real input of at most `size`: rounded constants of the code (1.0 / 3) times a
// boundless input would be any distance away from the exact result
inline double sym_within(const char* name, double bound = 50, double size = 1e6) {
  double v = sym_real(name, bound);
  sym_assume(sym_and(v <= size, v >= -size));
  return v;
}

// Native definitions of the harness API: replay and translator validation.
#include "sym.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <thread>
#include <exception>
static std::map<std::string, std::string> vals;
static std::map<std::string, int> occ;
static int failed = 0, assumed = 0;
static std::string key(const char* n) { std::string s = n; return s + "#" + std::to_string(occ[s]++); }
static double F(const char* n) {
  auto k = key(n);
  auto it = vals.find(k);
  if (it == vals.end()) return 0;
  const std::string& v = it->second;
  if (v.rfind("0x", 0) == 0 && v.find('p') == std::string::npos) { uint64_t b = strtoull(v.c_str(), 0, 16); double d; memcpy(&d, &b, 8); return d; }
  return strtod(v.c_str(), 0);
}
static uint64_t I(const char* n) {
  auto k = key(n);
  auto it = vals.find(k);
  if (it == vals.end()) return 0;
  if (it->second == "true") return 1;
  if (it->second == "false") return 0;
  if (it->second[0] == '-') return strtoll(it->second.c_str(), 0, 10);
  return strtoull(it->second.c_str(), 0, 0);
}
static std::map<std::string, void (*)()>& cases() { static std::map<std::string, void (*)()> c; return c; }
SymReg::SymReg(const char* n, void (*f)()) { cases()[n] = f; }
extern "C" {
double sym_f64(const char* n) { return F(n); }
float sym_f32(const char* n) { return (float)F(n); }
uint64_t sym_u64(const char* n) { return I(n); }
int64_t sym_i64(const char* n) { return I(n); }
uint32_t sym_u32(const char* n) { return I(n); }
int32_t sym_i32(const char* n) { return I(n); }
uint8_t sym_u8(const char* n) { return I(n); }
bool sym_bool(const char* n) { return I(n); }
double sym_angle(const char* n) { return F(n); }
uint64_t sym_choice(const char* n, uint64_t lo, uint64_t hi) { uint64_t v = I(n); return v < lo || v > hi ? lo : v; }
void sym_assume(bool c) { if (!c) { printf("ASSUME-FAIL\n"); fflush(stdout); _Exit(77); } }
void sym_check(bool c, const char* l) { if (!c) { failed = 1; printf("CHECK-FAIL %s pool=%d\n", l, assumed); } }
void sym_check_nopool(bool c, const char* l) { if (!c) { failed = 1; printf("CHECK-FAIL %s pool=0\n", l); } }
void sym_pool(bool c) { if (!c) { assumed = 1; } }
void sym_pool_clear() { assumed = 0; }
void sym_hint(bool) {}
void sym_reach(const char* l) { printf("REACH %s\n", l); }
void sym_end() { printf("END failed=%d pool=%d\n", failed, assumed); fflush(stdout); _Exit(failed ? 1 : 0); }
bool sym_and(bool a, bool b) { return a && b; }
bool sym_or(bool a, bool b) { return a || b; }
bool sym_not(bool a) { return !a; }
double sym_ite_f64(bool c, double a, double b) { return c ? a : b; }
uint64_t sym_ite_u64(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
bool sym_same_f64(double a, double b) {
  if (std::isnan(a) && std::isnan(b)) return true;
  return getenv("SYM_EXACT") ? memcmp(&a, &b, 8) == 0 : (a == b || std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)));
}
bool sym_identical_f64(double a, double b) { return a == b || std::isnan(a) && std::isnan(b); }
bool sym_finite_f64(double a) { return std::isfinite(a); }
bool sym_is_symbolic() { return false; }
bool sym_is_const_f64(double) { return false; }
double sym_margin() { return 0.5e-6; }
void sym_trace_f64(const char* l, double v) { uint64_t b; memcpy(&b, &v, 8); printf("TRACE %s %016llx\n", l, (unsigned long long)b); }
void sym_trace_u64(const char* l, uint64_t v) { printf("TRACE %s %016llx\n", l, (unsigned long long)v); }
void sym_debug_f64(const char*, double) {}
void sym_thread(uint64_t) {}
void sym_run_on_thread(void (*f)()) { std::thread{f}.join(); }
}
int main(int argc, char** argv) {
  if (argc < 2 || !cases().count(argv[1])) { printf("no such case\n"); return 2; }
  if (argc > 2) {
    FILE* p = fopen(argv[2], "r");
    char n[512], v[512];
    if (p) { while (fscanf(p, "%511s %511s", n, v) == 2) vals[n] = v; fclose(p); }
  }
  setvbuf(stdout, 0, _IOLBF, 0);
  std::set_terminate([] { printf("CRASH terminate\n"); fflush(stdout); _Exit(99); });
  cases()[argv[1]]();
  printf("END failed=%d pool=%d\n", failed, assumed);
  fflush(stdout);
  _Exit(failed ? 1 : 0);
}

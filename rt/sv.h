// Harness interface. Symbolically executed by engine/sx, and compiled natively
// (rt/native.cpp) to replay counterexamples against the real code.
#pragma once
#include <cstddef>
extern "C" {
double sv_real_(const char* name);
float sv_f32_(const char* name);
unsigned long sv_u64_(const char* name, unsigned long lo, unsigned long hi, unsigned long isSigned);
unsigned char sv_byte_(const char* name);
unsigned long sv_choice_(const char* name, unsigned long n);
void sv_assume_(bool c);
void sv_assert_(bool c, const char* msg);
void sv_eq_(double a, double b, const char* msg);
void sv_leq_(double a, double b, const char* msg);
void sv_reach_(const char* label);
void sv_fail_(const char* msg);
void sv_stop_();
long sv_live_();
long sv_param_(unsigned long i);
bool sv_symbolic_();
void sv_print_(const char* label, double v);
unsigned long sv_concrete_(unsigned long v);
double sv_parse_dec_(const char* p, unsigned long n);
}
namespace sv
{
inline double real(const char* n = "x") { return sv_real_(n); }
inline unsigned long u64(const char* n, unsigned long lo, unsigned long hi) { return sv_u64_(n, lo, hi, 0); }
inline long i64(const char* n, long lo, long hi) { return (long)sv_u64_(n, (unsigned long)lo, (unsigned long)hi, 1); }
inline unsigned char byte(const char* n = "byte") { return sv_byte_(n); }
// one path per value (symbolic variable eagerly split)
inline unsigned long choice(unsigned long n, const char* name = "choice") { return sv_choice_(name, n); }
inline void assume(bool c) { sv_assume_(c); }
inline void check(bool c, const char* m) { sv_assert_(c, m); }
inline void eq(double a, double b, const char* m) { sv_eq_(a, b, m); }
inline void leq(double a, double b, const char* m) { sv_leq_(a, b, m); }
inline void reach(const char* l) { sv_reach_(l); }
[[noreturn]] inline void fail(const char* m) { sv_fail_(m); __builtin_unreachable(); }
[[noreturn]] inline void stop() { sv_stop_(); __builtin_unreachable(); }
inline long live() { return sv_live_(); }
inline long param(unsigned long i = 0) { return sv_param_(i); }
inline bool symbolic() { return sv_symbolic_(); }
inline void print(const char* l, double v) { sv_print_(l, v); }
inline unsigned long conc(unsigned long v) { return sv_concrete_(v); }
}
#define SV_ENTRY(name) extern "C" __attribute__((used, noinline)) void name()

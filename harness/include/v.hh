// Vocabulary of the analysis harnesses.  None of these functions has a body:
// the analyser gives them their meaning.
#ifndef VERIF_V_HH
#define VERIF_V_HH
#include <config.h>
#include <type_traits>
extern "C" {
  double v_real(const char* name, ...);            // arbitrary real number (optional index)
  int    v_int(const char* name);                  // arbitrary integer
  void   v_assume(bool c);
  void   v_true(bool c, const char* rule);
  void   v_eq(double a, double b, const char* rule);
  void   v_eqi(long a, long b, const char* rule);
  void   v_eqp(const void* a, const void* b, const char* rule);
  void   v_label(const char* key, long v);
  void   v_labels(const char* key, const char* v);
  double v_diff(double f, double x);               // partial derivative
  double v_subst(double f, double x, double val);
  int    v_catch(void (*f)(void*), void* ctx, const char* type);
  void   v_allow_throw(int on);
  void   v_print(const char* msg, double v);
  void   v_widen(int on);
  void   v_tol(double t);
  void   v_exact(int on);                          // carry inexact constants as rationals instead of rounding them
  bool   v_isconst(double);
  double v_opaque(const char* name, ...);          // uninterpreted function
  bool   v_feasible(bool c);
  void   v_rpt(double w, ...);
  void   v_rcheck(unsigned topologyId, int dim, int order, int alpha, const char* rule);
  void   v_rinside(unsigned topologyId, int dim, const char* rule);
  long   v_hpstr(const char* s);
  long   v_hpd(double d);
  long   v_hpop(int op, long a, long b);
  double v_hpget(long a);
  void   v_hppt(long x, long w);
  void   v_hpcheck(int alpha, int order, int digits, const char* rule);
  void   v_hpeq(long a, long b, int digits, const char* rule);
  void   v_effects(int mode);
}
#define CHK(name) extern "C" __attribute__((used,noinline)) void chk_##name()

// run f, tell whether it reports an exception of the given type: 0 returned, 1 thrown as expected, 2 other
template<class F> int v_try(F&& f, const char* type)
{
  using G = std::remove_reference_t<F>;
  return v_catch([](void* c) { (*static_cast<G*>(c))(); }, const_cast<void*>(static_cast<const void*>(&f)), type);
}
#endif

#include "vf.hh"
#include <sys/time.h>
#include <time.h>
#include "timeval-utils.hh"
#include "timespec-utils.hh"
#define SEC_MAX ((int64_t) 1 << 60)
typedef struct timeval TV; typedef struct timespec TS;
static bool norm(int64_t s, int64_t f, int64_t unit) { return (f > -unit) & (f < unit) & !((s > 0) & (f < 0)) & !((s < 0) & (f > 0)); }
static bool norm(TV const &t) { return norm(t.tv_sec, t.tv_usec, 1000000); }
static bool norm(TS const &t) { return norm(t.tv_sec, t.tv_nsec, 1000000000); }
// exact comparison of (a.sec, a.frac) + (b.sec, b.frac) with (s.sec, s.frac) in ticks, without leaving 64 bits
static bool exact(int64_t ssec, int64_t sfrac, int64_t sec, int64_t frac, int64_t u) { int64_t c = ssec - sec, f = sfrac - frac; return ((c == 0) & (f == 0)) | ((c == 1) & (f == -u)) | ((c == -1) & (f == u)) | ((c == 2) & (f == -2*u)) | ((c == -2) & (f == 2*u)); }
static int64_t frac(TV const &t) { return t.tv_usec; } static int64_t frac(TS const &t) { return t.tv_nsec; } static int64_t unit(TV const &) { return 1000000; } static int64_t unit(TS const &) { return 1000000000; }
// sign of the instant difference b - a: two seconds apart or more decides, else count ticks
template <class T> static int64_t order(T const &a, T const &b) { int64_t d = (int64_t) b.tv_sec - (int64_t) a.tv_sec, f = frac(b) - frac(a), u = unit(a); return d > 2 ? 1 : d < -2 ? -1 : f + (d == 2 ? 2*u : d == 1 ? u : d == -1 ? -u : d == -2 ? -2*u : 0); }
static void any(TV &t, char const *s, char const *f) { t.tv_sec = vf_i64(s); t.tv_usec = vf_i64(f); vf_assume(norm(t) & (t.tv_sec > -SEC_MAX) & (t.tv_sec < SEC_MAX)); }
static void any(TS &t, char const *s, char const *f) { t.tv_sec = vf_i64(s); t.tv_nsec = vf_i64(f); vf_assume(norm(t) & (t.tv_sec > -SEC_MAX) & (t.tv_sec < SEC_MAX)); }
template <class T> static void arith() {
  T a, b; any(a, "a.sec", "a.frac"); any(b, "b.sec", "b.frac");
  T s = a + b; vf_check(norm(s), "sum is normalised"); vf_check(exact(s.tv_sec, frac(s), a.tv_sec + b.tv_sec, frac(a) + frac(b), unit(a)), "sum is exact");
  T d = a - b; vf_check(norm(d), "difference is normalised"); vf_check(exact(d.tv_sec, frac(d), a.tv_sec - b.tv_sec, frac(a) - frac(b), unit(a)), "difference is exact");
}
template <class T> static void compare() {
  T a, b; any(a, "a.sec", "a.frac"); any(b, "b.sec", "b.frac");
  vf_check((a < b) == (order(a, b) > 0), "less agrees with the instants"); vf_check((a > b) == (order(a, b) < 0), "greater agrees with the instants");
  vf_check((a == b) == (order(a, b) == 0), "equal agrees with the instants");
}
PROOF(timeval_arith) { arith<TV>(); }
PROOF(timespec_arith) { arith<TS>(); }
PROOF(timeval_compare) { compare<TV>(); }
PROOF(timespec_compare) { compare<TS>(); }
static bool inrange(double d) { return (d >= -9223372036854775808.0) & (d < 9223372036854775808.0); }
// the fraction is exact: d and its truncation differ by an exactly representable amount
PROOF(timeval_from_double) {
  double d = vf_f64("d"); vf_assume(inrange(d));
  TV t = doubleToTimeval(d);
  vf_check(t.tv_sec == (int64_t) d || (t.tv_usec == 0 && (t.tv_sec == (int64_t) d + 1 || t.tv_sec == (int64_t) d - 1)), "whole seconds");
  double x = 1000000.0 * (d - (double) (int64_t) d);
  vf_check(norm(t), "normalised");
  vf_check(t.tv_sec != (int64_t) d || t.tv_usec == (int64_t) x, "fraction within one tick");
  TV u; u.tv_sec = vf_i64("u.sec"); u.tv_usec = vf_i64("u.usec"); doubleToTimeval(d, u);
  vf_check(u.tv_sec == t.tv_sec && u.tv_usec == t.tv_usec, "both forms agree");
}
PROOF(timespec_from_double) {
  double d = vf_f64("d"); vf_assume(inrange(d));
  TS t = doubleToTimespec(d);
  vf_check(t.tv_sec == (int64_t) d || (t.tv_nsec == 0 && (t.tv_sec == (int64_t) d + 1 || t.tv_sec == (int64_t) d - 1)), "whole seconds");
  double x = 1000000000.0 * (d - (double) (int64_t) d);
  vf_check(norm(t), "normalised");
  vf_check(t.tv_sec != (int64_t) d || t.tv_nsec == (int64_t) x, "fraction within one tick");
  TS u; u.tv_sec = vf_i64("u.sec"); u.tv_nsec = vf_i64("u.nsec"); doubleToTimespec(d, u);
  vf_check(u.tv_sec == t.tv_sec && u.tv_nsec == t.tv_nsec, "both forms agree");
}
static void junk() { volatile int64_t a[64]; for (int i = 0; i < 64; ++i) a[i] = 0x5a5a5a5a5a5a5a5aLL; }
PROOF(timeval_out_of_range) {
  double d = vf_f64("d"); vf_assume(!inrange(d));
  TV t = doubleToTimeval(d); vf_check(norm(t), "out of range: result is defined and normalised");
  TV u = { 5, 6 }; doubleToTimeval(d, u); vf_check(norm(u), "out of range: result argument is defined and normalised");
}
PROOF(timespec_out_of_range) {
  double d = vf_f64("d"); vf_assume(!inrange(d));
  TS t = doubleToTimespec(d); vf_check(norm(t), "out of range: result is defined and normalised");
  TS u = { 5, 6 }; doubleToTimespec(d, u); vf_check(norm(u), "out of range: result argument is defined and normalised");
}
PROOF(timeval_to_double) { TV t; any(t, "sec", "frac"); double d = timevalToDouble(t), s = (double) t.tv_sec, f = (double) t.tv_usec / 1000000.0; vf_check(vf_same_f64(d, s + f) || vf_same_f64(d, f + s), "seconds plus fraction"); }
PROOF(timespec_to_double) { TS t; any(t, "sec", "frac"); double d = timespecToDouble(t), s = (double) t.tv_sec, f = (double) t.tv_nsec / 1000000000.0; vf_check(vf_same_f64(d, s + f) || vf_same_f64(d, f + s), "seconds plus fraction"); }

// Contract harness vocabulary.  The same text is verified symbolically (vf/proof.py gives these functions their meaning:
// vf_i32 & co. return arbitrary values, vf_assume restricts, vf_check is a proof obligation) and compiled natively for replay.
#ifndef VF_HH
#define VF_HH
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <algorithm>
#include <functional>
#include <utility>
extern "C" {
  bool vf_bool(char const *name); uint8_t vf_u8(char const *name); uint16_t vf_u16(char const *name);
  int32_t vf_i32(char const *name); uint32_t vf_u32(char const *name); int64_t vf_i64(char const *name); uint64_t vf_u64(char const *name);
  float vf_f32(char const *name); double vf_f64(char const *name);
  size_t vf_size(char const *name, size_t lo, size_t hi);     // arbitrary size within bounds (replay uses small ones)
  void vf_string(std::string *s, char const *name);
  void vf_vec_u8(std::vector<uint8_t> *v, char const *name); void vf_vec_i32(std::vector<int32_t> *v, char const *name); void vf_vec_f64(std::vector<double> *v, char const *name);
  void vf_vec_bool(std::vector<bool> *v, char const *name, size_t n);   // n arbitrary flags
  void vf_assume(bool c);
  void vf_check(bool c, char const *what);
  void vf_expect_error(bool c);      // from here on: an error is reported exactly when c
  bool vf_same_f64(double a, double b);  // same bit pattern, or both NaN
}
#define EACH_INT_REAL(n) PROOF(n##_Integer) { n<PLEXIL::Integer>(); } PROOF(n##_Real) { n<PLEXIL::Real>(); }
#define EACHNUM(n) PROOF(n##_Boolean) { n<PLEXIL::Boolean>(); } EACH_INT_REAL(n)
#define EACH(n) EACHNUM(n) PROOF(n##_String) { n<PLEXIL::String>(); }
#define EACHTYPE(n) EACH(n) PROOF(n##_NodeState) { n<PLEXIL::NodeState>(); } PROOF(n##_NodeOutcome) { n<PLEXIL::NodeOutcome>(); } PROOF(n##_FailureType) { n<PLEXIL::FailureType>(); } PROOF(n##_CommandHandleValue) { n<PLEXIL::CommandHandleValue>(); } PROOF(n##_BooleanArray) { n<PLEXIL::BooleanArray>(); } PROOF(n##_IntegerArray) { n<PLEXIL::IntegerArray>(); } PROOF(n##_RealArray) { n<PLEXIL::RealArray>(); } PROOF(n##_StringArray) { n<PLEXIL::StringArray>(); } PROOF(n##_Unk) { n<Unk>(); }
#define EACHCACHED(n) EACH(n) PROOF(n##_BooleanArray) { n<PLEXIL::BooleanArray>(); } PROOF(n##_IntegerArray) { n<PLEXIL::IntegerArray>(); } PROOF(n##_RealArray) { n<PLEXIL::RealArray>(); } PROOF(n##_StringArray) { n<PLEXIL::StringArray>(); }
struct Val { int v; Val(int x = 0) : v(x) {} operator int() const { return v; } };      // a value type with a default
// vectors of pairs, strictly increasing in their first component
#ifdef VF_SYMBOLIC
extern "C" { void vf_vec_n(void *v, char const *name, char const *kind, size_t n); void vf_forall(size_t i, size_t lo, size_t hi, bool c, void const *, void const *, void const *, void const *); void vf_hint(size_t w, bool c);
  void vf_hint_u8(size_t w, void const *p, uint8_t x); void vf_hint_i32(size_t w, void const *p, int32_t x); void vf_hint_f64(size_t w, void const *p, double x); void vf_hint_str(size_t w, void const *p, std::string const *x);
  bool vf_same_string(std::string const *, std::string const *); char vf_char(std::string const *, size_t); size_t vf_length(std::string const *); uint64_t vf_f64_bits(double); double vf_f64_from(uint64_t);
  void vf_inv(bool (*f)(void *, size_t), void *ctx);      // loop invariant: f(ctx, rounds done) holds whenever a loop is at its head (dropped where it does not)
  void vf_loc_inv(bool (*f)(void *, size_t, size_t), void *ctx);      // the same about every number (or distance of a pointer into its buffer) the loop changes: f(ctx, rounds done, its value)
  void vf_total(size_t n);
  void vf_instead(char const *callee, void (*f)()); }     // from here on calls of callee run f: a function of the harness that states callee's contract
inline void vf_elems(std::vector<uint8_t> *v, char const *n, size_t l) { vf_vec_n(v, n, "i8", l); }
inline void vf_elems(std::vector<bool> *v, char const *n, size_t l) { vf_vec_bool(v, n, l); } inline void vf_elems(std::vector<int32_t> *v, char const *n, size_t l) { vf_vec_n(v, n, "i32", l); }
inline void vf_elems(std::vector<uint64_t> *v, char const *n, size_t l) { vf_vec_n(v, n, "i64", l); } inline void vf_elems(std::vector<double> *v, char const *n, size_t l) { vf_vec_n(v, n, "f64", l); } inline void vf_elems(std::vector<std::string> *v, char const *n, size_t l) { vf_vec_n(v, n, "s", l); }
extern "C" { void vf_vec_raw(void *v, char const *name, char const *fields); void vf_increasing(void *v); }
inline void vf_vec(std::vector<std::pair<int, Val>> *v, char const *n) { vf_vec_raw(v, n, "i32,i32"); }
inline void vf_vec(std::vector<int> *v, char const *n) { vf_vec_raw(v, n, "i32"); }
template <class T> void vf_sorted(std::vector<T> *v) { vf_increasing(v); }
// contract of the standard binary searches (used in place of their library bodies)
namespace std {
  template <class It, class V, class C> It vf_lower_bound(It first, It last, V const &val, C comp) {
    size_t n = last - first, k = vf_size("lower bound", 0, n);
    vf_assume(k == n || !comp(*(first + k), val)); vf_assume(k == 0 || comp(*(first + (k - 1)), val));
    return first + k; }
  template <class It, class V, class C> bool vf_binary_search(It first, It last, V const &val, C comp) { It i = vf_lower_bound(first, last, val, comp); return i != last && !comp(val, *i); }
}
#else
#define vf_forall(...) ((void) 0)
inline bool vf_same_string(std::string const *a, std::string const *b) { return *a == *b; } inline char vf_char(std::string const *s, size_t i) { return i < s->size() ? (*s)[i] : 0; } inline size_t vf_length(std::string const *s) { return s->size(); }
inline uint64_t vf_f64_bits(double d) { uint64_t u; __builtin_memcpy(&u, &d, 8); return u; } inline double vf_f64_from(uint64_t u) { double d; __builtin_memcpy(&d, &u, 8); return d; }
inline void vf_inv(bool (*)(void *, size_t), void *) {} inline void vf_total(size_t) {} inline void vf_loc_inv(bool (*)(void *, size_t, size_t), void *) {} inline void vf_instead(char const *, void (*)()) {}
inline void vf_elems(std::vector<uint8_t> *v, char const *n, size_t l) { v->resize(l); for (auto &x : *v) x = vf_u8(n); }
inline void vf_hint(size_t, bool) {} inline void vf_hint_u8(size_t, void const *, uint8_t) {} inline void vf_hint_i32(size_t, void const *, int32_t) {} inline void vf_hint_f64(size_t, void const *, double) {} inline void vf_hint_str(size_t, void const *, std::string const *) {}
inline void vf_elems(std::vector<bool> *v, char const *n, size_t l) { vf_vec_bool(v, n, l); }
inline void vf_elems(std::vector<int32_t> *v, char const *n, size_t l) { v->resize(l); for (auto &x : *v) x = vf_u8(n) % 4 ? vf_u8(n) % 5 : vf_i32(n); }
inline void vf_elems(std::vector<double> *v, char const *n, size_t l) { v->resize(l); for (auto &x : *v) x = vf_u8(n) % 4 ? vf_u8(n) % 5 : vf_i32(n) / 16.0; }
inline void vf_elems(std::vector<std::string> *v, char const *n, size_t l) { v->resize(l); for (auto &x : *v) vf_string(&x, n); }
inline int vf_small(char const *n) { return vf_u8(n) % 16; }
inline void vf_vec(std::vector<std::pair<int, Val>> *v, char const *n) { size_t l = vf_size(n, 0, 40); v->clear(); for (size_t i = 0; i < l; ++i) v->push_back(std::make_pair(vf_small("k") * (i % 7 + 1) - 20, vf_i32("v"))); }
inline void vf_vec(std::vector<int> *v, char const *n) { size_t l = vf_size(n, 0, 40); v->clear(); for (size_t i = 0; i < l; ++i) v->push_back(vf_small("k") * (i % 7 + 1) - 20); }
inline int vf_key(int i) { return i; } inline int vf_key(std::pair<int, Val> const &p) { return p.first; }
template <class T> void vf_sorted(std::vector<T> *v) { std::sort(v->begin(), v->end(), [](T const &a, T const &b) { return vf_key(a) < vf_key(b); }); v->erase(std::unique(v->begin(), v->end(), [](T const &a, T const &b) { return vf_key(a) == vf_key(b); }), v->end()); }
#endif
// a family of objects 1..n built like a prototype (fields given to any() are arbitrary); 0 stands for the null pointer
#ifdef VF_SYMBOLIC
extern "C" { void *vf_fam(char const *name, void *proto, size_t size, size_t n); void *vf_fam_at(void *fam, size_t i); size_t vf_fam_id(void *fam, void const *p); void vf_forall_fam(size_t i, size_t lo, size_t hi, bool c, void *fam); void vf_vec_fam(void *v, void *fam, size_t n); void vf_pair_inv(bool (*f)(void *, size_t, size_t, size_t), void *ctx); void vf_pair_inv_f64(bool (*f)(void *, size_t, size_t, double), void *ctx);      // a loop invariant about every flag and number the loop changes: f(ctx, rounds done, flag, number)
  void vf_fam_any(void *fam, size_t off, size_t size); void vf_fam_chain(void *fam, size_t off, size_t n); void vf_fam_order(void *fam, size_t off, size_t n); }
template <class T> struct Fam { char const *name; T proto; void *h; size_t na, offs[8], sizes[8]; Fam(char const *nm) : name(nm), h(nullptr), na(0) {}
  template <class X> size_t off(X *p) { return (char *) p - (char *) &proto; }
  template <class X> void any(X *p, char const *) { offs[na] = off(p); sizes[na++] = sizeof(X) + (std::is_same<X, bool>::value ? 256 : std::is_same<X, double>::value ? 512 : 0); }
  void make(size_t n) { h = vf_fam(name, &proto, sizeof(T), n); for (size_t i = 0; i < na; ++i) vf_fam_any(h, offs[i], sizes[i]); }
  T *at(size_t i) { return (T *) vf_fam_at(h, i); } size_t id(T const *p) { return vf_fam_id(h, p); }
  void chain(T **p, size_t n) { vf_fam_chain(h, off(p), n); } template <class X> void nondecreasing(X *p, size_t n) { vf_fam_order(h, off(p), n); } };
#else
template <class T> struct Fam { char const *name; T proto; std::vector<T *> v; size_t na, offs[8], sizes[8]; char const *names[8]; Fam(char const *nm) : name(nm), v(1, nullptr), na(0) {} ~Fam() { for (T *t : v) delete t; }
  template <class X> size_t off(X *p) { return (char *) p - (char *) &proto; }
  template <class X> void any(X *p, char const *n) { names[na] = n; offs[na] = off(p); sizes[na++] = std::is_same<X, bool>::value ? 1 : sizeof(X) == 1 ? 2 : sizeof(X); }
  void make(size_t n) { if (n > 1000) n = 1000; for (size_t i = 0; i < n; ++i) { T *t = new T(); v.push_back(t); for (size_t j = 0; j < na; ++j) { char *a = (char *) t + offs[j]; if (sizes[j] == 1) *a = vf_bool(names[j]); else if (sizes[j] == 2) *a = vf_u8(names[j]) % 21; else if (sizes[j] == 4) *(int32_t *) a = vf_u8(names[j]) % 6; else *(uint64_t *) a = vf_u8(names[j]) % 6; } } }
  T *at(size_t i) { return v.at(i); } size_t id(T const *p) { for (size_t i = 0; i < v.size(); ++i) if (v[i] == p) return i; return v.size(); }
  void chain(T **p, size_t n) { for (size_t i = 1; i < n; ++i) *(T **) ((char *) v.at(i) + off(p)) = v.at(i + 1); }
  template <class X> void nondecreasing(X *p, size_t n) { std::vector<X> xs; for (size_t i = 1; i <= n; ++i) xs.push_back(*(X *) ((char *) v.at(i) + off(p))); std::sort(xs.begin(), xs.end()); for (size_t i = 1; i <= n; ++i) *(X *) ((char *) v.at(i) + off(p)) = xs[i - 1]; } };
#endif
// v: the family's n members
#ifdef VF_SYMBOLIC
template <class T, class B> void vf_members(std::vector<B *> *v, Fam<T> &f, size_t n) { vf_vec_fam(v, f.h, n); }
// element i's field p (given in the vector's first element's type) points to member i + 1, where the flag at present is set (null: everywhere), else is null
extern "C" { void vf_struct_field(char const *type, size_t size, size_t off, int kind); void vf_field_fam(void *v, size_t off, void *fam, size_t present); }
template <class S, class T, class B> void vf_field(std::vector<S> *v, B *S::*p, Fam<T> &f, bool *present) { vf_field_fam(v, (char *) &(((S *) 0)->*p) - (char *) 0, f.h, present ? f.off(present) : (size_t) -1); }
#else
template <class T, class B> void vf_members(std::vector<B *> *v, Fam<T> &f, size_t n) { v->clear(); for (size_t i = 1; i <= n; ++i) v->push_back(f.at(i)); }
template <class S, class T, class B> void vf_field(std::vector<S> *v, B *S::*p, Fam<T> &f, bool *present) { for (size_t i = 0; i < v->size(); ++i) { T *t = f.at(i + 1); (*v)[i].*p = !present || *(bool *) ((char *) t + f.off(present)) ? t : nullptr; } }
inline void vf_struct_field(char const *, size_t, size_t, int) {}
inline void vf_forall_fam(size_t, size_t, size_t, bool, void *) {}
inline void vf_pair_inv(bool (*)(void *, size_t, size_t, size_t), void *) {} inline void vf_pair_inv_f64(bool (*)(void *, size_t, size_t, double), void *) {}
#endif
#define PROOF(name) extern "C" void proof_##name()
#endif

#include "vf.hh"
#include "ArrayImpl.hh"
#include "Value.hh"
#include "PlexilTypeTraits.hh"
#include <cmath>
using namespace PLEXIL;
static const size_t MAXN = 1000000000;
struct Unk {};        // an unknown value without a type of its own
template <class T> struct K { static const bool array = false; };
template <class E> struct K<ArrayImpl<E>> { static const bool array = true; };
template <class T> ValueType type_of() { return PlexilValueType<T>::value; } template <> ValueType type_of<Unk>() { uint8_t t = vf_u8("type"); return t == 1 ? DATE_TYPE : t == 2 ? DURATION_TYPE : UNKNOWN_TYPE; }
template <class E> ValueType aty() { return arrayType(PlexilValueType<E>::value); }
template <> ValueType type_of<BooleanArray>() { return BOOLEAN_ARRAY_TYPE; } template <> ValueType type_of<IntegerArray>() { return INTEGER_ARRAY_TYPE; } template <> ValueType type_of<RealArray>() { return REAL_ARRAY_TYPE; } template <> ValueType type_of<StringArray>() { return STRING_ARRAY_TYPE; }
template <> ValueType type_of<NodeState>() { return NODE_STATE_TYPE; } template <> ValueType type_of<NodeOutcome>() { return OUTCOME_TYPE; } template <> ValueType type_of<FailureType>() { return FAILURE_TYPE; } template <> ValueType type_of<CommandHandleValue>() { return COMMAND_HANDLE_TYPE; }
// x: an arbitrary value of the type
template <class T> struct Some { T x; Some() : x((T) vf_u8("value")) {} }; template <> struct Some<Unk> { Unk x; };
template <> struct Some<Boolean> { Boolean x; Some() : x(vf_bool("value")) {} }; template <> struct Some<Integer> { Integer x; Some() : x(vf_i32("value")) {} }; template <> struct Some<Real> { Real x; Some() : x(vf_f64("value")) {} }; template <> struct Some<String> { String x; Some() { vf_string(&x, "value"); } };
template <class E> struct Some<ArrayImpl<E>> { ArrayImpl<E> x; Some() { size_t n = vf_size("size", 0, MAXN); vf_vec_bool(&x.m_known, "known", n); vf_elems(&x.m_contents, "element", n); } };
inline bool eq(bool a, bool b) { return a == b; } inline bool eq(int32_t a, int32_t b) { return a == b; } inline bool eq(double a, double b) { return vf_same_f64(a, b); } inline bool eq(String const &a, String const &b) { return a == b; }
template <class E> void same_array(ArrayImpl<E> const &p, ArrayImpl<E> const &x) { size_t n = x.m_known.size(); vf_check(p.m_known.size() == n && p.m_contents.size() == n, "the array has the same size"); if (n) { size_t w = vf_size("witness", 0, n - 1); vf_check(p.m_known[w] == x.m_known[w], "the same elements are known"); vf_check(eq(p.m_contents[w], x.m_contents[w]), "the elements are the same"); } }
template <class T> struct Is { static void value(Value const &v, T const &x) { T r; vf_check(v.getValue(r) && r == x, "its value is the one given"); } }; template <> struct Is<Unk> { static void value(Value const &, Unk const &) {} };
template <> struct Is<Real> { static void value(Value const &v, Real const &x) { Real r; vf_check(v.getValue(r) && vf_same_f64(r, x), "its value is the one given"); } };
template <> struct Is<String> { static void value(Value const &v, String const &x) { String r; vf_check(v.getValue(r) && r == x, "its value is the one given"); String const *p = nullptr; vf_check(v.getValuePointer(p) && *p == x, "also through a pointer"); } };
template <class E> struct Is<ArrayImpl<E>> { static void value(Value const &v, ArrayImpl<E> const &x) { ArrayImpl<E> const *p = nullptr; vf_check(v.getValuePointer(p) && p, "its value is available"); same_array(*p, x); Array const *q = nullptr; vf_check(v.getValuePointer(q) && q && q->size() == x.size(), "also as a generic array"); } };
// v is known with value x, or unknown, of type t
template <class T> void is(Value const &v, bool known, T const &x, ValueType t) { vf_check(v.isKnown() == known, "known as expected"); vf_check(v.valueType() == t, "of the expected type"); if (known) Is<T>::value(v, x); }
// Build<T, known>: an arbitrary Value of that type
template <class T, bool KN> struct Any : Some<T> { ValueType t; Value v; Any() : t(type_of<T>()), v(this->x) {} void check(Value const &w) { is<T>(w, true, this->x, t); } };
template <class T> struct Any<T, false> : Some<T> { ValueType t; Value v; Any() : t(type_of<T>()), v(t) {} void check(Value const &w) { is<T>(w, false, this->x, t); } };
template <> struct Any<Unk, true> : Any<Unk, false> {};
#define TYPES(X) X(Boolean) X(Integer) X(Real) X(String) X(NodeState) X(NodeOutcome) X(FailureType) X(CommandHandleValue) X(BooleanArray) X(IntegerArray) X(RealArray) X(StringArray) X(Unk)
#define BOTH(f) template <class T> void f() { if (vf_bool("is known")) f##_as<T, true>(); else f##_as<T, false>(); }
template <class T, bool KN> void make_as() { Any<T, KN> a; a.check(a.v); if (!KN) { Boolean b; Integer i; Real r; String s; vf_check(!a.v.getValue(b) && !a.v.getValue(i) && !a.v.getValue(r) && !a.v.getValue(s), "an unknown has no value of any type"); } }
BOTH(make) EACHTYPE(make)
template <class T, bool KN> void copy_as() { Any<T, KN> a; Value b(a.v); a.check(b); a.check(a.v); Value c(a.v.toValue()); a.check(c); Value d(std::move(b)); a.check(d); b = Value(); vf_check(b == Value(), "a moved-from value can be reused"); a.v = *&a.v; a.check(a.v); a.v = static_cast<Value &&>(a.v); a.check(a.v); a.v.setUnknown(); vf_check(!a.v.isKnown() && a.v.valueType() == UNKNOWN_TYPE, "made unknown"); a.check(c); a.check(d); }
BOTH(copy) EACHTYPE(copy)
// assigning over any old value
template <class T, bool KN, class O, bool OK> void over() { Any<T, KN> a; { Any<O, OK> o; o.v = a.v; a.check(o.v); a.check(a.v); } { Any<O, OK> o; Value tmp(a.v); o.v = std::move(tmp); a.check(o.v); } }
template <class T, bool KN> void assign_as() { uint8_t c = vf_u8("old type"); bool k = vf_bool("old known"); uint8_t n = 0;
#define OVER(O) if (c == n++) { if (k) over<T, KN, O, true>(); else over<T, KN, O, false>(); return; }
  TYPES(OVER) }
BOTH(assign) EACHTYPE(assign)
template <class T> struct Set { static void to(Value &v, T const &x) { v = x; } }; template <> struct Set<Unk> { static void to(Value &v, Unk const &) { v.setUnknown(); } };
template <class T, class O, bool OK> void seto() { Any<O, OK> o; Some<T> s; Set<T>::to(o.v, s.x); is<T>(o.v, true, s.x, type_of<T>()); }
template <class O, bool OK> void setu() { Any<O, OK> o; o.v.setUnknown(); vf_check(!o.v.isKnown() && o.v.valueType() == UNKNOWN_TYPE, "unknown"); }
template <class T> void set_to() { uint8_t c = vf_u8("old type"); bool k = vf_bool("old known"); uint8_t n = 0;
#define SETO(O) if (c == n++) { if (k) seto<T, O, true>(); else seto<T, O, false>(); return; }
  TYPES(SETO) }
template <> void set_to<Unk>() { uint8_t c = vf_u8("old type"); bool k = vf_bool("old known"); uint8_t n = 0;
#define SETU(O) if (c == n++) { if (k) setu<O, true>(); else setu<O, false>(); return; }
  TYPES(SETU) }
EACHTYPE(set_to)
// reading as the wrong type is an error
template <class T, class R> void misread_as() { Any<T, true> a; vf_expect_error(true); R r; if (a.v.getValue(r)) vf_check(false, "a value of another type is returned"); }
template <class T, class R> void misread_ptr() { Any<T, true> a; vf_expect_error(true); R const *r; if (a.v.getValuePointer(r)) vf_check(false, "a value of another type is returned"); }
template <class T> void misread() { uint8_t c = vf_u8("asked for");
#define MIS(n, R) if (c == n && type_of<T>() != type_of<R>()) misread_as<T, R>();
#define MISP(n, R) if (c == n && type_of<T>() != type_of<R>()) misread_ptr<T, R>();
  MIS(0, Boolean) MIS(1, Integer) if (type_of<T>() != INTEGER_TYPE) { MIS(2, Real) } MIS(3, String) MIS(4, NodeState) MIS(5, NodeOutcome) MIS(6, FailureType) MIS(7, CommandHandleValue) MISP(8, String) MISP(9, BooleanArray) MISP(10, IntegerArray) MISP(11, RealArray) MISP(12, StringArray) if (!K<T>::array && c == 13) misread_ptr<T, Array>(); }
template <> void misread<Unk>() {}
EACHTYPE(misread)
PROOF(integer_as_real) { Any<Integer, true> a; Real r; vf_check(a.v.getValue(r) && r == (Real) a.x, "an Integer reads as the equal Real"); }
// equality and order
template <class A, class B> struct Rel { static bool num() { return false; } static bool e(A const &, B const &) { return false; } static bool l(A const &, B const &) { return false; } static void pre(A const &, B const &) {} static const bool same = false; };
template <class A> struct Rel<A, A> { static bool num() { return false; } static bool e(A const &a, A const &b) { return a == b; } static bool l(A const &a, A const &b) { return a < b; } static void pre(A const &, A const &) {} static const bool same = true; };
template <class E> struct Rel<ArrayImpl<E>, ArrayImpl<E>> { static bool num() { return false; } static bool e(ArrayImpl<E> const &, ArrayImpl<E> const &) { return false; } static bool l(ArrayImpl<E> const &, ArrayImpl<E> const &) { return false; } static void pre(ArrayImpl<E> const &, ArrayImpl<E> const &) {} static const bool same = true; };
template <> struct Rel<Unk, Unk> : Rel<Unk, Boolean> { static bool e(Unk const &, Unk const &) { return false; } static bool l(Unk const &, Unk const &) { return false; } static void pre(Unk const &, Unk const &) {} };
template <class A, class B> struct Num { static bool num() { return true; } static bool e(A const &a, B const &b) { return (Real) a == (Real) b; } static bool l(A const &a, B const &b) { return (Real) a < (Real) b; } static void pre(A const &a, B const &b) { vf_assume((Real) a == (Real) a); vf_assume((Real) b == (Real) b); } static const bool same = true; };
template <> struct Rel<Real, Real> : Num<Real, Real> {}; template <> struct Rel<Real, Integer> : Num<Real, Integer> {}; template <> struct Rel<Integer, Real> : Num<Integer, Real> {};
inline void relates(Value const &a, Value const &b, bool e, bool l, bool g) {
  vf_check(a.equals(b) == e, "equal exactly when of one kind with equal values"); vf_check(b.equals(a) == e, "equality is symmetric"); vf_check(a.lessThan(b) == l, "less exactly when ordered before"); vf_check(b.lessThan(a) == g, "greater exactly when ordered after");
  vf_check((a == b) == e && (a != b) == !e && (a < b) == l && (a > b) == g && (a <= b) == !g && (a >= b) == !l, "operators agree"); }
template <class A, bool KA, class B, bool KB> void pair() { Any<A, KA> a; Any<B, KB> b; typedef Rel<A, B> R; if (K<A>::array && K<B>::array && KA && KB && R::same) return;
  bool ka = KA && type_of<A>() > DURATION_TYPE; (void) ka; bool knowna = a.v.isKnown(), knownb = b.v.isKnown();
  if (knowna != knownb) relates(a.v, b.v, false, !knowna, knowna);
  else if (knowna) { R::pre(a.x, b.x); if (R::same) relates(a.v, b.v, R::e(a.x, b.x), R::l(a.x, b.x), !R::e(a.x, b.x) && !R::l(a.x, b.x)); else relates(a.v, b.v, false, a.t < b.t, b.t < a.t); }
  else { bool e = a.t == b.t || R::num(); relates(a.v, b.v, e, !e && a.t < b.t, !e && b.t < a.t); } }
template <class A, bool KA> void order_as() { uint8_t c = vf_u8("other type"); bool k = vf_bool("other known"); uint8_t n = 0;
#define PAIR(O) if (c == n++) { if (k) pair<A, KA, O, true>(); else pair<A, KA, O, false>(); return; }
  TYPES(PAIR) }
BOTH(order) EACHTYPE(order)
// arrays: related by the position d of their first difference
inline bool less(bool a, bool b) { return !a & b; } inline bool less(int32_t a, int32_t b) { return a < b; } inline bool less(double a, double b) { return a < b; } inline bool less(String const &a, String const &b) { return a < b; }
inline bool noteq(double a, double b) { return !(a == b); } inline bool noteq(bool a, bool b) { return a != b; } inline bool noteq(int32_t a, int32_t b) { return a != b; } inline bool noteq(String const &a, String const &b) { return !(a == b); }
inline bool nan(double a) { return a != a; } inline bool nan(bool) { return false; } inline bool nan(int32_t) { return false; } inline bool nan(String const &) { return false; }
template <class T> struct Two { ArrayImpl<T> a, b; size_t n, m, d; bool e, l, g;
  bool alike(size_t i) { return (a.m_known[i] == b.m_known[i]) & (!a.m_known[i] | !noteq(a.m_contents[i], b.m_contents[i])); }
  Two() : n(vf_size("size", 0, MAXN)), m(n), d(0), e(false), l(false), g(false) {}
  void make() { vf_vec_bool(&a.m_known, "known", n); vf_elems(&a.m_contents, "element", n); vf_vec_bool(&b.m_known, "other known", m); vf_elems(&b.m_contents, "other element", m); } };
template <class T> struct Sizes : Two<T> { Sizes() { this->m = vf_size("other size", 0, MAXN); vf_assume(this->n != this->m); this->make(); this->l = this->n < this->m; this->g = this->n > this->m; } };
template <class T> struct Prefix : Two<T> {       // alike below d
  Prefix(bool all) { size_t n = this->n; if (all) this->d = n; else { vf_assume(n > 0); this->d = vf_size("first difference", 0, n - 1); } size_t i = vf_size("i", 0, n ? n - 1 : 0); this->make();
#ifndef VF_SYMBOLIC
    for (size_t j = 0; j < this->d; ++j) { this->b.m_known[j] = this->a.m_known[j]; if (this->a.m_known[j]) this->b.m_contents[j] = this->a.m_contents[j]; }
    vf_assume(n != 0);
#endif
    if (n) { vf_forall(i, 0, this->d, this->alike(i), &this->a.m_known, &this->b.m_known, &this->a.m_contents, &this->b.m_contents); vf_forall(i, 0, n, !nan(this->a.m_contents[i]) & !nan(this->b.m_contents[i]), &this->a.m_contents, &this->b.m_contents, nullptr, nullptr); }
    vf_hint(this->d + 1, false); } };
template <class T> struct Alike : Prefix<T> { Alike() : Prefix<T>(true) { this->e = true; } };
template <class T> struct Differ : Prefix<T> { Differ() : Prefix<T>(false) { size_t d = this->d; vf_assume(!this->alike(d)); bool ka = this->a.m_known[d], kb = this->b.m_known[d]; this->l = (!ka & kb) | (ka & kb & less(this->a.m_contents[d], this->b.m_contents[d])); this->g = !this->l; } };
template <class X> void order_of() { X x; uint8_t op = vf_u8("operator");
  switch (op) {
  case 0: vf_check((x.a == x.b) == x.e, "arrays are equal exactly when of one size with alike elements"); break;
  case 1: vf_check((x.a != x.b) == !x.e, "inequality is its negation"); break;
  case 2: vf_check((x.a < x.b) == x.l, "order: by size, then by the first difference, unknown first"); break;
  case 3: vf_check((x.b < x.a) == x.g, "the order is antisymmetric and total"); break;
  case 4: vf_check((x.a > x.b) == x.g, "greater"); break;
  case 5: vf_check((x.a <= x.b) == !x.g, "at most"); break;
  case 6: vf_check((x.a >= x.b) == !x.l, "at least"); break;
  case 7: { Array const &ga = x.a, &gb = x.b; vf_check((ga == gb) == x.e, "generic comparison agrees"); break; }
  case 8: { Value a(x.a), b(x.b); vf_check(a.equals(b) == x.e, "array values are equal exactly when the arrays are"); break; }
  case 9: { Value a(x.a), b(x.b); vf_check(a.lessThan(b) == x.l, "array values order as the arrays"); break; }
  case 10: { Value a(x.a), b(x.b); vf_check(b.lessThan(a) == x.g, "array values order as the arrays, both ways round"); break; }
  default: break; } }
template <class T> void array_sizes() { order_of<Sizes<T>>(); }
EACH(array_sizes)
template <class T> void array_alike() { order_of<Alike<T>>(); }
EACH(array_alike)
template <class T> void array_differ() { order_of<Differ<T>>(); }
EACH(array_differ)
PROOF(array_types) { IntegerArray i(vf_size("size", 0, MAXN)); RealArray r(vf_size("size", 0, MAXN)); BooleanArray b; StringArray s; Array const &gi = i, &gr = r, &gb = b, &gs = s; vf_check(!(gi == gr) && !(gr == gi) && !(gb == gs) && !(gs == gb) && !(gi == gs) && !(gb == gr), "arrays of different element types are never equal"); }

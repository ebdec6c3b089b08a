#include "vf.hh"
#include "ArrayImpl.hh"
#include "ArrayReference.hh"
#include "ArrayVariable.hh"
#include "PlexilTypeTraits.hh"
#include "UserVariable.hh"
#include "Value.hh"
using namespace PLEXIL;
static const size_t MAXN = 1000000000;
// x: an arbitrary value of the type
template <class T> struct Some { T x; }; template <> struct Some<Boolean> { Boolean x; Some() : x(vf_bool("value")) {} }; template <> struct Some<Integer> { Integer x; Some() : x(vf_i32("value")) {} }; template <> struct Some<Real> { Real x; Some() : x(vf_f64("value")) {} }; template <> struct Some<String> { String x; Some() { vf_string(&x, "value"); } };
inline bool eq(bool a, bool b) { return a == b; } inline bool eq(int32_t a, int32_t b) { return a == b; } inline bool eq(double a, double b) { return vf_same_f64(a, b); } inline bool eq(String const &a, String const &b) { return a == b; }
// publishing by the notifier's contract (E06)
struct Ear : ExpressionListener { unsigned calls; Ear() : calls(0) {} void notifyChanged() override { ++calls; } };
static Ear *ear; static Notifier *heard; static void publish(Notifier *n) { vf_check(n == heard, "the variable itself publishes"); if (n->m_activeCount) ++ear->calls; }
static void hear(Notifier &n, Ear &e) {
#ifdef VF_SYMBOLIC
  ear = &e; heard = &n; vf_instead("PLEXIL::Notifier::publishChange", (void (*)()) &publish);
#else
  n.m_outgoingListeners.push_back(&e);
#endif
}
static void quiet(Notifier &n) {
#ifndef VF_SYMBOLIC
  n.m_activeCount = 0; n.m_outgoingListeners.clear();
#endif
}
// an initializer or right hand side
struct Src0 : Expression { bool known; unsigned on, off; ValueType t; Src0() : known(false), on(0), off(0), t(UNKNOWN_TYPE) {} void activate() override { ++on; } void deactivate() override { ++off; } char const *exprName() const override { return "S"; } ValueType valueType() const override { return t; } bool isKnown() const override { return known; } Value toValue() const override { return Value(); } void printValue(std::ostream &) const override {} bool isPropagationSource() const override { return true; } };
template <class T> struct Src : Src0 { Some<T> s; bool getValue(T &r) const override { if (known) r = s.x; return known; } };
template <> struct Src<String> : Src0 { Some<String> s; bool getValue(String &r) const override { if (known) r = s.x; return known; } bool getValuePointer(String const *&p) const override { if (known) p = &s.x; return known; } };
template <class T> struct Rd { static bool val(UserVariable<T> const &v, T &r) { return v.getValue(r); } };
template <> struct Rd<String> { static bool val(UserVariable<String> const &v, String &r) { String s; String const *p = nullptr; bool k = v.getValuePointer(p); vf_check(v.getValue(s) == k, "copy and pointer agree"); if (k) { r = *p; vf_check(s == r, "copy and pointer agree"); } return k; } };
// a variable in any state
template <class T> struct V { UserVariable<T> v; Some<T> val, sav; bool known, sknown; size_t active; Ear e; V() : known(vf_bool("known")), sknown(vf_bool("saved known")), active(vf_size("activations", 0, MAXN)) { v.m_value = val.x; v.m_known = known; v.m_savedValue = sav.x; v.m_savedKnown = sknown; v.m_initializerIsGarbage = false; v.m_activeCount = active; hear(v, e); }
  ~V() { v.m_initializer = nullptr; quiet(v); }
  void reads(bool k, T const &x) { k = k & (v.m_activeCount != 0); vf_check(v.isKnown() == k, "known as expected"); T r = T(); vf_check(Rd<T>::val(v, r) == k, "a value exactly when known"); if (k) vf_check(eq(r, x), "the value is as expected"); }
  void saved() { vf_check(v.m_savedKnown == sknown && eq(v.m_savedValue, sav.x), "the saved value is kept"); }
  void told(bool changed) { if (changed & (v.m_activeCount != 0)) vf_check(e.calls >= 1, "a change is published"); } };
template <class T> void read() { V<T> t; t.reads(t.known, t.val.x); vf_check(t.v.valueType() == PlexilValueType<T>::value && !t.v.isConstant() && t.v.isPropagationSource() && t.v.isAssignable(), "a variable of its type"); Value w = t.v.toValue(); bool k = t.known & (t.active != 0); vf_check(w.isKnown() == k && w.valueType() == PlexilValueType<T>::value, "as a Value, of the same type and known alike"); T r; if (k) vf_check(w.getValue(r) && eq(r, t.val.x), "with the same value"); }
EACH(read)
template <class T> void make() { UserVariable<T> v; T r; v.m_initializerIsGarbage = false; vf_check(!v.isActive() && !v.isKnown() && !v.getValue(r), "a new variable is inactive and unknown"); }
EACH(make)
template <class T> void assign() { V<T> t; Some<T> n; bool k = vf_bool("new value known"); bool changed = (k != t.known) | (k & t.known & (n.x != t.val.x)); switch (vf_u8("form")) { case 0: t.v.setValue(k ? Value(n.x) : Value(PlexilValueType<T>::value)); break; case 1: t.v.setValue(k ? Value(n.x) : Value()); break; default: { Src<T> s; s.known = k; s.s.x = n.x; t.v.setValue(static_cast<Expression const &>(s)); } } t.reads(k, n.x); t.told(changed); t.saved(); }
EACH(assign)
PROOF(assign_Integer_to_Real) { V<Real> t; Some<Integer> n; bool changed = !t.known | ((Real) n.x != t.val.x); t.v.setValue(Value(n.x)); t.reads(true, (Real) n.x); t.told(changed); t.saved(); }
template <class T> void unknown() { V<T> t; t.v.setUnknown(); t.reads(false, t.val.x); t.told(t.known); t.saved(); }
EACH(unknown)
template <class T> void save() { V<T> t; t.v.saveCurrentValue(); t.reads(t.known, t.val.x); vf_check(t.v.m_savedKnown == t.known, "the known status is saved"); if (t.known) vf_check(eq(t.v.m_savedValue, t.val.x), "the value is saved"); Value s = t.v.getSavedValue(); vf_check(s.isKnown() == t.known, "the saved value is known exactly when the variable was"); T r; if (t.known) vf_check(s.getValue(r) && eq(r, t.val.x), "it is the value saved"); }
EACH(save)
template <class T> void restore() { V<T> t; bool changed = (t.known != t.sknown) | (t.known & t.sknown & (t.val.x != t.sav.x)); t.v.restoreSavedValue(); t.reads(t.sknown, t.sav.x); t.told(changed); Value s = t.v.getSavedValue(); vf_check(s.isKnown() == t.sknown, "the saved value is known exactly when the variable was"); T r; if (t.sknown) vf_check(s.getValue(r) && eq(r, t.sav.x), "it is the value saved"); }
EACH(restore)
// save, then any assignment, then restore
template <class T> void retract() { V<T> t; Some<T> n; t.v.saveCurrentValue(); switch (vf_u8("form")) { case 0: t.v.setValue(Value(n.x)); break; case 1: t.v.setUnknown(); break; case 2: t.v.setUnknown(); t.v.setValue(Value(n.x)); break; case 3: t.v.setValue(Value(n.x)); t.v.setUnknown(); break; default: break; } t.v.restoreSavedValue(); t.reads(t.known, t.val.x); }
EACH(retract)
template <class T> void activation() { V<T> t; Src<T> s; bool has = vf_bool("has initializer"); s.known = vf_bool("initial value known"); if (has) t.v.m_initializer = &s; size_t before = t.active; t.v.activate(); vf_check(t.v.isActive() && t.v.m_activeCount == before + 1, "active"); if (before) { t.reads(t.known, t.val.x); vf_check(s.on == 0, "the initializer is activated once"); } else { t.reads(has & s.known, s.s.x); vf_check(s.on == (has ? 1u : 0u), "the initializer is activated"); t.told(has & s.known); } vf_check(s.off == 0, "the initializer stays active"); }
EACH(activation)
template <class T> void deactivation() { V<T> t; Src<T> s; vf_assume(t.active > 0); bool has = vf_bool("has initializer"); if (has) t.v.m_initializer = &s; t.v.deactivate(); t.reads(t.known, t.val.x); vf_check(t.v.isActive() == (t.active > 1), "inactive after the last deactivation"); vf_check(s.off == ((has & (t.active == 1)) ? 1u : 0u) && s.on == 0, "so is the initializer"); }
EACH(deactivation)
template <class T> void initializer() { V<T> t; Src<T> s; uint8_t y = vf_u8("type"); s.t = (ValueType) y; ValueType own = PlexilValueType<T>::value; bool ok = (y == UNKNOWN_TYPE) | (y == own) | ((own == REAL_TYPE) & (y == INTEGER_TYPE)); vf_assume(ok | (y < TYPE_MAX)); vf_expect_error(!ok); t.v.setInitializer(&s, false); vf_check(ok && t.v.m_initializer == &s && !t.v.m_initializerIsGarbage, "an initializer of a suitable type is used"); }
EACH(initializer)
// ---- array variables
template <class E> struct Some<ArrayImpl<E>> { ArrayImpl<E> x; Some(char const *s, char const *k, char const *e) { size_t n = vf_size(s, 0, MAXN); vf_vec_bool(&x.m_known, k, n); vf_elems(&x.m_contents, e, n); } };
template <class E> bool alike(ArrayImpl<E> const &p, ArrayImpl<E> const &x, size_t w) { E a = p.m_contents[w], b = x.m_contents[w]; bool k = x.m_known[w]; return (p.m_known[w] == k) & (!k | eq(a, b)); }
// x's elements, then unknown ones up to size n
template <class E> void padded(ArrayImpl<E> const &p, ArrayImpl<E> const &x, size_t n) { size_t m = x.m_known.size(); vf_check((p.m_known.size() == n) & (p.m_contents.size() == n), "the array has the expected size"); if (n) { size_t w = vf_size("witness", 0, n - 1); if (w < m) vf_check(alike(p, x, w), "the same elements are known, with the same values"); else vf_check(!p.m_known[w], "further elements are unknown"); } }
// the contract of array comparison (V03): whether two given arrays differ
static Array const *cmp_a, *cmp_b; static bool cmp_differ;
static void compared(Array const &a, Array const &b) { vf_check(((&a == cmp_a) & (&b == cmp_b)) | ((&a == cmp_b) & (&b == cmp_a)), "the old value is compared with the new one"); }
template <class E> bool arrays_equal(ArrayImpl<E> const &a, ArrayImpl<E> const &b) { compared(a, b); return !cmp_differ; }
template <class E> bool arrays_differ(ArrayImpl<E> const &a, ArrayImpl<E> const &b) { compared(a, b); return cmp_differ; }
template <class E> bool same_as(ArrayVariableImpl<E> const *v, Array const *b) { if (!v->m_known) return !b; if (!b) return false; compared(*v->m_value, *b); return !cmp_differ; }
#define STD_STRING "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
template <class E> struct Names;
#define NAMES(E, N) template <> struct Names<E> { static char const *ne() { return "bool PLEXIL::operator!=<" N ">"; } static char const *ee() { return "bool PLEXIL::operator==<" N ">"; } static char const *me() { return "PLEXIL::ArrayVariableImpl<" N ">::equals"; } };
NAMES(Boolean, "bool") NAMES(Integer, "int") NAMES(Real, "double") NAMES(String, STD_STRING " ")
template <class E> static bool differ(ArrayImpl<E> const &a, ArrayImpl<E> const &b) {
#ifdef VF_SYMBOLIC
  cmp_a = &a; cmp_b = &b; cmp_differ = vf_bool("the arrays differ"); vf_instead(Names<E>::ne(), (void (*)()) (bool (*)(ArrayImpl<E> const &, ArrayImpl<E> const &)) &arrays_differ<E>); vf_instead(Names<E>::ee(), (void (*)()) (bool (*)(ArrayImpl<E> const &, ArrayImpl<E> const &)) &arrays_equal<E>); vf_instead(Names<E>::me(), (void (*)()) &same_as<E>); return cmp_differ;
#else
  return cmp_differ = (a != b);
#endif
}
struct SizeExpr : Src0 { Integer x; bool fixed; SizeExpr() : x(0), fixed(false) { t = INTEGER_TYPE; } bool isConstant() const override { return fixed; } bool getValue(Integer &r) const override { if (known) r = x; return known; } };
template <class E> struct ASrc : Src0 { ArrayImpl<E> *x; ASrc() : x(nullptr) { t = PlexilValueType<E>::arrayValue; } bool getValuePointer(Array const *&p) const override { if (known) p = x; return known; } bool getValuePointer(ArrayImpl<E> const *&p) const override { if (known) p = x; return known; } };
// an array variable in any state: val its current value (when it ever had one), sav the saved one
template <class E> struct AV { ArrayVariableImpl<E> v; SizeExpr size; ArrayImpl<E> val, sav; ArrayImpl<E> *cur; bool known, sknown, has, shas, sized; size_t active, max; Ear e; AV() : cur(nullptr), known(vf_bool("known")), sknown(vf_bool("saved known")), has(true), shas(true), sized(vf_bool("has maximum size")), active(vf_size("activations", 0, MAXN)), max(0) {
    if (!known) has = vf_bool("once known"); if (!sknown) shas = vf_bool("once saved"); if (sized) { v.m_size = &size; size.known = true; max = vf_size("maximum size", 0, MAXN); size.x = max; } v.m_maxSize = max; v.m_initializerIsGarbage = v.m_sizeIsGarbage = false;
    if (has) { Some<ArrayImpl<E>> s("old size", "old known", "old element"); if (sized) vf_assume(s.x.m_known.size() == max); val = s.x; cur = new ArrayImpl<E>(s.x); v.m_value.reset(cur); } if (shas) { Some<ArrayImpl<E>> s("saved size", "saved element known", "saved element"); if (sized) vf_assume(s.x.m_known.size() == max); sav = s.x; v.m_savedValue.reset(new ArrayImpl<E>(s.x)); }
    v.m_known = known; v.m_savedKnown = sknown; v.m_activeCount = active; hear(v, e); }
  ~AV() { v.m_initializer = nullptr; v.m_size = nullptr; quiet(v); }
  ArrayImpl<E> *array() { return static_cast<ArrayImpl<E> *>(v.m_value.get()); }
  ArrayImpl<E> *saved_array() { return static_cast<ArrayImpl<E> *>(v.m_savedValue.get()); }
  void reads(bool k, ArrayImpl<E> const &x, size_t n) { k = k & (v.m_activeCount != 0); vf_check(v.isKnown() == k, "known as expected"); Array const *g = nullptr; ArrayImpl<E> const *p = nullptr; vf_check(v.getValuePointer(g) == k && v.getValuePointer(p) == k, "a value exactly when known"); if (k) { vf_check(g == p, "generic pointer agrees"); padded(*p, x, n); } }
  void reads(bool k, ArrayImpl<E> const &x) { reads(k, x, x.m_known.size()); }
  void keeps(bool k) { reads(k, val); if (has) padded(*array(), val, val.m_known.size()); }
  void keeps_padded(size_t m) { reads(true, val, m < max ? max : m); }
  void saved() { vf_check(v.m_savedKnown == sknown && (v.m_savedValue != nullptr) == shas, "the saved value is kept"); if (shas) padded(*saved_array(), sav, sav.m_known.size()); }
  void told(bool changed) { if (changed & (v.m_activeCount != 0)) vf_check(e.calls >= 1, "a change is published"); } };
template <class E> void array_read() { AV<E> t; t.keeps(t.known); vf_check(t.v.valueType() == PlexilValueType<E>::arrayValue && !t.v.isConstant() && t.v.isPropagationSource() && t.v.isAssignable(), "a variable of its type"); Value w = t.v.toValue(); bool k = t.known & (t.active != 0); vf_check(w.isKnown() == k && w.valueType() == PlexilValueType<E>::arrayValue, "as a Value, of the same type and known alike"); ArrayImpl<E> const *p = nullptr; if (k) { vf_check(w.getValuePointer(p), "with a value"); padded(*p, t.val, t.val.m_known.size()); } }
EACH(array_read)
template <class E> void array_element() { AV<E> t; size_t i = vf_size("index", 0, MAXN); vf_assume(i < t.val.m_known.size()); bool k = t.known & (t.active != 0); if (k) k = t.val.m_known[i]; vf_check(t.v.elementIsKnown(i) == k, "an element is known as expected"); E r = E(); vf_check(t.v.getElement(i, r) == k, "it has a value exactly when known"); if (k) vf_check(eq(r, t.val.m_contents[i]), "the value is the element's"); Value v = t.v.getElementValue(i); vf_check(v.isKnown() == k, "as a Value likewise"); E q = E(); if (k) vf_check(v.getValue(q) && eq(q, t.val.m_contents[i]), "with the same value"); }
EACH(array_element)
PROOF(array_element_Integer_as_Real) { AV<Integer> t; size_t i = vf_size("index", 0, MAXN); vf_assume(i < t.val.m_known.size()); bool k = t.known & (t.active != 0); if (k) k = t.val.m_known[i]; Real r = 0; vf_check(t.v.getElement(i, r) == k && (!k || r == (Real) t.val.m_contents[i]), "an Integer element reads as the equal Real"); }
template <class E> void array_assign() { AV<E> t; Some<ArrayImpl<E>> n("new size", "new known", "new element"); size_t m = n.x.m_known.size(); bool d = !t.known;
#ifndef VF_SYMBOLIC
  if (t.has && vf_bool("same value")) { n.x = t.val; m = n.x.m_known.size(); }
#endif
  vf_expect_error(t.sized & (m > t.max)); ArrayImpl<E> given(n.x); bool c = true; if (t.has) { c = differ(*t.cur, given); d = d | c; if (!c) vf_assume(t.val.m_known.size() == m); } ASrc<E> s; s.known = true; s.x = &given; t.v.setValue(static_cast<Expression const &>(s)); size_t z = m < t.max ? t.max : m; if (c) t.reads(true, n.x, z); else t.keeps(true); t.told(d); t.saved(); padded(given, n.x, m); }
EACH(array_assign)
template <class E> void array_unknown() { AV<E> t; if (vf_bool("by expression")) { ASrc<E> s; t.v.setValue(static_cast<Expression const &>(s)); } else if (vf_bool("by Value")) t.v.setValue(Value()); else t.v.setUnknown(); t.keeps(false); t.told(t.known); t.saved(); }
EACH(array_unknown)
template <class E> void array_save() { AV<E> t; t.v.saveCurrentValue(); t.keeps(t.known); vf_check(t.v.m_savedKnown == t.known, "the known status is saved"); if (t.known) padded(*t.saved_array(), t.val, t.val.m_known.size()); Value s = t.v.getSavedValue(); vf_check(s.isKnown() == t.known, "the saved value is known exactly when the variable was"); ArrayImpl<E> const *p = nullptr; if (t.known) { vf_check(s.getValuePointer(p), "the saved value can be read"); padded(*p, t.val, t.val.m_known.size()); } }
EACH(array_save)
template <class E> void array_restore() { AV<E> t; vf_assume(!t.sknown | t.has); bool d = t.known != t.sknown;
#ifndef VF_SYMBOLIC
  if (t.has && t.shas && vf_bool("same value")) { t.sav = t.val; *t.saved_array() = t.val; }
#endif
  bool c = false; if (t.has && t.shas) c = differ(*t.cur, *t.saved_array()); if (t.known & t.sknown) d = d | c; t.v.restoreSavedValue(); if (t.sknown & t.known & !c) t.keeps(true); else t.reads(t.sknown, t.sav); t.told(d); Value s = t.v.getSavedValue(); vf_check(s.isKnown() == t.sknown, "the saved value is known exactly when the variable was"); }
EACH(array_restore)
template <class E> void array_set_element() { AV<E> t; vf_assume(t.known); size_t i = vf_size("index", 0, MAXN), n = t.val.m_known.size(); bool k = vf_bool("new value known"); Some<E> x; bool in = i < n, old = false; if (in) old = t.val.m_known[i]; t.v.setElement(i, k ? Value(x.x) : Value()); ArrayImpl<E> const &a = *t.array(); vf_check((a.m_known.size() == n) & (a.m_contents.size() == n), "size unchanged"); if (in) { vf_check(a.m_known[i] == k, "the element is known exactly when the value is"); if (k) { E y = a.m_contents[i]; vf_check(eq(y, x.x) | (y == x.x), "the element takes the value"); } bool changed = k != old; if (k & old) changed = x.x != t.val.m_contents[i]; t.told(changed); } if (n) { size_t w = vf_size("witness", 0, n - 1); if (w != i) vf_check(alike(a, t.val, w), "other elements keep their value"); } vf_check(t.v.m_known, "the array stays known"); t.saved(); }
EACH(array_set_element)
template <class E> void array_element_unknown() { AV<E> t; vf_assume(t.known); size_t i = vf_size("index", 0, MAXN), n = t.val.m_known.size(); vf_expect_error(i >= n); bool in = i < n, old = false; if (in) old = t.val.m_known[i]; t.v.setElementUnknown(i); ArrayImpl<E> const &a = *t.array(); vf_check(in && !a.m_known[i] && a.m_known.size() == n, "the element is unknown"); t.told(old); size_t w = vf_size("witness", 0, n - 1); if (w != i) vf_check(alike(a, t.val, w), "other elements keep their value"); t.saved(); }
EACH(array_element_unknown)
template <class E> void array_activation() { AV<E> t; vf_assume(t.active == 0); Integer newmax = vf_i32("new maximum size"); bool neg = false;
#ifndef VF_SYMBOLIC
  if (newmax > 1000) newmax %= 1000;   // (a memory limit of the test, not of the proof)
#endif
  if (t.sized) { t.v.m_sizeIsConstant = t.size.fixed = vf_bool("constant maximum size"); if (!t.size.fixed) { t.size.x = newmax; neg = newmax < 0; t.max = neg ? 0 : newmax; } } ASrc<E> s; bool init = vf_bool("has initializer"); if (init) t.v.m_initializer = &s; if (init && vf_bool("initial value known")) { s.known = true; Some<ArrayImpl<E>> n("initial size", "initial known", "initial element"); ArrayImpl<E> given(n.x); s.x = &given; size_t m = n.x.m_known.size(); vf_expect_error(neg | (t.sized & (m > t.max))); if (t.has) differ(*t.cur, given); bool c = t.has & !cmp_differ; if (c) vf_assume(t.val.m_known.size() == m); t.v.activate(); if (c) t.keeps_padded(m); else t.reads(true, n.x, m < t.max ? t.max : m); t.told(true); } else { vf_expect_error(neg); t.v.activate(); ArrayImpl<E> none; bool k = !init & t.sized & (t.max > 0); t.reads(k, none, t.max); t.told(k); } vf_check(s.on == (init ? 1u : 0u) && t.size.on == (t.sized ? 1u : 0u) && s.off + t.size.off == 0, "the initializer and the size are active"); }
EACH(array_activation)
// ---- references to array elements
struct Index : Src0 { Integer x; Index() : x(0) { t = INTEGER_TYPE; } bool getValue(Integer &r) const override { if (known) r = x; return known; } void any(char const *k, char const *v) { known = vf_bool(k); x = vf_i32(v); } };
template <class E> struct RefRd { static bool val(ArrayReference const &v, E &r) { return v.getValue(r); } };
template <> struct RefRd<String> { static bool val(ArrayReference const &v, String &r) { String s; String const *p = nullptr; bool k = v.getValuePointer(p); vf_check(v.getValue(s) == k, "copy and pointer agree"); if (k) { r = *p; vf_check(s == r, "copy and pointer agree"); } return k; } };
template <class E> void ref_read() { Some<ArrayImpl<E>> a("size", "element known", "element"); ASrc<E> s; s.x = &a.x; s.known = vf_bool("array known"); Index i; i.any("index known", "index"); ArrayReference r(&s, &i); size_t n = a.x.m_known.size(); vf_expect_error(i.known & ((i.x < 0) | (s.known & (i.x >= (int64_t) n)))); uint8_t f = vf_u8("form"); bool k = i.known & s.known; E x = E(); Value v; bool got = f == 0 ? r.isKnown() : f == 1 ? RefRd<E>::val(r, x) : (v = r.toValue()).isKnown(); if (k) k = a.x.m_known[i.x]; vf_check(got == k, "known exactly when array, index and element are"); if (k && f > 1) vf_check(v.getValue(x), "as a Value, with its value"); if (k && f > 0) vf_check(eq(x, a.x.m_contents[i.x]), "the value is the element's"); vf_check(r.valueType() == PlexilValueType<E>::value, "of the element type"); }
EACH(ref_read)
PROOF(ref_read_Integer_as_Real) { Some<ArrayImpl<Integer>> a("size", "element known", "element"); ASrc<Integer> s; s.x = &a.x; s.known = vf_bool("array known"); Index i; i.any("index known", "index"); ArrayReference r(&s, &i); size_t n = a.x.m_known.size(); vf_assume((i.x >= 0) & (i.x < (int64_t) n)); Real x = 0; bool k = r.getValue(x); vf_check(k == (i.known && s.known && a.x.m_known[i.x]), "known exactly when array, index and element are"); if (k) vf_check(x == (Real) a.x.m_contents[i.x], "an Integer element reads as the equal Real"); }
PROOF(ref_activation) { ASrc<Integer> s; Index i; ArrayReference r(&s, &i); r.activate(); vf_check(r.isActive() && s.on == 1 && i.on == 1, "array and index are active"); r.activate(); r.deactivate(); vf_check(r.isActive() && s.on == 1 && i.on == 1 && s.off + i.off == 0, "until the last deactivation"); r.deactivate(); vf_check(!r.isActive() && s.off == 1 && i.off == 1, "then inactive"); }
template <class E> void ref_assign() { AV<E> t; Index i; i.any("index known", "index"); MutableArrayReference r(&t.v, &i); bool k = vf_bool("new value known"); Some<E> x; size_t n = t.val.m_known.size(); vf_assume(t.active > 0); bool usable = t.known & i.known, un = vf_bool("set unknown"); bool in = usable & (i.x >= 0) & (i.x < (int64_t) n), old = false; vf_expect_error(usable & ((i.x < 0) | (un & !in))); if (un) { k = false; r.setUnknown(); } else r.setValue(k ? Value(x.x) : Value()); if (!in) { t.keeps(t.known); return; } old = t.val.m_known[i.x]; ArrayImpl<E> const &a = *t.array(); vf_check((a.m_known.size() == n) & (a.m_contents.size() == n), "size unchanged"); vf_check(a.m_known[i.x] == k, "the element is known exactly when the value is"); bool changed = k != old; if (k) { E y = a.m_contents[i.x]; vf_check(eq(y, x.x) | (y == x.x), "the element takes the value"); if (old) changed = x.x != t.val.m_contents[i.x]; } t.told(changed); size_t w = vf_size("witness", 0, n - 1); if (w != (size_t) i.x) vf_check(alike(a, t.val, w), "other elements keep their value"); }
EACH(ref_assign)
// the element assigned is the one saved and restored, whatever the index has become since
template <class E> void ref_restore() { AV<E> t; vf_assume(t.known & (t.active > 0)); Index i; i.any("index known", "index"); size_t n = t.val.m_known.size(); vf_assume((i.x >= 0) & (i.x < (int64_t) n)); size_t at = i.x; bool was = i.known; MutableArrayReference r(&t.v, &i); { Index j = i; i.known = true; i.x = n > 1 ? n - 1 : 0; r.saveCurrentValue(); i.known = j.known; i.x = j.x; } r.saveCurrentValue(); Value sv = r.getSavedValue(); bool k = t.val.m_known[at]; vf_check(sv.isKnown() == (was & k), "the saved value is known exactly when the element was"); E q = E(); if (was & k) vf_check(sv.getValue(q) && eq(q, t.val.m_contents[at]), "it is the element's value"); bool nk = vf_bool("new value known"); Some<E> x; t.v.setElement(at, nk ? Value(x.x) : Value()); bool moved = vf_bool("index changed"); if (moved) i.any("index known later", "index later"); unsigned before = t.e.calls; r.restoreSavedValue(); ArrayImpl<E> const &a = *t.array(); vf_check((a.m_known.size() == n) & (a.m_contents.size() == n), "size unchanged"); size_t w = vf_size("witness", 0, n - 1); if (w != at) vf_check(alike(a, t.val, w), "other elements keep their value"); if (was) { vf_check(a.m_known[at] == k, "the element is known as it was"); if (k) { E y = a.m_contents[at]; vf_check(eq(y, t.val.m_contents[at]) | (y == t.val.m_contents[at]), "the element has the value it had"); } if (k != nk) vf_check(t.e.calls > before, "a change is published"); } Value s2 = r.getSavedValue(); vf_check(s2.isKnown() == (was & k), "the saved value can still be read"); }
EACH(ref_restore)

#include "vf.hh"
#include "ArrayImpl.hh"
#include "Value.hh"
#include "PlexilTypeTraits.hh"
using namespace PLEXIL;
static const size_t MAXN = 1000000000;
// an arbitrary array of n elements, each known or not
template <class T> size_t any(ArrayImpl<T> &a, size_t n, char const *k, char const *c) { vf_vec_bool(&a.m_known, k, n); vf_elems(&a.m_contents, c, n); return n; }
template <class T> T some(char const *n); template <> Boolean some<Boolean>(char const *n) { return vf_bool(n); } template <> Integer some<Integer>(char const *n) { return vf_i32(n); } template <> Real some<Real>(char const *n) { return vf_f64(n); } template <> String some<String>(char const *n) { String s; vf_string(&s, n); return s; }
inline bool eq(bool a, bool b) { return a == b; } inline bool eq(int32_t a, int32_t b) { return a == b; } inline bool eq(double a, double b) { return vf_same_f64(a, b); } inline bool eq(String const &a, String const &b) { return a == b; }
template <class T> struct A { ArrayImpl<T> a; size_t n, w; std::vector<bool> k; std::vector<T> c;       // k, c: the state before; w: an arbitrary position
  A() : n(vf_size("size", 0, MAXN)), w(0) { any(a, n, "known", "element"); k = a.m_known; c = a.m_contents; if (n) w = vf_size("witness", 0, n - 1); }
  bool same(ArrayImpl<T> const &b, size_t i) { return (b.m_known[i] == k[i]) & eq(b.m_contents[i], c[i]); }
  bool sized(ArrayImpl<T> const &b, size_t m) { return (b.m_known.size() == m) & (b.m_contents.size() == m); }
  void kept(size_t except) { vf_check(sized(a, n), "size unchanged"); if (n && w != except) vf_check(same(a, w), "other elements unchanged"); }
  void kept() { kept(n); if (n) vf_check(same(a, w), "elements unchanged"); } };
template <class T> void make_unknown() { size_t n = vf_size("size", 0, MAXN); ArrayImpl<T> a(n); vf_check(a.size() == n && a.m_contents.size() == n, "the array has the size asked for"); if (n) { size_t w = vf_size("witness", 0, n - 1); vf_check(!a.m_known[w], "its elements are unknown"); T t; vf_check(!a.getElement(w, t), "no element has a value"); } ArrayImpl<T> e; vf_check(e.size() == 0 && e.m_contents.size() == 0, "a default array is empty"); }
EACH(make_unknown)
template <class T> void make_filled() { size_t n = vf_size("size", 0, MAXN); T v = some<T>("value"); ArrayImpl<T> a(n, v); vf_check(a.size() == n && a.m_contents.size() == n, "the array has the size asked for"); if (n) { size_t w = vf_size("witness", 0, n - 1); vf_check(a.m_known[w] & eq(a.m_contents[w], v), "every element is the initial value"); } }
EACH(make_filled)
template <class T> void make_from_vector() { size_t n = vf_size("size", 0, MAXN); std::vector<T> v; vf_elems(&v, "element", n); ArrayImpl<T> a(v); vf_check(a.size() == n && a.m_contents.size() == n, "as many elements as the vector"); if (n) { size_t w = vf_size("witness", 0, n - 1); vf_check(a.m_known[w] & eq(a.m_contents[w], v[w]), "every element is known and the vector's"); } }
EACH(make_from_vector)
template <class T> void copying() { A<T> x; ArrayImpl<T> b(x.a); vf_check(x.sized(b, x.n), "a copy has the same size"); if (x.n) vf_check(x.same(b, x.w), "and the same elements"); x.kept(); ArrayImpl<T> c; size_t m = vf_size("old size", 0, MAXN); any(c, m, "old known", "old element"); c = x.a; vf_check(x.sized(c, x.n), "an assigned array has the same size"); if (x.n) vf_check(x.same(c, x.w), "and the same elements"); x.kept();
  Array *d = x.a.clone(); ArrayImpl<T> *dd = dynamic_cast<ArrayImpl<T> *>(d); vf_check(dd != nullptr, "a clone is of the same type"); vf_check(x.sized(*dd, x.n), "a clone has the same size"); if (x.n) vf_check(x.same(*dd, x.w), "and the same elements"); delete d; x.kept();
  ArrayImpl<T> f; any(f, m, "old known", "old element"); Array &fr = f; Array const &xr = x.a; fr = xr; vf_check(x.sized(f, x.n), "generic assignment: same size"); if (x.n) vf_check(x.same(f, x.w), "generic assignment: same elements"); x.kept(); }
EACH(copying)
template <class T> void moving() { A<T> x; ArrayImpl<T> b(std::move(x.a)); vf_check(x.sized(b, x.n), "a moved array has the same size"); if (x.n) vf_check(x.same(b, x.w), "and the same elements"); ArrayImpl<T> c; size_t m = vf_size("old size", 0, MAXN); any(c, m, "old known", "old element"); c = std::move(b); vf_check(x.sized(c, x.n), "move assignment: same size"); if (x.n) vf_check(x.same(c, x.w), "move assignment: same elements"); }
EACH(moving)
template <class T> void resizing() { A<T> x; size_t m = vf_size("new size", 0, MAXN); x.a.resize(m); vf_check(x.sized(x.a, m), "the array has the new size"); if (m) { size_t i = vf_size("position", 0, m - 1); if (i < x.n) vf_check(x.same(x.a, i), "elements below both sizes are kept"); else vf_check(!x.a.m_known[i], "new elements are unknown"); } }
EACH(resizing)
template <class T> void get() { A<T> x; size_t i = vf_size("index", 0, SIZE_MAX); T r; bool ok = x.a.getElement(i, r); vf_check(ok == (i < x.n && x.k[i]), "a value is returned exactly for a known element within the array"); if (ok) vf_check(eq(r, x.c[i]), "it is the element's value"); x.kept(); }
EACH(get)
PROOF(get_pointer) { A<String> x; size_t i = vf_size("index", 0, SIZE_MAX); String const *r = nullptr; bool ok = x.a.getElementPointer(i, r); vf_check(ok == (i < x.n && x.k[i]), "a pointer is returned exactly for a known element within the array"); if (ok) vf_check(*r == x.c[i], "it points to the element's value"); x.kept(); }
template <class T> void get_value() { A<T> x; size_t i = vf_size("index", 0, SIZE_MAX); Value v = x.a.getElementValue(i); vf_check(v.isKnown() == (i < x.n && x.k[i]), "known exactly for a known element within the array"); T r; if (v.isKnown()) { vf_check(v.valueType() == PlexilValueType<T>::value, "of the element type"); vf_check(v.getValue(r) && eq(r, x.c[i]), "with the element's value"); } x.kept(); }
EACH(get_value)
template <class T> void element_known() { A<T> x; size_t i = vf_size("index", 0, SIZE_MAX); vf_expect_error(i >= x.n); bool ok = x.a.elementKnown(i); vf_check(i < x.n && ok == x.k[i], "tells whether the element is known"); x.kept(); }
EACH(element_known)
template <class T> void set() { A<T> x; size_t i = vf_size("index", 0, SIZE_MAX); T v = some<T>("value"); x.a.setElement(i, v); if (i < x.n) { vf_check(x.a.m_known[i] & eq(x.a.m_contents[i], v), "the element addressed takes the value"); x.kept(i); } else x.kept(); }
EACH(set)
template <class T> void set_value() { A<T> x; size_t i = vf_size("index", 0, SIZE_MAX); bool known = vf_bool("value known"); T v = some<T>("value"); Value val = known ? Value(v) : Value(vf_bool("typed") ? PlexilValueType<T>::value : UNKNOWN_TYPE); x.a.setElementValue(i, val);
  if (i < x.n) { vf_check(x.a.m_known[i] == known, "the element addressed is known exactly when the value is"); if (known) vf_check(eq(x.a.m_contents[i], v), "and takes the value"); x.kept(i); } else x.kept(); }
EACH(set_value)
template <class T> void set_unknown() { A<T> x; size_t i = vf_size("index", 0, SIZE_MAX); vf_expect_error(i >= x.n); x.a.setElementUnknown(i); vf_check(i < x.n && !x.a.m_known[i], "the element addressed becomes unknown"); x.kept(i); }
EACH(set_unknown)
template <class T> void resetting() { A<T> x; x.a.reset(); vf_check(x.sized(x.a, x.n), "size unchanged"); if (x.n) vf_check(!x.a.m_known[x.w], "every element becomes unknown"); }
EACH(resetting)
template <class T> void all_any_known() { A<T> x; if (x.n) { vf_hint(x.w, x.k[x.w]); vf_hint(x.w, !x.k[x.w]); } bool all = x.a.allElementsKnown(), any = x.a.anyElementsKnown(); if (x.n) { if (all) vf_check(x.k[x.w], "all known: each element is"); if (!any) vf_check(!x.k[x.w], "none known: no element is"); } else { vf_check(all, "an empty array has no unknown element"); vf_check(!any, "nor a known one"); } x.kept(); }
EACH(all_any_known)
template <class T> void all_known_true() { size_t n = vf_size("size", 1, MAXN); ArrayImpl<T> a(n), b(n, T()); vf_check(!a.anyElementsKnown(), "no element of an unknown array is known"); vf_check(!a.allElementsKnown(), "nor all of them"); vf_check(b.allElementsKnown(), "all elements of a filled array are known"); vf_check(b.anyElementsKnown(), "and some are"); }
EACH(all_known_true)
template <class T> void bounds() { A<T> x; size_t i = vf_size("index", 0, SIZE_MAX); vf_check(x.a.size() == x.n, "size"); vf_check(x.a.checkIndex(i) == (i < x.n), "an index is valid exactly below the size"); vf_check(x.a.getElementType() == PlexilValueType<T>::value, "element type"); }
EACH(bounds)
// equality, in each of its forms
template <class T> bool alike(ArrayImpl<T> &a, ArrayImpl<T> &b, size_t i) { T x = a.m_contents[i], y = b.m_contents[i]; return (a.m_known[i] == b.m_known[i]) & (!a.m_known[i] | (x == y)); }
template <class T> bool equal_by(uint8_t form, ArrayImpl<T> const &a, ArrayImpl<T> const &b) { switch (form) { case 0: return a == b; case 1: return !(a != b); case 2: return static_cast<Array const &>(a) == static_cast<Array const &>(b); case 3: return a.operator==(b); default: return a.operator==(static_cast<Array const &>(b)); } }
template <class T> void equal_differ() { size_t n = vf_size("size", 1, MAXN), w = vf_size("witness", 0, n - 1); ArrayImpl<T> a, b; any(a, n, "known", "element"); any(b, n, "other known", "other element");
#ifndef VF_SYMBOLIC
  if (vf_bool("alike")) { b = a; b.m_known[n - 1] = vf_bool("last"); b.m_contents[n / 2] = some<T>("middle"); }
#endif
  bool c = alike(a, b, w); vf_hint(w, c); if (equal_by(vf_u8("form"), a, b)) vf_check(c, "equal arrays agree on every element"); }
EACH(equal_differ)
template <class T> void equal_sizes() { size_t n = vf_size("size", 0, MAXN), m = vf_size("other size", 0, MAXN); ArrayImpl<T> a, b; any(a, n, "known", "element"); any(b, m, "other known", "other element"); if (equal_by(vf_u8("form"), a, b)) vf_check(n == m, "equal arrays have the same size"); }
EACH(equal_sizes)
template <class T> void equal_all() { size_t n = vf_size("size", 1, MAXN), i = vf_size("every", 0, n - 1); ArrayImpl<T> a, b; any(a, n, "known", "element"); any(b, n, "other known", "other element");
#ifndef VF_SYMBOLIC
  b = a; for (size_t j = 0; j < n; ++j) if (!a.m_known[j]) b.m_contents[j] = some<T>("hidden");
#endif
  bool c = alike(a, b, i); vf_forall(i, 0, n, c, &a.m_known, &b.m_known, &a.m_contents, &b.m_contents); vf_assume(c); vf_check(equal_by(vf_u8("form"), a, b), "arrays that agree on every element are equal"); }
EACH(equal_all)

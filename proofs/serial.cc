#include "vf.hh"
#include "ArrayImpl.hh"
#include "Value.hh"
#include "PlexilTypeTraits.hh"
#include <cstring>
using namespace PLEXIL;
static const size_t MAXS = 0xFFFFFF;      // largest size the format can express
// ---- the format
inline size_t u3(uint8_t const *p) { return ((size_t) p[0] << 16) | ((size_t) p[1] << 8) | p[2]; }
inline uint32_t u4(uint8_t const *p) { return ((uint32_t) p[0] << 24) | ((uint32_t) p[1] << 16) | ((uint32_t) p[2] << 8) | p[3]; }
inline uint64_t u8(uint8_t const *p) { return ((uint64_t) u4(p) << 32) | u4(p + 4); }
inline bool bit(uint8_t const *p, size_t i) { return (p[i / 8] >> (7 - i % 8)) & 1; }
inline size_t bytes_for(size_t flags) { return (flags + 7) / 8; }
struct Buf { std::vector<uint8_t> v; size_t n; Buf(size_t len) : n(len) { vf_elems(&v, "buffer", len); } char *p() { return (char *) &v[0]; } char *end() { return p() + n; } uint8_t const *u() { return &v[0]; } };
template <class T> struct S;
template <> struct S<Boolean> { Boolean x; S() : x(vf_bool("value")) {} static const uint8_t code = BOOLEAN_TYPE; size_t size() { return 2; } static bool is(uint8_t const *p, Boolean y) { return (p[1] != 0) == y; } bool ok() { return true; } };
template <> struct S<CommandHandleValue> { CommandHandleValue x; S() : x((CommandHandleValue) (vf_u8("value") % 128)) {} static const uint8_t code = COMMAND_HANDLE_TYPE; size_t size() { return 2; } static bool is(uint8_t const *p, CommandHandleValue y) { return (int) (int8_t) p[1] == (int) y; } bool ok() { return true; } };
template <> struct S<Integer> { Integer x; S() : x(vf_i32("value")) {} static const uint8_t code = INTEGER_TYPE; size_t size() { return 5; } static bool is(uint8_t const *p, Integer y) { return (Integer) u4(p + 1) == y; } bool ok() { return true; } };
template <> struct S<Real> { Real x; S() : x(vf_f64("value")) {} static const uint8_t code = REAL_TYPE; size_t size() { return 9; } static bool is(uint8_t const *p, Real y) { return vf_same_f64(vf_f64_from(u8(p + 1)), y); } bool ok() { return true; } };
inline bool has_chars(uint8_t const *p, String const &y) { size_t n = vf_length(&y), i = vf_u64("character"); return u3(p) == n && (i >= n || p[3 + i] == (uint8_t) vf_char(&y, i)); }
template <> struct S<String> { String x; S() { vf_string(&x, "value"); } static const uint8_t code = STRING_TYPE; size_t size() { return 4 + vf_length(&x); } static bool is(uint8_t const *p, String const &y) { return has_chars(p + 1, y); } bool ok() { return vf_length(&x) <= MAXS; } };
inline bool same(Boolean a, Boolean b) { return a == b; } inline bool same(CommandHandleValue a, CommandHandleValue b) { return a == b; } inline bool same(Integer a, Integer b) { return a == b; } inline bool same(Real a, Real b) { return vf_same_f64(a, b); } inline bool same(String const &a, String const &b) { return vf_same_string(&a, &b); }
#ifdef VF_SYMBOLIC
static size_t wit(size_t n) { size_t w = vf_size("witness", 0, MAXS); vf_assume((n == 0) | (w < n)); return w; }
static void length_first(uint8_t *, size_t) {} static void code_first(uint8_t *, uint8_t) {}
#else
static size_t wit(size_t n) { return n ? vf_size("witness", 0, n - 1) : 0; }
static void length_first(uint8_t *p, size_t n) { p[0] = n >> 16; p[1] = n >> 8; p[2] = n; } static void code_first(uint8_t *p, uint8_t c) { p[0] = c; }
#endif
// ---- scalars: encoded in exactly the announced bytes, and decoded to what the bytes say
template <class T> void scalar() { S<T> s; if (!s.ok()) { Buf b(16); vf_check(serialize(s.x, b.p()) == nullptr, "too long to serialize"); return; }
  size_t n = s.size(); vf_check(serialSize(s.x) == n, "announced size"); Buf b(n); char *e = serialize(s.x, b.p()); vf_check(e == b.end(), "the whole announced size is used, no more"); vf_check(b.u()[0] == S<T>::code && S<T>::is(b.u(), s.x), "encoded as the format says");
  S<T> y; char const *d = deserialize(y.x, b.p()); vf_check(d == b.end(), "reading consumes the whole"); vf_check(same(y.x, s.x), "the value read is the value written"); }
EACH(scalar)
PROOF(scalar_CommandHandleValue) { scalar<CommandHandleValue>(); }
template <class T> void rejects() { S<T> y, o; Buf b(vf_size("length", 1, MAXS)); vf_assume(b.u()[0] != S<T>::code); T old(y.x); vf_check(deserialize(y.x, b.p()) == nullptr, "data of another type is rejected"); vf_check(same(y.x, old), "and nothing is read"); }
EACH(rejects)
PROOF(rejects_CommandHandleValue) { rejects<CommandHandleValue>(); }
// reading a string from arbitrary bytes
PROOF(read_string) { Buf b(vf_size("length", 4, MAXS + 4)); code_first(&b.v[0], STRING_TYPE); length_first(&b.v[1], b.n - 4); vf_assume(b.u()[0] == STRING_TYPE && u3(b.u() + 1) + 4 == b.n); String y; vf_string(&y, "old value"); char const *d = deserialize(y, b.p()); vf_check(d == b.end(), "reading consumes the whole"); vf_check(has_chars(b.u() + 1, y), "the characters are those of the data"); }
// ---- values
struct None {};
template <class T, bool KN> struct Old { S<T> s; Value v; Old() : v(s.x) {} }; template <class T> struct Old<T, false> { Value v; Old() : v(S<T>::code) {} };
template <> struct Old<None, true> { Value v; }; template <> struct Old<None, false> { Value v; Old() : v(vf_bool("date") ? DATE_TYPE : NODE_STATE_TYPE) {} };
template <class E> struct Old<ArrayImpl<E>, true> { ArrayImpl<E> a; Value v; Old() { vf_vec_bool(&a.m_known, "old known", 3); vf_elems(&a.m_contents, "old element", 3); v = a; } }; template <class E> struct Old<ArrayImpl<E>, false> { Value v; Old() : v(PlexilValueType<E>::arrayValue) {} };
template <class T, class O, bool OK> void value_round() { S<T> s; vf_assume(s.ok()); Value v(s.x); size_t n = s.size(); vf_check(v.serialSize() == n, "announced size"); Buf b(n); char *e = v.serialize(b.p()); vf_check(e == b.end(), "the whole announced size is used, no more"); vf_check(b.u()[0] == S<T>::code && S<T>::is(b.u(), s.x), "encoded as the format says");
  Old<O, OK> o; char const *d = o.v.deserialize(b.p()); vf_check(d == b.end(), "reading consumes the whole"); T r; vf_check(o.v.valueType() == S<T>::code && o.v.isKnown() && o.v.getValue(r), "a known value of the type is read"); vf_check(same(r, s.x), "the value read is the value written"); }
#define OLD(X) X(Boolean) X(Integer) X(Real) X(String) X(CommandHandleValue) X(BooleanArray) X(IntegerArray) X(RealArray) X(StringArray) X(None)
template <class T> void value() { uint8_t c = vf_u8("old type"); bool k = vf_bool("old known"); uint8_t n = 0;
#define VR(O) if (c == n++) { if (k) value_round<T, O, true>(); else value_round<T, O, false>(); return; }
  OLD(VR) }
EACH(value)
PROOF(value_CommandHandleValue) { value<CommandHandleValue>(); }
template <class O, bool OK> void unknown_round() { uint8_t t = vf_u8("type"); Value v(t == 1 ? INTEGER_TYPE : t == 2 ? STRING_TYPE : t == 3 ? REAL_ARRAY_TYPE : t == 4 ? DATE_TYPE : UNKNOWN_TYPE); vf_check(v.serialSize() == 1, "an unknown takes one byte"); Buf b(1); vf_check(v.serialize(b.p()) == b.end() && b.u()[0] == UNKNOWN_TYPE, "encoded as the format says"); Old<O, OK> o; vf_check(o.v.deserialize(b.p()) == b.end() && !o.v.isKnown(), "an unknown reads as unknown"); }
PROOF(value_unknown) { uint8_t c = vf_u8("old type"); bool k = vf_bool("old known"); uint8_t n = 0;
#define UR(O) if (c == n++) { if (k) unknown_round<O, true>(); else unknown_round<O, false>(); return; }
  OLD(UR) }
template <class T> void unserial(T x) { Value v(x); vf_check(v.serialSize() == 0, "not serializable: no size"); Buf b(16); vf_check(v.serialize(b.p()) == nullptr, "and refused"); }
PROOF(unserializable) { uint8_t c = vf_u8("type"); if (c == 0) unserial((NodeState) vf_u8("value")); else if (c == 1) unserial((NodeOutcome) vf_u8("value")); else unserial((FailureType) vf_u8("value")); }
template <class O, bool OK> void bad_code() { Old<O, OK> o; Buf b(vf_size("length", 1, MAXS)); uint8_t c = b.u()[0]; vf_assume(c != UNKNOWN_TYPE && c != BOOLEAN_TYPE && c != INTEGER_TYPE && c != REAL_TYPE && c != STRING_TYPE && c != COMMAND_HANDLE_TYPE && !(c >= BOOLEAN_ARRAY_TYPE && c <= STRING_ARRAY_TYPE)); vf_check(o.v.deserialize(b.p()) == nullptr, "an unknown type code is rejected"); }
PROOF(value_bad_code) { uint8_t c = vf_u8("old type"); bool k = vf_bool("old known"); uint8_t n = 0;
#define BC(O) if (c == n++) { if (k) bad_code<O, true>(); else bad_code<O, false>(); return; }
  OLD(BC) }
// ---- arrays of fixed-size elements: type code, three bytes of size, the known flags eight to a byte, the elements
template <class T> struct E; template <> struct E<Boolean> { static size_t bytes(size_t n) { return bytes_for(n); } static bool is(uint8_t const *p, size_t i, Boolean x) { return bit(p, i) == x; } static bool wrote(uint8_t const *p, size_t i, Boolean x) { return is(p, i, x); } };
template <> struct E<Integer> { static size_t bytes(size_t n) { return 4 * n; } static bool is(uint8_t const *p, size_t i, Integer x) { return (Integer) u4(p + 4 * i) == x; } static bool wrote(uint8_t const *p, size_t i, Integer x) { return is(p, i, x); } };
template <> struct E<Real> { static size_t bytes(size_t n) { return 8 * n; } static bool is(uint8_t const *p, size_t i, Real x) { return vf_same_f64(vf_f64_from(u8(p + 8 * i)), x); } static bool wrote(uint8_t const *p, size_t i, Real x) { return u8(p + 8 * i) == vf_f64_bits(x); } };
// a: the array; b: its encoding; w: an arbitrary element
template <class T> struct AB { ArrayImpl<T> *a; Buf *b; size_t n, w, flags; uint8_t const *f() { return b->u() + 4; } uint8_t const *c() { return f() + flags; }
  bool header() { uint8_t const *p = b->u(); return p[0] == PlexilValueType<T>::arrayValue && u3(p + 1) == n; } bool flag() { return bit(f(), w) == a->m_known[w]; } bool reads; bool elem() { return reads ? E<T>::is(c(), w, a->m_contents[w]) : E<T>::wrote(c(), w, a->m_contents[w]); }
  static bool i_header(AB *x, size_t) { return x->header(); } static bool i_flag(AB *x, size_t k) { return !(x->w / 8 < k) || x->flag(); } static bool k_flag(AB *x, size_t) { return x->flag(); }
  static bool i_elem(AB *x, size_t k) { return !((type_is_bool() ? x->w / 8 : x->w) < k) || x->elem(); }
  static bool i_sized(AB *x, size_t) { return x->a->m_known.size() == x->n && x->a->m_contents.size() == x->n; }
  static bool type_is_bool() { return PlexilValueType<T>::value == BOOLEAN_TYPE; }
  void invariants(bool reading) { reads = reading; vf_inv((bool (*)(void *, size_t)) (reading ? i_sized : i_header), this); vf_inv((bool (*)(void *, size_t)) i_flag, this); vf_inv((bool (*)(void *, size_t)) k_flag, this); vf_inv((bool (*)(void *, size_t)) i_elem, this); vf_total(n); } };
#define SHAPE(n, A) size_t n = vf_size("size", 0, MAXS); vf_vec_bool(&A.m_known, "known", n); vf_elems(&A.m_contents, "element", n)
template <class T> void write_array() { ArrayImpl<T> a; SHAPE(n, a); size_t len = 4 + bytes_for(n) + E<T>::bytes(n); Buf b(len); AB<T> x = {&a, &b, n, wit(n), bytes_for(n)}; vf_check(a.serialSize() == len, "announced size"); x.invariants(false); char *e = a.serialize(b.p());
  vf_check(e == b.end(), "the whole announced size is used, no more"); vf_check(x.header(), "type and size as the format says"); if (n) { vf_check(x.flag(), "known flags as the format says"); vf_check(x.elem(), "elements as the format says"); } }
EACHNUM(write_array)
// array values: the array's own functions do the work (their contracts are proved above)
template <class T> struct Names; template <> struct Names<Boolean> { static char const *ser() { return "PLEXIL::ArrayImpl<bool>::serialize"; } static char const *des() { return "PLEXIL::ArrayImpl<bool>::deserialize"; } static char const *siz() { return "PLEXIL::ArrayImpl<bool>::serialSize"; } };
template <> struct Names<Integer> { static char const *ser() { return "PLEXIL::ArrayImpl<int>::serialize"; } static char const *des() { return "PLEXIL::ArrayImpl<int>::deserialize"; } static char const *siz() { return "PLEXIL::ArrayImpl<int>::serialSize"; } };
template <> struct Names<Real> { static char const *ser() { return "PLEXIL::ArrayImpl<double>::serialize"; } static char const *des() { return "PLEXIL::ArrayImpl<double>::deserialize"; } static char const *siz() { return "PLEXIL::ArrayImpl<double>::serialSize"; } };
#define STD_STRING "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> "
template <> struct Names<String> { static char const *ser() { return "PLEXIL::ArrayImpl<" STD_STRING ">::serialize"; } static char const *des() { return "PLEXIL::ArrayImpl<" STD_STRING ">::deserialize"; } static char const *siz() { return "PLEXIL::ArrayImpl<" STD_STRING ">::serialSize"; } };
inline bool same(String const &a, String const &b, int) { return vf_same_string(&a, &b); } template <class T> bool same(T a, T b, int) { return same(a, b); }
// what the array function was given, and what it did
template <class T> struct Call { static ArrayImpl<T> const *self; static char const *at; static int n; static size_t size; static char *done;
  static char *ser(ArrayImpl<T> const *s, char *p) { self = s; at = p; ++n; return done; }
  static char const *des(ArrayImpl<T> *s, char const *p) { self = s; at = p; ++n; return done; }
  static size_t siz(ArrayImpl<T> const *s) { self = s; ++n; return size; } };
template <class T> ArrayImpl<T> const *Call<T>::self; template <class T> char const *Call<T>::at; template <class T> int Call<T>::n; template <class T> size_t Call<T>::size; template <class T> char *Call<T>::done;
template <class T> bool holds(ArrayImpl<T> const &h, ArrayImpl<T> const &a, size_t n, size_t w) { return h.m_known.size() == n && h.m_contents.size() == n && (n == 0 || (h.m_known[w] == a.m_known[w] && same(h.m_contents[w], a.m_contents[w], 0))); }
template <class T> void write_value() { ArrayImpl<T> a; SHAPE(n, a); size_t w = wit(n); Value v(a);
#ifdef VF_SYMBOLIC
  typedef Call<T> C; Buf b(16); C::n = 0; C::size = vf_u64("its size"); C::done = vf_bool("it fails") ? nullptr : b.p() + vf_size("written", 0, 16);
  vf_instead(Names<T>::siz(), (void (*)()) C::siz); vf_instead(Names<T>::ser(), (void (*)()) C::ser);
  vf_check(v.serialSize() == C::size && C::n == 1 && holds(*C::self, a, n, w), "the size is that of the array held"); char *e = v.serialize(b.p());
  vf_check(C::n == 2 && holds(*C::self, a, n, w) && C::at == b.p() && e == C::done, "encoded as the array held");
#else
  size_t len = a.serialSize(); Buf b(len), b2(len); vf_check(v.serialSize() == len, "the size is that of the array held"); a.serialize(b2.p()); vf_check(v.serialize(b.p()) == b.end() && b.v == b2.v, "encoded as the array held");
#endif
}
EACH(write_value)
template <class T, class O, bool OK> void read_value_() { Old<O, OK> o; ArrayImpl<T> const *r = nullptr;
#ifdef VF_SYMBOLIC
  typedef Call<T> C; Buf b(vf_size("length", 1, MAXS)); vf_assume(b.u()[0] == PlexilValueType<T>::arrayValue); C::n = 0; C::done = vf_bool("it fails") ? nullptr : b.end(); vf_instead(Names<T>::des(), (void (*)()) C::des);
  char const *e = o.v.deserialize(b.p()); vf_check(C::n == 1 && C::at == b.p() && e == C::done, "read as an array of the type"); vf_check(o.v.valueType() == PlexilValueType<T>::arrayValue && o.v.isKnown() && o.v.getValuePointer(r) && r == C::self, "the value is the array read");
#else
  ArrayImpl<T> a; SHAPE(n, a); Buf b(a.serialSize()); a.serialize(b.p()); vf_check(o.v.deserialize(b.p()) == b.end(), "read as an array of the type"); vf_check(o.v.valueType() == PlexilValueType<T>::arrayValue && o.v.isKnown() && o.v.getValuePointer(r) && *r == a, "the value is the array read");
#endif
}
template <class T> void read_value() { uint8_t c = vf_u8("old type"); bool k = vf_bool("old known"); uint8_t n = 0;
#define RV(O) if (c == n++) { if (k) read_value_<T, O, true>(); else read_value_<T, O, false>(); return; }
  OLD(RV) }
EACH(read_value)
template <class T> void read_array() { size_t n = vf_size("size", 0, MAXS), len = 4 + bytes_for(n) + E<T>::bytes(n), m = vf_size("old size", 0, MAXS); Buf b(len); ArrayImpl<T> a; AB<T> x = {&a, &b, n, wit(n), bytes_for(n)};
#ifndef VF_SYMBOLIC
  b.v[0] = PlexilValueType<T>::arrayValue; b.v[1] = n >> 16; b.v[2] = n >> 8; b.v[3] = n;
#endif
  vf_assume(x.header()); vf_vec_bool(&a.m_known, "old known", m); vf_elems(&a.m_contents, "old element", m); x.invariants(true);
  char const *e = a.deserialize(b.p()); vf_check(e == b.end(), "reading consumes the whole"); vf_check(AB<T>::i_sized(&x, 0), "of the size the data says"); if (n) { vf_check(x.flag(), "known as the data says"); vf_check(x.elem(), "elements as the data says"); } }
EACHNUM(read_array)
template <class T> void wrong_array() { ArrayImpl<T> a; size_t n = vf_size("size", 0, MAXS); vf_vec_bool(&a.m_known, "known", n); vf_elems(&a.m_contents, "element", n); Buf b(vf_size("length", 1, MAXS)); vf_assume(b.u()[0] != PlexilValueType<T>::arrayValue); vf_check(a.deserialize(b.p()) == nullptr, "data of another type is rejected"); vf_check(a.m_known.size() == n && a.m_contents.size() == n, "and nothing is read"); }
EACH(wrong_array)
template <class T> void too_long() { ArrayImpl<T> a; size_t n = vf_size("size", MAXS + 1, 1000000000); vf_vec_bool(&a.m_known, "known", n); vf_elems(&a.m_contents, "element", n); Buf b(16); vf_check(a.serialize(b.p()) == nullptr, "too long to serialize"); }
EACH(too_long)
// ---- arrays of strings: the elements lie behind one another, each three bytes of length and the characters; off[i]: where element i begins
namespace PLEXIL { template <typename T> char *serializeElement(T const &, char *); template <> char *serializeElement<String>(String const &, char *); template <typename T> char const *deserializeElement(T &, char const *); template <> char const *deserializeElement<String>(String &, char const *); }
PROOF(write_element) { S<String> s; if (!s.ok()) { Buf b(16); vf_check(serializeElement(s.x, b.p()) == nullptr, "too long to serialize"); return; } size_t n = 3 + vf_length(&s.x); Buf b(n); vf_check(serializeElement(s.x, b.p()) == b.end(), "the whole size is used, no more"); vf_check(has_chars(b.u(), s.x), "encoded as the format says"); }
PROOF(read_element) { Buf b(vf_size("length", 3, MAXS + 3)); length_first(&b.v[0], b.n - 3); vf_assume(u3(b.u()) + 3 == b.n); String y; vf_string(&y, "old value"); vf_check(deserializeElement(y, b.p()) == b.end(), "reading consumes the whole"); vf_check(has_chars(b.u(), y), "the characters are those of the data"); }
struct SA { StringArray *a; Buf *b; std::vector<uint64_t> *off; size_t n, w; bool failing; uint8_t const *f() { return b->u() + 4; } bool flag() { return bit(f(), w) == a->m_known[w]; }
  bool header() { uint8_t const *p = b->u(); return p[0] == STRING_ARRAY_TYPE && u3(p + 1) == n; }
  static SA *cur; static size_t calls;
  static bool i_off(SA *x, size_t k, size_t v) { return v == (*x->off)[k]; } static bool i_calls(SA *, size_t k) { return calls == k; } static bool i_header(SA *x, size_t) { return x->header(); }
  static bool i_flag(SA *x, size_t k) { return !(x->w / 8 < k) || x->flag(); } static bool k_flag(SA *x, size_t) { return x->flag(); } static bool i_before(SA *x, size_t k) { return !x->failing | (k <= x->w); }
  static bool i_sized(SA *x, size_t) { return x->a->m_known.size() == x->n && x->a->m_contents.size() == x->n; }
  void invariants(bool reading) { vf_loc_inv((bool (*)(void *, size_t, size_t)) i_off, this); vf_inv((bool (*)(void *, size_t)) i_calls, this); vf_inv((bool (*)(void *, size_t)) (reading ? i_sized : i_header), this); vf_inv((bool (*)(void *, size_t)) i_flag, this); vf_inv((bool (*)(void *, size_t)) k_flag, this); vf_inv((bool (*)(void *, size_t)) i_before, this); vf_total(n); }
  static char *ser(String const *v, char *p) { vf_check(p == cur->b->p() + (*cur->off)[calls] && v == &cur->a->m_contents[calls], "element by element, each where the one before ends"); size_t l = vf_length(v); ++calls; return l > MAXS ? nullptr : p + 3 + l; }
  static char const *des(String *v, char const *p) { vf_check(p == cur->b->p() + (*cur->off)[calls] && v == &cur->a->m_contents[calls], "element by element, each where the one before ends"); ++calls; return cur->b->p() + (*cur->off)[calls]; } };
SA *SA::cur; size_t SA::calls;
void write_strings_(bool failing) { StringArray a; SHAPE(n, a); vf_assume(n > 0); size_t w = wit(n), i = wit(n); std::vector<uint64_t> off;
#ifdef VF_SYMBOLIC
  vf_elems(&off, "offset", n + 1); vf_assume(off[0] == 4 + bytes_for(n)); vf_forall(i, 0, n, off[i + 1] == off[i] + 3 + vf_length(&a.m_contents[i]), &off, &a.m_contents, nullptr, nullptr); if (failing) { vf_assume(vf_length(&a.m_contents[w]) > MAXS); } else vf_forall(i, 0, n, vf_length(&a.m_contents[i]) <= MAXS, &off, &a.m_contents, nullptr, nullptr);
  Buf b(vf_size("length", 4 + bytes_for(n), 1000000000)); vf_instead("char* PLEXIL::serializeElement<" STD_STRING ">", (void (*)()) SA::ser);
#else
  off.push_back(4 + bytes_for(n)); for (auto const &s : a.m_contents) off.push_back(off.back() + 3 + s.size()); if (failing) return; Buf b(off[n]);
#endif
  SA x = {&a, &b, &off, n, w, failing}; SA::cur = &x; SA::calls = 0; x.invariants(false); vf_check(a.serialSize() == off[n], "announced size"); SA::calls = 0; char *e = a.serialize(b.p());
  if (failing) { vf_check(e == nullptr, "an element too long makes it fail"); return; }
  vf_check(e == b.p() + off[n], "the whole announced size is used, no more"); vf_check(x.header(), "type and size as the format says"); if (n) vf_check(x.flag(), "known flags as the format says");
#ifdef VF_SYMBOLIC
  vf_check(SA::calls == n, "every element is written");
#else
  for (size_t j = 0; j < n; ++j) vf_check(has_chars(b.u() + off[j], a.m_contents[j]), "every element is written");
#endif
}
PROOF(write_no_strings) { StringArray a; vf_check(a.serialSize() == 4, "announced size"); Buf b(4); vf_check(a.serialize(b.p()) == b.end() && b.u()[0] == STRING_ARRAY_TYPE && u3(b.u() + 1) == 0, "type and size as the format says"); }
PROOF(write_strings) { write_strings_(false); }
PROOF(write_strings_too_long) { write_strings_(true); }
PROOF(read_strings) { StringArray a; std::vector<uint64_t> off;
#ifdef VF_SYMBOLIC
  size_t n = vf_size("size", 0, MAXS), m = vf_size("old size", 0, MAXS), w = wit(n); vf_elems(&off, "offset", n + 1); vf_assume(off[0] == 4 + bytes_for(n)); Buf b(vf_size("length", 4 + bytes_for(n), 1000000000)); vf_instead("char const* PLEXIL::deserializeElement<" STD_STRING ">", (void (*)()) SA::des);
  SA x = {&a, &b, &off, n, w, false}; vf_assume(x.header()); vf_vec_bool(&a.m_known, "old known", m); vf_elems(&a.m_contents, "old element", m); SA::cur = &x; SA::calls = 0; x.invariants(true); char const *e = a.deserialize(b.p());
  vf_check(e == b.p() + off[n] && SA::calls == n, "reading consumes the whole"); vf_check(SA::i_sized(&x, 0), "of the size the data says"); if (n) vf_check(x.flag(), "known as the data says");
#else
  StringArray o; SHAPE(n, o); size_t m = vf_size("old size", 0, MAXS); Buf b(o.serialSize()); o.serialize(b.p()); vf_vec_bool(&a.m_known, "old known", m); vf_elems(&a.m_contents, "old element", m); vf_check(a.deserialize(b.p()) == b.end(), "reading consumes the whole"); vf_check(a.size() == n, "of the size the data says"); vf_check(a.m_known == o.m_known && a.m_contents == o.m_contents, "known as the data says");
#endif
}

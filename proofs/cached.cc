#include "vf.hh"
#include "ArrayImpl.hh"
#include "CachedValueImpl.hh"
#include "Value.hh"
#include "PlexilTypeTraits.hh"
#include "StateCache.hh"
#include "State.hh"
#include "Dispatcher.hh"
#define StateCacheEntryImpl CheckedEntryImpl
#define makeStateCacheEntry makeCheckedEntry
#include "StateCacheEntry.cc"
#undef StateCacheEntryImpl
#undef makeStateCacheEntry
#include <memory>
using namespace PLEXIL;
static const size_t MAXN = 1000000000;
template <class T> struct K { static const bool array = false; }; template <class E> struct K<ArrayImpl<E>> { static const bool array = true; };
// x: an arbitrary value of the type
template <class T> struct Some { T x; }; template <> struct Some<Boolean> { Boolean x; Some() : x(vf_bool("value")) {} }; template <> struct Some<Integer> { Integer x; Some() : x(vf_i32("value")) {} }; template <> struct Some<Real> { Real x; Some() : x(vf_f64("value")) {} }; template <> struct Some<String> { String x; Some() { vf_string(&x, "value"); } };
template <class E> struct Some<ArrayImpl<E>> { ArrayImpl<E> x; Some() { size_t n = vf_size("size", 0, MAXN); vf_vec_bool(&x.m_known, "known", n); vf_elems(&x.m_contents, "element", n); } };
inline bool eq(bool a, bool b) { return a == b; } inline bool eq(int32_t a, int32_t b) { return a == b; } inline bool eq(double a, double b) { return vf_same_f64(a, b); } inline bool eq(String const &a, String const &b) { return a == b; }
template <class E> void same(ArrayImpl<E> const &p, ArrayImpl<E> const &x) { size_t n = x.m_known.size(); vf_check((p.m_known.size() == n) & (p.m_contents.size() == n), "the array stored has the same size"); if (n) { size_t w = vf_size("witness", 0, n - 1); vf_check(p.m_known[w] == x.m_known[w], "the same elements are known"); vf_check(eq(p.m_contents[w], x.m_contents[w]), "the elements are the same"); } }
template <class T> void same(T const &a, T const &b) { vf_check(eq(a, b), "the value stored is as expected"); }
// the contract of array comparison: whether two given arrays differ
static Array const *cmp_a, *cmp_b; static bool cmp_differ;
static void compared(Array const &a, Array const &b) { vf_check(((&a == cmp_a) & (&b == cmp_b)) | ((&a == cmp_b) & (&b == cmp_a)), "the old value is compared with the new one"); }
template <class E> bool arrays_equal(ArrayImpl<E> const &a, ArrayImpl<E> const &b) { compared(a, b); return !cmp_differ; }
template <class E> bool arrays_differ(ArrayImpl<E> const &a, ArrayImpl<E> const &b) { compared(a, b); return cmp_differ; }
#define STD_STRING "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
template <class E> struct Names; 
#define NAMES(E, N) template <> struct Names<E> { static char const *ne() { return "bool PLEXIL::operator!=<" N ">"; } static char const *ee() { return "bool PLEXIL::operator==<" N ">"; } };
NAMES(Boolean, "bool") NAMES(Integer, "int") NAMES(Real, "double") NAMES(String, STD_STRING " ")
template <class T> struct Cmp { static bool differ(T const &a, T const &b) { return a != b; } };
template <class E> struct Cmp<ArrayImpl<E>> { static bool differ(ArrayImpl<E> const &a, ArrayImpl<E> const &b) {
#ifdef VF_SYMBOLIC
  cmp_a = &a; cmp_b = &b; cmp_differ = vf_bool("the arrays differ"); vf_instead(Names<E>::ne(), (void (*)()) (bool (*)(ArrayImpl<E> const &, ArrayImpl<E> const &)) &arrays_differ<E>); vf_instead(Names<E>::ee(), (void (*)()) (bool (*)(ArrayImpl<E> const &, ArrayImpl<E> const &)) &arrays_equal<E>); return cmp_differ;
#else
  return a != b;
#endif
} };
// a cached value of the type, known or not, last updated at any time
template <class T> struct Cv { CachedValueImpl<T> c; Some<T> old; bool known; unsigned ts; Cv() : known(vf_bool("old known")), ts(vf_u32("old time stamp")) { c.m_value = old.x; c.m_known = known; c.m_timestamp = ts; }
  void holds(bool k, T const &x, unsigned t) { vf_check(c.m_known == k, "known as expected"); vf_check(c.getTimestamp() == t, "time stamp as expected"); if (k) same(c.m_value, x); } };
template <class T> struct Up { static uint8_t forms() { return 2; } static bool to(CachedValueImpl<T> &c, uint8_t f, unsigned t, T const &x) { if (f == 0) return c.update(t, x); return c.update(t, Value(x)); } };
template <> struct Up<String> { static uint8_t forms() { return 3; } static bool to(CachedValueImpl<String> &c, uint8_t f, unsigned t, String const &x) { if (f == 0) return c.update(t, x); if (f == 1) return c.update(t, Value(x)); return c.updatePtr(t, &x); } };
template <class E> struct Up<ArrayImpl<E>> { static uint8_t forms() { return 1; } static bool to(CachedValueImpl<ArrayImpl<E>> &c, uint8_t, unsigned t, ArrayImpl<E> const &x) { return c.updatePtr(t, &x); } };
template <class T> void update() { Cv<T> v; Some<T> n; unsigned t = vf_u32("time stamp"); uint8_t f = vf_u8("form");
#ifndef VF_SYMBOLIC
  if (vf_bool("same value")) n.x = v.old.x;
#endif
  bool d = !v.known; if (!d) d = Cmp<T>::differ(v.c.m_value, n.x);
  bool r = Up<T>::to(v.c, f, t, n.x); vf_check(r == d, "a change is reported exactly when it was unknown or the value differs"); if (d) v.holds(true, n.x, t); else v.holds(true, v.old.x, v.ts); }
EACHCACHED(update)
PROOF(update_Real_from_Integer) { Cv<Real> v; Some<Integer> n; unsigned t = vf_u32("time stamp"); bool d = !v.known | (v.old.x != (Real) n.x); bool r = vf_bool("as a Value") ? v.c.update(t, Value(n.x)) : v.c.update(t, n.x); vf_check(r == d, "a change is reported exactly when it was unknown or the value differs"); if (d) v.holds(true, (Real) n.x, t); else v.holds(true, v.old.x, v.ts); }
template <class T> void unknown() { Cv<T> v; unsigned t = vf_u32("time stamp"); bool r; switch (vf_u8("form")) { case 0: r = v.c.setUnknown(t); break; case 1: r = v.c.update(t, Value()); break; default: r = v.c.update(t, Value(v.c.valueType())); } vf_check(r == v.known, "a change is reported exactly when it was known"); vf_check(!v.c.isKnown(), "unknown afterwards"); vf_check(v.c.getTimestamp() == t, "time stamp as expected"); }
EACHCACHED(unknown)
template <class T, class O> void misread_as() { Cv<T> v; Some<O> n; vf_expect_error(true); v.c.update(vf_u32("time stamp"), Value(n.x)); }
template <class T> void misread() { uint8_t c = vf_u8("given"), n = 0; ValueType t = PlexilValueType<T>::value;
#define MIS(O) if (c == n++ && t != PlexilValueType<O>::value && !(t == REAL_TYPE && PlexilValueType<O>::value == INTEGER_TYPE)) misread_as<T, O>();
  MIS(Boolean) MIS(Integer) MIS(Real) MIS(String) MIS(BooleanArray) MIS(IntegerArray) MIS(RealArray) MIS(StringArray) }
EACHCACHED(misread)
template <class T> struct Rd { static bool val(CachedValue const &c, T &r) { return c.getValue(r); } };
template <> struct Rd<String> { static bool val(CachedValue const &c, String &r) { String s; String const *p = nullptr; bool k = c.getValuePointer(p); vf_check(c.getValue(s) == k, "copy and pointer agree"); if (k) { r = *p; vf_check(s == r, "copy and pointer agree"); } return k; } };
template <class E> struct Rd<ArrayImpl<E>> { static bool val(CachedValue const &c, ArrayImpl<E> &r) { ArrayImpl<E> const *p = nullptr; Array const *g = nullptr; bool k = c.getValuePointer(p); vf_check(c.getValuePointer(g) == k, "generic pointer agrees"); if (k) { vf_check(g == p, "generic pointer agrees"); r = *p; } return k; } };
template <class T> void reads(CachedValue const &c, bool k, T const &x) { vf_check(c.valueType() == PlexilValueType<T>::value, "its type"); vf_check(c.isKnown() == k, "known as expected"); T r = T(); vf_check(Rd<T>::val(c, r) == k, "a value exactly when known"); if (k) same(r, x); }
template <class T> struct Is { static void value(Value const &v, T const &x) { T r; if (v.getValue(r)) same(r, x); else vf_check(false, "its value is available"); } };
template <class E> struct Is<ArrayImpl<E>> { static void value(Value const &v, ArrayImpl<E> const &x) { ArrayImpl<E> const *p = nullptr; if (v.getValuePointer(p)) same(*p, x); else vf_check(false, "its value is available"); } };
template <class T> void read() { Cv<T> v; reads<T>(v.c, v.known, v.old.x); Value w = v.c.toValue(); vf_check(w.isKnown() == v.known && w.valueType() == PlexilValueType<T>::value, "as a Value, of the same type and known alike"); if (v.known) Is<T>::value(w, v.old.x); }
EACHCACHED(read)
PROOF(read_Integer_as_Real) { Cv<Integer> v; Real r; bool k = v.c.getValue(r); vf_check(k == v.known && (!k || r == (Real) v.old.x), "an Integer reads as the equal Real"); }
template <class T> void copy() { Cv<T> v; { std::unique_ptr<CachedValue> p(v.c.clone()); reads<T>(*p, v.known, v.old.x); vf_check(p->getTimestamp() == v.ts, "with its time stamp"); } Cv<T> o; CachedValue &d = o.c; CachedValue const &s = v.c; d = s; o.holds(v.known, v.old.x, v.ts); v.holds(v.known, v.old.x, v.ts); }
EACHCACHED(copy)
template <class T> void make_as(ValueType t) { std::unique_ptr<CachedValue> p(CachedValueFactory(t)); vf_check(dynamic_cast<CachedValueImpl<T> *>(p.get()) != nullptr, "a cached value of the type"); reads<T>(*p, false, T()); }
PROOF(make) { switch (vf_u8("type")) { case 0: make_as<Boolean>(BOOLEAN_TYPE); break; case 1: make_as<Integer>(INTEGER_TYPE); break; case 2: make_as<Real>(REAL_TYPE); break; case 3: make_as<String>(STRING_TYPE); break; case 4: make_as<Real>(DATE_TYPE); break; case 5: make_as<Real>(DURATION_TYPE); break; case 6: make_as<BooleanArray>(BOOLEAN_ARRAY_TYPE); break; case 7: make_as<IntegerArray>(INTEGER_ARRAY_TYPE); break; case 8: make_as<RealArray>(REAL_ARRAY_TYPE); break; case 9: make_as<StringArray>(STRING_ARRAY_TYPE); break;
  default: std::unique_ptr<CachedValue> p(CachedValueFactory(UNKNOWN_TYPE)); vf_check(!p->isKnown() && p->valueType() == UNKNOWN_TYPE && !p->toValue().isKnown(), "without a type, unknown"); } }
PROOF(make_other) { uint8_t t = vf_u8("type"); vf_expect_error(true); vf_assume((t > DURATION_TYPE && t < ARRAY_TYPE) || t > STRING_ARRAY_TYPE || t == ARRAY_TYPE); delete CachedValueFactory((ValueType) t); }
// equality
template <class A, class B> struct Eq { static void pair() { Cv<A> a; Cv<B> b; vf_check((static_cast<CachedValue const &>(a.c) == b.c) == (!a.known & !b.known), "values of different types are equal exactly when both are unknown"); } };
template <class A> struct Eq<A, A> { static void pair() { Cv<A> a; Cv<A> b;
#ifndef VF_SYMBOLIC
  if (vf_bool("same value")) b.c.m_value = b.old.x = a.old.x;
#endif
  bool e = !a.known & !b.known; if (a.known && b.known) e = !Cmp<A>::differ(a.c.m_value, b.c.m_value); vf_check((static_cast<CachedValue const &>(a.c) == b.c) == e, "equal exactly when both unknown, or known with equal values"); } };
template <class A> void equality() { uint8_t c = vf_u8("other"), n = 0;
#define PAIR(O) if (c == n++) { Eq<A, O>::pair(); return; }
  PAIR(Boolean) PAIR(Integer) PAIR(Real) PAIR(String) PAIR(BooleanArray) PAIR(IntegerArray) PAIR(RealArray) PAIR(StringArray)
  Cv<A> a; VoidCachedValue v; vf_check((static_cast<CachedValue const &>(a.c) == v) == !a.known && (v == a.c) == !a.known, "an untyped cached value is equal to unknowns only"); }
EACHCACHED(equality)
PROOF(untyped) { VoidCachedValue v; v.m_timestamp = vf_u32("old time stamp"); unsigned t = vf_u32("time stamp"); bool r = vf_bool("form") ? v.update(t, Value()) : v.setUnknown(t); vf_check(!r, "no change reported"); vf_check(!v.isKnown(), "unknown afterwards"); }
PROOF(untyped_misread) { VoidCachedValue v; vf_expect_error(true); v.update(vf_u32("time stamp"), Value((Integer) vf_i32("value"))); }
// ---- the cache entry of a state
struct Cache : StateCache { unsigned cycle; Cache() : cycle(vf_u32("cycle")) {} unsigned getCycleCount() const override { return cycle; } void incrementCycleCount() override {} void lookupReturn(State const &, Value const &) override {} StateCacheEntry *ensureStateCacheEntry(State const &) override { return nullptr; } LookupReceiver *getLookupReceiver(State const &) override { return nullptr; } void messageReceived(Message const *) override {} void messageQueueEmpty() override {} void assignMessageHandle(Message *, std::string const &) override {} void releaseMessageHandle(std::string const &) override {} StateCacheEntry *ensureTimeEntry() override { return nullptr; } };
static Cache *the_cache; static StateCache &cache_instance() { return *the_cache; }
struct Disp : Dispatcher { State const *state; unsigned nows, sets, clears; LookupReceiver *who; Real rh, rl; Integer ih, il; Disp() : state(nullptr), nows(0), sets(0), clears(0), who(nullptr) {}
  void lookupNow(State const &s, LookupReceiver *r) override { state = &s; who = r; ++nows; } void setThresholds(State const &s, Real hi, Real lo) override { state = &s; rh = hi; rl = lo; ++sets; } void setThresholds(State const &s, Integer hi, Integer lo) override { state = &s; ih = hi; il = lo; ++sets; } void clearThresholds(State const &s) override { state = &s; ++clears; } void executeCommand(Command *) override {} void reportCommandArbitrationFailure(Command *) override {} void invokeAbort(Command *) override {} void executeUpdate(Update *) override {} };
// a registered lookup: counts notifications; has thresholds or not
struct L : Lookup { bool has; Integer ih, il; Real rh, rl; unsigned calls; L() : has(false), ih(0), il(0), rh(0), rl(0), calls(0) {}
  char const *exprName() const override { return "L"; } ValueType valueType() const override { return UNKNOWN_TYPE; } bool isKnown() const override { return false; } Value toValue() const override { return Value(); } void printValue(std::ostream &) const override {} bool isPropagationSource() const override { return true; }
  bool getThresholds(Integer &h, Integer &l) const override { if (has) { h = ih; l = il; } return has; } bool getThresholds(Real &h, Real &l) const override { if (has) { h = rh; l = rl; } return has; } void valueChanged() override { ++calls; } };
alignas(16) static char some_state[sizeof(State)]; static State const &the_state() { return *reinterpret_cast<State const *>(some_state); }
static bool notified(void *p, size_t k);
struct Entry { Cache cache; Disp disp; Fam<L> fam; CheckedEntryImpl e; size_t n, w; unsigned now; Entry() : fam("lookup"), n(vf_size("lookups", 0, MAXN)), w(0) {
  fam.any(&fam.proto.has, "has thresholds"); fam.any(&fam.proto.ih, "high"); fam.any(&fam.proto.il, "low"); fam.any(&fam.proto.rh, "high"); fam.any(&fam.proto.rl, "low"); fam.make(n + 1); vf_members(&e.m_lookups, fam, n); if (n) w = vf_size("lookup", 0, n - 1); g_dispatcher = &disp;
#ifdef VF_SYMBOLIC
  the_cache = &cache; vf_instead("PLEXIL::StateCache::instance", (void (*)()) &cache_instance); vf_inv(notified, this);
#endif
  now = StateCache::instance().getCycleCount(); }
  void told(bool c) { if (n) vf_check(fam.at(w + 1)->calls == (c ? 1u : 0u), "every registered lookup is notified exactly when the value changed"); vf_check(e.m_lookups.size() == n && disp.nows + disp.sets + disp.clears == 0, "nothing else happens"); } };
static bool notified(void *p, size_t k) { Entry &t = *(Entry *) p; return t.fam.at(t.w + 1)->calls == (t.w < k ? 1u : 0u); }
// an entry holding a cached value of the type
template <class T> struct Held : Entry { CachedValueImpl<T> *v; Some<T> old; bool known; unsigned ts; Held() : v(new CachedValueImpl<T>()), known(vf_bool("old known")), ts(vf_u32("old time stamp")) { v->m_value = old.x; v->m_known = known; v->m_timestamp = ts; e.m_value.reset(v); }
  void holds(bool k, T const &x, unsigned t) { vf_check(e.cachedValue() == v, "the same cached value"); vf_check(e.valueType() == PlexilValueType<T>::value && e.isKnown() == k, "known as expected"); vf_check(v->getTimestamp() == t, "time stamp as expected"); if (k) same(v->m_value, x); }
  void unchanged() { holds(known, old.x, ts); told(false); } };
template <class T> struct EUp { static void to(CheckedEntryImpl &e, uint8_t f, unsigned, T const &x) { if (f == 0) e.update(x); else if (f == 1) e.update(Value(x)); else e.updateValue(Value(x), StateCache::instance().getCycleCount()); } };
template <> struct EUp<String> { static void to(CheckedEntryImpl &e, uint8_t f, unsigned, String const &x) { if (f == 0) e.update(x); else if (f == 1) e.update(Value(x)); else if (f == 2) e.updatePtr(&x); else e.updateValue(Value(x), StateCache::instance().getCycleCount()); } };
template <class E> struct EUp<ArrayImpl<E>> { static void to(CheckedEntryImpl &e, uint8_t, unsigned, ArrayImpl<E> const &x) { e.updatePtr(&x); } };
template <class T> void entry_update() { Held<T> v; Some<T> n;
#ifndef VF_SYMBOLIC
  if (vf_bool("same value")) n.x = v.old.x;
#endif
  bool d = !v.known; if (!d) d = Cmp<T>::differ(v.v->m_value, n.x); EUp<T>::to(v.e, vf_u8("form"), v.now, n.x); if (d) v.holds(true, n.x, v.now); else v.holds(true, v.old.x, v.ts); v.told(d); }
EACHCACHED(entry_update)
// the first value: no cached value yet, or an untyped one
template <class T> void entry_first() { Entry t; if (vf_bool("untyped")) t.e.m_value.reset(new VoidCachedValue()); Some<T> n; EUp<T>::to(t.e, vf_u8("form"), t.now, n.x); reads<T>(*t.e.cachedValue(), true, n.x); vf_check(t.e.cachedValue()->getTimestamp() == t.now, "time stamp as expected"); t.told(true); }
EACHCACHED(entry_first)
template <class T> void entry_unknown() { Held<T> v; switch (vf_u8("form")) { case 0: v.e.setUnknown(); break; case 1: v.e.update(Value()); break; default: v.e.updateValue(Value(), v.now); } v.holds(false, v.old.x, v.now); v.told(v.known); }
EACHCACHED(entry_unknown)
PROOF(entry_still_untyped) { Entry t; bool had = vf_bool("untyped"); if (had) t.e.m_value.reset(new VoidCachedValue()); switch (vf_u8("form")) { case 0: t.e.setUnknown(); break; case 1: t.e.update(Value()); break; default: t.e.updateValue(Value(), t.now); } vf_check(!t.e.isKnown() && t.e.valueType() == UNKNOWN_TYPE, "unknown and untyped"); t.told(false); }
// a value of another type is not stored
template <class T, class O> void other_as() { Held<T> v; Some<O> n; EUp<O>::to(v.e, vf_u8("form"), v.now, n.x); v.unchanged(); }
template <class T> void entry_other() { uint8_t c = vf_u8("given"), n = 0; ValueType t = PlexilValueType<T>::value;
#define OTHER(O) if (c == n++ && t != PlexilValueType<O>::value && !(t == REAL_TYPE && PlexilValueType<O>::value == INTEGER_TYPE)) other_as<T, O>();
  OTHER(Boolean) OTHER(Integer) OTHER(Real) OTHER(String) OTHER(BooleanArray) OTHER(IntegerArray) OTHER(RealArray) OTHER(StringArray) }
EACHCACHED(entry_other)
PROOF(entry_Real_from_Integer) { Held<Real> v; Some<Integer> n; bool d = !v.known | (v.old.x != (Real) n.x); EUp<Integer>::to(v.e, vf_u8("form"), v.now, n.x); if (d) v.holds(true, (Real) n.x, v.now); else v.holds(true, v.old.x, v.ts); v.told(d); }
PROOF(entry_from_chars) { Held<String> v; bool d = !v.known | (v.old.x != "some text"); v.e.update("some text"); if (d) v.holds(true, "some text", v.now); else v.holds(true, v.old.x, v.ts); v.told(d); }
// ---- thresholds: the narrowest interval over the registered lookups that have one
template <class T> struct Th; template <> struct Th<Integer> { static Integer hi(L *l) { return l->ih; } static Integer lo(L *l) { return l->il; } static Integer dhi(Disp &d) { return d.ih; } static Integer dlo(Disp &d) { return d.il; } static Integer bound(char const *n) { return vf_i32(n); } static void inv(bool (*f)(void *, size_t, size_t, size_t), bool (*)(void *, size_t, size_t, double), void *p) { vf_pair_inv(f, p); } };
template <> struct Th<Real> { static Real hi(L *l) { return l->rh; } static Real lo(L *l) { return l->rl; } static Real dhi(Disp &d) { return d.rh; } static Real dlo(Disp &d) { return d.rl; } static Real bound(char const *n) { return vf_f64(n); } static void inv(bool (*)(void *, size_t, size_t, size_t), bool (*f)(void *, size_t, size_t, double), void *p) { vf_pair_inv_f64(f, p); } };
template <class T> struct Thr : Held<T> { T bhi, blo; bool had; CachedValueImpl<T> *lo, *hi; Thr() : bhi(Th<T>::bound("lower bound of the highs")), blo(Th<T>::bound("upper bound of the lows")), had(vf_bool("had thresholds")), lo(nullptr), hi(nullptr) { vf_assume((bhi == bhi) & (blo == blo)); if (had) { lo = new CachedValueImpl<T>(); hi = new CachedValueImpl<T>(); lo->m_known = hi->m_known = true; lo->m_value = Th<T>::bound("old low"); hi->m_value = Th<T>::bound("old high"); this->e.m_lowThreshold.reset(lo); this->e.m_highThreshold.reset(hi); } }
  L *at(size_t i) { return this->fam.at(i + 1); }
  // narrowest: no wider than the witness's; within any bounds common to all
  static bool seen_any(void *p, size_t k, size_t any, T) { Thr &t = *(Thr *) p; return !((t.w < k) & t.at(t.w)->has) | (any != 0); }
  static bool lo_atleast(void *p, size_t k, size_t, T x) { Thr &t = *(Thr *) p; return !((t.w < k) & t.at(t.w)->has) | (Th<T>::lo(t.at(t.w)) <= x); }
  static bool hi_atmost(void *p, size_t k, size_t, T x) { Thr &t = *(Thr *) p; return !((t.w < k) & t.at(t.w)->has) | (Th<T>::hi(t.at(t.w)) >= x); }
  static bool lo_within(void *p, size_t, size_t any, T x) { Thr &t = *(Thr *) p; return (any == 0) | (x <= t.blo); }
  static bool hi_within(void *p, size_t, size_t any, T x) { Thr &t = *(Thr *) p; return (any == 0) | (x >= t.bhi); }
  static bool nnan(void *, size_t, size_t any, T x) { return (any == 0) | (x == x); }
  static bool none(void *p, size_t, size_t any, T) { (void) p; return any == 0; }
  template <bool (*F)(void *, size_t, size_t, T)> static bool asi(void *p, size_t k, size_t any, size_t x) { return F(p, k, any, (T) (int32_t) x); }
  template <bool (*F)(void *, size_t, size_t, T)> static bool asd(void *p, size_t k, size_t any, double x) { return F(p, k, any, (T) x); }
  template <bool (*F)(void *, size_t, size_t, T)> void inv() { Th<T>::inv(&asi<F>, &asd<F>, this); }
};
template <class T> void thresholds_narrowest() { Thr<T> t; vf_assume(t.n > 0);
  typedef Thr<T> X; size_t i = vf_size("every", 0, t.n - 1); bool c = !t.at(i)->has | ((Th<T>::lo(t.at(i)) <= t.blo) & (Th<T>::hi(t.at(i)) >= t.bhi)); 
#ifdef VF_SYMBOLIC
  vf_forall_fam(i, 0, t.n, c, t.fam.h);
#else
  for (size_t j = 0; j < t.n; ++j) { L *l = t.at(j); if (l->has) { if (!(Th<T>::lo(l) <= t.blo)) t.blo = Th<T>::lo(l); if (!(Th<T>::hi(l) >= t.bhi)) t.bhi = Th<T>::hi(l); } } c = true;
#endif
  vf_assume(c); t.template inv<&X::lo_atleast>(); t.template inv<&X::hi_atmost>(); t.template inv<&X::lo_within>(); t.template inv<&X::hi_within>(); t.template inv<&X::nnan>(); t.template inv<&X::seen_any>();
  L *l = t.at(t.w); vf_assume(l->has); t.e.updateThresholds(the_state());
  vf_check(t.disp.sets == 1 && t.disp.clears == 0 && t.disp.nows == 0 && t.disp.state == &the_state(), "the interface is given thresholds for this state");
  T lo = Th<T>::dlo(t.disp), hi = Th<T>::dhi(t.disp); vf_check((lo >= Th<T>::lo(l)) & (hi <= Th<T>::hi(l)), "no wider than any registered lookup's"); vf_check((lo <= t.blo) & (hi >= t.bhi), "and no narrower than the narrowest");
  T x; vf_check(t.e.m_lowThreshold && t.e.m_lowThreshold->getValue(x) && x == lo, "the entry records the low threshold"); vf_check(t.e.m_highThreshold && t.e.m_highThreshold->getValue(x) && x == hi, "the entry records the high threshold"); }
EACH_INT_REAL(thresholds_narrowest)
template <class T> void thresholds_none() { Thr<T> t; typedef Thr<T> X;
  if (t.n > 0) { size_t i = vf_size("every", 0, t.n - 1); bool c = !t.at(i)->has;
#ifdef VF_SYMBOLIC
  vf_forall_fam(i, 0, t.n, c, t.fam.h);
#else
  for (size_t j = 0; j < t.n; ++j) t.at(j)->has = false; c = true;
#endif
  vf_assume(c); t.template inv<&X::none>(); }
  t.e.updateThresholds(the_state()); vf_check(t.disp.sets == 0 && t.disp.nows == 0, "no thresholds are set without a lookup that has some"); vf_check(t.disp.clears == (t.had ? 1u : 0u), "thresholds no longer in effect are cleared"); vf_check(!t.e.m_lowThreshold && !t.e.m_highThreshold, "and forgotten"); }
EACH_INT_REAL(thresholds_none)
template <class T> void thresholds_other() { Held<T> v; v.e.updateThresholds(the_state()); v.unchanged(); }
PROOF(thresholds_Boolean) { thresholds_other<Boolean>(); }
PROOF(thresholds_String) { thresholds_other<String>(); }
PROOF(thresholds_array) { thresholds_other<RealArray>(); }
// ---- registering lookups
PROOF(register_lookup) { Held<Real> v; L *l = v.fam.at(v.n + 1); bool none = vf_bool("no value yet"); if (none) v.e.m_value.reset(); v.e.registerLookup(the_state(), l);
  vf_check(v.e.m_lookups.size() == v.n + 1 && v.e.m_lookups[v.n] == l && v.e.hasRegisteredLookups(), "the lookup is registered"); if (v.n) vf_check(v.e.m_lookups[v.w] == v.fam.at(v.w + 1), "others stay registered");
  bool stale = none || v.ts < v.now; vf_check(v.disp.nows == (stale ? 1u : 0u), "the state is looked up exactly when stale"); if (stale) vf_check(v.disp.who == v.e.getLookupReceiver() && v.disp.state == &the_state(), "for this entry"); vf_check(v.disp.sets + v.disp.clears == 0, "nothing else happens"); }
PROOF(unregister_lookup) { Held<Boolean> v; vf_assume(v.n > 0); size_t r = vf_size("which", 0, v.n - 1); vf_assume(v.e.m_lookups[r] == v.fam.at(r + 1)); v.e.unregisterLookup(the_state(), v.fam.at(r + 1)); vf_check(v.e.m_lookups.size() == v.n - 1 && v.e.hasRegisteredLookups() == (v.n > 1), "one lookup less"); if (v.w != r) vf_check(v.e.m_lookups[v.w < r ? v.w : v.w - 1] == v.fam.at(v.w + 1), "the others stay registered"); else if (v.n > 1) { size_t i = vf_size("any", 0, v.n - 2); vf_check(v.e.m_lookups[i] != v.fam.at(r + 1), "the lookup is no longer registered"); } v.holds(v.known, v.old.x, v.ts); }
PROOF(unregister_stranger) { Held<Boolean> v; L *l = v.fam.at(v.n + 1); v.e.unregisterLookup(the_state(), l); vf_check(v.e.m_lookups.size() == v.n, "no lookup removed"); if (v.n) vf_check(v.e.m_lookups[v.w] == v.fam.at(v.w + 1), "all stay registered"); }
PROOF(unregister_last) { Thr<Real> t; vf_assume(t.n == 1); t.e.unregisterLookup(the_state(), t.at(0)); vf_check(!t.e.hasRegisteredLookups(), "no lookup left"); vf_check(!t.e.m_lowThreshold && !t.e.m_highThreshold, "thresholds are forgotten"); }

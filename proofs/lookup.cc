#include "vf.hh"
#include "CachedValueImpl.hh"
#include "PlexilTypeTraits.hh"
#include "State.hh"
#include "StateCache.hh"
#include "StateCacheEntry.hh"
// the state cache: hands out the entry the_entry for whatever state is asked for
namespace PLEXIL { struct HarnessCache { StateCacheEntry *entry; unsigned asked; std::string name; static HarnessCache &instance(); StateCacheEntry *ensureStateCacheEntry(State const &s) { name = s.name(); ++asked; return entry; } }; static HarnessCache *the_cache; HarnessCache &HarnessCache::instance() { return *the_cache; } }
#define StateCache HarnessCache
#define LookupImpl CheckedLookupImpl
#define LookupOnChange CheckedLookupOnChange
#define ThresholdCache CheckedThresholdCache
#define ThresholdCacheImpl CheckedThresholdCacheImpl
#define makeLookup makeCheckedLookup
#define makeLookupOnChange makeCheckedLookupOnChange
#include "Lookup.cc"
#undef StateCache
#undef LookupImpl
#undef LookupOnChange
#undef ThresholdCache
#undef ThresholdCacheImpl
#undef makeLookup
#undef makeLookupOnChange
using namespace PLEXIL;
static const size_t MAXN = 1000000000;
template <class T> T num(char const *n); template <> Integer num<Integer>(char const *n) { return vf_i32(n); } template <> Real num<Real>(char const *n) { return vf_f64(n); }
// an expression with any value, known or not
template <class T> struct X : Expression { bool known; T x; unsigned on, off; size_t ears, gone; X() : known(false), x(), on(0), off(0), ears(0), gone(0) {}
  void activate() override { ++on; } void deactivate() override { ++off; } void addListener(ExpressionListener *) override { ++ears; } void removeListener(ExpressionListener *) override { ++gone; }
  char const *exprName() const override { return "X"; } ValueType valueType() const override { return PlexilValueType<T>::value; } bool isKnown() const override { return known; } Value toValue() const override { return known ? Value(x) : Value(); } void printValue(std::ostream &) const override {} bool isPropagationSource() const override { return true; }
  bool getValue(T &r) const override { if (known) r = x; return known; } };
// what the tolerance amounts to: its magnitude, at most the largest number of the type
inline Integer mag(Integer t) { return t == INT32_MIN ? INT32_MAX : t < 0 ? -t : t; } inline Real mag(Real t) { return t < 0 ? -t : t; }
inline Integer plus(Integer a, Integer b) { int64_t s = (int64_t) a + b; return s > INT32_MAX ? INT32_MAX : (Integer) s; } inline Integer minus(Integer a, Integer b) { int64_t s = (int64_t) a - b; return s < INT32_MIN ? INT32_MIN : (Integer) s; }
inline Real plus(Real a, Real b) { return a + b; } inline Real minus(Real a, Real b) { return a - b; }
inline bool near(Integer, Integer, Integer) { return false; } inline bool near(Real x, Real lo, Real hi) { Real e = fabs(x) * 1e-13; return (hi - x < e) | (x - lo < e); }
template <class T> bool moved(T x, T base, T tol) { T lo = minus(base, tol), hi = plus(base, tol); return (x >= hi) | (x <= lo) | near(x, lo, hi); }
inline bool eq(Integer a, Integer b) { return a == b; } inline bool eq(Real a, Real b) { return vf_same_f64(a, b); }
template <class T> struct Th { CheckedThresholdCacheImpl<T> c; X<T> tol; CachedValueImpl<T> v; Th() { c.m_low = num<T>("low"); c.m_high = num<T>("high"); c.m_tolerance = num<T>("old tolerance"); c.m_wasKnown = vf_bool("was known"); tol.known = vf_bool("tolerance known"); tol.x = num<T>("tolerance"); v.m_known = vf_bool("value known"); v.m_value = num<T>("value"); } };
template <class T> void tolerance_changed() { Th<T> t; bool r = t.c.toleranceChanged(&t.tol); vf_check(r == (!t.tol.known || mag(t.tol.x) != t.c.m_tolerance), "the tolerance changed exactly when its magnitude is another one"); }
EACH_INT_REAL(tolerance_changed)
template <class T> void exceeded() { Th<T> t; bool r = t.c.thresholdsExceeded(&t.v); T lo = t.c.m_low, hi = t.c.m_high, x = t.v.m_value; if (t.v.m_known != t.c.m_wasKnown) vf_check(r, "becoming known or unknown is a change"); else if (!t.v.m_known) vf_check(!r, "staying unknown is no change"); else vf_check(r == ((x >= hi) | (x <= lo) | near(x, lo, hi)), "a change is reported exactly when a threshold is reached"); }
EACH_INT_REAL(exceeded)
template <class T> void set() { Th<T> t; T b = t.v.m_value, d = t.tol.known ? mag(t.tol.x) : T(0); t.c.setThresholds(&t.v, &t.tol); vf_check(t.c.m_wasKnown == t.v.m_known, "whether the value was known is recorded"); if (t.v.m_known) { T h, l; t.c.getThresholds(h, l); vf_check(eq(h, plus(b, d)) & eq(l, minus(b, d)), "the thresholds are the value plus and minus the tolerance"); vf_check(eq(t.c.m_tolerance, d), "the tolerance is recorded"); } }
EACH_INT_REAL(set)
PROOF(factory) { switch (vf_u8("type")) { case 0: vf_check(dynamic_cast<CheckedThresholdCacheImpl<Integer> *>(ThresholdCacheFactory(INTEGER_TYPE)) != nullptr, "Integer thresholds"); break; case 1: vf_check(dynamic_cast<CheckedThresholdCacheImpl<Real> *>(ThresholdCacheFactory(REAL_TYPE)) != nullptr, "Real thresholds"); break; case 2: vf_check(dynamic_cast<CheckedThresholdCacheImpl<Real> *>(ThresholdCacheFactory(DATE_TYPE)) != nullptr, "date thresholds"); break; default: vf_check(dynamic_cast<CheckedThresholdCacheImpl<Real> *>(ThresholdCacheFactory(DURATION_TYPE)) != nullptr, "duration thresholds"); } }
// a listener; publishing by the notifier's contract (E06): an active notifier tells its listeners
struct Ear : ExpressionListener { unsigned calls; Ear() : calls(0) {} void notifyChanged() override { ++calls; } };
static Ear *the_ear; static void publish(Notifier *n) { if (n->m_activeCount) ++the_ear->calls; }
static void hear(Notifier &n, Ear &e) {
#ifdef VF_SYMBOLIC
  the_ear = &e; vf_instead("PLEXIL::Notifier::publishChange", (void (*)()) &publish);
#else
  n.m_outgoingListeners.push_back(&e);
#endif
}
// the world's entry for the state
struct Ent : StateCacheEntry { CachedValue *v; unsigned regs, unregs, thrs; Lookup *who; bool prompt; Ent() : v(nullptr), regs(0), unregs(0), thrs(0), who(nullptr), prompt(false) {}
  void update(Value const &) override {} void update(Boolean) override {} void update(Integer) override {} void update(Real) override {} void update(String const &) override {} void update(char const *) override {} void update(Boolean const *, size_t) override {} void update(Integer const *, size_t) override {} void update(Real const *, size_t) override {} void update(String const *, size_t) override {} void setUnknown() override {}
  ValueType const valueType() const override { return v ? v->valueType() : UNKNOWN_TYPE; } bool isKnown() const override { return v && v->isKnown(); } bool hasRegisteredLookups() const override { return true; } CachedValue const *cachedValue() const override { return v; }
  void registerLookup(State const &, Lookup *l) override { ++regs; who = l; if (prompt) l->valueChanged(); } void unregisterLookup(State const &, Lookup *l) override { ++unregs; who = l; } void updateThresholds(State const &) override { ++thrs; } void updateValue(Value const &, unsigned) override {} void updatePtr(String const *) override {} void updatePtr(BooleanArray const *) override {} void updatePtr(IntegerArray const *) override {} void updatePtr(RealArray const *) override {} void updatePtr(StringArray const *) override {} };
// a lookup on change in any state its own operations can leave it in
template <class T> struct Loc { X<String> name; X<T> tol; Ent ent; CachedValueImpl<T> now; Ear ear; CheckedLookupOnChange *l; CheckedThresholdCacheImpl<T> *th; CachedValueImpl<T> *last; bool active, entry, have; T last0, tol0; bool known0;
  Loc() : l(new CheckedLookupOnChange(&name, false, PlexilValueType<T>::value, &tol, false, nullptr)), th(nullptr), last(nullptr), active(vf_bool("active")), entry(vf_bool("state known")), have(vf_bool("thresholds set")) {
    tol.known = vf_bool("tolerance known"); tol.x = num<T>("tolerance"); now.m_known = vf_bool("value known"); now.m_value = num<T>("value"); l->m_activeCount = active; hear(*l, ear); last0 = num<T>("last reported"); known0 = vf_bool("last reported known"); tol0 = num<T>("old tolerance"); vf_assume(tol0 >= 0);
    vf_assume(!have | (entry & active)); if (entry) { if (vf_bool("value ever") | have) ent.v = &now; l->m_entry = &ent; l->m_stateKnown = l->m_isRegistered = true; name.known = true; }
    if (have) { th = new CheckedThresholdCacheImpl<T>(); th->m_wasKnown = known0; th->m_tolerance = tol0; th->m_low = num<T>("low"); th->m_high = num<T>("high"); last = new CachedValueImpl<T>(); last->m_value = last0; last->m_known = known0; l->m_thresholds.reset(th); l->m_cachedValue.reset(last); if (known0) { vf_assume(eq(th->m_low, minus(last0, tol0))); vf_assume(eq(th->m_high, plus(last0, tol0))); } } }
  bool has() { return active && entry && ent.v; }
  // what the lookup shows: the value last reported
  void shows(bool k, T x) { T r; bool g = l->getValue(r); vf_check(g == k, "known as expected"); if (k & g) vf_check(eq(r, x), "the value shown is as expected"); Value v = l->toValue(); vf_check(v.isKnown() == k, "known as expected"); if (k && v.isKnown()) { T y = T(); vf_check(v.getValue(y) && eq(y, x), "the value shown is as expected"); } }
  void consistent() { if (!l->m_thresholds) { vf_check(!l->m_cachedValue || !has(), "no value is kept back without thresholds"); return; } th = (CheckedThresholdCacheImpl<T> *) l->m_thresholds.get(); last = (CachedValueImpl<T> *) l->m_cachedValue.get(); vf_check(last != nullptr && th->m_wasKnown == last->m_known, "the thresholds are those of the value last reported"); if (last && last->m_known) vf_check(eq(th->m_low, minus(last->m_value, th->m_tolerance)) & eq(th->m_high, plus(last->m_value, th->m_tolerance)), "the thresholds are those of the value last reported"); }
  // what has to happen when the state's value (or, with changed false, the tolerance) changes
  void decide(bool changed) { bool out; T d = tol.known ? mag(tol.x) : T(0); T e = have & (d == tol0) ? tol0 : d;   // (0 and -0 are the same tolerance)
   
    if (!has()) { out = false; }
    else if (have && tol.known) { if (known0 != now.m_known) out = true; else if (!known0) out = false; else out = moved(now.m_value, last0, e); shows(out ? now.m_known : known0, out ? now.m_value : last0); }
    else if (have) { out = changed | (known0 != now.m_known) | (known0 & now.m_known & (last0 != now.m_value)); shows(now.m_known, now.m_value); }
    else { out = changed; shows(now.m_known, now.m_value); }
    if (has()) { vf_check(ear.calls == (out ? 1u : 0u), "listeners are told exactly when a change is reported"); bool set = now.m_known & tol.known, keep = have & tol.known; vf_check((l->m_thresholds != nullptr) == (set | keep), "thresholds exist while the tolerance is known, once a value is known"); if (l->m_thresholds && l->m_cachedValue && ((CachedValueImpl<T> *) l->m_cachedValue.get())->m_known) { T h, lo; th = (CheckedThresholdCacheImpl<T> *) l->m_thresholds.get(); th->getThresholds(h, lo); T b = (have & !out) ? last0 : now.m_value; vf_check((eq(h, plus(b, d)) & eq(lo, minus(b, d))) | (eq(h, plus(b, e)) & eq(lo, minus(b, e))), "the thresholds are the value last reported plus and minus the tolerance"); }
      bool told = (have != (l->m_thresholds != nullptr)) | (have & tol.known & (out | ((tol0 != d) & known0))); if (told) vf_check(ent.thrs == 1, "the entry is told of new thresholds"); else vf_check(ent.thrs <= 1, "the entry is told of new thresholds"); }
    vf_check(ent.regs + ent.unregs == 0, "the lookup stays registered"); consistent(); } };
template <class T> void value_changed() { Loc<T> t; t.l->valueChanged(); if (t.active) t.decide(true); else { vf_check(t.ear.calls == 0 && t.ent.thrs == 0, "an inactive lookup ignores changes"); t.consistent(); } }
EACH_INT_REAL(value_changed)
// the state's name (or parameters, symbolically: states are compared by contract) or the tolerance changed, or neither
struct Params : ExprVec { std::vector<bool> known; std::vector<int32_t> vals; size_t n; mutable X<Integer> cur; unsigned on, off; Params() : n(vf_size("parameters", 0, MAXN)), on(0), off(0) { vf_vec_bool(&known, "parameter known", n); vf_elems(&vals, "parameter", n); }
  Expression *at(size_t i) const { vf_check(i < n, "parameter index in range"); cur.known = known[i]; cur.x = vals[i]; return &cur; } size_t size() const override { return n; } Expression const *operator[](size_t i) const override { return at(i); } Expression *operator[](size_t i) override { return at(i); } void setArgument(size_t, Expression *, bool) override {} void addListener(ExpressionListener *) override {} void removeListener(ExpressionListener *) override {} void doSubexprs(ListenableUnaryOperator const &) override {} void print(std::ostream &) const override {} void activate() override { ++on; } void deactivate() override { ++off; } };
static bool states_differ; static bool states_equal(State const &, State const &) { return !states_differ; }
template <class L> bool renamed(L *l, bool entry, bool other) { bool n = vf_bool("another name"); vf_assume(!n | other);
#ifdef VF_SYMBOLIC
  states_differ = other; vf_instead("PLEXIL::operator==", (void (*)()) &states_equal);
#else
  Params *p = new Params; p->n = 1; p->known.assign(1, true); p->vals.assign(1, other && !n ? 2 : 1); l->m_paramVec = p; if (entry) { l->m_cachedState.setParameterCount(1); l->m_cachedState.setParameter(0, Value((Integer) 1)); }
#endif
  return n; }
template <class T> void expressions_changed() { Loc<T> t; HarnessCache cache; the_cache = &cache; cache.asked = 0; Ent next; CachedValueImpl<T> now2; now2.m_known = vf_bool("next value known"); now2.m_value = num<T>("next value"); if (vf_bool("next value ever")) next.v = &now2;
  bool known = vf_bool("state known afterwards"), other = known & (!t.entry | vf_bool("another state")); vf_assume(t.active); if (t.entry) t.l->m_cachedState.setName("a"); t.name.known = known; bool n = renamed(t.l, t.entry, other); t.name.x = n ? "b" : "a"; cache.entry = other ? &next : &t.ent;
  t.l->handleChange();
  vf_check(t.l->m_stateKnown == known && t.l->m_isRegistered == known, "registered exactly when the state is known");
  if (t.entry && known && !other) { t.decide(false); return; }
  if (t.entry) vf_check(t.ent.unregs == 1 && t.ent.regs == 0 && t.ent.who == t.l && t.ent.thrs == 0, "no longer registered for the old state"); else vf_check(t.ent.regs + t.ent.unregs + t.ent.thrs == 0, "the old state is not involved");
  vf_check(t.ear.calls == ((t.entry | known) ? 1u : 0u), "a change of state is a change"); t.entry = known;
  if (!known) { vf_check(!t.l->m_entry && !t.l->m_thresholds && !t.l->m_cachedValue && next.regs == 0, "nothing is left of the old state"); T r; vf_check(!t.l->getValue(r) && !t.l->isKnown(), "unknown without a known state"); return; }
  vf_check(t.l->m_entry == &next && next.regs == 1 && next.who == t.l && next.unregs == 0 && cache.name == (n ? "b" : "a") && t.l->m_cachedState.name() == cache.name, "registered for the new state");
  bool set = next.v && now2.m_known && t.tol.known; vf_check((t.l->m_thresholds != nullptr) == set, "thresholds exist when the value and the tolerance are known"); if (set) { vf_check(next.thrs == 1, "the entry is told of new thresholds"); T h, lo; vf_check(t.l->getThresholds(h, lo), "it has thresholds"); T d = mag(t.tol.x); vf_check(eq(h, plus(now2.m_value, d)) & eq(lo, minus(now2.m_value, d)), "the thresholds are the value plus and minus the tolerance"); }
  bool k = next.v && now2.m_known; T r = T(); bool g = t.l->getValue(r); vf_check(g == k && t.l->isKnown() == k, "known as expected"); if (g & k) vf_check(eq(r, now2.m_value), "the new state's value is shown"); }
EACH_INT_REAL(expressions_changed)
// activation, with the entry's value arriving during registration or not
template <class T> void activated() { HarnessCache cache; the_cache = &cache; cache.asked = 0; Ent ent; X<String> name; X<T> tol; Ear ear; CachedValueImpl<T> now; now.m_known = vf_bool("value known"); now.m_value = num<T>("value"); if (vf_bool("value ever")) ent.v = &now; cache.entry = &ent; ent.prompt = vf_bool("value arrives at once"); tol.known = vf_bool("tolerance known"); tol.x = num<T>("tolerance");
  CheckedLookupOnChange *l = new CheckedLookupOnChange(&name, false, PlexilValueType<T>::value, &tol, false, nullptr); hear(*l, ear); name.known = vf_bool("state known"); name.x = "b"; if (vf_bool("constant") & name.known) { l->m_stateIsConstant = l->m_stateKnown = true; l->m_cachedState.setName("b"); if (vf_bool("active before")) l->m_entry = &ent; }
  l->activate(); vf_check(name.on == 1 && tol.on == 1 && l->isActive(), "the expressions it depends on are active");
  vf_check(l->m_stateKnown == name.known && l->m_isRegistered == name.known && ent.regs == (name.known ? 1u : 0u) && ent.unregs == 0, "registered exactly when the state is known"); if (!name.known) { T r; vf_check(!l->m_entry && !l->m_thresholds && !l->isKnown() && !l->getValue(r) && ear.calls == 0, "unknown without a known state"); return; }
  vf_check(l->m_entry == &ent && ent.who == l && l->m_cachedState.name() == "b", "registered for its state");
  bool k = ent.v && now.m_known; T r = T(); bool g = l->getValue(r); vf_check(g == k && l->isKnown() == k, "known as expected"); if (g & k) { vf_check(eq(r, now.m_value), "the state's value is shown"); vf_check(ear.calls > 0, "listeners are told of the value"); }
  bool set = k & tol.known; T h, lo; vf_check(l->getThresholds(h, lo) == set && (l->m_thresholds != nullptr) == set, "thresholds exist when the value and the tolerance are known"); if (set) { T d = mag(tol.x); vf_check(eq(h, plus(now.m_value, d)) & eq(lo, minus(now.m_value, d)), "the thresholds are the value plus and minus the tolerance"); vf_check(ent.thrs > 0, "the entry is told of new thresholds"); } }
EACH_INT_REAL(activated)
template <class T> void deactivated() { Loc<T> t; vf_assume(t.active); bool c = vf_bool("constant") & t.entry; t.l->m_stateIsConstant = c; t.l->deactivate(); vf_check(t.name.off == 1 && t.tol.off == 1 && !t.l->isActive(), "the expressions it depends on are deactivated"); vf_check(t.ent.unregs == (t.entry ? 1u : 0u) && t.ent.regs == 0 && !t.l->m_isRegistered && (!t.entry || t.ent.who == t.l), "no longer registered"); vf_check(!t.l->m_thresholds && !t.l->m_cachedValue && t.l->m_entry == (c ? &t.ent : nullptr), "nothing is kept back"); T r, h, lo; vf_check(!t.l->getValue(r) && !t.l->isKnown() && !t.l->toValue().isKnown() && !t.l->getThresholds(h, lo) && t.ear.calls == 0, "unknown while inactive"); }
EACH_INT_REAL(deactivated)
// a plain lookup shows the state's value and passes every change on
template <class T> T val(char const *n); template <> Boolean val<Boolean>(char const *n) { return vf_bool(n); } template <> Integer val<Integer>(char const *n) { return vf_i32(n); } template <> Real val<Real>(char const *n) { return vf_f64(n); }
template <class T> struct Now { X<String> name; Ent ent; CachedValueImpl<T> now; Ear ear; CheckedLookupImpl *l; bool active, entry; Now() : l(new CheckedLookupImpl(&name, false, PlexilValueType<T>::value, nullptr)), active(vf_bool("active")), entry(vf_bool("state known")) { now.m_known = vf_bool("value known"); now.m_value = val<T>("value"); l->m_activeCount = active; hear(*l, ear); if (entry) { if (vf_bool("value ever")) ent.v = &now; l->m_entry = &ent; l->m_stateKnown = l->m_isRegistered = true; name.known = true; } } };
template <class T> void shown() { Now<T> t; bool k = t.active && t.entry && t.ent.v && t.now.m_known; T r = T(), s = T(); vf_check(t.l->isKnown() == k, "known as expected"); vf_check(t.l->getValue(r) == k && (!k || r == t.now.m_value || r != r), "the state's value is shown"); Value v = t.l->toValue(); vf_check(v.isKnown() == k && (!k || (v.getValue(s) && (s == t.now.m_value || s != s))), "the state's value is shown"); }
EACHNUM(shown)
template <class T> void passed_on() { Now<T> t; t.l->valueChanged(); vf_check(t.ear.calls == (t.active ? 1u : 0u), "every change is passed on"); Integer i, j; Real x, y; vf_check(!t.l->getThresholds(i, j) && !t.l->getThresholds(x, y), "no thresholds"); }
EACHNUM(passed_on)
PROOF(now_expressions_changed) { Now<Integer> t; HarnessCache cache; the_cache = &cache; cache.asked = 0; Ent next;
  bool known = vf_bool("state known afterwards"), other = known & (!t.entry | vf_bool("another state")); vf_assume(t.active); if (t.entry) t.l->m_cachedState.setName("a"); t.name.known = known; bool n = renamed(t.l, t.entry, other); t.name.x = n ? "b" : "a"; cache.entry = other ? &next : &t.ent; t.l->handleChange();
  vf_check(t.l->m_stateKnown == known && t.l->m_isRegistered == known, "registered exactly when the state is known");
  bool gone = t.entry & (!known | other); vf_check(t.ent.unregs == (gone ? 1u : 0u) && t.ent.regs == 0 && (!gone || t.ent.who == t.l), "no longer registered for the old state"); vf_check(next.regs == (other ? 1u : 0u) && next.unregs == 0, "registered for the new state");
  vf_check(t.l->m_entry == (!known ? nullptr : other ? &next : &t.ent), "the entry is the state's"); vf_check(t.ear.calls == ((gone | other) ? 1u : 0u), "a change of state is a change"); if (known) vf_check(t.l->m_cachedState.name() == (n ? "b" : "a"), "the state is the one named"); }
PROOF(now_deactivated) { Now<Integer> t; vf_assume(t.active); bool c = vf_bool("constant") & t.entry; t.l->m_stateIsConstant = c; t.l->deactivate(); vf_check(t.name.off == 1 && t.ent.unregs == (t.entry ? 1u : 0u) && !t.l->m_isRegistered && t.l->m_entry == (c ? &t.ent : nullptr) && !t.l->isKnown(), "no longer registered"); }
// the state looked up has the name and parameters the expressions have; any number of parameters
static State *par_state; static size_t par_n, par_w; static bool par_got; static int32_t par_v;
static void set_count(State *s, size_t n) { vf_check(s == par_state, "the state asked for is set"); par_n = n; }
static void set_param(State *s, size_t i, Value const &v) { vf_check(s == par_state && i < par_n, "parameter index in range"); if (i == par_w) { par_got = v.getValue(par_v); } }
static bool par_inv(void *p, size_t k) { Params &q = *(Params *) p; return (par_w >= k) | (par_got & q.known[par_w] & (par_v == q.vals[par_w])); }
PROOF(state) { X<String> name; Params *q = new Params; name.known = vf_bool("name known"); name.x = "b"; CheckedLookupImpl *l = new CheckedLookupImpl(&name, false, INTEGER_TYPE, nullptr); l->m_paramVec = q; State s; size_t w = q->n ? vf_size("witness", 0, q->n - 1) : 0;
#ifdef VF_SYMBOLIC
  par_state = &s; par_n = 0; par_w = w; par_got = false; vf_instead("PLEXIL::State::setParameterCount", (void (*)()) &set_count); vf_instead("PLEXIL::State::setParameter", (void (*)()) &set_param); vf_inv(par_inv, q);
#endif
  bool r = l->getState(s); vf_check(!r || name.known, "a state needs a name"); if (r) vf_check(s.name() == "b", "the name is the expression's value");
  if (r && q->n) { vf_check(q->known[w], "a state needs every parameter");
#ifdef VF_SYMBOLIC
    vf_check(par_n == q->n && par_got && par_v == q->vals[w], "the parameters are the expressions' values");
#else
    Integer v; vf_check(s.parameterCount() == q->n && s.parameter(w).getValue(v) && v == q->vals[w], "the parameters are the expressions' values");
#endif
  }
  if (!r) vf_check(!name.known || (q->n && !q->cur.known), "the state is unknown only when its name or a parameter is"); }

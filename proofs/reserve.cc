#include "vf.hh"
#include "Mutex.hh"
#include "NodeConnector.hh"
#include "NodeImpl.hh"
#include "Variable.hh"
#include "Value.hh"
#include <algorithm>
using namespace PLEXIL;
static const size_t MAXN = 1000000000;
static std::string const &no_name() { static std::string const *s = new std::string("n"); return *s; }
struct W : NodeConnector { unsigned calls; W() : calls(0) {} std::string const &getNodeId() const override { return no_name(); } Expression *findVariable(char const *) override { return nullptr; } void notifyResourceAvailable() override { ++calls; } };
struct R : Reservable {};
// anything reservable, with any number of waiting nodes: members 1..n of the family; held by nobody, one of them, or another (member n + 1); w: any waiter
static bool told(void *p, size_t k);
struct T { R x; Fam<W> fam; size_t n, w, h; T() : fam("node"), n(vf_size("waiters", 0, MAXN)), w(0), h(vf_size("holder", 0, n + 1)) { fam.any(&fam.proto.calls, "calls before"); fam.make(n + 2); vf_members(&x.m_waiters, fam, n); if (n) w = vf_size("waiter", 0, n - 1); x.m_holder = h ? fam.at(h) : nullptr; }
  size_t size() { return x.m_waiters.size(); } NodeConnector *at(size_t i) { return x.m_waiters[i]; }
  size_t node() { size_t p = vf_size("which node", 0, n + 1); if (p < n) vf_check(at(p) == fam.at(p + 1), "the node given waits at its place"); return p; }
  void same() { vf_check(size() == n, "the waiters stay"); if (n) vf_check(at(w) == fam.at(w + 1), "the waiters stay"); }
  void held(size_t k) { vf_check(x.getHolder() == (k ? fam.at(k) : nullptr), "held as expected"); }
  void waits(size_t p) { if (p < n) vf_check(size() == n, "a waiting node is not added again"); else { vf_check(size() == n + 1, "the node is remembered as a waiter"); vf_check(at(n) == fam.at(p + 1), "the node is remembered as a waiter"); } if (n) vf_check(at(w) == fam.at(w + 1), "the waiters stay"); }
  void gone(size_t p) { if (p >= n) { same(); return; } vf_check(size() == n - 1, "the node waits no longer"); if (n > 1) { size_t i = vf_size("position", 0, n - 2); vf_check(at(i) == fam.at(i < p ? i + 1 : i + 2), "the other waiters stay, in order"); } } };
struct Rel : T { unsigned old; Rel() : old(n ? fam.at(w + 1)->calls : 0) { vf_inv(told, this); } };
static bool told(void *p, size_t k) { Rel &t = *(Rel *) p; return t.n == 0 || t.fam.at(t.w + 1)->calls == t.old + (t.w < k ? 1u : 0u); }
PROOF(make) { R x; vf_check(!x.getHolder() && x.m_waiters.empty(), "at first nobody holds it or waits for it"); }
PROOF(acquiring) { T t; size_t p = t.node(); bool got = t.x.acquire(t.fam.at(p + 1)); vf_check(got == (t.h == 0), "a node gets it exactly when nobody holds it"); if (got) { t.held(p + 1); t.gone(p); } else { t.held(t.h); t.waits(p); } }
PROOF(releasing) { Rel t; size_t p = t.node(); bool own = t.h == p + 1; t.x.release(t.fam.at(p + 1)); if (own) t.held(0); else t.held(t.h); if (t.n) vf_check(t.fam.at(t.w + 1)->calls == t.old + (own ? 1u : 0u), "every waiting node is told exactly when the holder releases it"); t.same(); }
PROOF(waiting) { T t; size_t p = t.node(); t.x.addWaitingNode(t.fam.at(p + 1)); t.waits(p); t.held(t.h); }
PROOF(not_waiting) { T t; size_t p = t.node(); t.x.removeWaitingNode(t.fam.at(p + 1)); t.gone(p); t.held(t.h); }
// ---- a node acquires the mutexes it uses, and the variable it assigns, together or not at all
enum { FREE, MINE, OTHERS, PARENTS, GRANDPARENTS };
struct M { Mutex m; uint8_t who; bool waits; M() : m("m"), who(FREE), waits(false) {} };
struct Var : Variable { uint8_t who; bool waits; Var() : who(FREE), waits(false) {} char const *exprName() const override { return "V"; } char const *getName() const override { return "v"; } ValueType valueType() const override { return INTEGER_TYPE; } bool isKnown() const override { return true; } Value toValue() const override { return Value(); } void printValue(std::ostream &) const override {} bool isPropagationSource() const override { return true; } void saveCurrentValue() override {} void restoreSavedValue() override {} Value getSavedValue() const override { return Value(); } void setUnknown() override {} void setValue(Value const &) override {} void setInitializer(Expression *, bool) override {} };
struct Tn : NodeImpl { Var *var; Tn(NodeImpl *p) : NodeImpl("node", p), var(nullptr) {} PlexilNodeType getType() const override { return var ? NodeType_Assignment : NodeType_Empty; } Assignable *getAssignmentVariable() const override { return var; } };
static double now() { return 0; }
static void clock_by_contract() {
#ifdef VF_SYMBOLIC
  vf_instead("PLEXIL::StateCache::currentTime", (void (*)()) &now);
#endif
}
static bool ancestral; static Var *the_var; static Tn *the_node, *the_parent, *the_grand; static W *the_other;
static uint8_t *who_of(Reservable const *r) { if (the_var && r == static_cast<Reservable const *>(the_var)) return &the_var->who; return &((M *) r)->who; }
static bool *waits_of(Reservable const *r) { if (the_var && r == static_cast<Reservable const *>(the_var)) return &the_var->waits; return &((M *) r)->waits; }
static NodeConnector const *holder_of(Reservable const *r) { uint8_t w = *who_of(r); return w == FREE ? nullptr : w == MINE ? (NodeConnector *) the_node : w == PARENTS && ancestral ? (NodeConnector *) the_parent : w == GRANDPARENTS && ancestral ? (NodeConnector *) the_grand : the_other; }
static bool acq(Reservable *r, NodeConnector *n) { vf_check(n == the_node, "acquired for this node"); uint8_t *w = who_of(r); if (*w != FREE) { *waits_of(r) = true; return false; } *w = MINE; *waits_of(r) = false; return true; }
static void rel(Reservable *r, NodeConnector *n) { vf_check(n == the_node, "released by this node"); uint8_t *w = who_of(r); if (*w == MINE) *w = FREE; }
static void wait(Reservable *r, NodeConnector *n) { vf_check(n == the_node, "this node waits"); *waits_of(r) = true; }
static void nowait(Reservable *r, NodeConnector *n) { vf_check(n == the_node, "this node waits no longer"); *waits_of(r) = false; }
static bool taken(void *p, size_t k); static bool given_back(void *p, size_t k); static bool unlisted(void *p, size_t k);
struct A { bool hasParent; Tn *grand, *parent, *node; W other; Var var; Fam<M> fam; size_t n, w; uint8_t was; bool waited; bool asn; std::vector<Mutex *> *ms; A() : hasParent(vf_bool("has a parent")), grand(nullptr), parent(nullptr), node(nullptr), fam("mutex"), n(vf_size("mutexes", 0, MAXN)), w(0), was(FREE), waited(false), asn(vf_bool("assignment")) {
#ifdef VF_SYMBOLIC
    clock_by_contract(); vf_instead("PLEXIL::Reservable::getHolder", (void (*)()) &holder_of); vf_instead("PLEXIL::Reservable::acquire", (void (*)()) &acq); vf_instead("PLEXIL::Reservable::release", (void (*)()) &rel); vf_instead("PLEXIL::Reservable::addWaitingNode", (void (*)()) &wait); vf_instead("PLEXIL::Reservable::removeWaitingNode", (void (*)()) &nowait);
#endif
    if (hasParent) { grand = new Tn(nullptr); parent = new Tn(grand); } the_grand = grand; node = new Tn(parent); the_node = node; the_parent = parent; the_other = &other; the_var = nullptr; if (asn) { node->var = &var; the_var = &var; var.who = vf_u8("variable held by"); vf_assume((var.who == FREE) | (var.who == OTHERS)); }
    fam.any(&fam.proto.who, "held by"); fam.any(&fam.proto.waits, "waits"); fam.make(n + 1);
    if (n || vf_bool("empty list")) { ms = new std::vector<Mutex *>(); vf_members((std::vector<M *> *) ms, fam, n); node->m_usingMutexes.reset(ms); }
    if (n) { w = vf_size("mutex", 0, n - 1); was = fam.at(w + 1)->who; waited = fam.at(w + 1)->waits; }
#ifndef VF_SYMBOLIC
    for (size_t i = 1; i <= n; ++i) fam.at(i)->m.m_holder = (NodeConnector *) holder_of(&fam.at(i)->m); if (asn) var.m_holder = (NodeConnector *) holder_of(&var); for (size_t i = 1; i <= n; ++i) if (fam.at(i)->waits) fam.at(i)->m.m_waiters.push_back(node);
#endif
  }
  ~A() { node->m_usingMutexes.release(); delete node; delete parent; delete grand; }
#ifdef VF_SYMBOLIC
  uint8_t who(size_t i) { return fam.at(i)->who; } bool waits(size_t i) { return fam.at(i)->waits; } uint8_t vwho() { return var.who; } bool vwaits() { return var.waits; }
#else
  uint8_t of(Reservable &r) { return !r.m_holder ? FREE : r.m_holder == node ? MINE : r.m_holder == parent ? PARENTS : r.m_holder == grand ? GRANDPARENTS : OTHERS; } bool in(Reservable &r) { return std::count(r.m_waiters.begin(), r.m_waiters.end(), node) > 0; }
  uint8_t who(size_t i) { return of(fam.at(i)->m); } bool waits(size_t i) { return in(fam.at(i)->m); } uint8_t vwho() { return of(var); } bool vwaits() { return in(var); }
#endif
};
static bool taken(void *p, size_t k) { A &t = *(A *) p; return t.n == 0 || t.fam.at(t.w + 1)->who == (t.w < k ? MINE : t.was); }
static bool given_back(void *p, size_t k) { A &t = *(A *) p; if (t.n == 0) return true; M *m = t.fam.at(t.w + 1); return t.w >= k || (m->who == t.was && m->waits); }
static bool not_yet(void *p, size_t k) { A &t = *(A *) p; if (t.n == 0) return true; M *m = t.fam.at(t.w + 1); return t.w < k || m->who == t.was || (m->who == MINE && t.was == FREE); }
static bool was_free(void *p, size_t k) { A &t = *(A *) p; return t.n == 0 || t.w >= k || t.was == FREE; }
static bool unlisted(void *p, size_t k) { A &t = *(A *) p; return t.n == 0 || t.fam.at(t.w + 1)->waits == (t.w < k ? false : t.waited); }
static void loops(A &t) { vf_inv(taken, &t); vf_inv(was_free, &t); vf_inv(given_back, &t); vf_inv(not_yet, &t); }
PROOF(trying) { ancestral = false; A t; if (t.n) vf_assume((t.was == FREE) | (t.was == OTHERS)); uint8_t vw = t.var.who;
  loops(t);
#ifndef VF_SYMBOLIC
  for (size_t i = 1; i <= t.n; ++i) vf_assume((t.who(i) == FREE) | (t.who(i) == OTHERS));
#endif
  bool ok = t.node->tryResourceAcquisition(); if (ok) { if (t.n) vf_check(t.was == FREE && t.who(t.w + 1) == MINE, "on success every mutex was free and is now held"); if (t.asn) vf_check(vw == FREE && t.vwho() == MINE, "so is the variable"); } else { if (t.n) { vf_check(t.who(t.w + 1) == t.was, "on failure no mutex is held"); vf_check(t.waits(t.w + 1), "and the node waits for every one of them"); } if (t.asn) { vf_check(t.vwho() == vw, "nor the variable"); vf_check(t.vwaits(), "and the node waits for it"); } } if (t.n == 0) vf_check(ok == (!t.asn | (vw == FREE)), "a node that needs nothing else succeeds"); }
PROOF(giving_up) { ancestral = true; A t; vf_inv(unlisted, &t); t.node->NodeImpl::releaseResourceReservations(); if (t.n) { vf_check(!t.waits(t.w + 1), "the node waits for no mutex any more"); } }

PROOF(from_ancestor) { ancestral = true; A t; vf_assume((t.n == 1) & (!t.asn)); bool theirs = (t.was == PARENTS) | (t.was == GRANDPARENTS); if (!t.hasParent) vf_assume(!theirs); vf_assume(t.was <= GRANDPARENTS); vf_assume(t.was != MINE); vf_expect_error(theirs); loops(t); bool ok = t.node->tryResourceAcquisition(); vf_check(ok == (t.was == FREE), "acquired exactly when free"); vf_check(t.who(1) == (ok ? (uint8_t) MINE : t.was), "held as expected"); }
PROOF(needing) { A t; vf_check(t.node->NodeImpl::acquiresResources() == (t.n != 0), "a node needs to acquire resources when it uses any mutex"); }

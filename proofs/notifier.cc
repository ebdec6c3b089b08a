#include "vf.hh"
#include "ExpressionListener.hh"
#include "Notifier.hh"
#include "Propagator.hh"
using namespace PLEXIL;
static const size_t MAXN = 1000000000;
struct Ear : ExpressionListener { unsigned calls; Ear() : calls(0) {} void notifyChanged() override { ++calls; } };
struct Ears : Fam<Ear> { Ear &a, &b; Ears() : Fam<Ear>("ear"), a(*first()), b(*at(2)) {} Ear *first() { make(2); return at(1); } };
struct N : Notifier { unsigned on, off; N() : on(0), off(0) {} void handleActivate() override { ++on; vf_check(isActive(), "already active"); } void handleDeactivate() override { ++off; vf_check(!isActive(), "no longer active"); } bool isPropagationSource() const override { return true; } void doSubexprs(ListenableUnaryOperator const &) override {} };
// a notifier with any activation count and any number of listeners, each registered once: members 1..n of the family; w: any of them
static bool delivered(void *p, size_t k);
struct T { N x; Fam<Ear> fam; size_t n, w, c; T() : fam("listener"), n(vf_size("listeners", 0, MAXN)), w(0), c(vf_size("activations", 0, SIZE_MAX)) { fam.any(&fam.proto.calls, "calls before"); fam.make(n + 1); vf_members(&x.m_outgoingListeners, fam, n); if (n) w = vf_size("listener", 0, n - 1); x.m_activeCount = c; }
  ~T() { x.m_outgoingListeners.clear(); }
  size_t size() { return x.m_outgoingListeners.size(); } ExpressionListener *at(size_t i) { return x.m_outgoingListeners[i]; }
  void same() { vf_check(size() == n, "the listeners stay registered"); if (n) vf_check(at(w) == fam.at(w + 1), "the listeners stay registered"); } };
struct Pub : T { unsigned old; Pub() : old(n ? fam.at(w + 1)->calls : 0) { vf_inv(delivered, this); } };
static bool delivered(void *p, size_t k) { Pub &t = *(Pub *) p; return t.n == 0 || t.fam.at(t.w + 1)->calls == t.old + (t.w < k ? 1u : 0u); }
PROOF(make) { N x; vf_check(!x.isActive() && !x.hasListeners() && x.m_outgoingListeners.empty(), "a new expression is inactive and has no listeners"); }
PROOF(activating) { T t; vf_expect_error(t.c == SIZE_MAX); t.x.activate(); vf_check(t.x.isActive() && t.x.m_activeCount == t.c + 1, "activations are counted"); vf_check(t.x.on == (t.c == 0 ? 1u : 0u) && t.x.off == 0, "only the first activation takes effect"); t.same(); }
PROOF(deactivating) { T t; vf_expect_error(t.c == 0); t.x.deactivate(); vf_check(t.x.m_activeCount == t.c - 1 && t.x.isActive() == (t.c > 1), "deactivations are counted"); vf_check(t.x.off == (t.c == 1 ? 1u : 0u) && t.x.on == 0, "only the last deactivation takes effect"); t.same(); }
PROOF(is_active) { T t; vf_check(t.x.isActive() == (t.c > 0), "active while activations outnumber deactivations"); vf_check(t.x.hasListeners() == (t.n > 0), "has listeners"); }
PROOF(publishing) { Pub t; t.x.publishChange(); if (t.n) vf_check(t.fam.at(t.w + 1)->calls == t.old + (t.c > 0 ? 1u : 0u), "a change is delivered once to every listener exactly while active"); t.same(); vf_check(t.x.m_activeCount == t.c && t.x.on + t.x.off == 0, "nothing else changes"); }
PROOF(adding) { T t; size_t p = vf_size("which", 0, t.n); if (p < t.n) vf_check(t.at(p) == t.fam.at(p + 1), "the listener given is registered at its place"); t.x.addListener(t.fam.at(p + 1)); if (p < t.n) vf_check(t.size() == t.n, "adding a listener twice registers it once"); else { vf_check(t.size() == t.n + 1, "a new listener is registered"); vf_check(t.at(t.n) == t.fam.at(p + 1), "a new listener is registered"); } if (t.n) vf_check(t.at(t.w) == t.fam.at(t.w + 1), "the listeners stay registered"); vf_check(t.x.m_activeCount == t.c, "nothing else changes"); }
PROOF(removing) { T t; size_t p = vf_size("which", 0, t.n); if (p < t.n) vf_check(t.at(p) == t.fam.at(p + 1), "the listener given is registered at its place"); t.x.removeListener(t.fam.at(p + 1)); if (p >= t.n) t.same(); else { vf_check(t.size() == t.n - 1, "a listener is removed"); if (t.n > 1) { size_t i = vf_size("position", 0, t.n - 2); vf_check(t.at(i) == t.fam.at(i < p ? i + 1 : i + 2), "the others stay registered, in order"); } } vf_check(t.x.m_activeCount == t.c, "nothing else changes"); }
// added, then removed: no delivery; added: delivery
PROOF(add_publish_remove) { N x; Ears q; Ear &a = q.a, &b = q.b; x.addListener(&a); x.addListener(&b); x.addListener(&a); x.publishChange(); vf_check(a.calls + b.calls == 0, "none while inactive"); x.activate(); x.publishChange(); vf_check(a.calls == 1 && b.calls == 1, "once to each while active"); x.removeListener(&a); x.publishChange(); vf_check(a.calls == 1 && b.calls == 2, "removing a listener stops delivery"); x.deactivate(); x.publishChange(); vf_check(a.calls == 1 && b.calls == 2, "none while inactive"); x.removeListener(&b); vf_check(!x.hasListeners(), "no listener left"); }
// an expression over others: it hears of changes in its nearest subexpressions that can change by themselves
struct S : Listenable { bool source; Listenable *sub; unsigned adds, removes; ExpressionListener *who; S() : source(false), sub(nullptr), adds(0), removes(0), who(nullptr) {} void addListener(ExpressionListener *l) override { ++adds; who = l; } void removeListener(ExpressionListener *l) override { ++removes; who = l; } bool isPropagationSource() const override { return source; } void doSubexprs(ListenableUnaryOperator const &f) override { if (sub) f(sub); } };
struct P : Propagator { S *a, *b; unsigned handled; bool own; P() : a(nullptr), b(nullptr), handled(0), own(false) {} bool isPropagationSource() const override { return false; } void doSubexprs(ListenableUnaryOperator const &f) override { if (a) f(a); if (b) f(b); } };
struct Q : P { void handleChange() override { ++handled; } };
PROOF(propagating) { P x; Ears q; Ear &e = q.a; x.addListener(&e); x.m_activeCount = vf_size("activations", 0, SIZE_MAX); bool on = x.m_activeCount != 0; ExpressionListener &l = x; l.notifyChanged(); vf_check(e.calls == (on ? 1u : 0u), "a change of a subexpression is passed on exactly while active"); x.removeListener(&e); }
PROOF(propagating_specially) { Q x; x.m_activeCount = vf_size("activations", 0, SIZE_MAX); bool on = x.m_activeCount != 0; ExpressionListener &l = x; l.notifyChanged(); vf_check(x.handled == (on ? 1u : 0u), "a change of a subexpression is handled exactly while active"); }
struct Net { P x; S a, b, c; Net() { x.a = &a; x.b = &b; b.sub = &c; a.source = vf_bool("first is a source"); b.source = vf_bool("second is a source"); c.source = vf_bool("third is a source"); }
  void added(unsigned k) { vf_check(a.adds == (a.source ? k : 0) && b.adds == (b.source ? k : 0) && c.adds == ((c.source & !b.source) ? k : 0), "it listens to its nearest subexpressions that can change, once"); ExpressionListener *l = &x; vf_check((a.adds == 0 || a.who == l) && (b.adds == 0 || b.who == l) && (c.adds == 0 || c.who == l), "it is the listener itself"); }
  void removed(unsigned k) { vf_check(a.removes == (a.source ? k : 0) && b.removes == (b.source ? k : 0) && c.removes == ((c.source & !b.source) ? k : 0), "it stops listening with its last listener"); } };
PROOF(first_listener) { Net t; Ears q; Ear &e = q.a, &f = q.b; t.x.addListener(&e); t.added(1); t.x.addListener(&f); t.added(1); t.removed(0); vf_check(t.x.m_outgoingListeners.size() == 2, "both are registered"); t.x.removeListener(&e); t.removed(0); t.x.removeListener(&f); t.removed(1); t.added(1); vf_check(!t.x.hasListeners(), "no listener left"); }

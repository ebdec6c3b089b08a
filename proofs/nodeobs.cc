#include "vf.hh"
#include "ExpressionListener.hh"
#include "NodeConnector.hh"
#include "Mutex.hh"
#include "Node.hh"
#include "NodeImpl.hh"
#include "ListNode.hh"
#include "CommandNode.hh"
#include "CommandImpl.hh"
#include "UpdateNode.hh"
#include "UpdateImpl.hh"
#include "ExpressionConstants.hh"
#include "NodeFunction.hh"
#include "NodeOperators.hh"
#include "NodeTimepointValue.hh"
#include "NodeVariables.hh"
#include "PlexilExec.hh"
#include "Value.hh"
#include <algorithm>
#include <float.h>
using namespace PLEXIL;
static const size_t MAXN = 1000000000;
struct Exec final : PlexilExec { unsigned candidates, finished; Exec() : candidates(0), finished(0) {}
  void addCandidateNode(Node *) override { ++candidates; } void enqueueAssignment(Assignment *) override {} void enqueueAssignmentForRetraction(Assignment *) override {}
  void enqueueCommand(CommandImpl *) override {} void enqueueAbortCommand(CommandImpl *) override {} void enqueueUpdate(Update *) override {} void markRootNodeFinished(Node *) override { ++finished; }
  void setDispatcher(Dispatcher *) override {} void setExecListener(ExecListenerBase *) override {} ExecListenerBase *getExecListener() override { return nullptr; }
  ResourceArbiterInterface *getArbiter() override { return nullptr; } std::list<NodePtr> const &getPlans() const override { return *(std::list<NodePtr> *) nullptr; }
  void step(double) override {} bool needsStep() const override { return false; } bool addPlan(Node *) override { return true; } void deleteFinishedPlans() override {} bool allPlansFinished() const override { return true; } };
static double now() { return 0; }
struct Tn : NodeImpl { Tn() : NodeImpl("node", nullptr) {} Tn(NodeImpl *p) : NodeImpl("node", p) {} PlexilNodeType getType() const override { return NodeType_Empty; } };
struct Ln final : Tn { std::vector<NodeImplPtr> kids; std::vector<NodeImplPtr> &getChildren() override { return kids; } std::vector<NodeImplPtr> const &getChildren() const override { return kids; } };
struct Tp { NodeTimepointValue v; bool told; Tp() : v(nullptr, INACTIVE_STATE, false), told(false) {} };
struct Ear : ExpressionListener { bool *told; Ear(bool *t) : told(t) {} void notifyChanged() override { *told = true; } };
static void publish(Notifier *n) { ((Tp *) static_cast<NodeTimepointValue *>(n))->told = true; }
static void world() {
#ifdef VF_SYMBOLIC
  vf_instead("PLEXIL::StateCache::currentTime", (void (*)()) &now); vf_instead("PLEXIL::Notifier::publishChange", (void (*)()) &publish);
#endif
}
static NodeState any_state(char const *n) { return (NodeState) (INACTIVE_STATE + vf_size(n, 0, 6)); }
static NodeOutcome any_outcome() { return (NodeOutcome) (NO_OUTCOME + vf_size("outcome", 0, 4)); }
static FailureType any_failure() { return (FailureType) (NO_FAILURE + vf_size("failure", 0, 6)); }
// ---- what a plan can ask of a node
static void asks(NodeOperator const *op, NodeImpl *n, bool expected) { NodeFunction *e = new NodeFunction(op, n); Expression &x = *e; bool r = !expected, r2 = !expected; vf_check(x.isKnown() && x.getValue(r) && r == expected, "the predicate is its definition"); Value v = x.toValue(); vf_check(v.valueType() == BOOLEAN_TYPE && v.getValue(r2) && r2 == expected, "also as a Value"); vf_check(x.valueType() == BOOLEAN_TYPE, "a Boolean"); delete e; }
struct One { Tn *n; NodeState s; NodeOutcome o; FailureType f; One() : n(nullptr) { world(); n = new Tn(); n->m_state = s = any_state("state"); n->m_outcome = o = any_outcome(); n->m_failureType = f = any_failure(); } ~One() { delete n; } };
template <class C> static void predicate(One &t, bool expected) { C op; asks(&op, t.n, expected); unsigned seen = 0; NodeImpl *n = t.n; op.doPropagationSources(n, [&seen, n](Listenable *l) { if (l == n) ++seen; else seen += 100; }); vf_check(seen == 1, "it follows the node"); }
PROOF(NodeInactive) { One t; predicate<NodeInactive>(t, t.s == INACTIVE_STATE); }
PROOF(NodeWaiting) { One t; predicate<NodeWaiting>(t, t.s == WAITING_STATE); }
PROOF(NodeExecuting) { One t; predicate<NodeExecuting>(t, t.s == EXECUTING_STATE); }
PROOF(NodeIterationEnded) { One t; predicate<NodeIterationEnded>(t, t.s == ITERATION_ENDED_STATE); }
PROOF(NodeFinished) { One t; predicate<NodeFinished>(t, t.s == FINISHED_STATE); }
PROOF(NodeSucceeded) { One t; predicate<NodeSucceeded>(t, (t.s == FINISHED_STATE) & (t.o == SUCCESS_OUTCOME)); }
PROOF(NodeFailed) { One t; predicate<NodeFailed>(t, (t.s == FINISHED_STATE) & (t.o == FAILURE_OUTCOME)); }
PROOF(NodeSkipped) { One t; predicate<NodeSkipped>(t, t.o == SKIPPED_OUTCOME); }
PROOF(NodePostconditionFailed) { One t; predicate<NodePostconditionFailed>(t, t.f == POST_CONDITION_FAILED); }
// any number of children: members 1..n of the family; w: any of them
static bool no_failure_yet(void *p, size_t k); static bool followed(void *p, size_t k);
struct Kids { NodeImpl *x; std::vector<NodeImplPtr> *kids; Fam<Tn> fam; size_t n, w; unsigned seen; Kids(bool list = false) : x(nullptr), kids(nullptr), fam("child"), n(vf_size("children", 0, MAXN)), w(0), seen(0) { fam.any(&fam.proto.m_state, "child state"); fam.any(&fam.proto.m_outcome, "child outcome"); fam.make(n + 1); if (list) { ListNode *l = new ListNode("list", nullptr); x = l; kids = &l->m_children; } else { Ln *l = new Ln(); x = l; kids = &l->kids; } vf_members((std::vector<NodeImpl *> *) kids, fam, n); if (n) w = vf_size("child", 0, n - 1); }
  ~Kids() {
#ifndef VF_SYMBOLIC
    for (auto &k : *kids) k.release(); kids->clear(); delete x;
#endif
  }
  NodeImpl *kid(size_t i) { return (*kids)[i].get(); } bool failed(size_t i) { NodeImpl *k = kid(i); return (k->m_state == FINISHED_STATE) & (k->m_outcome == FAILURE_OUTCOME); } };
struct Worlds { Worlds() { world(); } };
struct KidsW : Worlds, Kids {};
static bool no_failure_yet(void *p, size_t k) { Kids &t = *(Kids *) p; return t.n == 0 || t.w >= k || !t.failed(t.w); }
PROOF(NodeNoChildFailed) { KidsW t; vf_inv(no_failure_yet, &t); NodeNoChildFailed op; bool r = false; vf_check(op(r, t.x), "always known"); if (r) { if (t.n) vf_check(!t.failed(t.w), "true only if no child failed"); } else vf_check(t.n != 0, "false only if there are children"); }
PROOF(NodeNoChildFailed_none) { KidsW t; if (t.n) { size_t i = vf_size("i", 0, t.n - 1);
#ifdef VF_SYMBOLIC
    vf_forall_fam(i, 0, t.n, !t.failed(i), t.fam.h); vf_assume(!t.failed(i));
#else
    for (size_t j = 0; j < t.n; ++j) vf_assume(!t.failed(j));
#endif
  } NodeNoChildFailed op; bool r = false; vf_check(op(r, t.x) && r, "true if no child failed"); NodeFunction f(&op, t.x); vf_check(f.isKnown(), "known as an expression"); }
static bool followed(void *p, size_t k) { Kids &t = *(Kids *) p; return t.seen == (t.n && t.w < k ? 1u : 0u); }
PROOF(NodeNoChildFailed_follows) { KidsW t; vf_inv(followed, &t); NodeNoChildFailed op; Kids *q = &t; op.doPropagationSources(t.x, [q](Listenable *l) { if (q->n && l == q->kid(q->w)) ++q->seen; }); vf_check(t.seen == (t.n ? 1u : 0u), "it follows every child, once"); }
// a list's own conditions over its children: its end unless the plan gives one, and the completion of its action
struct ListW : Worlds, Kids { bool end; ListW() : Kids(true), end(vf_bool("end, else action complete")) { x->specializedCreateConditionWrappers(); }
  Expression *cond() { return x->m_conditions[end ? NodeImpl::endIdx : NodeImpl::actionCompleteIdx]; } bool ok(size_t i) { NodeState s = kid(i)->m_state; return (s == FINISHED_STATE) | (!end & (s == WAITING_STATE)); } };
static bool all_ok_yet(void *p, size_t k) { ListW &t = *(ListW *) p; return t.n == 0 || t.w >= k || t.ok(t.w); }
PROOF(list_conditions) { ListW t; vf_inv(all_ok_yet, &t); bool r = false; vf_check(t.cond()->getValue(r), "always known"); if (r) { if (t.n) vf_check(t.ok(t.w), "true only if every child has finished (or waits, for the action)"); } else vf_check(t.n != 0, "false only if there are children"); }
PROOF(list_conditions_met) { ListW t; if (t.n) { size_t i = vf_size("i", 0, t.n - 1);
#ifdef VF_SYMBOLIC
    vf_forall_fam(i, 0, t.n, t.ok(i), t.fam.h); vf_assume(t.ok(i));
#else
    for (size_t j = 0; j < t.n; ++j) vf_assume(t.ok(j));
#endif
  } bool r = false; vf_check(t.cond()->getValue(r) && r, "true if every child has finished (or waits, for the action)"); }
static bool listened(void *p, size_t k) { ListW &t = *(ListW *) p; return t.seen == (t.n && t.w < k ? 1u : 0u); }
PROOF(list_conditions_follow) { ListW t; vf_inv(listened, &t); ListW *q = &t; t.cond()->doSubexprs([q](Listenable *l) { if (q->n && l == q->kid(q->w)) ++q->seen; }); vf_check(t.seen == (t.n ? 1u : 0u), "they follow every child, once"); }
// ---- conditions made from those in the plan. 0: false, 1: true, 2: unknown, 3: no condition
struct Given final : Expression, Notifier { unsigned v; Given() : v(3) {} char const *exprName() const override { return "G"; } ValueType valueType() const override { return BOOLEAN_TYPE; } bool isKnown() const override { return v < 2; } Value toValue() const override { return v < 2 ? Value((Boolean) (v == 1)) : Value(); } void printValue(std::ostream &) const override {} bool isPropagationSource() const override { return true; } bool getValue(bool &r) const override { if (v < 2) r = v == 1; return v < 2; } Expression *any(char const *n) { v = vf_size(n, 0, 3); return v == 3 ? nullptr : this; } };
static unsigned value_of(Expression *e) { if (!e) return 3; bool b = false; if (!e->getValue(b)) return 2; return b ? 1 : 0; }
static unsigned either(unsigned a, unsigned b) { return a == 3 ? b : b == 3 ? a : (a == 1) | (b == 1) ? 1 : (a == 2) | (b == 2) ? 2 : 0; }
static unsigned both(unsigned a, unsigned b) { return a == 3 ? b : b == 3 ? a : (a == 0) | (b == 0) ? 0 : (a == 2) | (b == 2) ? 2 : 1; }
struct Nest : Worlds { ListNode *up, *x; Given own, theirs; Nest(int mine, int above) : up(nullptr), x(nullptr) { if (vf_bool("has a parent")) { up = new ListNode("parent", nullptr); up->m_conditions[above] = theirs.any("its condition for descendants"); } x = new ListNode("list", up); x->m_conditions[mine] = own.any("own condition"); x->specializedCreateConditionWrappers(); } unsigned above() { return up ? theirs.v : 3; }
  ~Nest() {
#ifndef VF_SYMBOLIC
    delete x; delete up;
#endif
  } };
PROOF(descendants_exit) { Nest t(NodeImpl::exitIdx, NodeImpl::ancestorExitIdx); vf_check(value_of(t.x->m_conditions[NodeImpl::ancestorExitIdx]) == either(t.own.v, t.above()), "descendants exit when the list or one of its ancestors does"); vf_check(value_of(t.x->m_conditions[NodeImpl::exitIdx]) == t.own.v, "its own exit condition stays"); }
PROOF(descendants_invariant) { Nest t(NodeImpl::invariantIdx, NodeImpl::ancestorInvariantIdx); vf_check(value_of(t.x->m_conditions[NodeImpl::ancestorInvariantIdx]) == both(t.own.v, t.above()), "descendants need the invariants of the list and all of its ancestors"); vf_check(value_of(t.x->m_conditions[NodeImpl::invariantIdx]) == t.own.v, "its own invariant stays"); }
PROOF(descendants_end) { Nest t(NodeImpl::endIdx, NodeImpl::ancestorEndIdx); vf_check(value_of(t.x->m_conditions[NodeImpl::ancestorEndIdx]) == either(t.own.v, t.above()), "descendants end with the list's given end or that of an ancestor"); if (t.own.v != 3) vf_check(value_of(t.x->m_conditions[NodeImpl::endIdx]) == t.own.v, "its given end stays"); }
PROOF(seen_from_below) { Nest t(NodeImpl::exitIdx, NodeImpl::ancestorExitIdx); Given a, b, c; ListNode *x = t.x; x->m_conditions[NodeImpl::ancestorExitIdx] = a.any("exit"); x->m_conditions[NodeImpl::ancestorInvariantIdx] = b.any("invariant"); x->m_conditions[NodeImpl::ancestorEndIdx] = c.any("end"); Tn *k = new Tn(x); vf_check(value_of(k->getAncestorExitCondition()) == a.v && value_of(k->getAncestorInvariantCondition()) == b.v && value_of(k->getAncestorEndCondition()) == c.v, "a node sees its parent's conditions for descendants"); Tn *r = new Tn(); vf_check(!r->getAncestorExitCondition() && !r->getAncestorInvariantCondition() && !r->getAncestorEndCondition(), "a root node has none");
#ifndef VF_SYMBOLIC
  delete k; delete r; for (auto &q : x->m_conditions) q = nullptr;
#endif
}
PROOF(command_end) { Worlds w; Given own; CommandNode *x = new CommandNode("command", nullptr); CommandImpl *c = new CommandImpl("c"); x->setCommand(c); uint8_t h = NO_COMMAND_HANDLE + vf_size("handle", 0, 9); c->m_commandHandle = (CommandHandleValue) h; x->m_conditions[NodeImpl::endIdx] = own.any("own end"); x->specializedCreateConditionWrappers(); bool bad = (h == COMMAND_DENIED) | (h == COMMAND_FAILED) | (h == COMMAND_INTERFACE_ERROR); Expression *e = x->m_conditions[NodeImpl::endIdx]; vf_check(value_of(e) == (own.v == 3 ? 3u : either(own.v, bad ? 1 : 0)), "a command with an end condition also ends when it is denied or fails"); vf_check(x->m_conditions[NodeImpl::actionCompleteIdx] == c->getCommandHandleKnownFn() && x->m_conditions[NodeImpl::abortCompleteIdx] == c->getAbortComplete(), "its action is complete when the handle is known");
#ifndef VF_SYMBOLIC
  delete x;
#endif
}
PROOF(update_end) { Worlds w; Given own; UpdateNode *x = new UpdateNode("update", nullptr); UpdateImpl *u = new UpdateImpl(x); x->setUpdate(u); bool ack = vf_bool("acknowledged"); u->m_ack.m_activeCount = 1; u->m_ack.m_value = ack; x->m_conditions[NodeImpl::endIdx] = own.any("own end"); x->specializedCreateConditionWrappers(); vf_check(value_of(x->m_conditions[NodeImpl::endIdx]) == (own.v == 3 ? (ack ? 1u : 0u) : both(own.v, ack)), "an update ends when it is acknowledged and its end condition, if any, is true");
#ifndef VF_SYMBOLIC
  u->m_ack.m_activeCount = 0; delete x;
#endif
}
// ---- the node's variables
PROOF(variables) { One t; Expression &s = t.n->m_stateVariable, &o = t.n->m_outcomeVariable, &f = t.n->m_failureTypeVariable; NodeState ns = NO_NODE_STATE; NodeOutcome no = NO_OUTCOME; FailureType nf = NO_FAILURE; bool ko = t.o != NO_OUTCOME, kf = t.f != NO_FAILURE;
  vf_check(s.isKnown() && s.getValue(ns) && ns == t.s && s.valueType() == NODE_STATE_TYPE, "the state variable is the state"); vf_check(o.isKnown() == ko && o.getValue(no) == ko && o.valueType() == OUTCOME_TYPE && (!ko || no == t.o), "the outcome variable is the outcome, unknown when there is none"); vf_check(f.isKnown() == kf && f.getValue(nf) == kf && f.valueType() == FAILURE_TYPE && (!kf || nf == t.f), "the failure variable is the failure type, unknown when there is none");
  Value v = s.toValue(); vf_check(v.getValue(ns) && ns == t.s, "also as a Value"); v = o.toValue(); vf_check(v.isKnown() == ko && (!ko || (v.getValue(no) && no == t.o)), "also as a Value"); v = f.toValue(); vf_check(v.isKnown() == kf && (!kf || (v.getValue(nf) && nf == t.f)), "also as a Value"); }
// ---- timepoints: a list of any length, members 1..n of the family; w: any of them
struct Times : Worlds { Tn *x, *parent; Fam<Tp> fam; size_t n, w; NodeState old; double start; NodeState ws; bool wend, wknown; double wtime; Times() : x(nullptr), parent(nullptr), fam("timepoint"), n(vf_size("timepoints", 0, MAXN)), w(1), old(any_state("old state")), start(vf_f64("old start")), ws(NO_NODE_STATE), wend(false), wknown(false), wtime(0) {
    fam.any((uint8_t *) &fam.proto.v.m_state, "timepoint state"); fam.any((bool *) &fam.proto.v.m_end, "timepoint is an end"); fam.any(&fam.proto.v.m_known, "timepoint known"); fam.any(&fam.proto.v.m_time, "timepoint"); fam.make(n + 1); fam.chain((Tp **) &fam.proto.v.m_next, n);
    if (vf_bool("has a parent")) parent = new Tn(); x = new Tn(parent); x->m_state = old; x->m_currentStateStartTime = start; *(Tp **) &x->m_timepoints = fam.at(n ? 1 : 0); if (n) { w = vf_size("timepoint number", 1, n); Tp *t = fam.at(w); ws = t->v.m_state; wend = t->v.m_end; wknown = t->v.m_known; wtime = t->v.m_time; }
#ifndef VF_SYMBOLIC
    for (size_t i = 1; i <= n; ++i) { fam.at(i)->v.m_outgoingListeners.push_back(new Ear(&fam.at(i)->told)); fam.at(i)->v.m_activeCount = 1; }
#endif
  }
  ~Times() {
#ifndef VF_SYMBOLIC
    x->m_timepoints.release(); for (size_t i = 1; i <= n; ++i) { fam.at(i)->v.m_next.release(); delete static_cast<Ear *>(fam.at(i)->v.m_outgoingListeners[0]); fam.at(i)->v.m_outgoingListeners.clear(); fam.at(i)->v.m_activeCount = 0; } delete x; delete parent;
#endif
  }
  NodeTimepointValue *at(size_t i) { return &fam.at(i)->v; }
  bool hit(NodeState s) { return ((ws == old) & wend) | ((ws == s) & !wend); } };
static bool cleared(void *p, size_t k); static bool stamped(void *p, size_t k);
struct Log : Times { NodeState to; double tym; Log() : to(any_state("new state")), tym(vf_f64("time")) {} };
static bool is(Log &t, bool done, bool wiped) { if (t.n == 0) return true; Tp *q = t.fam.at(t.w); bool h = done & t.hit(t.to); return (q->v.m_known == (h | (t.wknown & !wiped))) & (q->told == (h | wiped)) & (vf_same_f64(q->v.m_time, h ? t.tym : t.wtime)); }
static bool cleared(void *p, size_t k) { Log &t = *(Log *) p; return is(t, false, (t.to == INACTIVE_STATE) & (t.w - 1 < k)); }
static bool stamped(void *p, size_t k) { Log &t = *(Log *) p; return is(t, t.w - 1 < k, t.to == INACTIVE_STATE); }
PROOF(changing_state) { Log t; vf_inv(cleared, &t); vf_inv(stamped, &t); Exec ex; t.x->m_queueStatus = QUEUE_NONE; t.x->NodeImpl::setState(&ex, t.to, t.tym); bool c = t.to != t.old; vf_check(t.x->getState() == t.to, "the state changes"); vf_check(vf_same_f64(t.x->getCurrentStateStartTime(), c ? t.tym : t.start), "the start of the current state is recorded");
  if (t.n) { Tp *q = t.fam.at(t.w); bool h = c & t.hit(t.to), wiped = c & (t.to == INACTIVE_STATE); double r = 0; bool k = q->v.getValue(r); vf_check(k == (h | (t.wknown & !wiped)), "known: the end of the old state, the start of the new one, and earlier ones except on return to inactive"); vf_check(q->v.isKnown() == k, "known"); if (k) vf_check(vf_same_f64(r, h ? t.tym : t.wtime), "the time of the change, or the earlier time"); vf_check(q->told == (h | wiped), "exactly the changed ones are published"); }
  bool over = c & (t.to == FINISHED_STATE) & !t.parent; vf_check(ex.finished == (over ? 1u : 0u) && ex.candidates == ((c & !over) ? 1u : 0u), "the executive is told"); }
static NodeState seek; static bool seek_end; static bool sought(void *p, size_t k) { Times &t = *(Times *) p; return t.n == 0 || t.w - 1 >= k || !((t.ws == seek) & (t.wend == seek_end)); }
PROOF(start_of) { Times t; NodeState s = any_state("queried state"); bool hit = t.n && (t.ws == s) & !t.wend;
  if (hit) { size_t i = vf_size("i", 0, t.n - 1);
#ifdef VF_SYMBOLIC
    bool other = (i + 1 == t.w) | (t.at(i + 1)->m_state != s) | t.at(i + 1)->m_end; vf_forall_fam(i, 0, t.n, other, t.fam.h); vf_assume(other);
#else
    for (size_t j = 1; j <= t.n; ++j) vf_assume((j == t.w) | (t.at(j)->m_state != s) | t.at(j)->m_end);
#endif
  } seek = s; seek_end = false; vf_inv(sought, &t); double r = t.x->getStateStartTime(s); if (s == t.old) vf_check(vf_same_f64(r, t.start), "the current state's start"); else if (hit) vf_check(vf_same_f64(r, t.wknown ? t.wtime : -DBL_MAX), "the recorded start, if known"); }
PROOF(timepoint) { Times t; seek = any_state("wanted state"); seek_end = vf_bool("wanted end"); vf_inv(sought, &t); NodeTimepointValue *head = t.x->m_timepoints.get(); NodeTimepointValue *r = dynamic_cast<NodeTimepointValue *>(t.x->ensureTimepoint(seek, seek_end)); vf_check(r->state() == seek && r->isEnd() == seek_end, "the timepoint asked for"); NodeTimepointValue *h2 = t.x->m_timepoints.get(); if (h2 != head) { vf_check(h2 == r && r->next() == head && !r->isKnown(), "a new one precedes the others, unknown"); if (t.n) vf_check(!((t.ws == seek) & (t.wend == seek_end)), "none is made twice"); r->m_next.release(); *(NodeTimepointValue **) &t.x->m_timepoints = head; delete r; } else vf_check(t.n != 0, "an existing one is found"); if (t.n) vf_check(t.at(t.w)->next() == (t.w < t.n ? t.at(t.w + 1) : nullptr), "the list stays"); }

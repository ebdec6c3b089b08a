#include "vf.hh"
#include "Debug.hh"
#include "DebugMessage.hh"
#ifdef NO_DEBUG_MESSAGE_SUPPORT
#undef NO_DEBUG_MESSAGE_SUPPORT
namespace PLEXIL { extern std::ostream &getDebugOutputStream(); }
#endif
#define PlexilExecImpl CheckedExecImpl
#define PriorityCompare CheckedPriorityCompare
#define makePlexilExec makeCheckedExec
#define g_exec checked_g_exec
#include "PlexilExec.cc"
#undef g_exec
namespace PLEXIL { extern PlexilExec *g_exec; }
#include "NodeImpl.hh"
using namespace PLEXIL;
enum Where { NOWHERE, CANDIDATES, PENDING, CHANGING, DELETED };
struct N; static CheckedExecImpl *ex; static N *first; static unsigned clock_;
// a node behind the executive's interface: conditions and resources are whatever the harness says
struct N : Node { QueueStatus status; Where in; bool dest, needs, grant; NodeState nxt; int32_t prio; unsigned evals, tries, released, notified, when; N *link;
  N() : status(QUEUE_NONE), in(NOWHERE), dest(false), needs(false), grant(false), nxt(NO_NODE_STATE), prio(0), evals(0), tries(0), released(0), notified(0), when(0), link(nullptr) {}
  std::string const &getNodeId() const override { static std::string const *s = new std::string("n"); return *s; } Expression *findVariable(char const *) override { return nullptr; } void notifyResourceAvailable() override {} void notifyChanged() override {}
  PlexilNodeType getType() const override { return NodeType_Empty; } int32_t getPriority() const override { return prio; } Node const *getParent() const override { return nullptr; } NodeState getState() const override { return WAITING_STATE; } NodeOutcome getOutcome() const override { return NO_OUTCOME; } FailureType getFailureType() const override { return NO_FAILURE; }
  Node *next() const override { return link; } Node **nextPtr() override { return (Node **) &link; } QueueStatus getQueueStatus() const override { return status; } void setQueueStatus(QueueStatus s) override { status = s; } void activateNode() override {}
  void notify(PlexilExec *e) override { ++notified; if (status == QUEUE_NONE) { status = QUEUE_CHECK; e->addCandidateNode(this); } }
  bool getDestState() override { ++evals; return dest; } NodeState getNextState() const override { return nxt; } void transition(PlexilExec *, double) override {} bool acquiresResources() const override { return needs; } Assignable *getAssignmentVariable() const override { return nullptr; }
  bool tryResourceAcquisition() override { ++tries; when = ++clock_; return grant; } void releaseResourceReservations() override { ++released; } void print(std::ostream &, const unsigned int) const override {} std::string toString(const unsigned int) const override { return std::string(); } };
// the queues by their contracts (proved as X03); which queue a node is in is a ghost field
static Where which(void const *q) { return q == &ex->m_candidateQueue ? CANDIDATES : q == &ex->m_pendingQueue ? PENDING : q == &ex->m_stateChangeQueue ? CHANGING : DELETED; }
static void push(LinkedQueue<Node> *q, Node *n) { vf_check(((N *) n)->in == NOWHERE, "a node is put in a queue only when it is in none"); ((N *) n)->in = which(q); }
static void insert(PriorityQueue<Node, CheckedPriorityCompare> *q, Node *n) { push(q, n); }
static void pop(LinkedQueue<Node> *q) { if (first && first->in == which(q)) first->in = NOWHERE; }
static void removed(LinkedQueue<Node> *q, Node *n) { if (((N *) n)->in == which(q)) ((N *) n)->in = NOWHERE; }
static Node *front(LinkedQueue<Node> const *q) { return first && first->in == which(q) ? first : nullptr; }
static ResourceArbiterInterface *no_arbiter() { return nullptr; }
static void contracts() {
#ifdef VF_SYMBOLIC
  vf_instead("PLEXIL::LinkedQueue<PLEXIL::Node>::push", (void (*)()) &push); vf_instead("PLEXIL::LinkedQueue<PLEXIL::Node>::pop", (void (*)()) &pop); vf_instead("PLEXIL::LinkedQueue<PLEXIL::Node>::remove", (void (*)()) &removed); vf_instead("PLEXIL::LinkedQueue<PLEXIL::Node>::front", (void (*)()) &front);
  vf_instead("PLEXIL::PriorityQueue<PLEXIL::Node, PLEXIL::CheckedPriorityCompare>::insert", (void (*)()) &insert);
#endif
}
static Where place(QueueStatus s) { return s == QUEUE_NONE ? NOWHERE : s == QUEUE_CHECK ? CANDIDATES : s == QUEUE_DELETE ? DELETED : s >= QUEUE_TRANSITION ? CHANGING : PENDING; }
static LinkedQueue<Node> *queue(Where w) { return w == CANDIDATES ? &ex->m_candidateQueue : w == PENDING ? &ex->m_pendingQueue : w == CHANGING ? &ex->m_stateChangeQueue : w == DELETED ? &ex->m_finishedRootNodes : nullptr; }
static Where where(N &n) {
#ifndef VF_SYMBOLIC
  n.in = NOWHERE; for (Where w : {CANDIDATES, PENDING, CHANGING, DELETED}) if (queue(w)->find_if([&n](Node *m) { return m == &n; })) { vf_check(n.in == NOWHERE, "a node is in one queue only"); n.in = w; }
#endif
  return n.in; }
static void agree(N &n, QueueStatus s) { vf_check(n.status == s, "the recorded status is as expected"); vf_check(where(n) == place(s), "and agrees with the queue the node is in"); }
static QueueStatus any_status(char const *n, uint8_t lo = QUEUE_NONE, uint8_t hi = QUEUE_DELETE) { return (QueueStatus) vf_size(n, lo, hi); }
static NodeState any_next() { return (NodeState) vf_size("next state", INACTIVE_STATE, FINISHING_STATE); }
static CheckedExecImpl *make() {
#ifdef VF_SYMBOLIC
  vf_instead("PLEXIL::makeResourceArbiter", (void (*)()) &no_arbiter);
#endif
  clock_ = 0; first = nullptr; return ex = new CheckedExecImpl(); }
// an executive, and a node with whatever status, in the queue the status says
struct Sit { N x; QueueStatus old; Sit(QueueStatus s) : old(s) { make(); contracts(); x.status = s; x.in = place(s); x.dest = vf_bool("can transition"); x.nxt = any_next(); x.needs = vf_bool("needs resources"); x.grant = vf_bool("gets resources"); first = &x;
#ifndef VF_SYMBOLIC
    if (place(s) != NOWHERE) queue(place(s))->push(&x);
#endif
  }
#ifndef VF_SYMBOLIC
  ~Sit() { delete ex; }
#endif
};
#define EXPECT_ANY_STATUS any_status("status")
PROOF(taking_a_candidate) { Sit t(EXPECT_ANY_STATUS); Node *r = ex->getCandidateNode(); vf_check((r == &t.x) == (t.old == QUEUE_CHECK) && (r == nullptr) == (t.old != QUEUE_CHECK), "a node waiting to be checked is taken"); agree(t.x, t.old == QUEUE_CHECK ? QUEUE_NONE : t.old); }
PROOF(taking_a_change) { Sit t(EXPECT_ANY_STATUS); bool in = place(t.old) == CHANGING; Node *r = ex->getStateChangeNode(); vf_check((r == &t.x) == in && (r == nullptr) == !in, "a node about to change is taken"); agree(t.x, t.old == QUEUE_TRANSITION_CHECK ? QUEUE_CHECK : t.old == QUEUE_TRANSITION ? QUEUE_NONE : t.old); }
PROOF(taking_a_finished_root) { Sit t(EXPECT_ANY_STATUS); bool in = place(t.old) == DELETED; Node *r = ex->getFinishedRootNode(); vf_check((r == &t.x) == in && (r == nullptr) == !in, "a finished root node is taken"); agree(t.x, in ? QUEUE_NONE : t.old); }
PROOF(queueing_a_candidate) { Sit t(QUEUE_NONE); t.x.status = QUEUE_CHECK; ex->addCandidateNode(&t.x); agree(t.x, QUEUE_CHECK); }
PROOF(queueing_a_change) { Sit t(EXPECT_ANY_STATUS); vf_expect_error(t.old != QUEUE_NONE); ex->addStateChangeNode(&t.x); agree(t.x, QUEUE_TRANSITION); }
PROOF(queueing_a_pending_node) { Sit t(QUEUE_NONE); ex->addPendingNode(&t.x); agree(t.x, QUEUE_PENDING_TRY); }
PROOF(queueing_a_finished_root) { Sit t(EXPECT_ANY_STATUS); bool ok = (t.old == QUEUE_NONE) | (t.old == QUEUE_CHECK) | (t.old == QUEUE_DELETE); vf_expect_error(!ok); if (vf_bool("by the node")) ex->markRootNodeFinished(&t.x); else ex->addFinishedRootNode(&t.x); agree(t.x, QUEUE_DELETE); }
PROOF(dropping_a_pending_node) { Sit t(any_status("status", QUEUE_PENDING_TRY, QUEUE_PENDING_CHECK)); ex->removePendingNode(&t.x); agree(t.x, QUEUE_NONE); vf_check(t.x.released == 1, "it waits for its resources no longer"); }
PROOF(needing_resources) { Sit t(QUEUE_NONE); bool r = ex->resourceCheckRequired(&t.x); vf_check(r == (t.x.nxt == EXECUTING_STATE && t.x.needs), "only a node about to execute with resources needs to acquire them"); agree(t.x, QUEUE_NONE); }
PROOF(reexamining) { Sit t(EXPECT_ANY_STATUS); bool in = place(t.old) == PENDING; vf_expect_error(!in); bool r = ex->resourceCheckEligible(&t.x); bool check = (t.old == QUEUE_PENDING_CHECK) | (t.old == QUEUE_PENDING_TRY_CHECK), tr = (t.old == QUEUE_PENDING_TRY) | (t.old == QUEUE_PENDING_TRY_CHECK);
  vf_check(!check || t.x.evals == 1, "conditions that changed are evaluated again"); bool stays = !check || (t.x.dest && t.x.nxt == EXECUTING_STATE);
  if (stays) { vf_check(r == tr, "it tries again exactly when a resource was released"); if (r) { vf_check(where(t.x) == PENDING && place(t.x.status) == PENDING, "and stays pending"); } else agree(t.x, QUEUE_PENDING); } else { vf_check(!r, "a node that will not execute acquires nothing"); agree(t.x, t.x.dest ? QUEUE_TRANSITION : QUEUE_NONE); vf_check(t.x.released == 1, "it waits for its resources no longer"); } }
// ---- the node's side
struct Ear : PlexilExec { unsigned candidates; Node *which; Ear() : candidates(0), which(nullptr) {}
  void addCandidateNode(Node *n) override { ++candidates; which = n; } void enqueueAssignment(Assignment *) override {} void enqueueAssignmentForRetraction(Assignment *) override {}
  void enqueueCommand(CommandImpl *) override {} void enqueueAbortCommand(CommandImpl *) override {} void enqueueUpdate(Update *) override {} void markRootNodeFinished(Node *) override {}
  void setDispatcher(Dispatcher *) override {} void setExecListener(ExecListenerBase *) override {} ExecListenerBase *getExecListener() override { return nullptr; }
  ResourceArbiterInterface *getArbiter() override { return nullptr; } std::list<NodePtr> const &getPlans() const override { return *(std::list<NodePtr> *) nullptr; }
  void step(double) override {} bool needsStep() const override { return false; } bool addPlan(Node *) override { return true; } void deleteFinishedPlans() override {} bool allPlansFinished() const override { return true; } };
static double now() { return 0; }
struct Tn : NodeImpl { Tn() : NodeImpl("node", nullptr) {} PlexilNodeType getType() const override { return NodeType_Empty; } };
static Tn *real_node() {
#ifdef VF_SYMBOLIC
  vf_instead("PLEXIL::StateCache::currentTime", (void (*)()) &now);
#endif
  return new Tn(); }
static QueueStatus checked(QueueStatus s) { return s == QUEUE_NONE ? QUEUE_CHECK : s == QUEUE_PENDING ? QUEUE_PENDING_CHECK : s == QUEUE_PENDING_TRY ? QUEUE_PENDING_TRY_CHECK : s == QUEUE_TRANSITION ? QUEUE_TRANSITION_CHECK : s; }
PROOF(notified) { Tn &x = *real_node(); Ear e; QueueStatus old = any_status("status", QUEUE_NONE, QUEUE_TRANSITION_CHECK); x.m_queueStatus = old; if (vf_bool("by its conditions")) { g_exec = &e; x.notifyChanged(); } else x.notify(&e);
  vf_check(x.getQueueStatus() == checked(old), "the node is to be checked, and what was known about its resources is kept"); vf_check(e.candidates == (old == QUEUE_NONE ? 1u : 0u) && (e.candidates == 0 || e.which == &x), "it becomes a candidate exactly when it is in no queue"); }
PROOF(notified_again) { Tn &x = *real_node(); Ear e; QueueStatus old = any_status("status", QUEUE_NONE, QUEUE_TRANSITION_CHECK); x.m_queueStatus = old; x.notify(&e); x.notify(&e); vf_check(x.getQueueStatus() == checked(old) && e.candidates == (old == QUEUE_NONE ? 1u : 0u), "a second change changes nothing"); }
PROOF(resource_available) { Tn &x = *real_node(); QueueStatus old = any_status("status"); x.m_queueStatus = old; x.notifyResourceAvailable(); vf_check(x.getQueueStatus() == (old == QUEUE_PENDING ? QUEUE_PENDING_TRY : old == QUEUE_PENDING_CHECK ? QUEUE_PENDING_TRY_CHECK : old), "a node waiting for resources will try again; a change of its conditions is not forgotten"); }
PROOF(status_recorded) { Tn &x = *real_node(); QueueStatus s = any_status("status"); x.setQueueStatus(s); vf_check(x.getQueueStatus() == s, "the status set is the status recorded"); }
PROOF(new_node) { Tn &x = *real_node(); vf_check(x.getQueueStatus() == QUEUE_NONE && x.next() == nullptr, "a new node is in no queue"); }
// ---- waiting nodes are re-examined (bounded: up to three of them)
struct Three { Fam<N> f; N *n[3]; QueueStatus old[3]; size_t k; Three(size_t least, size_t most, QueueStatus fixed) : f("node"), k(vf_size("pending", least, most)) { make(); f.make(3); f.chain(&f.proto.link, k); for (size_t i = 0; i < 3; ++i) n[i] = f.at(i + 1); int32_t p = vf_i32("priority"); 
    for (size_t i = 0; i < k; ++i) { N &x = *n[i]; old[i] = any_status("status", QUEUE_PENDING_TRY, QUEUE_PENDING_CHECK); if (most == 3 && i == 0) old[0] = fixed; if (i == 2) vf_assume((old[i] == QUEUE_PENDING_TRY) | (old[i] == QUEUE_PENDING_CHECK)); x.status = old[i]; x.dest = vf_bool("can transition"); x.nxt = vf_bool("to executing") ? EXECUTING_STATE : FINISHED_STATE; x.grant = vf_bool("gets resources"); if (i == 1 && vf_bool("less urgent")) { vf_assume(p < 2147483647); ++p; } x.prio = p; x.in = PENDING; }
    auto &q = ex->m_pendingQueue; q.m_head = k ? n[0] : nullptr; q.m_tail = k ? n[k - 1] : nullptr; q.m_count = k; }
  Where at(N &x) { Where r = NOWHERE; for (Where w : {CANDIDATES, PENDING, CHANGING, DELETED}) for (Node *m = queue(w)->m_head; m; m = m->next()) if (m == &x) { vf_check(r == NOWHERE, "a node is in one queue only"); r = w; } return r; } };
static void resolve(size_t least, size_t most, QueueStatus fixed) { Three t(least, most, fixed); ex->resolveResourceConflicts(); unsigned last = 0; int32_t lp = 0;
  for (size_t i = 0; i < t.k; ++i) { N &x = *t.n[i]; QueueStatus o = t.old[i]; bool check = (o == QUEUE_PENDING_CHECK) | (o == QUEUE_PENDING_TRY_CHECK), tr = (o == QUEUE_PENDING_TRY) | (o == QUEUE_PENDING_TRY_CHECK); bool stays = !check || (x.dest && x.nxt == EXECUTING_STATE);
    vf_check(x.evals == (check ? 1u : 0u), "conditions that changed are evaluated again"); vf_check(x.tries == (stays && tr ? 1u : 0u), "a node whose resources were released tries to get them");
    QueueStatus s = stays ? tr && x.grant ? QUEUE_TRANSITION : QUEUE_PENDING : x.dest ? QUEUE_TRANSITION : QUEUE_NONE; vf_check(x.status == s, "its status afterwards says what became of it"); vf_check(t.at(x) == place(s), "and agrees with the queue it is in");
    if (x.tries) { vf_check(last == 0 || lp == x.prio || last < x.when, "more urgent nodes get resources first"); last = x.when; lp = x.prio; } } }
PROOF(resolving) { resolve(0, 2, QUEUE_NONE); }
PROOF(resolving_three_try_check) { resolve(3, 3, QUEUE_PENDING_TRY_CHECK); }
PROOF(resolving_three_check) { resolve(3, 3, QUEUE_PENDING_CHECK); }

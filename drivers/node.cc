// Replay driver for node properties: real node objects with stub conditions and a recording executive.
// D <type> <state> <parent 0|1> <parent state> <failure> <conds>
//     -> D <ret> <next state> <next outcome> <next failure> <state> <outcome> <failure>          or ERR
// X <type> <state> <next> <outcome> <failure> <parent 0|1> <own conds present, 13 of -X> <own active mask, 13 of 01> <exec active 0|1>
//   <nlocals> <outcome now> <failure now> <holding 0|1> <child states or ->
//     -> X <state> <outcome> <failure> <next> <nextOutcome> <nextFailure> <13 active counts> <local counts> <exec active> <events>    or ERR
#include "NodeImpl.hh"
#include "CommandNode.hh"
#include "AssignmentNode.hh"
#include "UpdateNode.hh"
#include "ListNode.hh"
#include "LibraryCallNode.hh"
#include "Assignment.hh"
#include "Assignable.hh"
#include "CommandImpl.hh"
#include "UpdateImpl.hh"
#include "Error.hh"
#include "ExpressionListener.hh"
#include "GetValueImpl.hh"
#include "Mutex.hh"
#include "NodeTimepointValue.hh"
#include "PlexilExec.hh"
#include "UserVariable.hh"
#include "Constant.hh"
#include "NodeVariableMap.hh"
#include <iostream>
#include <unistd.h>
#include <sstream>
#include <cstring>
using namespace PLEXIL;
struct Cond : public GetValueImpl<Boolean>, public Notifier {
  bool v, k, junk; Cond(char c) : v(c == 'T'), k(c == 'T' || c == 'F'), junk(c == 'U') {}
  bool getValue(Boolean &r) const override { r = k ? v : junk; return k; }
  bool isKnown() const override { return k; }
  const char *exprName() const override { return "Cond"; }
};
static std::string ev;
struct Lst : public ExpressionListener { std::string n; Lst(std::string s) : n(s) {} void notifyChanged() override { ev += n; } };
struct Ex : public PlexilExec {
  std::vector<Node *> cand;
  void addCandidateNode(Node *n) override { cand.push_back(n); ev += "+" + n->getNodeId(); }
  void enqueueAssignment(Assignment *) override { ev += "[assign]"; }
  void enqueueAssignmentForRetraction(Assignment *) override { ev += "[retract]"; }
  void enqueueCommand(CommandImpl *c) override { ev += c->m_active ? "[command]" : "[command-inactive]"; }
  void enqueueAbortCommand(CommandImpl *c) override { ev += c->m_active ? "[abort]" : "[abort-inactive]"; }
  void enqueueUpdate(Update *) override { ev += "[update]"; }
  void markRootNodeFinished(Node *) override { ev += "[rootfinished]"; }
  void setDispatcher(Dispatcher *) override {} void setExecListener(ExecListenerBase *) override {}
  ExecListenerBase *getExecListener() override { return nullptr; }
  ResourceArbiterInterface *getArbiter() override { return nullptr; }
  std::list<NodePtr> m_plans; std::list<NodePtr> const &getPlans() const override { return m_plans; }
  void step(double) override {} bool needsStep() const override { return false; }
  bool addPlan(Node *) override { return true; } void deleteFinishedPlans() override {} bool allPlansFinished() const override { return true; }
};
static const int IDX[13] = { NodeImpl::ancestorExitIdx, NodeImpl::ancestorInvariantIdx, NodeImpl::ancestorEndIdx, NodeImpl::skipIdx, NodeImpl::startIdx, NodeImpl::preIdx,
  NodeImpl::exitIdx, NodeImpl::invariantIdx, NodeImpl::endIdx, NodeImpl::postIdx, NodeImpl::repeatIdx, NodeImpl::actionCompleteIdx, NodeImpl::abortCompleteIdx };
static NodeImpl *mk(std::string const &t, char const *id, NodeImpl *p) {
  if (t == "Command") { CommandNode *n = new CommandNode(id, p); CommandImpl *c = new CommandImpl("n"); n->setCommand(c); n->initDummyCommand(); return n; }
  if (t == "Assignment") { AssignmentNode *n = new AssignmentNode(id, p); n->setAssignment(new Assignment()); n->initDummyAssignment(); return n; }
  if (t == "Update") { UpdateNode *n = new UpdateNode(id, p); n->setUpdate(new UpdateImpl(n)); return n; }
  if (t == "List") return new ListNode(id, p);
  if (t == "Library") return new LibraryCallNode(id, p);
  return new NodeImpl(id, p);
}
static int execActive(NodeImpl *n, std::string const &t) {
  if (t == "Command") return static_cast<CommandNode *>(n)->m_command->m_active;
  if (t == "Assignment") return static_cast<AssignmentNode *>(n)->m_assignment->m_dest->isActive();
  if (t == "Update") return static_cast<UpdateNode *>(n)->m_update->m_ack.isActive();
  return 0;
}
int main() {
  Error::doThrowExceptions();
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line); std::string m, t; in >> m >> t; ev.clear(); std::ostringstream out;
    try {
      Ex ex; g_exec = &ex;
      if (m == "D") {
        int st, hp, ps, fl; std::string cs; in >> st >> hp >> ps >> fl >> cs;
        NodeImpl *p = hp ? new ListNode("parent") : nullptr;
        if (p) p->m_state = ps;
        NodeImpl *n = mk(t, "node", p);
        for (int i = 0; i < 13; ++i) {
          NodeImpl *o = i < 3 ? p : n; if (!o) continue;
          Cond *c = cs[i] == '-' ? nullptr : new Cond(cs[i]); if (c) c->activate();
          o->m_conditions[IDX[i]] = c;
        }
        n->m_state = st; n->m_failureType = fl; n->m_outcome = NO_OUTCOME;
        bool r = n->getDestState();
        out << "D " << r << ' ' << (int) n->m_nextState << ' ' << (int) n->m_nextOutcome << ' ' << (int) n->m_nextFailureType << ' ' << (int) n->m_state << ' ' << (int) n->m_outcome << ' ' << (int) n->m_failureType;
      } else {
        int st, ns, no, nf, hp, ea, nl, oc, fl, hold; std::string pres, act, ch; in >> st >> ns >> no >> nf >> hp >> pres >> act >> ea >> nl >> oc >> fl >> hold >> ch;
        NodeImpl *p = hp ? new ListNode("parent") : nullptr;
        NodeImpl *n = mk(t, "node", p);
        Cond *cs[13];
        for (int i = 0; i < 13; ++i) {
          cs[i] = pres[i] == '-' ? nullptr : new Cond('T'); if (cs[i] && act[i] == '1') cs[i]->activate();
          n->m_conditions[IDX[i]] = cs[i];
        }
        std::vector<Cond *> loc;
        if (nl >= 0) n->m_localVariables.reset(new std::vector<ExpressionPtr>());
        for (int i = 0; i < nl; ++i) { Cond *c = new Cond('T'); if (ea) c->activate(); loc.push_back(c); n->m_localVariables->emplace_back(ExpressionPtr(c)); }
        if (ea) {
          if (t == "Command") static_cast<CommandNode *>(n)->m_command->activate();
          if (t == "Assignment") static_cast<AssignmentNode *>(n)->m_assignment->activate();
          if (t == "Update") static_cast<UpdateNode *>(n)->m_update->activate();
        }
        Mutex *mx = new Mutex("m"); Variable *var = nullptr;
        if (t == "Assignment") var = n->getAssignmentVariable()->getBaseVariable();
        if (hold) { n->m_usingMutexes.reset(new std::vector<Mutex *>()); n->m_usingMutexes->push_back(mx); mx->acquire(n); if (var) var->acquire(n); }
        if (ch != "-") for (char c : ch) { NodeImpl *k = new NodeImpl(("c" + std::to_string(n->getChildren().size())).c_str(), n); k->m_state = c - '0'; static_cast<ListNode *>(n)->addChild(k); }
        Lst *l = new Lst("!"); n->addListener(l);
        n->m_state = st; n->m_outcome = oc; n->m_failureType = fl; n->m_nextState = ns; n->m_nextOutcome = no; n->m_nextFailureType = nf;
        n->m_queueStatus = QUEUE_TRANSITION;
        n->transition(&ex, 5.0);
        out << "X " << (int) n->m_state << ' ' << (int) n->m_outcome << ' ' << (int) n->m_failureType << ' ' << (int) n->m_nextState << ' ' << (int) n->m_nextOutcome << ' ' << (int) n->m_nextFailureType << ' ';
        for (int i = 0; i < 13; ++i) if (cs[i]) out << cs[i]->m_activeCount; else out << '-';
        out << " L"; for (Cond *c : loc) out << c->m_activeCount;
        out << ' ' << execActive(n, t) << ' ' << (hold ? (mx->getHolder() == n) + 2*(var && var->getHolder() == n) : 0) << ' ' << (int) n->m_queueStatus << ' ' << n->getCurrentStateStartTime() << " E" << ev;
      }
    } catch (Error const &e) { out.str(""); out << "ERR " << e.what(); }
    std::cout << out.str().substr(0, 300) << std::endl;
  }
  _exit(0);
}

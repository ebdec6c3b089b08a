"""Abstract environment of one plan node: a real node object (real vtable) whose conditions are arbitrary expressions."""
import re, z3
from . import build as bld
from .engine import *
from . import engine as E
from .model import *

def enum(path, name=None, opener=None):
    """enumerators of an enum in a /repo header: {name: value}"""
    src = open(bld.SRC + "/" + path).read()
    m = re.search(r"enum\s+" + name + r"\b[^{]*\{(.*?)\}", src, re.S)
    body = re.sub(r"//[^\n]*|/\*.*?\*/", "", m[1], flags=re.S); v = 0; out = {}
    for it in body.split(","):
        it = it.strip()
        if not it: continue
        if "=" in it:
            n, x = [y.strip() for y in it.split("=")]; v = out[x] if x in out else int(x, 0)
        else: n = it
        out[n] = v; v += 1
    return out
def const_enums():
    d = {}
    for n in ("NodeState", "NodeOutcome", "FailureType"): d.update(enum("value/NodeConstants.hh", n))
    d.update(enum("value/CommandHandle.hh", "CommandHandleValue"))
    return d

TYPES = {"Empty": "NodeImpl", "Assignment": "AssignmentNode", "Command": "CommandNode", "Update": "UpdateNode", "List": "ListNode", "Library": "LibraryCallNode"}
EXEC_FILES = ["exec/" + f for f in ("NodeImpl.cc", "AssignmentNode.cc", "CommandNode.cc", "UpdateNode.cc", "ListNode.cc", "LibraryCallNode.cc", "NodeTimepointValue.cc", "NodeVariables.cc")]
FILES = EXPR_FILES + EXEC_FILES
FIELDS = ["m_queueStatus", "m_state", "m_outcome", "m_failureType", "m_nextState", "m_nextOutcome", "m_nextFailureType", "m_parent", "m_conditions",
          "m_localVariables", "m_localMutexes", "m_usingMutexes", "m_currentStateStartTime", "m_timepoints", "m_nodeId", "m_cleanedBody"]
LAYOUT = {"NodeImpl": FIELDS, "CommandNode": ["m_command"], "AssignmentNode": ["m_assignment"], "UpdateNode": ["m_update"], "ListNode": ["m_children"]}
INCLUDES = ["NodeImpl.hh", "CommandNode.hh", "AssignmentNode.hh", "UpdateNode.hh", "ListNode.hh", "LibraryCallNode.hh"]
CONDS = ["ancestorExit", "ancestorInvariant", "ancestorEnd", "skip", "start", "pre", "exit", "invariant", "end", "post", "repeat", "actionComplete", "abortComplete"]
STATES = ["INACTIVE_STATE", "WAITING_STATE", "EXECUTING_STATE", "ITERATION_ENDED_STATE", "FINISHED_STATE", "FAILING_STATE", "FINISHING_STATE"]
# concrete executive class: only its vtable slot names are used, never its bodies
HARNESS = """#include "PlexilExec.hh"
#include "Node.hh"
using namespace PLEXIL;
struct vfExec : public PlexilExec {
  void addCandidateNode(Node *) override {} void enqueueAssignment(Assignment *) override {} void enqueueAssignmentForRetraction(Assignment *) override {}
  void enqueueCommand(CommandImpl *) override {} void enqueueAbortCommand(CommandImpl *) override {} void enqueueUpdate(Update *) override {} void markRootNodeFinished(Node *) override {}
  void setDispatcher(Dispatcher *) override {} void setExecListener(ExecListenerBase *) override {} ExecListenerBase *getExecListener() override { return nullptr; }
  ResourceArbiterInterface *getArbiter() override { return nullptr; } std::list<NodePtr> const &getPlans() const override { return *(std::list<NodePtr> *) nullptr; }
  void step(double) override {} bool needsStep() const override { return false; } bool addPlan(Node *) override { return true; } void deleteFinishedPlans() override {} bool allPlansFinished() const override { return true; }
};
vfExec *vf_make_exec() { return new vfExec(); }
"""
def build(files=(), includes=(), layout=None):
    lay = dict(LAYOUT); lay.update(layout or {})
    return bld.module(FILES + list(files), HARNESS, layout=lay, includes=INCLUDES + list(includes))
def cls(t): n = TYPES[t]; return f"N6PLEXIL{len(n)}{n}E"

class Node:
    """one node of a given type; cond[c] is the id term of its condition c (0 when absent)"""
    def __init__(s, eng, st, ntype, parent=True, name="node", always=()):
        s.eng = eng; s.t = ntype; s.K = const_enums(); s.idx = {k: v for k, v in enum("exec/NodeImpl.hh", "ConditionIndex").items()}
        m = eng.mod; s.off = m.layout["NodeImpl"]
        s.fam = eng.named.get("condfam") or ExprFamily(eng, "Cond"); eng.named["condfam"] = s.fam
        s.reg = Region(name, "obj", vt=eng.vtable(cls(ntype))); s.p = s.reg.ptr()
        s.present = {}; s.cid = {}
        def cond(owner, reg, c, base):
            pres = z3.BoolVal(True) if c in always else eng.sym(f"{owner}_{c}_present", BOOL)
            i = base + CONDS.index(c) + 1
            s.present[(owner, c)] = pres; s.cid[(owner, c)] = z3.If(pres, E.BV(i, 64), E.BV(0, 64)) if c not in always else E.BV(i, 64)
            eng.store(st, Ptr(reg, None, s.off["m_conditions"] + 8*s.idx[c + "Idx"]), Ptr(s.fam.reg, s.cid[(owner, c)], 0), PT)
        for c in CONDS: cond(name, s.reg, c, 0 if name == "node" else 200)
        s.name = name
        s.parent = None
        if parent:
            s.parent = Region("parent", "obj", vt=eng.vtable(cls("List")))
            for c in CONDS[:3]: cond("parent", s.parent, c, 100)
            s.pstate = eng.sym("parent_state", B8)
            eng.store(st, Ptr(s.parent, None, s.off["m_state"]), s.pstate, I8)
        eng.store(st, Ptr(s.reg, None, s.off["m_parent"]), s.parent.ptr() if parent else NULL, PT)
        for f in ("m_localVariables", "m_localMutexes", "m_usingMutexes", "m_timepoints"): eng.store(st, Ptr(s.reg, None, s.off[f]), NULL, PT)
        for f in ("m_nextOutcome", "m_nextFailureType"):
            s.set(st, f, {"m_nextOutcome": s.K["NO_OUTCOME"], "m_nextFailureType": s.K["NO_FAILURE"]}[f])
        s.set(st, "m_nextState", s.K["NO_NODE_STATE"])
        s.outcome = eng.sym(name + "_outcome", B8); s.failure = eng.sym(name + "_failure", B8)
        s.set(st, "m_outcome", s.outcome); s.set(st, "m_failureType", s.failure)
    def set(s, st, f, v, ty=I8): s.eng.store(st, Ptr(s.reg, None, s.off[f]), v if not isinstance(v, int) else E.BV(v, 8*ty.size), ty)
    def get(s, st, f, ty=I8): return s.eng.load1(st, Ptr(s.reg, None, s.off[f]), ty)
    def c(s, name):
        """(present, known, value) of a condition as the node's decisions see it"""
        owner = s.name
        if name.startswith("ancestor"):
            if s.parent is None: return z3.BoolVal(False), z3.BoolVal(False), z3.BoolVal(False)
            owner = "parent"
        i = E.BV((100 if owner == "parent" else 0) + CONDS.index(name) + 1, 64)
        return s.present[(owner, name)], s.fam.known(i), s.fam.b(i)
    def true(s, n): p, k, v = s.c(n); return z3.And(p, k, v)
    def false(s, n): p, k, v = s.c(n); return z3.And(p, k, z3.Not(v))
    def not_true(s, n): p, k, v = s.c(n); return z3.And(p, z3.Not(z3.And(k, v)))
B8 = z3.BitVecSort(8)

# ---- the PLEXIL state transition tables: ordered rules (guard, next state, outcome, failure); no match: no change
def table(n, state):
    """rules for the node's type in a state.  Guards are terms over the conditions."""
    T, F, NT = n.true, n.false, n.not_true
    t = n.t
    always = z3.BoolVal(True)
    par = lambda x: n.pstate == n.K[x]
    if state == "INACTIVE_STATE":
        if n.parent is None: return [(always, "WAITING", None, None)]
        ex = par("EXECUTING_STATE")
        return [(par("FINISHED_STATE"), "FINISHED", "SKIPPED", None),
                (z3.And(ex, T("ancestorExit")), "FINISHED", "SKIPPED", None), (z3.And(ex, F("ancestorInvariant")), "FINISHED", "SKIPPED", None),
                (z3.And(ex, T("ancestorEnd")), "FINISHED", "SKIPPED", None), (ex, "WAITING", None, None)]
    if state == "WAITING_STATE":
        return [(T("ancestorExit"), "FINISHED", "SKIPPED", None), (T("exit"), "FINISHED", "SKIPPED", None), (F("ancestorInvariant"), "FINISHED", "SKIPPED", None),
                (T("ancestorEnd"), "FINISHED", "SKIPPED", None), (T("skip"), "FINISHED", "SKIPPED", None), (NT("start"), None, None, None),
                (NT("pre"), "ITERATION_ENDED", "FAILURE", "PRE_CONDITION_FAILED"), (always, "EXECUTING", None, None)]
    def stop(fin, failing):      # the four ways a running node is stopped
        return [(T("ancestorExit"), fin, "INTERRUPTED", "PARENT_EXITED"), (T("exit"), failing, "INTERRUPTED", "EXITED"),
                (F("ancestorInvariant"), fin, "FAILURE", "PARENT_FAILED"), (F("invariant"), failing, "FAILURE", "INVARIANT_CONDITION_FAILED")]
    done = [(NT("post"), "ITERATION_ENDED", "FAILURE", "POST_CONDITION_FAILED"), (always, "ITERATION_ENDED", "SUCCESS", None)]
    if state == "EXECUTING_STATE":
        if t == "Empty": return stop("FINISHED", "ITERATION_ENDED") + [(NT("end"), None, None, None)] + done
        if t == "Assignment": return [(NT("actionComplete"), None, None, None)] + stop("FAILING", "FAILING") + [(NT("end"), None, None, None)] + done
        if t == "Update": return stop("FAILING", "FAILING") + [(NT("end"), None, None, None)] + done
        return stop("FAILING", "FAILING") + [(NT("end"), None, None, None), (always, "FINISHING", None, None)]
    if state == "FINISHING_STATE":
        if t in ("Empty", "Assignment", "Update"): return None
        return stop("FAILING", "FAILING") + [(NT("actionComplete"), None, None, None)] + done
    if state == "FAILING_STATE":
        if t == "Empty": return None
        w = "abortComplete" if t in ("Command", "Assignment") else "actionComplete"
        par_ = z3.Or(n.failure == n.K["PARENT_FAILED"], n.failure == n.K["PARENT_EXITED"])
        return [(NT(w), None, None, None), (par_, "FINISHED", None, None), (always, "ITERATION_ENDED", None, None)]
    if state == "ITERATION_ENDED_STATE":
        p, k, v = n.c("repeat")
        return [(T("ancestorExit"), "FINISHED", "INTERRUPTED", "PARENT_EXITED"), (F("ancestorInvariant"), "FINISHED", "FAILURE", "PARENT_FAILED"),
                (T("ancestorEnd"), "FINISHED", None, None), (z3.And(p, z3.Not(k)), None, None, None), (T("repeat"), "WAITING", None, None), (always, "FINISHED", None, None)]
    if state == "FINISHED_STATE":
        if n.parent is None: return []
        return [(par("WAITING_STATE"), "INACTIVE", None, None)]
def needs(t):
    """conditions a node of this type always has"""
    if t in ("Assignment",): return ("actionComplete", "abortComplete")
    if t == "Command": return ("actionComplete", "abortComplete")
    if t in ("Update", "List", "Library"): return ("actionComplete",)
    return ()
def successors(t, parent=True):
    """legal (state, next state) pairs of the tables"""
    out = set()
    class X:      # guards are not needed here
        pass
    return out

"""E06: activation counts and change propagation."""
from vf import proof, bytes as B
FILES = ["expr/Propagator.cc", "expr/Notifier.cc"]
F = "notifier.cc"
CONTRACTS = ["Notifier: constructor, isActive, hasListeners, activate, deactivate, addListener, removeListener, publishChange, with any activation count and any number of listeners", "Propagator: addListener, removeListener, notifyChanged, handleChange"]
ASSUMPTIONS = ["std::vector, std::find and std::function behave as the C++ standard says (assumed contracts, std::function by its library code)", "listeners are distinct objects and do not change the listener list while a change is being delivered; fewer than 10^9 listeners", "each step of Propagator's walk (listen to a source of changes, descend into anything else) is proved for an arbitrary subexpression; that an expression's doSubexprs visits all of its subexpressions is assumed"]
def build(P): return proof.build(F, FILES)
def tasks(P): return proof.tasks(F, opts={"*": {"merge": False, "houdini_ms": 20000, "portfolio": 1, "sym_unroll": 0}}, pre={"*": B.install})
def replay(P, failed, errs): return proof.replay(P, F, "expr", failed)
def selfcheck(P): return proof.selfcheck(P, F, "expr")

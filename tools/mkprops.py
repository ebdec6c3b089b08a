#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

X="src/exec/"; E="src/expr/"; V="src/value/"; I="src/intfc/"; A="src/app-framework/"; U="src/utils/"

prop("N01", "Node decisions follow the PLEXIL transition tables for every condition valuation",
 "For every node type, every node state and every true/false/unknown valuation of the node's conditions, the next state, outcome and failure type the executive selects are exactly those of the PLEXIL state transition tables. This includes the priority order (ancestor exit, own exit, ancestor invariant, own invariant, then end/repeat/skip/start/pre/post) and the decision to stay in the current state.",
 ["inputs","configurations"], "all node types x all states x all 3-valued valuations of all (present or absent) conditions x all recorded failure types",
 "the tests run a few dozen plans; the decision is a function of up to eleven three-valued conditions per type and state (hundreds of thousands of valuations), of which unit tests sample a handful",
 [X+"NodeImpl.cc", X+"ListNode.cc", X+"CommandNode.cc", X+"AssignmentNode.cc", X+"UpdateNode.cc", X+"LibraryCallNode.cc"],
 [("getDestState and its per-state helpers", X+"NodeImpl.cc, "+X+"ListNode.cc, "+X+"CommandNode.cc, "+X+"AssignmentNode.cc, "+X+"UpdateNode.cc")],
 [("m_state / m_nextState / m_nextOutcome / m_nextFailureType","current state and pending decision",X+"NodeImpl.hh"),("m_conditions","the node's condition expressions",X+"NodeImpl.hh")],
 ["NodeImpl::getDestState return value and the next state/outcome/failure accessors"])

prop("N02", "Exactly the conditions a node's state depends on are active after every transition",
 "After every legal state transition of a node of any type, the conditions that are active are exactly those the new state's decisions depend on, each activated exactly once on the node's behalf, and a condition that no decision of the new state reads is inactive. Hence activations and deactivations balance over every sequence of transitions, including skips, failures, exits and repeated iterations, and no condition stays active once its node is inactive.",
 ["histories","configurations"], "all node types x all legal (state, next state, failure) steps, hence by induction all transition histories",
 "an activation count that is off by one is invisible in a single run; tests never compare counts, and balance must hold along every path through the state machine",
 [X+"NodeImpl.cc", X+"ListNode.cc", X+"CommandNode.cc", X+"AssignmentNode.cc", X+"UpdateNode.cc"],
 [("transitionFrom*/transitionTo* per state", X+"NodeImpl.cc and the node type files")],
 [("per-condition activation count","number of unmatched activations made by this node",E+"Notifier.hh")],
 ["NodeImpl::transition"])

prop("N03", "A transition performs the node's action exactly when the tables say so",
 "A node performs its action (issues its command or update, schedules its assignment) once on each entry to executing and at no other transition; it requests an abort once on each entry to failing for commands and assignments, never for an action it did not start; and it resets outcome, failure type and local variables only when a new iteration or activation begins. Every transition stores the decided state, outcome and failure type.",
 ["histories","configurations"], "all node types x all legal transitions, including those with failed preconditions and unknown conditions",
 "tests observe the final outcome of sample plans; a duplicated, missing or late action on one of the many legal transitions of one node type goes unseen",
 [X+"NodeImpl.cc", X+"CommandNode.cc", X+"AssignmentNode.cc", X+"UpdateNode.cc", X+"LibraryCallNode.cc"],
 [("specializedHandleExecution, abort, specializedReset, transition", X+"*.cc")],
 None, ["calls made to the executive (enqueue of commands, updates, assignments, aborts) during NodeImpl::transition"])

prop("N04", "Each state change records its end and start time and state predicates agree with the state",
 "Whenever a node changes state, the end time of the old state and the start time of the new state are recorded as known and equal to the transition time, all other recorded times are left alone, and returning to inactive clears them all. The predicates a plan can test on a node (inactive, waiting, executing, iteration ended, finished, succeeded, failed, skipped, postcondition failed, no child failed) are always equal to their definition in terms of state, outcome and failure type. The exit and end conditions a list passes on to its descendants are its own or those of its ancestors, the invariant its own and those of its ancestors; a list without an end condition of its own ends when all its children have finished, and its action is complete when each child waits or has finished.",
 ["inputs","histories"], "all states, outcomes and failure types, any set of recorded timepoints, any number of children",
 "tests look at a few timepoints and a few predicate values; any number of timepoints and children must be handled",
 [X+"NodeImpl.cc", X+"NodeTimepointValue.cc", X+"NodeOperators.cc"],
 [("NodeImpl::logTransition and node operators", X+"NodeImpl.cc, "+X+"NodeOperators.cc")])

prop("E01", "Boolean connectives implement three-valued logic for any number of operands",
 "AND, OR, XOR and NOT over operands that are true, false or unknown return exactly the three-valued logic result: AND is false if any operand is false, unknown if none is false and some is unknown; OR is dual; XOR and NOT are unknown if an operand is unknown. The result does not depend on the number or order of operands or on whether the value is obtained through the one, two or many operand form.",
 ["inputs","configurations"], "every operand count and every three-valued operand vector",
 "tests enumerate two- and a few three-operand cases; the property is over unbounded operand lists with unknowns in any position",
 [E+"BooleanOperators.cc", E+"Function.cc"],
 [("BooleanAnd/BooleanOr/BooleanXor/BooleanNot", E+"BooleanOperators.cc")], None, ["operator() result and known flag"])

prop("E02", "Arithmetic never traps, and is unknown exactly when an operand or the result is undefined",
 "Addition, subtraction, multiplication, division, modulo, minimum, maximum, absolute value and square root on integers and reals return unknown if any operand is unknown or the operation is undefined (zero divisor, negative square root), and otherwise the defined result, for any number of operands. No operand values whatever make evaluation terminate the executive.",
 ["inputs","configurations"], "every operand count, every known/unknown pattern, every 32-bit integer and every double",
 "tests use a few small numbers; boundary values such as the most negative integer divided by minus one are outside them",
 [E+"ArithmeticOperators.cc"], [("arithmetic operator classes", E+"ArithmeticOperators.cc")])

prop("E03", "Equality, ordering and known tests treat unknown operands consistently",
 "A comparison of two operands is unknown exactly when either operand is unknown and otherwise equals the mathematical comparison of the two values, so that equal and not-equal are complementary and greater/less/at-least/at-most agree with each other; the known test never returns unknown and is true exactly for known operands.",
 ["inputs"], "all operand types and all value pairs including unknowns",
 "tests compare chosen constants of each type; pairs with one unknown side or boundary values are sampled",
 [E+"Comparisons.cc"], [("IsKnown, Equal, NotEqual, GreaterThan, LessThan and friends", E+"Comparisons.cc")])

prop("E04", "Real to integer conversions are exact or unknown, never out of range",
 "Ceiling, floor, round, truncate and exact conversion of a real yield the mathematically defined integer when it fits in the integer type and unknown otherwise (unknown operand, out of range, not a number, or not integral for exact conversion). No real operand produces a wrapped or undefined integer.",
 ["inputs"], "all doubles including infinities, NaN and values adjacent to the integer range limits",
 "tests try a handful of reals; the hazard is at range limits and special values",
 [E+"ConversionOperators.cc"], [("conversion operator classes", E+"ConversionOperators.cc")])

prop("E05", "A variable always holds what was last assigned, and a retracted assignment restores it",
 "An active plan variable reads exactly the last value assigned to it (or unknown), starts from its initial value on each activation, reads as unknown while inactive, and tells its listeners whenever its value changes. Saving then restoring it brings back the saved value and known status exactly, whatever was assigned in between.",
 ["histories","inputs"], "all interleavings of activate, assign, set-unknown, save, restore and deactivate, all value types",
 "tests perform short fixed scripts per type; the property is over operation sequences, particularly with unknown values",
 [E+"UserVariable.cc", E+"UserVariable.hh"], [("UserVariable", E+"UserVariable.cc")])

prop("E06", "Expression activation is counted and changes reach every listener of an active expression",
 "An expression is active exactly while its activations outnumber its deactivations; only the first activation and last deactivation take effect, and deactivating an inactive expression is an error. While active, a published change is delivered exactly once to each registered listener, and none is delivered while inactive; adding a listener twice registers it once and removing it stops delivery.",
 ["histories"], "all sequences of activate, deactivate, add listener, remove listener and publish, any number of listeners",
 "tests use one or two listeners and nesting depth one",
 [E+"Notifier.cc", E+"Notifier.hh", E+"Propagator.cc"], [("Notifier activation count and listener vector", E+"Notifier.cc")])

prop("V01", "Plan values have a consistent equality and strict ordering, and copies are equal",
 "Equality of plan values is reflexive, symmetric and distinguishes values with different contents or types (integers and equal-valued reals being equal); the ordering is irreflexive, asymmetric and transitive and agrees with equality. Copying or assigning a value of any type, including unknowns, yields an equal value of the same type.",
 ["inputs"], "all pairs and triples of values over all value types including unknown",
 "tests compare selected constants; ordering laws quantify over all triples and mixed types",
 [V+"Value.cc", V+"Value.hh"], [("Value comparison and copy operations", V+"Value.cc")])

prop("V02", "Serializing any value and reading it back yields the same value in the declared size",
 "For every serializable value (booleans, integers, reals, strings, arrays of these, command handles) the serial form has exactly the announced size, reading it back consumes exactly that many bytes and yields an equal value, and data tagged with another type is rejected.",
 ["inputs"], "all values: every integer, every double bit pattern, strings and arrays of any length within the format's limits",
 "tests round-trip short strings and arrays of a few elements; size bytes above 127 never occur in them",
 [V+"ValueType.cc", V+"Value.cc", V+"ArrayImpl.cc", V+"Array.cc"], [("serialize/deserialize/serialSize", V+"ValueType.cc, "+V+"ArrayImpl.cc")])

prop("V03", "Array element access is bounds-checked and touches only the addressed element",
 "Reading an array element returns the last value stored there, or unknown if it was never stored, was set unknown or the index is outside the array. Storing or clearing an element changes that element only and never writes outside the array; resizing keeps the elements that remain; two arrays are equal exactly when sizes, known flags and known elements agree.",
 ["inputs","histories"], "all array sizes, indices and element types",
 "tests use arrays of fewer than ten elements with in-range indices",
 [V+"Array.cc", V+"ArrayImpl.cc"], [("Array known-flags vector and contents vector", V+"Array.cc, "+V+"ArrayImpl.cc")])

prop("X01", "A mutex or reserved variable never has two holders and is handed on when released",
 "A mutex or assignable variable is held by at most one node at a time; a node that cannot get it is remembered as a waiter; only the holder can release it; and on release every waiting node is told so it can try again. A node that finishes, fails, exits or ends its iteration no longer holds anything it acquired for that execution.",
 ["histories","schedules"], "all sequences of acquire, release, and waiter changes by any number of nodes; all ways a node can end",
 "tests exercise two or three nodes and only successful completion",
 [X+"Mutex.cc", E+"Reservable.cc", X+"NodeImpl.cc", X+"AssignmentNode.cc"], [("Reservable holder/waiter bookkeeping", E+"Reservable.cc"),("acquire and release at transitions", X+"NodeImpl.cc")])

prop("X02", "No node with a pending change is lost, and queue membership matches its recorded status",
 "A node whose inputs change is queued for re-evaluation exactly once, whatever queue it is in at that moment; its recorded queue status always agrees with the queue that holds it; and a node waiting for a resource is re-examined when the resource is freed. No notification arriving in any queue status is dropped or reported as an internal error.",
 ["histories","schedules"], "all queue statuses and all sequences of notifications and queue moves",
 "a lost wake-up needs a change to arrive while the node sits in one particular queue; sample plans rarely reach it",
 [X+"PlexilExec.cc", X+"NodeImpl.cc"], [("queue status field and queue operations", X+"PlexilExec.cc, "+X+"NodeImpl.cc")])

prop("X03", "The executive's intrusive queues preserve order and content under every operation",
 "First-in-first-out queues return items in insertion order, priority queues in priority order with first-in-first-out among equals; every operation keeps the queue's front, tail, length and links consistent, removal takes out exactly the given item, and the queue is empty exactly when all items were removed.",
 ["histories"], "all queue contents of any length and all operations on them",
 "tests push and pop a few items; insertion after the tail, removal in the middle and equal priorities at any length are not covered",
 [U+"LinkedQueue.hh"], [("LinkedQueue and PriorityQueue templates", U+"LinkedQueue.hh")])

prop("I01", "External events are delivered exactly once, in order, with their content intact",
 "Every event put in the input queue is taken out exactly once, in the order in which events were put in, carrying the same kind, target and value it was prepared with; released entries are reusable and flushing discards all pending events and leaves a usable empty queue.",
 ["histories","inputs"], "all sequences of allocate, put, get, release and flush; all event kinds",
 "tests queue a few events of some kinds; recycled entries and flush are not exercised",
 [A+"SimpleInputQueue.cc", A+"SerializedInputQueue.cc", I+"QueueEntry.cc"], [("linked input queues and queue entry initialisers", A+"SerializedInputQueue.cc, "+I+"QueueEntry.cc")])

prop("I02", "A cached world state changes and notifies exactly when the new value differs",
 "Updating a cached external state stores the new value, known flag and time stamp and reports a change exactly when known status or value differs from before; a value of the wrong type is reported as an error or ignored, never misread; two cached values compare equal exactly when both are unknown or both are known with equal values. Every lookup registered with the state is told of a change, and of nothing else, and the reporting thresholds asked of the outside world are the narrowest any registered lookup needs.",
 ["inputs","histories"], "all value types, all old and new values including unknown",
 "tests update a couple of states with a couple of values",
 [I+"CachedValueImpl.cc", I+"CachedValueImpl.hh"], [("CachedValueImpl update/setUnknown/operator==", I+"CachedValueImpl.cc")])

prop("I03", "A change lookup reports every move past its tolerance and none within it",
 "A lookup with a tolerance reports a new value whenever the current value reaches the last reported value plus or minus the tolerance, whenever the value becomes known or unknown, and whenever the state it looks up changes; it does not report a known value strictly within the tolerance of the last reported one (beyond rounding and the limits of the type), and keeps showing the last reported value. A lookup is registered with exactly the state its name and parameters denote, while it is active and they are known, and shows that state's value; the thresholds it asks for are those of the value last reported.",
 ["inputs","histories"], "all integer and real values, tolerances (including negative or unknown) and known/unknown sequences",
 "tests use a few monotone sequences of values with one tolerance",
 [I+"Lookup.cc"], [("threshold cache of LookupOnChange", I+"Lookup.cc")])

prop("I04", "Resource arbitration never over-commits a resource and refuses only what does not fit",
 "For commands that consume resources, the total granted and not yet released never exceeds the maximum of any resource; commands are considered in priority order, a command is accepted exactly when all of its requests fit in what is left, and a refused command leaves allocations unchanged. Releasing a command returns exactly the releasable amounts it was granted.",
 ["inputs","histories"], "all sets of commands, priorities, requests and resource hierarchies",
 "tests arbitrate a few fixed command sets",
 [I+"ResourceArbiterInterface.cc"], [("optimalResourceArbitration and releaseResourcesForCommand", I+"ResourceArbiterInterface.cc")])

prop("I05", "Command status and return values reach only the live command and are well-formed",
 "A command accepts acknowledgements, return values and abort acknowledgements only while it is active, ignores late ones, rejects invalid handle values, and publishes each accepted handle; each activation starts with no handle and no abort acknowledgement, and deactivation releases its resources unless it was denied.",
 ["histories","inputs"], "all sequences of activate, handle, return, abort-acknowledge and deactivate",
 "late or duplicate responses after an abort are timing dependent and untested",
 [I+"CommandImpl.cc"], [("CommandImpl", I+"CommandImpl.cc")])

prop("T01", "Time arithmetic keeps seconds and fractions normalised and consistent",
 "Sums and differences of normalised times are normalised (fraction smaller than a second in magnitude, sign not opposing the seconds) and exact; time comparison operators agree with the represented instants; conversion from a real number of seconds yields a normalised time within one tick of it, and leaves nothing undefined for out-of-range input.",
 ["inputs"], "all normalised second/fraction pairs and all doubles",
 "tests use a few values, none with mixed signs at the carry boundary",
 [U+"timeval-utils.cc", U+"timespec-utils.cc"], [("normalisation, arithmetic, comparison and conversion", U+"timeval-utils.cc, "+U+"timespec-utils.cc")])

prop("U01", "Numbers sent in UDP messages are encoded in network order and decode to the same value",
 "Encoding a 16- or 32-bit integer or a 32-bit float writes exactly its size in big-endian order at the given offset and nothing else, and decoding at that offset returns the same value bit for bit, for every value and offset.",
 ["inputs"], "all 16- and 32-bit values, all offsets",
 "the adapter test sends a few values at fixed offsets",
 ["src/interfaces/UdpAdapter/udp-utils.cc"], [("encode_*/decode_*", "src/interfaces/UdpAdapter/udp-utils.cc")])

prop("S01", "Sorted maps and sets used for symbol lookup find exactly what was inserted",
 "A sorted map or set finds a key exactly when it was inserted, returns the value stored for it, refuses duplicates, and stays sorted without disturbing other entries under every insertion, for any number of entries.",
 ["histories","inputs"], "any number of entries, any insertion order",
 "tests insert a few keys",
 [U+"SimpleMap.hh", U+"SimpleSet.hh"], [("SimpleMap/SimpleSet insertion and binary search", U+"SimpleMap.hh")])

prop("P01", "The plan loaded is the plan written",
 "Loading an XML plan builds exactly the nodes, conditions, variables and expressions the document describes, resolves every name to the declaration in scope, and rejects every malformed document with a parse error rather than a crash.",
 ["inputs","programs"], "all XML plan documents", "tests load valid sample plans and a few malformed fragments",
 ["src/xml-parser/parsePlan.cc", "src/xml-parser/parseNode.cc"], [("XML plan parser", "src/xml-parser")])
prop("L01", "Every external event eventually causes a macro step and the executive then comes to rest",
 "Each event received from the outside wakes the executive, which steps until no node can change and then waits; shutdown always terminates all threads.",
 ["schedules"], "all thread schedules and event timings", "tests run one schedule at a time", [A+"ExecApplication.cc"], [("event loop", A+"ExecApplication.cc")])
prop("H01", "A plan's execution is determined by its inputs",
 "Running the same plan against the same sequence of external values and replies yields the same sequence of node transitions, commands and assignments.",
 ["programs","histories"], "all plans and input histories", "regression tests compare sample plans with recorded results", [X+"PlexilExec.cc"], [("macro and micro steps", X+"PlexilExec.cc")])
prop("J01", "The plan compilers preserve the meaning of the source plan",
 "The core plan produced from a source plan behaves as the source language definition says, and plans with static errors are rejected.",
 ["programs"], "all source plans", "tests translate sample plans and compare with stored output", ["compilers/plexil"], [("translator", "compilers/plexil")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))

"""Replay of expression properties on the real code: lines for drivers/expr.cc and an independent Python oracle."""
import itertools, math, random, struct
from . import build
MIN, MAX = -2**31, 2**31 - 1
def wrap(x): return (x + 2**31) % 2**32 - 2**31
def bits(d): return struct.unpack("<Q", struct.pack("<d", d))[0]
def dbl(b): return struct.unpack("<d", struct.pack("<Q", b))[0]
def enc(v):
    if v is None: return "iU"
    t, x = v
    if x is None: return {"b": "bU", "f": "fU", "i": "iU", "d": "dU", "s": "sU"}[t]
    if t == "b": return "b%d" % x
    if t == "i": return "i%d" % x
    if t == "d": return "d%x" % bits(x)
    return "s" + x.encode("latin1").hex()
INTS = [0, 1, -1, 2, -2, 7, -7, 100, MIN, MIN + 1, MAX, MAX - 1, 65536, 46341]
REALS = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, -1.5, 2.5, 2.0**31, 2.0**31 - 1, 2.0**31 - 0.5, -2.0**31, -2.0**31 - 1, -2.0**31 - 0.5, -2.0**31 + 0.5, 1e300, -1e300,
         float("inf"), float("-inf"), float("nan"), 3.7, -3.7, 0.49999999999999994, 2.0**52 + 1, 5e-324, 1e10, -4.0]
STRS = ["", "a", "b", "ab", "abc", "B", "\xff"]

def fsub(a, b): return a - b
def fdiv(a, b):
    return a / b
def fmod(a, b):
    if math.isinf(a) or math.isnan(a) or math.isnan(b): return float("nan")
    return math.fmod(a, b)
def fold(op, xs, I):
    w = wrap if I else (lambda x: x)
    if op == "Addition":
        a = 0 if I else 0.0
        if len(xs) == 1: return xs[0]
        if len(xs) == 2: return w(xs[0] + xs[1])
        for x in xs: a = w(a + x)
        return a
    a = xs[0]
    if op == "Subtraction" and len(xs) == 1: return w(-a)
    for x in xs[1:]:
        if op == "Subtraction": a = w(a - x)
        elif op == "Multiplication": a = w(a * x)
        elif op == "Minimum": a = x if x < a else a
        elif op == "Maximum": a = x if a < x else a
    return a
def tdiv(a, b): return abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
def oracle(op, T, vs):
    """-> None (unknown) or (type, value)"""
    ks = [v is not None and v[1] is not None for v in vs]; xs = [v[1] for v in vs]
    if op == "IsKnown": return ("b", int(ks[0]))
    if op in ("And", "Or"):
        z = 0 if op == "And" else 1
        if any(k and x == z for k, x in zip(ks, xs)): return ("b", z)
        return ("b", 1 - z) if all(ks) else None
    if not all(ks): return None
    if op == "Xor": return ("b", sum(xs) % 2)
    if op == "Not": return ("b", 1 - xs[0])
    if op in ("Equal", "NotEqual"): return ("b", int((xs[0] == xs[1]) == (op == "Equal")))
    if op in ("GreaterThan", "GreaterEqual", "LessThan", "LessEqual"):
        a, b = xs
        return ("b", int({"GreaterThan": a > b, "GreaterEqual": a >= b, "LessThan": a < b, "LessEqual": a <= b}[op]))
    if op in ("Ceiling", "Floor", "Round", "Truncate", "RealToInteger"):
        x = float(xs[0])
        if math.isnan(x) or math.isinf(x): return None if T == "i" else ("d", x)
        if op == "RealToInteger": r = x
        elif op == "Round":
            r = math.floor(abs(x)); r = r + 1 if abs(x) - r >= 0.5 else r; r = math.copysign(r, x)
        else: r = {"Ceiling": math.ceil, "Floor": math.floor, "Truncate": math.trunc}[op](x)
        if T == "d": return ("d", float(r))
        return ("i", int(r)) if r == int(r) and MIN <= r <= MAX else None
    I = T == "i"
    if op == "SquareRoot":
        if xs[0] < 0: return None
        return ("d", math.sqrt(xs[0]) if not math.isnan(xs[0]) else xs[0])
    if op == "AbsoluteValue": return (T, wrap(abs(xs[0])) if I else (-xs[0] if xs[0] < 0 else xs[0]))
    if op == "Division":
        if xs[1] == 0: return None
        if I: return None if (xs[0] == MIN and xs[1] == -1) else ("i", wrap(tdiv(*xs)))
        return ("d", fdiv(*xs))
    if op == "Modulo":
        if xs[1] == 0: return None
        return ("i", xs[0] - tdiv(*xs) * xs[1]) if I else ("d", fmod(*xs))
    return (T, fold(op, xs, I))
def agree(want, got, rt):
    if got.startswith(("CRASH", "ERR", "NOOP", "DIED", "TIMEOUT")): return False
    if want is None: return got == "U"
    if rt == "k": return got == "T 1"
    if not got.startswith("T "): return False
    if want[0] in "bi" and rt in "bi": return int(got[2:]) == want[1]
    if rt == "v" and want[0] in "bi": return got[2:] == str(want[1])
    g = dbl(int(got[2:], 16)); w = float(want[1])
    return (math.isnan(g) and math.isnan(w)) or g == w
def line(op, T, rt, vs):
    key = op + ("." + T if T and op not in ("And", "Or", "Xor", "Not", "IsKnown", "Equal", "NotEqual") else "")
    return " ".join([key, rt] + [enc(v) for v in vs])
def cases(ops, seed, forms=(1, 2, 3, 4, 5, 6, 7)):
    rnd = random.Random(seed)
    for op, T in ops:
        if op in ("And", "Or", "Xor"):
            dom = [("b", 0), ("b", 1), ("b", None), ("f", None)]
            for n in forms:
                for vs in (itertools.product(dom, repeat=n) if n <= 5 else [[rnd.choice(dom) for _ in range(n)] for _ in range(400)]): yield op, T, list(vs)
        elif op == "Not":
            for v in [("b", 0), ("b", 1), ("b", None), ("f", None)]: yield op, T, [v]
        elif op == "IsKnown":
            for v in [("b", 0), ("b", None), ("i", 3), ("i", None), ("d", 0.5), ("d", None), ("s", ""), ("s", None)]: yield op, T, [v]
        else:
            dom = {"i": INTS, "d": REALS, "s": STRS}[T]; dv = [(T, x) for x in dom] + [(T, None)]
            if T == "d": dv += [("i", x) for x in (0, 3, MIN, MAX, None)]
            if op in ("AbsoluteValue", "SquareRoot"): ns = (1,)
            elif op in ("Ceiling", "Floor", "Round", "Truncate", "RealToInteger"):
                ns = (1,); dv = [("d", x) for x in REALS] + [("d", None), ("i", 5), ("i", None)] + [("d", dbl(rnd.getrandbits(64))) for _ in range(200)] + [("d", rnd.uniform(-2.0**32, 2.0**32)) for _ in range(300)]
            elif op in ("Division", "Modulo") or op in ("Equal", "NotEqual", "GreaterThan", "GreaterEqual", "LessThan", "LessEqual"): ns = (2,)
            elif op == "Subtraction": ns = forms
            else: ns = forms
            for n in ns:
                allv = list(itertools.product(dv, repeat=n)) if len(dv)**n <= 3000 else None
                for vs in (allv if allv is not None else [[rnd.choice(dv) for _ in range(n)] for _ in range(1500)]): yield op, T, list(vs)
            if op in ("Equal", "NotEqual") and T == "i":
                for a in (("i", 3), ("i", MIN)):
                    for b in (("d", 3.0), ("d", 3.5), ("d", -2.0**31), ("d", None)): yield op, T, [a, b]; yield op, T, [b, a]
RT = {"b": "bvk", "i": "idvk", "d": "dvk"}
def result_type(op, T):
    if op in ("And", "Or", "Xor", "Not", "IsKnown", "Equal", "NotEqual", "GreaterThan", "GreaterEqual", "LessThan", "LessEqual"): return "b"
    return T
def replay(ops, seed, cex=(), rts=None):
    """run the cases on the real code and report the ones the oracle rejects; cex: [(op, T, operands)] from the verifier"""
    rows = [(op, T, vs, rt) for op, T, vs in list(cex) + list(cases(ops, seed)) for rt in (rts or RT)[result_type(op, T)]]
    lines = [line(op, T, rt, vs) for op, T, vs, rt in rows]
    out = build.drive("expr.cc", lines)
    bad = []
    skip = lambda op, T, vs: op in ("Minimum", "Maximum") and any(v and isinstance(v[1], float) and math.isnan(v[1]) for v in vs)   # unordered: not specified
    for (op, T, vs, rt), l, o in zip(rows, lines, out):
        w = oracle(op, T, vs)
        if not agree(w, o, rt) and (not skip(op, T, vs) or o.startswith(("CRASH", "ERR"))): bad.append({"input": l, "expected": "unknown" if w is None else str(w[1]), "got": o})
    if len(out) < len(rows): bad.append({"input": lines[len(out)], "expected": "an answer", "got": "the evaluation ended the process"})
    bad.sort(key=lambda b: len(b["input"]))
    return {"confirmed": bad[:10], "evaluations": len(rows), "note": f"{len(rows)} evaluations of the real operators, {len(bad)} differ from the oracle (vf/rexpr.py)",
            "how": "pipe 'input' into the driver built from drivers/expr.cc (vf.build.drive)"}
def from_models(failed):
    """operand lists of the verifier's counterexamples"""
    out = []
    for t, o in failed:
        c = o.get("cex")
        if not c: continue
        T = c["T"]
        vs = []
        for a in c["args"]:
            k = a["known"]
            vs.append({"b": ("b", int(a["b"]) if k else None), "i": ("i", a["i"] if k else None), "d": ("d", dbl(a["d"]) if k else None), "s": ("s", None if not k else "x")}[T])
        if T != "s": out.append((c["op"], c["T"], vs))
    return out

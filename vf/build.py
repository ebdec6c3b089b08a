"""Compile the current /repo sources to LLVM bitcode (for the verifier) and to native drivers (for replay)."""
import hashlib, os, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
from .llvm import Module

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = REPO + "/src"
INCDIRS = ["utils", "value", "expr", "intfc", "exec", "app-framework", "interfaces", "interfaces/UdpAdapter",
           "xml-parser", "third-party/pugixml/src"]
CLANG = "clang++-18"
_tmp = None

def scratch():
    """cache for build products, keyed by content; removed products are rebuilt"""
    global _tmp
    if _tmp is None:
        _tmp = os.environ.get("VERIF_CACHE") or os.path.join(HERE, ".cache")
        os.makedirs(_tmp, exist_ok=True)
    return _tmp
def cfgdir():
    d = os.path.join(scratch(), "cfg"); os.makedirs(d, exist_ok=True)
    src = REPO + "/_build/cpp/plexil-config.h"
    if not os.path.exists(src): src = os.path.join(HERE, "tools", "plexil-config.h")
    txt = open(src).read(); dst = d + "/plexil-config.h"
    if not os.path.exists(dst) or open(dst).read() != txt:
        with open(dst + ".%d" % os.getpid(), "w") as f: f.write(txt)
        os.replace(dst + ".%d" % os.getpid(), dst)
    return d
def flags(debug=False):
    return ["-std=gnu++14", "-DNDEBUG", *([] if debug else ["-DNO_DEBUG_MESSAGE_SUPPORT"]), "-include", "cstdint", "-include", "cstring", "-I" + cfgdir()] + ["-I%s/%s" % (SRC, d) for d in INCDIRS]

_hh = None
def headers_hash():
    global _hh
    if _hh is None:
        h = hashlib.sha256()
        for d, ds, fs in os.walk(SRC):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hh", ".h", ".hpp", ".def")):
                    p = os.path.join(d, f); h.update(p[len(SRC):].encode()); h.update(open(p, "rb").read())
        h.update(" ".join(flags()).encode())
        _hh = h.hexdigest()
    return _hh
def _key(*parts):
    h = hashlib.sha256(headers_hash().encode())
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:32]

def included(src):
    """contents of the implementation files a source text includes (headers are in the key already)"""
    out = b""
    for n in re.findall(rb'^\s*#\s*include\s+"([^"]+\.cc?)"', src, re.M):
        n = n.decode()
        for d in INCDIRS:
            q = os.path.join(SRC, d, n)
            if os.path.exists(q): out += q.encode() + open(q, "rb").read()
    return out
class BuildError(Exception): pass
def _run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError(" ".join(cmd) + "\n" + r.stdout + r.stderr[-4000:])
    return r

def bitcode(path, text=None, opts=()):
    src = open(path, "rb").read() if text is None else text.encode()
    k = _key(b"bc2", path, src, included(src), " ".join(opts))
    out = os.path.join(scratch(), k + ".bc")
    if os.path.exists(out): return out
    tmp = out + ".%d" % os.getpid()
    if text is not None:
        path = tmp + ".cc"; open(path, "w").write(text)
    try:
        _run([CLANG] + flags() + ["-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-gline-tables-only", "-w", "-fno-access-control",
              "-fno-threadsafe-statics", *opts, "-emit-llvm", "-c", path, "-o", tmp + ".a"])
        _run(["opt-18", "-passes=sroa,simplifycfg", tmp + ".a", "-o", tmp])
        os.replace(tmp, out)
    finally:
        for x in (tmp + ".a", tmp) + ((tmp + ".cc",) if text is not None else ()):
            if os.path.exists(x): os.remove(x)
    return out

class Layout(dict): pass

def module(files, harness=None, layout=None, includes=()):
    """files: paths under /repo/src; harness: C++ text linked in (instantiations only); layout: {class: [members]}"""
    jobs = [(SRC + "/" + f, None) for f in files]
    tab = []
    txt = ""
    if harness: jobs.append(("harness.cc", harness))
    if layout:
        inc = "".join('#include "%s"\n' % i for i in includes)
        ents = []
        for c, ms in layout.items():
            tab.append((c, None)); ents.append("sizeof(%s)" % c)
            for m in ms: tab.append((c, m)); ents.append("__builtin_offsetof(%s, %s)" % (c, m))
        txt = "#include <cstddef>\n" + inc + "using namespace PLEXIL;\nextern \"C\" { extern unsigned long const vf_layout_table[]; unsigned long const vf_layout_table[] = {" + ",\n".join(ents) + "}; }\n"
        jobs.append(("layout.cc", txt))
    headers_hash()
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(lambda j: bitcode(*j), jobs))
    k = _key("link", *[os.path.basename(b) for b in bcs]); out = os.path.join(scratch(), k + ".bc")
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        _run(["llvm-link-18", *bcs, "-o", tmp]); os.replace(tmp, out)
    m = Module(out)
    m.layout = {}; m.sizeof = {}
    if layout:
        from . import llvm as L
        c = m.const(L.Init(m.globals["vf_layout_table"]))
        vals = [e.v for e in c.v] if c.k == 'agg' else [0]*len(tab)
        for (cl, me), v in zip(tab, vals):
            if me is None: m.sizeof[cl] = v
            else: m.layout.setdefault(cl, {})[me] = v
    return m

def native_obj(path, text=None, opts=()):
    src = open(path, "rb").read() if text is None else text.encode()
    k = _key(b"obj2", path, src, included(src), " ".join(opts))
    out = os.path.join(scratch(), k + ".o")
    if os.path.exists(out): return out
    tmp = out + ".%d" % os.getpid()
    if text is not None:
        path = tmp + ".cc"; open(path, "w").write(text)
    try:
        if path.endswith(".c"): _run(["gcc", "-I" + cfgdir()] + ["-I%s/%s" % (SRC, d) for d in INCDIRS] + ["-O1", "-w", "-c", path, "-o", tmp])
        else: _run(["g++"] + flags(True) + ["-O1", "-g1", "-w", "-fPIC", "-fno-access-control", "-fpermissive", *opts, "-c", path, "-o", tmp])
        os.replace(tmp, out)
    finally:
        for x in (tmp,) + ((tmp + ".cc",) if text is not None else ()):
            if os.path.exists(x): os.remove(x)
    return out

LAYERS = ["utils", "value", "expr", "intfc", "exec"]
def layer(top):
    """all sources of a layer and of the layers below it"""
    out = []
    for d in LAYERS[:LAYERS.index(top) + 1]:
        out += [d + "/" + f for f in sorted(os.listdir(SRC + "/" + d)) if f.endswith((".cc", ".c")) and not f.startswith("JNI")]
    return out
def native(driver_text, files, opts=(), libs=()):
    """build a replay driver against the given /repo sources (or a whole layer); returns the executable's path"""
    if isinstance(files, str): files = layer(files)
    headers_hash()
    k = _key("exe", driver_text, included(driver_text.encode()), *[f for f in files], *[open(SRC + "/" + f, "rb").read() for f in files], *opts, *libs)
    exe = os.path.join(scratch(), k + ".exe")
    if os.path.exists(exe): return exe
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda f: native_obj(SRC + "/" + f, opts=opts) if f else native_obj("driver.cc", driver_text, opts=opts), [""] + list(files)))
    tmp = exe + ".%d" % os.getpid()
    _run(["g++", *objs, "-o", tmp, "-lpthread", "-ldl", *opts, *libs]); os.replace(tmp, exe)
    return exe
def drive(driver, lines, layer_="expr", timeout=120, opts=(), extra=()):
    """run a replay driver on input lines; one answer line per input line"""
    exe = native(open(os.path.join(HERE, "drivers", driver)).read(), layer(layer_) + list(extra), opts=opts)
    try: r = subprocess.run([exe], input="\n".join(lines) + "\n", capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        o = (x.stdout or b"").decode().split("\n"); return o + ["TIMEOUT"]
    out = r.stdout.split("\n")
    if out and out[-1] == "": out.pop()
    if r.returncode and len(out) < len(lines): out.append(f"DIED {r.returncode} {r.stderr[-200:]}")
    return out

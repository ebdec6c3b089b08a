"""Lazy reader of LLVM-18 bitcode through the LLVM-C API (ctypes).

Functions are translated on first use into small Python objects; nothing of the
program text is dropped here: every instruction of every function that the
symbolic executor reaches comes from the bitcode clang produced from /repo."""
import ctypes as C, subprocess, os

_L = C.CDLL("/usr/lib/llvm-18/lib/libLLVM.so.1") if os.path.exists("/usr/lib/llvm-18/lib/libLLVM.so.1") else C.CDLL("libLLVM-18.so.1")
VP = C.c_void_p
def _f(name, res, *args):
    f = getattr(_L, name); f.restype = res; f.argtypes = list(args); return f
CreateMB = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(VP), C.POINTER(C.c_char_p))
ContextCreate = _f("LLVMContextCreate", VP)
ParseBC = _f("LLVMParseBitcodeInContext2", C.c_int, VP, VP, C.POINTER(VP))
FirstFn = _f("LLVMGetFirstFunction", VP, VP); NextFn = _f("LLVMGetNextFunction", VP, VP)
FirstGV = _f("LLVMGetFirstGlobal", VP, VP); NextGV = _f("LLVMGetNextGlobal", VP, VP)
FirstAlias = _f("LLVMGetFirstGlobalAlias", VP, VP); NextAlias = _f("LLVMGetNextGlobalAlias", VP, VP)
Aliasee = _f("LLVMAliasGetAliasee", VP, VP)
Name2 = _f("LLVMGetValueName2", C.c_void_p, VP, C.POINTER(C.c_size_t))
IsDecl = _f("LLVMIsDeclaration", C.c_int, VP)
FirstBB = _f("LLVMGetFirstBasicBlock", VP, VP); NextBB = _f("LLVMGetNextBasicBlock", VP, VP)
BBName = _f("LLVMGetBasicBlockName", C.c_char_p, VP)
FirstI = _f("LLVMGetFirstInstruction", VP, VP); NextI = _f("LLVMGetNextInstruction", VP, VP)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, VP)
NumOps = _f("LLVMGetNumOperands", C.c_int, VP); Operand = _f("LLVMGetOperand", VP, VP, C.c_uint)
TypeOf = _f("LLVMTypeOf", VP, VP); TypeKind = _f("LLVMGetTypeKind", C.c_int, VP)
IntWidth = _f("LLVMGetIntTypeWidth", C.c_uint, VP)
ValueKind = _f("LLVMGetValueKind", C.c_int, VP)
IntZ = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, VP)
RealD = _f("LLVMConstRealGetDouble", C.c_double, VP, C.POINTER(C.c_int))
ICmpP = _f("LLVMGetICmpPredicate", C.c_int, VP); FCmpP = _f("LLVMGetFCmpPredicate", C.c_int, VP)
CountInc = _f("LLVMCountIncoming", C.c_uint, VP)
IncV = _f("LLVMGetIncomingValue", VP, VP, C.c_uint); IncB = _f("LLVMGetIncomingBlock", VP, VP, C.c_uint)
NumSucc = _f("LLVMGetNumSuccessors", C.c_uint, VP); Succ = _f("LLVMGetSuccessor", VP, VP, C.c_uint)
IsCond = _f("LLVMIsConditional", C.c_int, VP); Condition = _f("LLVMGetCondition", VP, VP)
CalledV = _f("LLVMGetCalledValue", VP, VP); CalledFT = _f("LLVMGetCalledFunctionType", VP, VP)
NumArgs = _f("LLVMGetNumArgOperands", C.c_uint, VP)
NormalDest = _f("LLVMGetNormalDest", VP, VP); UnwindDest = _f("LLVMGetUnwindDest", VP, VP)
AllocT = _f("LLVMGetAllocatedType", VP, VP)
GEPT = _f("LLVMGetGEPSourceElementType", VP, VP)
NumIdx = _f("LLVMGetNumIndices", C.c_uint, VP); Idx = _f("LLVMGetIndices", C.POINTER(C.c_uint), VP)
Init = _f("LLVMGetInitializer", VP, VP); IsGConst = _f("LLVMIsGlobalConstant", C.c_int, VP)
GVT = _f("LLVMGlobalGetValueType", VP, VP)
DLStr = _f("LLVMGetDataLayoutStr", C.c_char_p, VP); CreateTD = _f("LLVMCreateTargetData", VP, C.c_char_p)
SizeOf = _f("LLVMABISizeOfType", C.c_ulonglong, VP, VP)
StoreSize = _f("LLVMStoreSizeOfType", C.c_ulonglong, VP, VP)
OffOf = _f("LLVMOffsetOfElement", C.c_ulonglong, VP, VP, C.c_uint)
NStruct = _f("LLVMCountStructElementTypes", C.c_uint, VP); StructAt = _f("LLVMStructGetTypeAtIndex", VP, VP, C.c_uint)
StructName = _f("LLVMGetStructName", C.c_char_p, VP)
ElemT = _f("LLVMGetElementType", VP, VP); ArrLen = _f("LLVMGetArrayLength2", C.c_ulonglong, VP)
VecLen = _f("LLVMGetVectorSize", C.c_uint, VP)
ConstOp = _f("LLVMGetConstOpcode", C.c_int, VP)
NSW = _f("LLVMGetNSW", C.c_int, VP)
AggElt = _f("LLVMGetAggregateElement", VP, VP, C.c_uint)
AsString = _f("LLVMGetAsString", C.c_void_p, VP, C.POINTER(C.c_size_t))
IsConstStr = _f("LLVMIsConstantString", C.c_int, VP)
FirstParam = _f("LLVMGetFirstParam", VP, VP); NextParam = _f("LLVMGetNextParam", VP, VP)
DebugLine = _f("LLVMGetDebugLocLine", C.c_uint, VP)
RetT = _f("LLVMGetReturnType", VP, VP)
PrintV = _f("LLVMPrintValueToString", C.c_void_p, VP)
PrintT = _f("LLVMPrintTypeToString", C.c_void_p, VP)
IsNull = _f("LLVMIsNull", C.c_int, VP)
AttrCount = None

OPS = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',
 13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',
 26:'alloca',27:'load',28:'store',29:'getelementptr',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',
 37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',
 49:'va_arg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',55:'fence',
 56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad',60:'addrspacecast',66:'fneg',67:'callbr',68:'freeze'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}

# ---- types -----------------------------------------------------------------
class Ty:
    __slots__ = ("k","w","size","elems","offs","name","n","sub")
    def __repr__(s): return f"{s.k}{s.w or ''}{s.name or ''}"

class Const:   # constant operand: kind in int/real/null/global/func/undef/agg/expr
    __slots__ = ("k","v","ty","extra")
    def __init__(s,k,v,ty,extra=None): s.k=k; s.v=v; s.ty=ty; s.extra=extra
    def __repr__(s): return f"C({s.k},{s.v})"

class Ins:
    __slots__ = ("op","id","ty","ops","x","line","fn")
    def __repr__(s): return f"%{s.id}={s.op} {s.ops} {s.x}"

class Block:
    __slots__ = ("name","idx","phis","ins","succ")
class Func:
    __slots__ = ("name","dem","params","ptys","blocks","decl","h","mod","loops","headers","retty","ready","wtab")
    def __repr__(s): return f"<fn {s.dem}>"

class Module:
    def __init__(self, path):
        ctx = ContextCreate(); mb = VP(); err = C.c_char_p()
        if CreateMB(path.encode(), C.byref(mb), C.byref(err)): raise RuntimeError(f"cannot read {path}: {err.value}")
        m = VP()
        if ParseBC(ctx, mb, C.byref(m)): raise RuntimeError(f"cannot parse {path}")
        self.m = m; self.td = CreateTD(DLStr(m)); self.tcache = {}
        self.funcs = {}; self.globals = {}; self.aliases = {}
        f = FirstFn(m)
        while f:
            n = self._name(f); fn = Func(); fn.name = n; fn.h = f; fn.mod = self; fn.decl = bool(IsDecl(f)); fn.ready = False; fn.dem = None
            self.funcs[n] = fn; f = NextFn(f)
        g = FirstGV(m)
        while g: self.globals[self._name(g)] = g; g = NextGV(g)
        a = FirstAlias(m)
        while a: self.aliases[self._name(a)] = self._name(Aliasee(a)); a = NextAlias(a)
        names = list(self.funcs)
        out = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        self.bydem = {}
        for n, d in zip(names, out):
            d = d.replace("> >", ">>")
            self.funcs[n].dem = d; self.bydem.setdefault(d, []).append(self.funcs[n])
    def _name(self, v):
        n = C.c_size_t(); p = Name2(v, C.byref(n)); return C.string_at(p, n.value).decode()
    def find(self, pat, exact=False):
        """functions whose demangled name equals pat (exact) or whose name before '(' equals it"""
        r = []
        for fn in self.funcs.values():
            d = fn.dem
            if d == pat or (not exact and "(" in d and d[:len(pat)] == pat and d[len(pat):len(pat)+1] == "("): r.append(fn)
        return r
    def ty(self, t):
        r = self.tcache.get(t)
        if r: return r
        k = TypeKind(t); r = Ty(); r.w = None; r.name = None; r.elems = None; r.offs = None; r.n = None; r.sub = None; r.size = 0
        self.tcache[t] = r
        if k == 0: r.k = 'void'
        elif k == 8: r.k = 'i'; r.w = IntWidth(t); r.size = StoreSize(self.td, t)
        elif k in (2,3,4,5,6):
            r.k = 'f'; r.w = {2:32,3:64,4:80,5:128,6:128}[k]; r.size = SizeOf(self.td, t)
        elif k == 12: r.k = 'ptr'; r.w = 64; r.size = 8
        elif k == 10:
            r.k = 'struct'; nm = StructName(t); r.name = nm.decode() if nm else None
            n = NStruct(t)
            try: r.size = SizeOf(self.td, t) if n or nm is None else SizeOf(self.td, t)
            except Exception: r.size = 0
            r.elems = [self.ty(StructAt(t, i)) for i in range(n)]
            r.offs = [OffOf(self.td, t, i) for i in range(n)]
        elif k == 11: r.k = 'arr'; r.n = ArrLen(t); r.sub = self.ty(ElemT(t)); r.size = r.n * self.alloc_size(r.sub)
        elif k == 13: r.k = 'vec'; r.n = VecLen(t); r.sub = self.ty(ElemT(t)); r.size = SizeOf(self.td, t)
        elif k == 9: r.k = 'func'
        elif k == 7: r.k = 'label'
        elif k == 14: r.k = 'metadata'
        else: r.k = 'tk%d' % k
        return r
    def alloc_size(self, ty):
        s = ty.size
        if ty.k == 'f' and ty.w == 80: return 16
        if ty.k == 'i':
            a = 1
            while a < s: a *= 2
            return a if s <= 8 else (s+15)//16*16
        return s
    # ---- constants
    def const(self, v):
        vk = ValueKind(v)
        t = self.ty(TypeOf(v))
        # LLVMValueKind: 0 Arg,1 BB,2 MemUse,3 MemDef,4 MemPhi,5 Function,6 GlobalAlias,7 GlobalIFunc,8 GlobalVar,9 BlockAddr,10 ConstExpr,
        # 11 ConstArray,12 ConstStruct,13 ConstVector,14 Undef,15 AggZero,16 DataArray,17 DataVector,18 Int,19 FP,20 PtrNull,21 TokenNone,22 MDAsValue,23 InlineAsm,24 Instr,25 Poison
        if vk == 18:
            if t.w <= 64: return Const('int', IntZ(v), t)
            s = C.string_at(PrintV(v)).decode(); return Const('int', int(s.split()[-1]) % (1 << t.w), t)
        if vk == 19:
            li = C.c_int(); return Const('real', RealD(v, C.byref(li)), t)
        if vk == 20: return Const('null', None, t)
        if vk in (14, 25): return Const('undef', None, t)
        if vk == 5: return Const('func', self._name(v), t)
        if vk == 6:
            n = self._name(v); a = self.aliases[n]
            return Const('func', a, t) if a in self.funcs else Const('global', a, t)
        if vk == 8: return Const('global', self._name(v), t)
        if vk == 15: return Const('zero', None, t)
        if vk in (11, 12, 13):
            return Const('agg', [self.const(Operand(v, i)) for i in range(NumOps(v))], t)
        if vk in (16, 17):
            n = t.n; return Const('agg', [self.const(AggElt(v, i)) for i in range(n)], t)
        if vk == 10:
            op = OPS.get(ConstOp(v))
            if op == 'getelementptr':
                offs = self._gep(v, [self.const(Operand(v, i)) for i in range(NumOps(v))])
                return Const('expr', 'gep', t, (self.const(Operand(v, 0)), offs))
            return Const('expr', op, t, [self.const(Operand(v, i)) for i in range(NumOps(v))])
        if vk in (22, 23): return Const('meta', None, t)
        return Const('other%d' % vk, C.string_at(PrintV(v)).decode()[:80], t)
    def _gep(self, v, ops):
        """-> (constant byte offset, [(operand, scale)])"""
        t = GEPT(v); c = 0; syms = []
        cur = self.ty(t)
        def addidx(o, scale):
            nonlocal c
            if isinstance(o, Const) and o.k == 'int':
                x = o.v; w = o.ty.w
                if x >= 1 << (w-1): x -= 1 << w
                c += x * scale
            elif isinstance(o, Const) and o.k in ('undef','zero'): pass
            else: syms.append((o, scale))
        addidx(ops[1], self.alloc_size(cur))
        for o in ops[2:]:
            if cur.k == 'struct':
                i = o.v; c += cur.offs[i]; cur = cur.elems[i]
            else:
                cur = cur.sub; addidx(o, self.alloc_size(cur))
        return (c, syms)
    # ---- functions
    def load(self, fn):
        if fn.ready: return fn
        fn.ready = True
        ids = {}; n = 0; fn.params = []; fn.ptys = []
        p = FirstParam(fn.h)
        while p:
            ids[p] = n; fn.params.append(n); fn.ptys.append(self.ty(TypeOf(p))); n += 1; p = NextParam(p)
        bbs = []; b = FirstBB(fn.h)
        while b: bbs.append(b); b = NextBB(b)
        bidx = {b: i for i, b in enumerate(bbs)}
        raw = []
        for b in bbs:
            i = FirstI(b); lst = []
            while i: ids[i] = n; n += 1; lst.append(i); i = NextI(i)
            raw.append(lst)
        def opnd(v):
            if v in ids: return ids[v]
            return self.const(v)
        fn.blocks = []
        for bi, b in enumerate(bbs):
            B = Block(); B.name = (BBName(b) or b"").decode(); B.idx = bi; B.phis = []; B.ins = []; B.succ = []
            for i in raw[bi]:
                I = Ins(); I.op = OPS.get(Opcode(i), '?%d' % Opcode(i)); I.id = ids[i]; I.ty = self.ty(TypeOf(i)); I.x = None; I.line = DebugLine(i) if I.op not in () else 0; I.fn = fn
                op = I.op
                if op == 'phi':
                    I.ops = []; I.x = {}
                    for k in range(CountInc(i)): I.x[bidx[IncB(i, k)]] = opnd(IncV(i, k))
                    B.phis.append(I); continue
                if op == 'br':
                    if IsCond(i): I.ops = [opnd(Condition(i))]; I.x = [bidx[Succ(i, 0)], bidx[Succ(i, 1)]]
                    else: I.ops = []; I.x = [bidx[Succ(i, 0)]]
                    B.succ = list(I.x)
                elif op == 'switch':
                    I.ops = [opnd(Operand(i, 0))]; no = NumOps(i)
                    cases = []
                    for k in range(2, no, 2): cases.append((self.const(Operand(i, k)).v, bidx[Succ(i, k//2)]))
                    I.x = (cases, bidx[Succ(i, 0)]); B.succ = [d for _, d in cases] + [I.x[1]]
                elif op in ('call', 'invoke'):
                    na = NumArgs(i); I.ops = [opnd(Operand(i, k)) for k in range(na)]
                    cv = CalledV(i); I.x = {'callee': opnd(cv)}
                    if op == 'invoke':
                        I.x['normal'] = bidx[NormalDest(i)]; I.x['unwind'] = bidx[UnwindDest(i)]
                        B.succ = [I.x['normal'], I.x['unwind']]
                elif op == 'alloca':
                    I.ops = [opnd(Operand(i, 0))]; I.x = self.ty(AllocT(i))
                elif op == 'getelementptr':
                    ops = [opnd(Operand(i, k)) for k in range(NumOps(i))]
                    I.ops = [ops[0]]; I.x = self._gep(i, ops)
                else:
                    I.ops = [opnd(Operand(i, k)) for k in range(NumOps(i))]
                    if op == 'icmp': I.x = ICMP[ICmpP(i)]
                    elif op == 'fcmp': I.x = FCMP[FCmpP(i)]
                    elif op in ('extractvalue', 'insertvalue'):
                        k = NumIdx(i); q = Idx(i); I.x = [q[j] for j in range(k)]
                    elif op in ('add','sub','mul','shl'): I.x = bool(NSW(i))
                    elif op == 'store': I.x = self._opty(i, 0)
                    elif op in ('zext','sext','trunc','fptosi','fptoui','sitofp','uitofp','fpext','fptrunc','ptrtoint','inttoptr','bitcast'):
                        I.x = self._opty(i, 0)
                    elif op in ('atomicrmw','cmpxchg'): I.x = C.string_at(PrintV(i)).decode()
                B.ins.append(I)
            fn.blocks.append(B)
        self._loops(fn)
        return fn
    def _opty(self, i, k): return self.ty(TypeOf(Operand(i, k)))
    def _loops(self, fn):
        """natural loops: header -> set of blocks"""
        N = len(fn.blocks); preds = [[] for _ in range(N)]
        order = []; seen = [False]*N; st = [(0, iter(fn.blocks[0].succ))] if N else []
        if N: seen[0] = True
        while st:
            b, it = st[-1]
            for s in it:
                if not seen[s]: seen[s] = True; st.append((s, iter(fn.blocks[s].succ))); break
            else: order.append(b); st.pop()
        rpo = order[::-1]; num = {b: i for i, b in enumerate(rpo)}
        for b in rpo:
            for s in fn.blocks[b].succ: preds[s].append(b)
        idom = {0: 0}; ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]: x = idom[x]
                                while num[y] > num[x]: y = idom[y]
                            new = x
                if idom.get(b) != new: idom[b] = new; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        fn.loops = {}
        for b in rpo:
            for s in fn.blocks[b].succ:
                if dom(s, b):
                    body = fn.loops.setdefault(s, {s}); st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(preds[x])

"""Loading of the library's LLVM IR through the LLVM-C API (ctypes on the installed libLLVM-18).

The unit /verif/harness/driver.cpp is lowered by clang from /repo/include on every run; this module
prepares it (helpers inlined away, primitives kept as calls, mem2reg'd) and offers a light Python
object model of functions, blocks and instructions with source locations.
Nothing of the program under analysis is executed.
"""
import ctypes as C
import os, re, subprocess, sys, tempfile, shutil

LIBS = ["libLLVM-18.so.1", "libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM-18.so.1",
        "/usr/lib/llvm-18/lib/libLLVM.so.18.1", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so.1"]
L = None
for _l in LIBS:
    try:
        L = C.CDLL(_l)
        break
    except OSError:
        continue
if L is None:
    print("ERROR: libLLVM-18 not found")
    sys.exit(3)
P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


ContextCreate = _f("LLVMContextCreate", P)
ParseIR = _f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
MemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
FirstFn = _f("LLVMGetFirstFunction", P, P)
NextFn = _f("LLVMGetNextFunction", P, P)
FirstGlobal = _f("LLVMGetFirstGlobal", P, P)
NextGlobal = _f("LLVMGetNextGlobal", P, P)
GetInit = _f("LLVMGetInitializer", P, P)
IsGlobalConstant = _f("LLVMIsGlobalConstant", C.c_int, P)
SetLinkage = _f("LLVMSetLinkage", None, P, C.c_int)
DeleteFn = _f("LLVMDeleteFunction", None, P)
DeleteGlobal = _f("LLVMDeleteGlobal", None, P)
NamedFn = _f("LLVMGetNamedFunction", P, P, C.c_char_p)
NamedGlobal = _f("LLVMGetNamedGlobal", P, P, C.c_char_p)
ValueName = _f("LLVMGetValueName2", C.c_char_p, P, C.POINTER(C.c_size_t))
IsDecl = _f("LLVMIsDeclaration", C.c_int, P)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstInst = _f("LLVMGetFirstInstruction", P, P)
NextInst = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
NumOps = _f("LLVMGetNumOperands", C.c_int, P)
GetOp = _f("LLVMGetOperand", P, P, C.c_uint)
CalledVal = _f("LLVMGetCalledValue", P, P)
NumArgOps = _f("LLVMGetNumArgOperands", C.c_uint, P)
ValueKind = _f("LLVMGetValueKind", C.c_int, P)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", C.c_int, P)
IntWidth = _f("LLVMGetIntTypeWidth", C.c_uint, P)
ZExt = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
SExt = _f("LLVMConstIntGetSExtValue", C.c_longlong, P)
RealVal = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
IsNull = _f("LLVMIsNull", C.c_int, P)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, P)
FCmpPred = _f("LLVMGetFCmpPredicate", C.c_int, P)
NumSucc = _f("LLVMGetNumSuccessors", C.c_uint, P)
GetSucc = _f("LLVMGetSuccessor", P, P, C.c_uint)
IsCond = _f("LLVMIsConditional", C.c_int, P)
NumIncoming = _f("LLVMCountIncoming", C.c_uint, P)
IncVal = _f("LLVMGetIncomingValue", P, P, C.c_uint)
IncBlk = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
GEPType = _f("LLVMGetGEPSourceElementType", P, P)
AllocType = _f("LLVMGetAllocatedType", P, P)
ElemType = _f("LLVMGetElementType", P, P)
StructElem = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
CountStruct = _f("LLVMCountStructElementTypes", C.c_uint, P)
ArrayLen = _f("LLVMGetArrayLength", C.c_uint, P)
StructName = _f("LLVMGetStructName", C.c_char_p, P)
DataLayout = _f("LLVMGetModuleDataLayout", P, P)
OffsetOf = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
StoreSize = _f("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
ConstOpc = _f("LLVMGetConstOpcode", C.c_int, P)
AggElem = _f("LLVMGetAggregateElement", P, P, C.c_uint)
GetParam = _f("LLVMGetParam", P, P, C.c_uint)
CountParams = _f("LLVMCountParams", C.c_uint, P)
GetDbg = _f("LLVMInstructionGetDebugLoc", P, P)
DILine = _f("LLVMDILocationGetLine", C.c_uint, P)
DIScope = _f("LLVMDILocationGetScope", P, P)
DIInl = _f("LLVMDILocationGetInlinedAt", P, P)
ScopeFile = _f("LLVMDIScopeGetFile", P, P)
FileName = _f("LLVMDIFileGetFilename", C.c_char_p, P, C.POINTER(C.c_uint))
RunPasses = _f("LLVMRunPasses", P, P, C.c_char_p, P, P)
PBO = _f("LLVMCreatePassBuilderOptions", P)
ErrMsg = _f("LLVMGetErrorMessage", C.c_char_p, P)
AttrKind = _f("LLVMGetEnumAttributeKindForName", C.c_uint, C.c_char_p, C.c_size_t)
CreateAttr = _f("LLVMCreateEnumAttribute", P, P, C.c_uint, C.c_ulonglong)
AddAttr = _f("LLVMAddAttributeAtIndex", None, P, C.c_uint, P)
RemAttr = _f("LLVMRemoveEnumAttributeAtIndex", None, P, C.c_uint, C.c_uint)
NumIdx = _f("LLVMGetNumIndices", C.c_uint, P)
Indices = _f("LLVMGetIndices", C.POINTER(C.c_uint), P)
PrintVal = _f("LLVMPrintValueToString", C.c_void_p, P)
DisposeMsg = _f("LLVMDisposeMessage", None, C.c_void_p)
PrintModule = _f("LLVMPrintModuleToFile", C.c_int, P, C.c_char_p, C.POINTER(C.c_char_p))
ParseCL = _f("LLVMParseCommandLineOptions", None, C.c_int, C.POINTER(C.c_char_p), C.c_char_p)
FirstUse = _f("LLVMGetFirstUse", P, P)
SwitchDefault = _f("LLVMGetSwitchDefaultDest", P, P)
GetAsString = _f("LLVMGetAsString", C.POINTER(C.c_char), P, C.POINTER(C.c_size_t))
IsConstString = _f("LLVMIsConstantString", C.c_int, P)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 67: 'callbr', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
       17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui',
       34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr',
       41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select',
       49: 'va_arg', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue',
       54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume',
       59: 'landingpad'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
        10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
# value kinds (LLVMValueKind)
VK = {0: 'arg', 1: 'bb', 5: 'func', 6: 'alias', 7: 'ifunc', 8: 'gvar', 9: 'blockaddr', 10: 'cexpr', 11: 'carray',
      12: 'cstruct', 13: 'cvector', 14: 'undef', 15: 'aggzero', 16: 'cdataarr', 17: 'cdatavec', 18: 'int', 19: 'fp',
      20: 'null', 21: 'tokennone', 22: 'mdv', 23: 'asm', 24: 'inst', 25: 'poison', 26: 'targetnone'}

_cxx = None


def demangle(n):
    global _cxx
    if _cxx is None:
        _cxx = C.CDLL("libstdc++.so.6")
        _cxx.__cxa_demangle.restype = C.c_void_p
        _cxx.__cxa_demangle.argtypes = [C.c_char_p, P, P, C.POINTER(C.c_int)]
    st = C.c_int(0)
    r = _cxx.__cxa_demangle(n.encode(), None, None, C.byref(st)) or _cxx.__cxa_demangle(n.replace('fL0p', 'fp').encode(), None, None, C.byref(st))
    if not r:
        return n
    s = C.cast(r, C.c_char_p).value.decode()
    return s


def name_of(v):
    n = C.c_size_t(0)
    s = ValueName(v, C.byref(n))
    return s.decode() if s else ''


def strip_templates(s):
    """'A<B<C>>::f<D>(int)' -> 'A::f' (operators handled)."""
    out, depth, i = [], 0, 0
    s = s.replace('(anonymous namespace)::', '')
    m = re.search(r'operator(<=>|<<=|>>=|<<|>>|<=|>=|->|<|>|\(\))', s)
    ops = (m.start() + 8, m.end()) if m else None
    while i < len(s):
        if ops and i == ops[0] and depth == 0:
            out.append(s[ops[0]:ops[1]])
            i = ops[1]
            continue
        ch = s[i]
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif depth == 0:
            if ch == '(':
                break
            out.append(ch)
        i += 1
    r = ''.join(out)
    # drop a leading return type
    if ' ' in r and 'operator' not in r:
        r = r.split(' ')[-1]
    elif 'operator' in r:
        k = r.rfind('operator')
        j = r.rfind(' ', 0, k)
        r = r[j + 1:]
    return r.lstrip('*&')


class AnalysisError(Exception):
    pass


def compile_ir(src, repo='/repo', extra=()):
    """Lower a unit (our driver, which includes the library headers) to textual LLVM IR."""
    d = tempfile.mkdtemp(prefix='ddsa.')
    out = os.path.join(d, 'unit.ll')
    inc = os.path.join(repo, 'include')
    cmd = ['/usr/bin/clang++', '-std=c++17', '-I' + inc, '-DNDEBUG', '-O1', '-Xclang', '-disable-llvm-passes',
           '-g', '-fno-access-control', '-ffp-contract=off', '-fno-strict-aliasing', '-w', '-S', '-emit-llvm', src, '-o', out] + list(extra)
    env = dict(os.environ)
    env['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=600)
    if r.returncode != 0:
        shutil.rmtree(d, ignore_errors=True)
        raise AnalysisError('the driver unit does not compile against /repo/include:\n' + r.stdout.decode()[:4000])
    return out, d


class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        buf = P()
        err = C.c_char_p()
        if MemBuf(path.encode(), C.byref(buf), C.byref(err)):
            raise AnalysisError('cannot read ' + path)
        m = P()
        if ParseIR(self.ctx, buf, C.byref(m), C.byref(err)):
            raise AnalysisError('cannot parse IR: %s' % err.value)
        self.m = m
        self.dl = DataLayout(m)
        self.fns = {}
        self._dm = {}
        self.kinds = {k: AttrKind(k.encode(), len(k)) for k in ('alwaysinline', 'noinline', 'optnone')}

    # -- functions -----------------------------------------------------------------------------
    def functions(self):
        f = FirstFn(self.m)
        while f:
            yield f
            f = NextFn(f)

    def dname(self, f):
        n = name_of(f) if not isinstance(f, str) else f
        d = self._dm.get(n)
        if d is None:
            d = demangle(n)
            self._dm[n] = d
        return d

    def keep_only(self, roots):
        """Delete every driver entry (extern C, defined in the driver) not in roots, then globaldce."""
        roots = set(roots)
        have = set()
        for f in list(self.functions()):
            if IsDecl(f):
                continue
            n = name_of(f)
            if n.startswith('_Z') or n.startswith('__'):
                continue
            if n in roots:
                have.add(n)
            else:
                self._gut(f)
        miss = roots - have
        if miss:
            raise AnalysisError('entry points missing from the driver: %s' % sorted(miss))
        g = NamedGlobal(self.m, b'llvm.used')
        if g:
            DeleteGlobal(g)
        g = NamedGlobal(self.m, b'llvm.compiler.used')
        if g:
            DeleteGlobal(g)
        for f in list(self.functions()):
            if IsDecl(f):
                continue
            n = name_of(f)
            if n not in roots:
                SetLinkage(f, 8)  # internal
        self.passes('globaldce')

    def _gut(self, f):
        SetLinkage(f, 8)

    def passes(self, p):
        o = PBO()
        e = RunPasses(self.m, p.encode(), None, o)
        if e:
            raise AnalysisError('pass pipeline failed: %s' % ErrMsg(e).decode())

    def callees(self, f):
        out = set()
        bb = FirstBB(f)
        while bb:
            i = FirstInst(bb)
            while i:
                if Opcode(i) in (45, 5):
                    c = CalledVal(i)
                    if ValueKind(c) == 5:
                        out.add(name_of(c))
                i = NextInst(i)
            bb = NextBB(bb)
        return out

    def inst_count(self, f):
        n = 0
        bb = FirstBB(f)
        while bb:
            i = FirstInst(bb)
            while i:
                n += 1
                i = NextInst(i)
            bb = NextBB(bb)
        return n

    def prepare(self, roots, cut, opaque=None, std_limit=900):
        """Inline everything reachable from roots except:
           - functions for which cut(strip_templates(name), demangled) is true (the primitives),
           - functions on a call-graph cycle (recursive operations: analysed with their contract),
           - standard-library functions whose fully inlined body exceeds std_limit instructions
             (or listed by `opaque`)."""
        self.keep_only(roots)
        cg, size, short = {}, {}, {}
        for f in self.functions():
            n = name_of(f)
            if IsDecl(f):
                continue
            cg[n] = self.callees(f)
            size[n] = self.inst_count(f)
        for n in cg:
            cg[n] = {c for c in cg[n] if c in cg}
            short[n] = strip_templates(self.dname(n))
        # recursion through a cut function is closed there
        cutset = {n for n in cg if n not in roots and cut(short[n], self.dname(n))}
        scc = _scc({n: {c for c in cg[n] if c not in cutset} for n in cg})
        rec = set()
        for comp in scc:
            rec |= self.closers(comp, {n: cg[n] - cutset for n in cg})
        keep = set(roots) | rec | cutset
        tot = {}

        def total(n):
            if n in tot:
                return tot[n]
            tot[n] = 10**9
            t = size[n]
            for c in cg[n]:
                if c not in keep:
                    t += total(c)
            tot[n] = t
            return t
        order = []
        for comp in scc:      # callees first
            order += list(comp)
        for n in order:
            if n in keep:
                continue
            if is_std(short[n], self.dname(n)):
                if (opaque and opaque(short[n], self.dname(n))) or total(n) > std_limit:
                    if 'dd::' not in self.dname(n) or 'lambda' not in self.dname(n):
                        keep.add(n)
                        continue
            total(n)
        noin = CreateAttr(self.ctx, self.kinds['noinline'], 0)
        alin = CreateAttr(self.ctx, self.kinds['alwaysinline'], 0)
        for n in cg:
            f = NamedFn(self.m, n.encode())
            for k in ('alwaysinline', 'noinline', 'optnone'):
                RemAttr(f, 0xFFFFFFFF, self.kinds[k])
            AddAttr(f, 0xFFFFFFFF, noin if n in keep else alin)
        self.kept = keep
        self.recursive = rec
        self.passes('function(lowerinvoke,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;no-speculate-blocks>)')
        self.passes('always-inline,globaldce')
        self.passes('function(sroa<modify-cfg>,early-cse,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;no-speculate-blocks>,'
                    'sroa<modify-cfg>,early-cse<memssa>,adce,loop-simplify,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts;no-speculate-blocks;keep-loops>),globaldce')
        self.fns = {}
        return self

    def closers(self, comp, cg):
        """the members of a call-graph component at which its cycles are closed: the named functions
        through which it is entered if they are on every cycle of it (a lambda or a library
        algorithm between a function and itself is a part of that function), else all of it"""
        comp = set(comp)
        if len(comp) == 1:
            n = next(iter(comp))
            return comp if n in cg[n] else set()
        entry = {c for n in cg if n not in comp for c in cg[n] if c in comp}
        entry = {c for c in entry if 'lambda' not in self.dname(c).split('(')[0] and
                 '{lambda' not in self.dname(c) and not is_std(strip_templates(self.dname(c)), self.dname(c))}
        rest = comp - entry
        if entry and all(len(k) == 1 and next(iter(k)) not in cg[next(iter(k))]
                         for k in _scc({n: cg[n] & rest for n in rest})):
            return entry
        return comp

    def heads(self, root):
        """the recursive library functions first met on the call paths from root (before prepare)"""
        if not hasattr(self, '_cg'):
            self._cg = {}
            for f in self.functions():
                if not IsDecl(f):
                    self._cg[name_of(f)] = self.callees(f)
            self._cg = {n: {c for c in cs if c in self._cg} for n, cs in self._cg.items()}
            self._rec = set()
            for comp in _scc(self._cg):
                self._rec |= self.closers(comp, self._cg)
        out, seen, work = [], {root}, [root]
        while work:
            n = work.pop()
            if n in self._rec and self.dname(n).split('(')[0].find('dd::') >= 0 and not is_std(strip_templates(self.dname(n)), self.dname(n)):
                out.append(n)
                continue
            for c in sorted(self._cg.get(n, ())):
                if c not in seen:
                    seen.add(c)
                    work.append(c)
        return out

    def direct(self, root):
        """the library functions root calls"""
        self.heads(root)
        return sorted(c for c in self._cg.get(root, ()) if 'dd::' in self.dname(c))

    def fn(self, name):
        if name in self.fns:
            return self.fns[name]
        f = NamedFn(self.m, name.encode())
        if not f or IsDecl(f):
            raise AnalysisError('function %s is not in the unit' % name)
        r = Function(self, f)
        self.fns[name] = r
        return r

    def find(self, pred):
        """names of defined functions with pred(short, demangled)"""
        out = []
        for f in self.functions():
            if IsDecl(f):
                continue
            n = name_of(f)
            d = self.dname(n)
            if pred(strip_templates(d), d):
                out.append(n)
        return out


def is_std(short, d):
    return short.startswith('std::') or short.startswith('__gnu_cxx::') or short.startswith('__cxx') or \
        short.startswith('operator new') or short.startswith('operator delete') or short.startswith('_')


def _scc(g):
    idx, low, st, on, out, cnt = {}, {}, [], set(), [], [0]
    for root in g:
        if root in idx:
            continue
        work = [(root, iter(g[root]))]
        idx[root] = low[root] = cnt[0]
        cnt[0] += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(g[w])))
                    adv = True
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                c = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    c.append(w)
                    if w == v:
                        break
                out.append(c)
    return out


class Inst:
    __slots__ = ('op', 'ops', 'bb', 'res', 'ty', 'x', 'loc', 'callee', 'id', 'h')

    def __repr__(self):
        return '%s%s %s' % (self.op, ':' + self.callee if self.callee else '', self.loc and self.loc[0])


class Block:
    __slots__ = ('i', 'insts', 'succs', 'preds', 'h', 'loop', 'phis')


class Function:
    """Python view of one prepared function.

    Operands are encoded as tuples:
      ('v', id)            SSA value (instruction or argument)
      ('i', width, val)    integer constant (signed)
      ('f', val)           floating constant
      ('null',) ('undef',) ('g', name) ('fn', name)
      ('cgep', base, off)  constant gep of a global
      ('agg', [...])       other constant aggregates
    """

    def __init__(self, mod, f):
        self.mod, self.h = mod, f
        self.name = name_of(f)
        self.args = []
        self.vid = {}
        self.vty = {}
        self.blocks = []
        bmap = {}
        n = CountParams(f)
        for k in range(n):
            a = GetParam(f, k)
            self.vid[a] = len(self.vid)
            self.args.append(self.vid[a])
            self.vty[self.vid[a]] = tyname(TypeOf(a))
        bb = FirstBB(f)
        insts = []
        while bb:
            b = Block()
            b.i = len(self.blocks)
            b.h = bb
            b.insts, b.succs, b.preds, b.phis = [], [], [], []
            b.loop = None
            self.blocks.append(b)
            bmap[bb] = b
            i = FirstInst(bb)
            while i:
                if Opcode(i) == 45:
                    c = CalledVal(i)
                    if ValueKind(c) == 5 and name_of(c).startswith('llvm.dbg.'):
                        i = NextInst(i)
                        continue
                self.vid[i] = len(self.vid)
                insts.append((b, i))
                i = NextInst(i)
            bb = NextBB(bb)
        self.insts = {}
        for b, h in insts:
            x = Inst()
            x.h = h
            x.op = OPC[Opcode(h)]
            x.bb = b.i
            x.id = self.vid[h]
            x.callee = None
            t = TypeOf(h)
            x.ty = tyname(t)
            self.vty[x.id] = x.ty
            x.x = None
            x.loc = None
            nops = NumOps(h)
            if x.op == 'phi':
                x.ops = [(self.val(IncVal(h, k)), bmap[IncBlk(h, k)].i) for k in range(NumIncoming(h))]
                b.phis.append(x)
            elif x.op == 'br':
                if IsCond(h):
                    x.ops = [self.val(GetOp(h, 0))]
                    x.x = [bmap[GetSucc(h, 0)].i, bmap[GetSucc(h, 1)].i]
                else:
                    x.ops = []
                    x.x = [bmap[GetSucc(h, 0)].i]
            elif x.op == 'switch':
                x.ops = [self.val(GetOp(h, 0))]
                cases = []
                for k in range(2, nops, 2):
                    cases.append((self.val(GetOp(h, k)), bmap[GetOp_bb(h, k + 1)].i))
                x.x = (bmap[SwitchDefault(h)].i, cases)
            elif x.op == 'call':
                c = CalledVal(h)
                na = NumArgOps(h)
                x.ops = [self.val(GetOp(h, k)) for k in range(na)]
                if ValueKind(c) == 5:
                    x.callee = name_of(c)
                else:
                    x.callee = '<indirect>'
                    x.x = self.val(c)
            else:
                x.ops = [self.val(GetOp(h, k)) for k in range(nops)]
            if x.op == 'icmp':
                x.x = ICMP[ICmpPred(h)]
            elif x.op == 'fcmp':
                x.x = FCMP[FCmpPred(h)]
            elif x.op == 'gep':
                x.x = self.gep(h)
            elif x.op == 'alloca':
                x.x = ABISize(mod.dl, AllocType(h))
            elif x.op in ('extractvalue', 'insertvalue'):
                ni = NumIdx(h)
                p = Indices(h)
                x.x = [p[k] for k in range(ni)]
            elif x.op == 'load':
                x.x = StoreSize(mod.dl, t)
            elif x.op == 'store':
                x.x = StoreSize(mod.dl, TypeOf(GetOp(h, 0)))
                x.ty = tyname(TypeOf(GetOp(h, 0)))
            elif x.op in ('zext', 'sext', 'trunc', 'uitofp', 'sitofp', 'ptrtoint'):
                x.x = tyname(TypeOf(GetOp(h, 0)))
            b.insts.append(x)
            self.insts[x.id] = x
        for b in self.blocks:
            t = b.insts[-1]
            if t.op == 'br':
                b.succs = list(t.x)
            elif t.op == 'switch':
                b.succs = [t.x[0]] + [c[1] for c in t.x[1]]
            seen = set()
            b.succs = [s for s in b.succs if not (s in seen or seen.add(s))]
        for b in self.blocks:
            for s in b.succs:
                self.blocks[s].preds.append(b.i)
        self._loops()

    def gep(self, h):
        """-> (base operand, const offset, [(scale, operand)...])"""
        dl = self.mod.dl
        ty = GEPType(h)
        base = GetOp(h, 0)
        off, var = 0, []
        n = NumOps(h)
        for k in range(1, n):
            idx = GetOp(h, k)
            if k == 1:
                sc = ABISize(dl, ty)
            else:
                kd = TypeKind(ty)
                if kd == 10:  # struct
                    ci = ZExt(idx)
                    off += OffsetOf(dl, ty, ci)
                    ty = StructElem(ty, ci)
                    continue
                ty = ElemType(ty)
                sc = ABISize(dl, ty)
            if ValueKind(idx) == 18:
                off += SExt(idx) * sc
            else:
                var.append((sc, self.val(idx)))
        return (self.val(base), off, var)

    def val(self, v):
        k = ValueKind(v)
        if v in self.vid:
            return ('v', self.vid[v])
        kn = VK.get(k, '?%d' % k)
        if kn == 'int':
            w = IntWidth(TypeOf(v))
            if w > 64:
                return ('undef',)
            return ('i', w, SExt(v) if w > 1 else ZExt(v))
        if kn == 'fp':
            return ('f', RealVal(v, C.byref(_loses)))
        if kn == 'null':
            return ('null',)
        if kn in ('undef', 'poison'):
            return ('undef',)
        if kn == 'func':
            return ('fn', name_of(v))
        if kn == 'gvar' or kn == 'alias':
            return ('g', name_of(v))
        if kn == 'cexpr':
            o = OPC.get(ConstOpc(v))
            if o == 'gep':
                b, off, var = self.gep(v)
                if not var:
                    if b[0] == 'cgep':
                        return ('cgep', b[1], b[2] + off)
                    return ('cgep', b, off)
            if o in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'):
                return self.val(GetOp(v, 0))
            return ('cexpr', o, tuple(self.val(GetOp(v, k)) for k in range(NumOps(v))))
        if kn == 'mdv':
            return ('md',)
        if kn in ('carray', 'cstruct', 'cvector', 'cdataarr', 'cdatavec', 'aggzero'):
            if kn in ('cstruct', 'aggzero', 'carray', 'cdataarr'):
                t = TypeOf(v)
                n = CountStruct(t) if TypeKind(t) == 10 else (ArrayLen(t) if TypeKind(t) == 11 else 99)
                if n <= 8:
                    return ('agg', [self.val(AggElem(v, k)) for k in range(n)])
            return ('agg', [])
        if kn == 'inst':
            return ('undef',)
        return ('undef',)

    def loc(self, inst):
        """[(file, line), ...] innermost first"""
        if inst.loc is None:
            d = GetDbg(inst.h)
            out = []
            while d:
                sc = DIScope(d)
                f = ScopeFile(sc)
                ln = C.c_uint(0)
                fn = FileName(f, C.byref(ln)) if f else b'?'
                out.append((fn.decode(), DILine(d)))
                d = DIInl(d)
            inst.loc = out
        return inst.loc

    def where(self, inst):
        """Innermost location inside the library, as 'include/dd/X.hpp:line'."""
        for f, l in self.loc(inst):
            k = f.find('include/dd/')
            if k >= 0 and l:
                return f[k:] + ':%d' % l
        for f, l in self.loc(inst):
            if l:
                return '%s:%d' % (f, l)
        return self.name

    def chain(self, inst):
        out = []
        for f, l in self.loc(inst):
            k = f.find('include/dd/')
            if k >= 0 and l:
                out.append(f[k:] + ':%d' % l)
        return ' < '.join(out)

    # -- natural loops --------------------------------------------------------------------------
    def _loops(self):
        n = len(self.blocks)
        # dominators (iterative, RPO)
        order, seen = [], set()
        st = [(0, iter(self.blocks[0].succs))]
        seen.add(0)
        while st:
            v, it = st[-1]
            for w in it:
                if w not in seen:
                    seen.add(w)
                    st.append((w, iter(self.blocks[w].succs)))
                    break
            else:
                order.append(v)
                st.pop()
        rpo = order[::-1]
        self.rpo = {b: k for k, b in enumerate(rpo)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in self.blocks[b].preds if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    a, c = p, x
                    while a != c:
                        while self.rpo[a] > self.rpo[c]:
                            a = idom[a]
                        while self.rpo[c] > self.rpo[a]:
                            c = idom[c]
                    x = a
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        self.idom = idom

        def dom(a, b):
            while b != a and b != 0:
                b = idom[b]
            return a == b
        self.dom = dom
        self.loops = {}
        for b in rpo:
            for s in self.blocks[b].succs:
                if dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        v = st.pop()
                        if v in body:
                            continue
                        body.add(v)
                        st.extend(p for p in self.blocks[v].preds if p in self.rpo)
        # SSA liveness-in per block
        use, deff = {}, {}
        for b in self.blocks:
            u, d = set(), set()
            for x in b.insts:
                if x.op != 'phi':
                    for o in operands(x):
                        if o[0] == 'v' and o[1] not in d:
                            u.add(o[1])
                d.add(x.id)
            use[b.i], deff[b.i] = u, d
        live = {b.i: set(use[b.i]) for b in self.blocks}
        ch = True
        post = order
        while ch:
            ch = False
            for b in post:
                o = set()
                for s in self.blocks[b].succs:
                    o |= live[s] - {p.id for p in self.blocks[s].phis}
                    for p in self.blocks[s].phis:
                        for v, pb in p.ops:
                            if pb == b and v[0] == 'v':
                                o.add(v[1])
                new = use[b] | (o - deff[b])
                if new != live[b]:
                    live[b] = new
                    ch = True
        self.live = live


def operands(x):
    """all SSA operand encodings of an instruction (gep/phi aware)"""
    if x.op == 'phi':
        for v, _ in x.ops:
            yield v
        return
    if x.op == 'gep':
        yield x.x[0]
        for _, v in x.x[2]:
            yield v
        return
    for v in x.ops:
        yield v
    if x.op == 'call' and x.callee == '<indirect>':
        yield x.x


GetOp_bb = GetOp
_loses = C.c_int(0)


def tyname(t):
    k = TypeKind(t)
    if k == 0:
        return 'void'
    if k == 8:
        return 'i%d' % IntWidth(t)
    if k == 12:
        return 'ptr'
    if k == 3:
        return 'double'
    if k == 2:
        return 'float'
    if k == 10:
        n = StructName(t)
        return 'struct:' + (n.decode() if n else 'anon%d' % CountStruct(t))
    if k == 11:
        return 'array%d' % ArrayLen(t)
    return 'ty%d' % k

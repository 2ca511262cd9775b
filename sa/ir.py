"""LLVM IR object model (ctypes over libLLVM-18's C API)."""
import ctypes, glob, os, re, subprocess
from .build import AnalysisBroken, run, CLANG, cflags, REPO

_lib = None
def lib():
    global _lib
    if _lib is None:
        c = sorted(glob.glob('/usr/lib/llvm-18/lib/libLLVM-18.so*') + glob.glob('/usr/lib/x86_64-linux-gnu/libLLVM-18.so*')
                   + glob.glob('/usr/lib/llvm-18/lib/libLLVM.so*'))
        if not c: raise AnalysisBroken('libLLVM-18.so not found')
        L = ctypes.CDLL(c[0])
        P, I, U, S, LL, ULL = ctypes.c_void_p, ctypes.c_int, ctypes.c_uint, ctypes.c_char_p, ctypes.c_longlong, ctypes.c_ulonglong
        def d(name, res, *args):
            f = getattr(L, name); f.restype = res; f.argtypes = list(args)
        d('LLVMConstRealGetDouble', ctypes.c_double, P, ctypes.POINTER(I)); d('LLVMGetFCmpPredicate', I, P); d('LLVMContextCreate', P); d('LLVMCreateMemoryBufferWithContentsOfFile', I, S, ctypes.POINTER(P), ctypes.POINTER(P))
        d('LLVMParseBitcodeInContext2', I, P, P, ctypes.POINTER(P))
        d('LLVMGetFirstFunction', P, P); d('LLVMGetNextFunction', P, P)
        d('LLVMGetFirstGlobal', P, P); d('LLVMGetNextGlobal', P, P); d('LLVMGetInitializer', P, P)
        d('LLVMGetValueName2', P, P, ctypes.POINTER(ctypes.c_size_t))
        d('LLVMCountBasicBlocks', U, P); d('LLVMGetFirstBasicBlock', P, P); d('LLVMGetNextBasicBlock', P, P)
        d('LLVMGetFirstInstruction', P, P); d('LLVMGetNextInstruction', P, P); d('LLVMGetBasicBlockName', S, P)
        d('LLVMGetInstructionOpcode', I, P); d('LLVMGetNumOperands', I, P); d('LLVMGetOperand', P, P, U)
        d('LLVMGetValueKind', I, P); d('LLVMTypeOf', P, P); d('LLVMPrintTypeToString', P, P); d('LLVMDisposeMessage', None, P)
        d('LLVMGetTypeKind', I, P); d('LLVMGetIntTypeWidth', U, P); d('LLVMGetStructName', S, P)
        d('LLVMGetICmpPredicate', I, P); d('LLVMConstIntGetSExtValue', LL, P); d('LLVMConstIntGetZExtValue', ULL, P)
        d('LLVMGetGEPSourceElementType', P, P); d('LLVMGetAllocatedType', P, P); d('LLVMGetCalledValue', P, P)
        d('LLVMGetNumArgOperands', U, P); d('LLVMIsDeclaration', I, P); d('LLVMGetParam', P, P, U); d('LLVMCountParams', U, P)
        d('LLVMGetNumSuccessors', U, P); d('LLVMGetSuccessor', P, P, U); d('LLVMIsConditional', I, P); d('LLVMGetCondition', P, P)
        d('LLVMCountIncoming', U, P); d('LLVMGetIncomingValue', P, P, U); d('LLVMGetIncomingBlock', P, P, U)
        d('LLVMGetSwitchDefaultDest', P, P); d('LLVMGetDebugLocLine', U, P); d('LLVMGetDebugLocFilename', P, P, ctypes.POINTER(U))
        d('LLVMGetConstOpcode', I, P); d('LLVMIsConstantString', I, P); d('LLVMGetAsString', P, P, ctypes.POINTER(ctypes.c_size_t))
        d('LLVMGetAggregateElement', P, P, U); d('LLVMGetArrayLength2', ctypes.c_uint64, P); d('LLVMGetElementType', P, P)
        d('LLVMGetLinkage', I, P); d('LLVMGetModuleDataLayout', P, P); d('LLVMOffsetOfElement', ULL, P, P, U)
        d('LLVMABISizeOfType', ULL, P, P); d('LLVMCountStructElementTypes', U, P); d('LLVMStructGetTypeAtIndex', P, P, U)
        d('LLVMGlobalGetValueType', P, P); d('LLVMIsGlobalConstant', I, P); d('LLVMGetEnumAttributeKindForName', U, S, ctypes.c_size_t)
        d('LLVMGetEnumAttributeAtIndex', P, P, I, U); d('LLVMIsAFunction', P, P); d('LLVMBlockAddress', P, P, P); d('LLVMBasicBlockAsValue', P, P)
        d('LLVMGetCalledFunctionType', P, P); d('LLVMIsNull', I, P); d('LLVMGetSubprogram', P, P); d('LLVMDISubprogramGetLine', U, P)
        d('LLVMCountParamTypes', U, P); d('LLVMIsFunctionVarArg', I, P); d('LLVMGetVolatile', I, P); d('LLVMGetReturnType', P, P)
        _lib = L
    return _lib

OPS = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',
 14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',
 28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',
 40:'inttoptr',41:'bitcast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',47:'userop1',48:'userop2',49:'va_arg',50:'extractelement',
 51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',55:'fence',60:'addrspacecast',66:'fneg',67:'callbr',68:'freeze',
 56:'cmpxchg',57:'atomicrmw'}
PRED = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
NEG = {'eq':'ne','ne':'eq','ugt':'ule','ule':'ugt','uge':'ult','ult':'uge','sgt':'sle','sle':'sgt','sge':'slt','slt':'sge'}
SWAP = {'eq':'eq','ne':'ne','ugt':'ult','ult':'ugt','uge':'ule','ule':'uge','sgt':'slt','slt':'sgt','sge':'sle','sle':'sge'}
CASTS = ('trunc','zext','sext','bitcast','ptrtoint','inttoptr','freeze','addrspacecast')

class Type:
    __slots__ = ('kind','width','name','elems','length','elem','size','offs','s')
    def __repr__(self): return self.s

class Val:
    """kind: int null undef str cdata func gvar cexpr arg inst other"""
    __slots__ = ('kind','v','name','type','op','ops','fn','init','decl','idx','gepty','const','users','linkage')
    def __repr__(self):
        if self.kind == 'int': return str(self.v)
        if self.kind == 'str': return '"%s"' % self.v
        if self.kind in ('func','gvar'): return '@' + self.name
        if self.kind == 'arg': return '%' + self.name
        return '<%s %s>' % (self.kind, self.op or '')

class Inst(Val):
    __slots__ = ('bb','line','file','pred','cases','default','succ','inc','n','alloc','vol')
    kind_ = 'inst'
    def __repr__(self):
        return '%%%s=%s(%s)@%s:%s' % (self.name or self.n, self.op, ','.join(o.name if isinstance(o, (Inst,Func)) or o.kind=='arg' else repr(o) for o in self.ops[:6]), os.path.basename(self.file or '?'), self.line)
    @property
    def loc(self): return '%s:%d' % (os.path.basename(self.file or '?'), self.line)
    @property
    def callee(self):
        return self.ops[-1] if self.op == 'call' else None
    @property
    def cname(self):
        if self.op != 'call': return None
        c = self.ops[-1]
        return c.name if isinstance(c, Func) else None
    @property
    def args(self): return self.ops[:-1] if self.op == 'call' else None

class BB:
    __slots__ = ('name','insts','succs','preds','fn','n')
    def __repr__(self): return '%s:%s' % (self.fn.name, self.name)
    @property
    def term(self): return self.insts[-1]

class Func(Val):
    __slots__ = ('params','blocks','module','vararg','line','file','noreturn','rettype')
    def __repr__(self): return '@' + self.name
    def insts(self):
        for b in self.blocks:
            for i in b.insts: yield i
    def calls(self, *names):
        for i in self.insts():
            if i.op == 'call' and (not names or i.cname in names): yield i

class Program:
    """One linked-by-name program: a set of modules (one binary)."""
    def __init__(self, name): self.name = name; self.funcs = {}; self.globals = {}; self.modules = {}; self.layouts = {}

class Loader:
    def __init__(self, layouts=None):
        self.L = lib(); self.ctx = self.L.LLVMContextCreate(); self.types = {}; self.layouts = layouts or {}
    def load(self, path, stem):
        L = self.L
        mb = ctypes.c_void_p(); msg = ctypes.c_void_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), ctypes.byref(mb), ctypes.byref(msg)):
            raise AnalysisBroken('cannot read ' + path)
        m = ctypes.c_void_p()
        if L.LLVMParseBitcodeInContext2(self.ctx, mb, ctypes.byref(m)):
            raise AnalysisBroken('cannot parse ' + path)
        return Module(self, m, stem)
    def ty(self, t):
        if t in self.types: return self.types[t]
        L = self.L; T = Type(); self.types[t] = T
        k = L.LLVMGetTypeKind(t); T.kind = k; T.width = T.name = T.elems = T.length = T.elem = T.size = T.offs = None
        p = L.LLVMPrintTypeToString(t); T.s = ctypes.string_at(p).decode(); L.LLVMDisposeMessage(p)
        if k == 8: T.width = L.LLVMGetIntTypeWidth(t)
        elif k == 10:
            n = L.LLVMGetStructName(t); T.name = n.decode() if n else None
            if T.name: T.name = re.sub(r'^(struct|union)\.', '', T.name); T.name = re.sub(r'\.\d+$', '', T.name)
            c = L.LLVMCountStructElementTypes(t)
            T.elems = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(c)]
            try:
                T.offs = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(c)] if c and 'opaque' not in T.s else []
            except Exception: T.offs = []
        elif k == 11: T.length = L.LLVMGetArrayLength2(t); T.elem = self.ty(L.LLVMGetElementType(t))
        if k in (8, 10, 11, 12, 2, 3) and 'opaque' not in T.s:
            T.size = L.LLVMABISizeOfType(self.dl, t)
        return T

class Module:
    def __init__(self, ld, m, stem):
        L = ld.L; self.ld = ld; self.stem = stem; self.vals = {}; ld.dl = L.LLVMGetModuleDataLayout(m)
        self.funcs = {}; self.globals = {}
        f = L.LLVMGetFirstFunction(m)
        fl = []
        while f:
            F = Func(); self._base(F, f, 'func'); F.module = self; F.decl = bool(L.LLVMIsDeclaration(f))
            F.linkage = L.LLVMGetLinkage(f)
            F.blocks = []; ft = L.LLVMGlobalGetValueType(f); F.vararg = bool(L.LLVMIsFunctionVarArg(ft)); F.params = []
            F.rettype = ld.ty(L.LLVMGetReturnType(ft))
            F.line = 0; F.file = stem + '.c'; F.noreturn = None
            sp = L.LLVMGetSubprogram(f)
            if sp: F.line = L.LLVMDISubprogramGetLine(sp)
            for i in range(L.LLVMCountParams(f)):
                a = Val(); self._base(a, L.LLVMGetParam(f, i), 'arg'); a.fn = F; a.idx = i; F.params.append(a)
                if not a.name: a.name = 'arg%d' % i
            self.funcs[F.name] = F; fl.append((f, F)); f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(m); gl = []
        while g:
            G = Val(); self._base(G, g, 'gvar'); G.type = ld.ty(L.LLVMGlobalGetValueType(g)); G.const = bool(L.LLVMIsGlobalConstant(g))
            G.decl = bool(L.LLVMIsDeclaration(g)); G.linkage = L.LLVMGetLinkage(g)
            self.globals[G.name] = G; gl.append((g, G)); g = L.LLVMGetNextGlobal(g)
        for g, G in gl:
            i = L.LLVMGetInitializer(g)
            G.init = self.val(i) if i else None
        for f, F in fl:
            if not F.decl: self._body(f, F)
    def _name(self, v):
        n = ctypes.c_size_t(); p = self.ld.L.LLVMGetValueName2(v, ctypes.byref(n))
        return ctypes.string_at(p, n.value).decode() if p and n.value else ''
    def _base(self, o, v, kind):
        self.vals[v] = o; o.kind = kind; o.name = self._name(v); o.type = self.ld.ty(self.ld.L.LLVMTypeOf(v)); o.v = None; o.op = None
        o.ops = []; o.fn = None; o.init = None; o.decl = None; o.idx = None; o.gepty = None; o.const = None; o.users = []; o.linkage = None
    def val(self, v):
        if v in self.vals: return self.vals[v]
        L = self.ld.L; k = L.LLVMGetValueKind(v)
        o = Val()
        # LLVMValueKind enum: 0 Argument 1 BasicBlock 5 Function 6 GlobalAlias 8 GlobalVariable 9 BlockAddress 10 ConstantExpr
        # 11 ConstantArray 12 ConstantStruct 13 ConstantVector 14 Undef 15 ConstantAggregateZero 16 DataArray 17 DataVector 18 Int 19 FP 20 PtrNull
        kind = {18: 'int', 20: 'null', 14: 'undef', 25: 'undef', 19: 'fp', 10: 'cexpr', 16: 'cdata', 11: 'cdata', 12: 'cdata', 15: 'zero'}.get(k, 'other')
        self._base(o, v, kind)
        if kind == 'int':
            o.v = L.LLVMConstIntGetSExtValue(v) if o.type.width and o.type.width <= 64 else None
        elif kind == 'null': o.v = 0
        elif kind == 'fp':
            x = L.LLVMConstRealGetDouble(v, ctypes.byref(ctypes.c_int()))
            o.v = int(x) if x == x and abs(x) < 1e15 and x == int(x) else None
        elif kind == 'cexpr':
            o.op = OPS.get(L.LLVMGetConstOpcode(v)); o.ops = [self.val(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
            if o.op == 'gep': o.gepty = self.ld.ty(L.LLVMGetGEPSourceElementType(v))
        elif kind == 'cdata':
            if k == 16 and L.LLVMIsConstantString(v):
                n = ctypes.c_size_t(); p = L.LLVMGetAsString(v, ctypes.byref(n))
                o.kind = 'str'; o.v = ctypes.string_at(p, n.value).decode('latin1')
            else:
                n = (o.type.length if o.type.kind == 11 else len(o.type.elems or []))
                o.ops = [self.val(L.LLVMGetAggregateElement(v, i)) for i in range(n)]
        return o
    def _body(self, f, F):
        L = self.ld.L; bbs = {}; b = L.LLVMGetFirstBasicBlock(f); n = 0; raw = []
        while b:
            B = BB(); B.name = L.LLVMGetBasicBlockName(b).decode() or 'b%d' % len(F.blocks); B.insts = []; B.succs = []; B.preds = []; B.fn = F; B.n = len(F.blocks)
            bbs[b] = B; F.blocks.append(B)
            i = L.LLVMGetFirstInstruction(b)
            while i:
                I = Inst(); self._base(I, i, 'inst'); I.op = OPS.get(L.LLVMGetInstructionOpcode(i), '?'); I.bb = B; I.fn = F; I.n = n; n += 1
                I.line = L.LLVMGetDebugLocLine(i) if True else 0; ln = ctypes.c_uint()
                p = L.LLVMGetDebugLocFilename(i, ctypes.byref(ln)); I.file = ctypes.string_at(p, ln.value).decode() if p and ln.value else F.file
                I.pred = None; I.cases = None; I.default = None; I.succ = None; I.inc = None; I.alloc = None; I.vol = False
                B.insts.append(I); raw.append((i, I)); i = L.LLVMGetNextInstruction(i)
            b = L.LLVMGetNextBasicBlock(b)
        self.bbs = bbs
        for i, I in raw:
            nops = L.LLVMGetNumOperands(i)
            op = I.op
            if op == 'br':
                if L.LLVMIsConditional(i): I.ops = [self.val(L.LLVMGetCondition(i))]
                I.succ = [bbs[L.LLVMGetSuccessor(i, k)] for k in range(L.LLVMGetNumSuccessors(i))]
            elif op == 'switch':
                I.ops = [self.val(L.LLVMGetOperand(i, 0))]
                I.default = bbs[L.LLVMGetSwitchDefaultDest(i)]
                I.cases = []
                # operands: cond, default, (val, dest)*
                for k in range(1, L.LLVMGetNumSuccessors(i)):
                    cv = self.val(L.LLVMGetOperand(i, 2 * k))
                    I.cases.append((cv.v, bbs[L.LLVMGetSuccessor(i, k)]))
                I.succ = [I.default] + [c[1] for c in I.cases]
            elif op == 'phi':
                I.inc = [(self.val(L.LLVMGetIncomingValue(i, k)), bbs[L.LLVMGetIncomingBlock(i, k)]) for k in range(L.LLVMCountIncoming(i))]
                I.ops = [v for v, _ in I.inc]
            else:
                I.ops = [self.val(L.LLVMGetOperand(i, k)) for k in range(nops)]
                if op == 'icmp': I.pred = PRED[L.LLVMGetICmpPredicate(i)]
                if op == 'fcmp': I.pred = (None, 'eq', 'sgt', 'sge', 'slt', 'sle', 'ne', None, None, 'eq', 'sgt', 'sge', 'slt', 'sle', 'ne', None)[L.LLVMGetFCmpPredicate(i)]
                elif op == 'gep': I.gepty = self.ld.ty(L.LLVMGetGEPSourceElementType(i))
                elif op == 'alloca': I.alloc = self.ld.ty(L.LLVMGetAllocatedType(i))
                elif op in ('load', 'store'): I.vol = bool(L.LLVMGetVolatile(i))
            for o in I.ops: o.users.append(I)
        for B in F.blocks:
            # drop llvm.dbg / lifetime intrinsics
            B.insts = [I for I in B.insts if not (I.op == 'call' and (I.cname or '').startswith(('llvm.dbg', 'llvm.lifetime')))]
            t = B.insts[-1]
            B.succs = []
            for s in (t.succ or []):
                if s not in B.succs: B.succs.append(s)
        for B in F.blocks:
            for s in B.succs: s.preds.append(B)

def layouts(work, stems):
    """struct name -> [(offset, field name)] from clang's record layouts (all current headers)."""
    out = {}
    txt = b''
    import concurrent.futures
    def one(s):
        return run([CLANG, '-fsyntax-only', '-Xclang', '-fdump-record-layouts-complete'] + cflags(work) + [os.path.join(REPO, s + '.c')], cwd=work)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for t in ex.map(one, stems):
            for blk in t.decode('utf8', 'replace').split('*** Dumping AST Record Layout')[1:]:
                lines = blk.strip('\n').split('\n')
                m = re.match(r'^\s*0 \| (?:struct|union) (\S+)', lines[0])
                if not m: continue
                name = m.group(1)
                if name in out: continue
                fl = []
                for l in lines[1:]:
                    mm = re.match(r'^\s*(\d+)(?::\S+)? \|   (\S.*?)\s*([A-Za-z_]\w*)?$', l)
                    if mm and not l.split('|')[1].startswith('    '):
                        fl.append((int(mm.group(1)), mm.group(3)))
                out[name] = fl
    return out

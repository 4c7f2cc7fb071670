"""Load LLVM IR (clang 18) through the LLVM-C API into plain Python objects.

Functions are decoded lazily.  Operand encoding (tuples):
  ('v', n)            local SSA value n (argument or instruction)
  ('i', width, n)     integer constant
  ('null',)           null pointer
  ('g', name)         global variable or function address
  ('undef', ty)       undef/poison
  ('zero', ty)        zeroinitializer
  ('agg', [ops])      constant struct/array
  ('bytes', b)        constant string
  ('ce', opcode, [ops], extra, ty)   constant expression
  ('fp', ty, str)     floating constant (opaque)
Types (tuples): ('i',w) ('ptr',) ('void',) ('struct',(tys),(offs),size) ('arr',n,ty,size)
  ('fp',bits) ('vec',n,ty,size) ('other',)
"""
import ctypes as C

_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = C.CDLL('/usr/lib/llvm-18/lib/libLLVM.so')
        L = _lib
        P = C.c_void_p
        U = C.c_uint
        sig = {
            'LLVMContextCreate': (P, []),
            'LLVMCreateMemoryBufferWithContentsOfFile': (C.c_int, [C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p)]),
            'LLVMParseIRInContext': (C.c_int, [P, P, C.POINTER(P), C.POINTER(C.c_char_p)]),
            'LLVMGetFirstFunction': (P, [P]), 'LLVMGetNextFunction': (P, [P]),
            'LLVMGetFirstGlobal': (P, [P]), 'LLVMGetNextGlobal': (P, [P]),
            'LLVMGetFirstGlobalAlias': (P, [P]), 'LLVMGetNextGlobalAlias': (P, [P]), 'LLVMAliasGetAliasee': (P, [P]),
            'LLVMGetValueName2': (C.c_void_p, [P, C.POINTER(C.c_size_t)]),
            'LLVMCountBasicBlocks': (U, [P]),
            'LLVMGetFirstBasicBlock': (P, [P]), 'LLVMGetNextBasicBlock': (P, [P]),
            'LLVMGetFirstInstruction': (P, [P]), 'LLVMGetNextInstruction': (P, [P]),
            'LLVMGetInstructionOpcode': (U, [P]), 'LLVMGetConstOpcode': (U, [P]),
            'LLVMTypeOf': (P, [P]), 'LLVMGetTypeKind': (U, [P]), 'LLVMGetIntTypeWidth': (U, [P]),
            'LLVMCountStructElementTypes': (U, [P]), 'LLVMStructGetTypeAtIndex': (P, [P, U]),
            'LLVMGetArrayLength2': (C.c_uint64, [P]), 'LLVMGetElementType': (P, [P]), 'LLVMGetVectorSize': (U, [P]),
            'LLVMGetModuleDataLayout': (P, [P]),
            'LLVMABISizeOfType': (C.c_ulonglong, [P, P]), 'LLVMStoreSizeOfType': (C.c_ulonglong, [P, P]),
            'LLVMOffsetOfElement': (C.c_ulonglong, [P, P, U]),
            'LLVMIsOpaqueStruct': (C.c_int, [P]),
            'LLVMGetNumOperands': (C.c_int, [P]), 'LLVMGetOperand': (P, [P, U]),
            'LLVMGetValueKind': (U, [P]),
            'LLVMConstIntGetZExtValue': (C.c_ulonglong, [P]),
            'LLVMPrintValueToString': (C.c_void_p, [P]), 'LLVMDisposeMessage': (None, [P]),
            'LLVMCountParams': (U, [P]), 'LLVMGetParam': (P, [P, U]),
            'LLVMIsConditional': (C.c_int, [P]), 'LLVMGetCondition': (P, [P]),
            'LLVMGetNumSuccessors': (U, [P]), 'LLVMGetSuccessor': (P, [P, U]),
            'LLVMGetCalledValue': (P, [P]), 'LLVMGetNumArgOperands': (U, [P]),
            'LLVMGetNormalDest': (P, [P]), 'LLVMGetUnwindDest': (P, [P]),
            'LLVMGetICmpPredicate': (U, [P]),
            'LLVMCountIncoming': (U, [P]), 'LLVMGetIncomingValue': (P, [P, U]), 'LLVMGetIncomingBlock': (P, [P, U]),
            'LLVMGetNumIndices': (U, [P]), 'LLVMGetIndices': (C.POINTER(U), [P]),
            'LLVMGetGEPSourceElementType': (P, [P]),
            'LLVMGetOrdering': (U, [P]), 'LLVMGetAtomicRMWBinOp': (U, [P]),
            'LLVMGetCmpXchgSuccessOrdering': (U, [P]), 'LLVMGetCmpXchgFailureOrdering': (U, [P]),
            'LLVMGetWeak': (C.c_int, [P]),
            'LLVMGetAllocatedType': (P, [P]), 'LLVMGetNumClauses': (U, [P]), 'LLVMGetClause': (P, [P, U]),
            'LLVMIsCleanup': (C.c_int, [P]), 'LLVMGetInitializer': (P, [P]), 'LLVMIsGlobalConstant': (C.c_int, [P]),
            'LLVMIsThreadLocal': (C.c_int, [P]), 'LLVMGlobalGetValueType': (P, [P]),
            'LLVMGetDebugLocLine': (U, [P]),
            'LLVMGetDebugLocFilename': (C.c_void_p, [P, C.POINTER(U)]),
            'LLVMGetAsString': (C.c_void_p, [P, C.POINTER(C.c_size_t)]), 'LLVMIsConstantString': (C.c_int, [P]),
            'LLVMGetAggregateElement': (P, [P, U]),
            'LLVMGetNumOperandBundles': (U, [P]), 'LLVMGetOperandBundleAtIndex': (P, [P, U]),
            'LLVMGetOperandBundleTag': (C.c_void_p, [P, C.POINTER(C.c_size_t)]),
            'LLVMGetNumOperandBundleArgs': (U, [P]), 'LLVMGetOperandBundleArgAtIndex': (P, [P, U]),
            'LLVMGetReturnType': (P, [P]),
            'LLVMGetNSW': (C.c_int, [P]),
            'LLVMGetEnumAttributeKindForName': (U, [C.c_char_p, C.c_size_t]),
            'LLVMGetEnumAttributeAtIndex': (P, [P, U, U]),
        }
        for n, (r, a) in sig.items():
            f = getattr(L, n)
            f.restype = r
            f.argtypes = a
    return _lib


OPN = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 8: 'add', 10: 'sub', 12: 'mul', 14: 'udiv',
       15: 'sdiv', 17: 'urem', 18: 'srem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 39: 'ptrtoint',
       40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 53: 'extractvalue',
       54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'rmw', 58: 'resume', 59: 'landingpad',
       9: 'fadd', 11: 'fsub', 13: 'fmul', 16: 'fdiv', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp',
       37: 'fptrunc', 38: 'fpext', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 60: 'addrspacecast'}
ORD = {0: 'na', 1: 'unordered', 2: 'relaxed', 4: 'acquire', 5: 'release', 6: 'acq_rel', 7: 'seq_cst'}
RMW = {0: 'xchg', 1: 'add', 2: 'sub', 3: 'and', 4: 'nand', 5: 'or', 6: 'xor', 7: 'max', 8: 'min', 9: 'umax', 10: 'umin'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}


class Inst:
    __slots__ = ('op', 'id', 'ty', 'ops', 'x', 'line', 'file', 'fn')


class Block:
    __slots__ = ('id', 'insts', 'succs')


class Func:
    def __init__(self, mod, ref, name):
        self.mod, self.ref, self.name = mod, ref, name
        self.isdecl = lib().LLVMCountBasicBlocks(ref) == 0
        self._blocks = None
        self.loops = None
        self.dem = name

    @property
    def blocks(self):
        if self._blocks is None:
            self.mod._decode(self)
        return self._blocks


class Global:
    __slots__ = ('name', 'ref', 'ty', 'init', 'const', 'tls', 'size', 'mod')


def _cstr(p, n):
    return C.string_at(p, n).decode('utf-8', 'replace') if p else ''


class Module:
    def __init__(self, path):
        L = lib()
        ctx = L.LLVMContextCreate()
        mb = C.c_void_p()
        err = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(mb), C.byref(err)):
            raise RuntimeError(err.value)
        m = C.c_void_p()
        if L.LLVMParseIRInContext(ctx, mb, C.byref(m), C.byref(err)):
            raise RuntimeError(err.value)
        self.m = m
        import layout
        self.layout = layout.extract(path)
        self.td = L.LLVMGetModuleDataLayout(m)
        self._ty = {}
        self._nounwind = L.LLVMGetEnumAttributeKindForName(b'nounwind', 8)
        self.funcs = {}
        f = L.LLVMGetFirstFunction(m)
        while f:
            n = self._name(f)
            self.funcs[n] = Func(self, f, n)
            f = L.LLVMGetNextFunction(f)
        a = L.LLVMGetFirstGlobalAlias(m)
        while a:
            n = self._name(a)
            t = self._name(L.LLVMAliasGetAliasee(a))
            if t in self.funcs:
                self.funcs[n] = self.funcs[t]
            a = L.LLVMGetNextGlobalAlias(a)
        self.globals = {}
        g = L.LLVMGetFirstGlobal(m)
        while g:
            G = Global()
            G.name = self._name(g)
            G.ref = g
            G.mod = self
            G.ty = self.ty(L.LLVMGlobalGetValueType(g))
            G.const = bool(L.LLVMIsGlobalConstant(g))
            G.tls = bool(L.LLVMIsThreadLocal(g))
            G.size = self.size(G.ty)
            ini = L.LLVMGetInitializer(g)
            G.init = ini
            self.globals[G.name] = G
            g = L.LLVMGetNextGlobal(g)
        self._demangle()

    def _demangle(self):
        import subprocess
        names = list(self.funcs)
        out = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(names), capture_output=True,
                             text=True).stdout.split('\n')
        for n, d in zip(names, out):
            self.funcs[n].dem = d

    def _name(self, v):
        n = C.c_size_t()
        p = lib().LLVMGetValueName2(v, C.byref(n))
        return _cstr(p, n.value)

    def ty(self, t):
        r = self._ty.get(t)
        if r is None:
            L = lib()
            k = L.LLVMGetTypeKind(t)
            if k == 0:
                r = ('void',)
            elif k == 8:
                r = ('i', L.LLVMGetIntTypeWidth(t))
            elif k == 12:
                r = ('ptr',)
            elif k == 10:
                if L.LLVMIsOpaqueStruct(t):
                    r = ('other',)
                else:
                    n = L.LLVMCountStructElementTypes(t)
                    r = ('struct', tuple(self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)),
                         tuple(L.LLVMOffsetOfElement(self.td, t, i) for i in range(n)), L.LLVMABISizeOfType(self.td, t))
            elif k == 11:
                r = ('arr', L.LLVMGetArrayLength2(t), self.ty(L.LLVMGetElementType(t)), L.LLVMABISizeOfType(self.td, t))
            elif k == 13:
                r = ('vec', L.LLVMGetVectorSize(t), self.ty(L.LLVMGetElementType(t)), L.LLVMABISizeOfType(self.td, t))
            elif k in (2, 3, 4, 5, 6):
                r = ('fp', L.LLVMABISizeOfType(self.td, t) * 8)
            else:
                r = ('other',)
            self._ty[t] = r
        return r

    @staticmethod
    def size(t):
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            return b if b in (1, 2, 4, 8, 16) else (16 if b > 8 else 8)
        if k == 'ptr':
            return 8
        if k in ('struct', 'arr', 'vec'):
            return t[3]
        if k == 'fp':
            return t[1] // 8
        return 0

    def operand(self, v, ids):
        r = ids.get(v)
        if r is not None:
            return ('v', r)
        L = lib()
        k = L.LLVMGetValueKind(v)
        t = self.ty(L.LLVMTypeOf(v))
        # LLVMValueKind: Argument0 BasicBlock1 MemoryUse2 MemoryDef3 MemoryPhi4 Function5 GlobalAlias6 IFunc7
        # GlobalVariable8 BlockAddress9 ConstantExpr10 ConstantArray11 ConstantStruct12 ConstantVector13 Undef14
        # AggregateZero15 DataArray16 DataVector17 Int18 FP19 PointerNull20 TokenNone21 MetadataAsValue22 InlineAsm23
        # Instruction24 Poison25 TargetNone26
        if k in (5, 6, 7, 8):
            return ('g', self._name(v))
        if k == 18:
            w = t[1]
            if w <= 64:
                return ('i', w, L.LLVMConstIntGetZExtValue(v) & ((1 << w) - 1))
            p = L.LLVMPrintValueToString(v)
            s = C.string_at(p).decode()
            L.LLVMDisposeMessage(p)
            return ('i', w, int(s.split()[-1]) & ((1 << w) - 1))
        if k == 20:
            return ('null',)
        if k in (14, 25):
            return ('undef', t)
        if k == 15:
            return ('zero', t)
        if k == 16 and L.LLVMIsConstantString(v):
            n = C.c_size_t()
            p = L.LLVMGetAsString(v, C.byref(n))
            return ('bytes', C.string_at(p, n.value))
        if k in (11, 12, 13, 16, 17):
            if t[0] == 'struct':
                n = len(t[1])
            else:
                n = t[1]
            return ('agg', [self.operand(L.LLVMGetAggregateElement(v, i), ids) for i in range(n)], t)
        if k == 10:
            op = OPN[L.LLVMGetConstOpcode(v)]
            ops = [self.operand(L.LLVMGetOperand(v, i), ids) for i in range(L.LLVMGetNumOperands(v))]
            x = None
            if op == 'gep':
                x = self.ty(L.LLVMGetGEPSourceElementType(v))
            return ('ce', op, ops, x, t)
        if k == 19:
            return ('fp', t)
        if k in (21, 22, 23):
            return ('meta',)
        if k == 24:
            raise RuntimeError('forward ref')
        return ('other', k)

    def _decode(self, F):
        L = lib()
        ids = {}
        F.params = []
        F.ptys = []
        F.vty = {}
        n = 0
        for i in range(L.LLVMCountParams(F.ref)):
            p = L.LLVMGetParam(F.ref, i)
            ids[p] = n
            F.params.append(n)
            F.ptys.append(self.ty(L.LLVMTypeOf(p)))
            F.vty[n] = F.ptys[-1]
            n += 1
        F.retty = self.ty(L.LLVMGetReturnType(L.LLVMGlobalGetValueType(F.ref)))
        F.nounwind = bool(L.LLVMGetEnumAttributeAtIndex(F.ref, 0xFFFFFFFF, self._nounwind))
        bbs = []
        bbid = {}
        bb = L.LLVMGetFirstBasicBlock(F.ref)
        while bb:
            bbid[bb] = len(bbs)
            bbs.append(bb)
            bb = L.LLVMGetNextBasicBlock(bb)
        raw = []
        for bb in bbs:
            lst = []
            i = L.LLVMGetFirstInstruction(bb)
            while i:
                ids[i] = n
                lst.append(i)
                F.vty[n] = self.ty(L.LLVMTypeOf(i))
                n += 1
                i = L.LLVMGetNextInstruction(i)
            raw.append(lst)
        blocks = []
        for bi, lst in enumerate(raw):
            B = Block()
            B.id = bi
            B.insts = []
            B.succs = []
            for i in lst:
                B.insts.append(self._inst(F, i, ids, bbid))
            t = B.insts[-1]
            if t.op == 'br':
                B.succs = list(t.x)
            elif t.op == 'switch':
                B.succs = [t.x[0]] + [d for _, d in t.x[1]]
            elif t.op == 'invoke':
                B.succs = [t.x['normal'], t.x['unwind']]
            blocks.append(B)
        F._blocks = blocks
        return F

    def _inst(self, F, i, ids, bbid):
        L = lib()
        I = Inst()
        oc = L.LLVMGetInstructionOpcode(i)
        I.op = op = OPN.get(oc, 'op%d' % oc)
        I.id = ids[i]
        I.ty = self.ty(L.LLVMTypeOf(i))
        I.x = None
        I.fn = F
        I.line = L.LLVMGetDebugLocLine(i)
        n = C.c_uint()
        I.file = None
        if I.line:
            p = L.LLVMGetDebugLocFilename(i, C.byref(n))
            I.file = _cstr(p, n.value)
        O = lambda v: self.operand(v, ids)
        no = L.LLVMGetNumOperands(i)
        if op == 'br':
            I.ops = []
            if L.LLVMIsConditional(i):
                I.ops = [O(L.LLVMGetCondition(i))]
            I.x = [bbid[L.LLVMGetSuccessor(i, k)] for k in range(L.LLVMGetNumSuccessors(i))]
        elif op == 'switch':
            I.ops = [O(L.LLVMGetOperand(i, 0))]
            ns = L.LLVMGetNumSuccessors(i)
            cases = []
            for k in range(1, ns):
                cases.append((O(L.LLVMGetOperand(i, 2 * k))[2], bbid[L.LLVMGetSuccessor(i, k)]))
            I.x = (bbid[L.LLVMGetSuccessor(i, 0)], cases)
        elif op in ('call', 'invoke'):
            na = L.LLVMGetNumArgOperands(i)
            I.ops = [O(L.LLVMGetOperand(i, k)) for k in range(na)]
            x = {'callee': O(L.LLVMGetCalledValue(i))}
            if op == 'invoke':
                x['normal'] = bbid[L.LLVMGetNormalDest(i)]
                x['unwind'] = bbid[L.LLVMGetUnwindDest(i)]
            nb = L.LLVMGetNumOperandBundles(i)
            if nb:
                bl = []
                for k in range(nb):
                    b = L.LLVMGetOperandBundleAtIndex(i, k)
                    ln = C.c_size_t()
                    tag = _cstr(L.LLVMGetOperandBundleTag(b, C.byref(ln)), ln.value)
                    bl.append((tag, [O(L.LLVMGetOperandBundleArgAtIndex(b, q)) for q in
                                     range(L.LLVMGetNumOperandBundleArgs(b))]))
                x['bundles'] = bl
            I.x = x
        elif op == 'phi':
            I.ops = []
            I.x = [(bbid[L.LLVMGetIncomingBlock(i, k)], O(L.LLVMGetIncomingValue(i, k))) for k in
                   range(L.LLVMCountIncoming(i))]
        else:
            I.ops = [O(L.LLVMGetOperand(i, k)) for k in range(no)]
            if op == 'icmp':
                I.x = PRED[L.LLVMGetICmpPredicate(i)]
                I.x = (I.x, self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))))
            elif op == 'gep':
                I.x = self.ty(L.LLVMGetGEPSourceElementType(i))
            elif op == 'alloca':
                I.x = self.ty(L.LLVMGetAllocatedType(i))
            elif op == 'load':
                I.x = ORD[L.LLVMGetOrdering(i)]
            elif op == 'store':
                I.x = (ORD[L.LLVMGetOrdering(i)], self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))))
            elif op == 'rmw':
                I.x = (RMW[L.LLVMGetAtomicRMWBinOp(i)], ORD[L.LLVMGetOrdering(i)])
            elif op == 'cmpxchg':
                I.x = (ORD[L.LLVMGetCmpXchgSuccessOrdering(i)], ORD[L.LLVMGetCmpXchgFailureOrdering(i)],
                       bool(L.LLVMGetWeak(i)), self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 1))))
            elif op == 'fence':
                I.x = ORD[L.LLVMGetOrdering(i)]
            elif op in ('extractvalue', 'insertvalue'):
                k = L.LLVMGetNumIndices(i)
                p = L.LLVMGetIndices(i)
                I.x = [p[q] for q in range(k)]
            elif op == 'landingpad':
                I.x = ([O(L.LLVMGetClause(i, k)) for k in range(L.LLVMGetNumClauses(i))], bool(L.LLVMIsCleanup(i)))
                I.ops = []
            elif op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
                I.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
        return I

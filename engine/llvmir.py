"""LLVM IR access through the LLVM C API (libLLVM-18, ctypes).

Decodes functions of a bitcode/.ll module into plain Python structures.  The
module is the one clang produced from /repo's current headers, so everything the
executor runs is the compiler's own translation of the code under test.
"""
import ctypes as C

_L = None


def lib():
    global _L
    if _L is not None:
        return _L
    for n in ('/usr/lib/llvm-18/lib/libLLVM.so.1', 'libLLVM-18.so.1', 'libLLVM-18.so', 'libLLVM.so.18.1'):
        try:
            L = C.CDLL(n)
            break
        except OSError:
            continue
    else:
        raise RuntimeError('libLLVM-18 not found')
    P, U, S = C.c_void_p, C.c_uint, C.c_char_p
    sigs = {
        'LLVMContextCreate': (P, []),
        'LLVMCreateMemoryBufferWithContentsOfFile': (C.c_int, [S, P, P]),
        'LLVMParseIRInContext': (C.c_int, [P, P, P, P]),
        'LLVMGetModuleDataLayout': (P, [P]),
        'LLVMGetFirstFunction': (P, [P]), 'LLVMGetNextFunction': (P, [P]),
        'LLVMGetFirstGlobal': (P, [P]), 'LLVMGetNextGlobal': (P, [P]),
        'LLVMGetValueName2': (P, [P, P]),
        'LLVMIsDeclaration': (C.c_int, [P]),
        'LLVMCountParams': (U, [P]), 'LLVMGetParam': (P, [P, U]),
        'LLVMGetFirstBasicBlock': (P, [P]), 'LLVMGetNextBasicBlock': (P, [P]),
        'LLVMGetFirstInstruction': (P, [P]), 'LLVMGetNextInstruction': (P, [P]),
        'LLVMGetInstructionOpcode': (C.c_int, [P]), 'LLVMGetConstOpcode': (C.c_int, [P]),
        'LLVMGetNumOperands': (C.c_int, [P]), 'LLVMGetOperand': (P, [P, U]),
        'LLVMTypeOf': (P, [P]), 'LLVMGetTypeKind': (C.c_int, [P]),
        'LLVMGetIntTypeWidth': (U, [P]), 'LLVMGetElementType': (P, [P]),
        'LLVMGetArrayLength2': (C.c_uint64, [P]), 'LLVMGetVectorSize': (U, [P]),
        'LLVMCountStructElementTypes': (U, [P]), 'LLVMStructGetTypeAtIndex': (P, [P, U]),
        'LLVMABISizeOfType': (C.c_ulonglong, [P, P]), 'LLVMStoreSizeOfType': (C.c_ulonglong, [P, P]),
        'LLVMOffsetOfElement': (C.c_ulonglong, [P, P, U]), 'LLVMTypeIsSized': (C.c_int, [P]),
        'LLVMGetValueKind': (C.c_int, [P]),
        'LLVMConstIntGetZExtValue': (C.c_ulonglong, [P]),
        'LLVMConstRealGetDouble': (C.c_double, [P, P]),
        'LLVMGetICmpPredicate': (C.c_int, [P]), 'LLVMGetFCmpPredicate': (C.c_int, [P]),
        'LLVMCountIncoming': (U, [P]), 'LLVMGetIncomingValue': (P, [P, U]), 'LLVMGetIncomingBlock': (P, [P, U]),
        'LLVMGetNumSuccessors': (U, [P]), 'LLVMGetSuccessor': (P, [P, U]),
        'LLVMIsConditional': (C.c_int, [P]), 'LLVMGetCondition': (P, [P]),
        'LLVMGetCalledValue': (P, [P]), 'LLVMGetNumArgOperands': (U, [P]),
        'LLVMGetNormalDest': (P, [P]), 'LLVMGetUnwindDest': (P, [P]),
        'LLVMGetAllocatedType': (P, [P]), 'LLVMGetGEPSourceElementType': (P, [P]),
        'LLVMGetNumIndices': (U, [P]), 'LLVMGetIndices': (P, [P]),
        'LLVMGetInitializer': (P, [P]), 'LLVMGlobalGetValueType': (P, [P]),
        'LLVMIsGlobalConstant': (C.c_int, [P]), 'LLVMIsThreadLocal': (C.c_int, [P]),
        'LLVMGetNumClauses': (U, [P]), 'LLVMGetClause': (P, [P, U]), 'LLVMIsCleanup': (C.c_int, [P]),
        'LLVMGetAggregateElement': (P, [P, U]),
        'LLVMGetEnumAttributeKindForName': (U, [S, C.c_size_t]),
        'LLVMGetEnumAttributeAtIndex': (P, [P, U, U]), 'LLVMGetTypeAttributeValue': (P, [P]),
        'LLVMGetNumMaskElements': (U, [P]), 'LLVMGetMaskValue': (C.c_int, [P, U]),
        'LLVMGetNSW': (C.c_int, [P]),
        'LLVMPrintValueToString': (P, [P]),
        'LLVMGetReturnType': (P, [P]),
        'LLVMBlockAddress': (P, [P, P]),
        'LLVMGetAtomicRMWBinOp': (C.c_int, [P]),
    }
    for k, (r, a) in sigs.items():
        f = getattr(L, k)
        f.restype = r
        f.argtypes = a
    _L = L
    return L


OPC = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub',
       11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem',
       20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store',
       29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp',
       37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi',
       45: 'call', 46: 'select', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue',
       54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad'}


class Ty:
    __slots__ = ('k', 'w', 'elt', 'n', 'fields', 'offs', 'size', 'store')
    # k: 'i','f','p','v'(vector),'s','a','void','x80','other'

    def __repr__(self):
        return '%s%s' % (self.k, self.w or '')


class Ins:
    __slots__ = ('op', 'id', 'ty', 'ops', 'x', 'txt')


class Func:
    __slots__ = ('name', 'decl', 'ref', 'params', 'blocks', 'code', 'starts', 'nregs', 'consts', 'byval', 'decoded',
                 'phis')


class Module:
    def __init__(self, path):
        L = lib()
        self.L = L
        ctx = L.LLVMContextCreate()
        buf = C.c_void_p()
        msg = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(msg.value)
        m = C.c_void_p()
        if L.LLVMParseIRInContext(ctx, buf, C.byref(m), C.byref(msg)):
            raise RuntimeError(msg.value)
        self.m = m
        self.td = L.LLVMGetModuleDataLayout(m)
        self.funcs = {}
        self.fref = {}
        self.globals = {}
        self.gref = {}
        self.tyc = {}
        self.bvkind = L.LLVMGetEnumAttributeKindForName(b'byval', 5)
        f = L.LLVMGetFirstFunction(m)
        while f:
            n = self.vname(f)
            F = Func()
            F.name = n
            F.ref = f
            F.decl = bool(L.LLVMIsDeclaration(f))
            F.decoded = False
            self.funcs[n] = F
            self.fref[f] = F
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(m)
        while g:
            n = self.vname(g)
            self.globals[n] = g
            self.gref[g] = n
            g = L.LLVMGetNextGlobal(g)

    def vname(self, v):
        n = C.c_size_t()
        p = self.L.LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode()

    def ty(self, t):
        r = self.tyc.get(t)
        if r is not None:
            return r
        L = self.L
        k = L.LLVMGetTypeKind(t)
        r = Ty()
        r.w = r.n = 0
        r.elt = r.fields = r.offs = None
        r.size = r.store = 0
        if L.LLVMTypeIsSized(t) and k not in (0, 9):
            r.size = L.LLVMABISizeOfType(self.td, t)
            r.store = L.LLVMStoreSizeOfType(self.td, t)
        if k == 0:
            r.k = 'void'
        elif k in (2, 3):
            r.k = 'f'
            r.w = 32 if k == 2 else 64
        elif k == 8:
            r.k = 'i'
            r.w = L.LLVMGetIntTypeWidth(t)
        elif k == 12:
            r.k = 'p'
            r.w = 64
        elif k == 13:
            r.k = 'v'
            r.n = L.LLVMGetVectorSize(t)
            r.elt = self.ty(L.LLVMGetElementType(t))
        elif k == 11:
            r.k = 'a'
            r.n = L.LLVMGetArrayLength2(t)
            r.elt = self.ty(L.LLVMGetElementType(t))
        elif k == 10:
            r.k = 's'
            r.n = L.LLVMCountStructElementTypes(t)
            r.fields = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(r.n)]
            r.offs = [L.LLVMOffsetOfElement(self.td, t, i) for i in range(r.n)] if r.size else []
        elif k == 4:
            r.k = 'f'
            r.w = 80
        else:
            r.k = 'other'
        self.tyc[t] = r
        return r

    # constants are returned as small descriptors, resolved by the executor
    def const(self, v):
        L = self.L
        k = L.LLVMGetValueKind(v)
        t = self.ty(L.LLVMTypeOf(v))
        if k == 18:
            return ('int', L.LLVMConstIntGetZExtValue(v), t.w)
        if k == 19:
            b = C.c_int()
            return ('fp', L.LLVMConstRealGetDouble(v, C.byref(b)), t.w)
        if k == 20:
            return ('int', 0, 64)
        if k in (14, 25):
            return ('undef', t)
        if k == 15:
            return ('zero', t)
        if k == 5:
            return ('func', self.vname(v))
        if k == 8:
            return ('glob', self.gref.get(v) or self.vname(v))
        if k == 6:
            return ('func', self.vname(v))
        if k in (11, 12, 13, 16, 17):
            n = t.n
            return ('agg', t, [self.const(L.LLVMGetAggregateElement(v, i)) for i in range(n)])
        if k == 10:
            op = OPC[L.LLVMGetConstOpcode(v)]
            ops = [self.const(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
            x = None
            if op == 'gep':
                x = self.ty(L.LLVMGetGEPSourceElementType(v))
            return ('expr', op, ops, x, t)
        return ('bad', k)

    def initializer(self, name):
        g = self.globals[name]
        i = self.L.LLVMGetInitializer(g)
        t = self.ty(self.L.LLVMGlobalGetValueType(g))
        return t, (self.const(i) if i else None), bool(self.L.LLVMIsGlobalConstant(g))

    def decode(self, F):
        if F.decoded:
            return F
        L = self.L
        F.decoded = True
        regs = {}
        nreg = 0
        F.byval = []
        F.params = []
        for i in range(L.LLVMCountParams(F.ref)):
            p = L.LLVMGetParam(F.ref, i)
            regs[p] = nreg
            nreg += 1
            F.params.append(self.ty(L.LLVMTypeOf(p)))
            a = L.LLVMGetEnumAttributeAtIndex(F.ref, i + 1, self.bvkind)
            if a:
                F.byval.append((i, self.ty(L.LLVMGetTypeAttributeValue(a)).size))
        if F.decl:
            return F
        bbs = []
        bbi = {}
        b = L.LLVMGetFirstBasicBlock(F.ref)
        while b:
            bbi[b] = len(bbs)
            ins = []
            i = L.LLVMGetFirstInstruction(b)
            while i:
                ins.append(i)
                regs[i] = nreg
                nreg += 1
                i = L.LLVMGetNextInstruction(i)
            bbs.append(ins)
            b = L.LLVMGetNextBasicBlock(b)
        consts = []       # (reg, descriptor)
        cmap = {}

        def opnd(v):
            nonlocal nreg
            r = regs.get(v)
            if r is not None:
                return r
            r = cmap.get(v)
            if r is None:
                r = nreg
                nreg += 1
                cmap[v] = r
                consts.append((r, self.const(v)))
            return r

        code = []
        starts = []
        phis = []
        for bi, ins in enumerate(bbs):
            ph = []
            body = []
            for i in ins:
                I = Ins()
                I.op = OPC.get(L.LLVMGetInstructionOpcode(i), 'unknown')
                I.id = regs[i]
                I.ty = self.ty(L.LLVMTypeOf(i))
                I.x = None
                I.txt = None
                op = I.op
                if op == 'phi':
                    ph.append((I.id, {bbi[L.LLVMGetIncomingBlock(i, k)]: opnd(L.LLVMGetIncomingValue(i, k))
                                      for k in range(L.LLVMCountIncoming(i))}))
                    continue
                n = L.LLVMGetNumOperands(i)
                if op == 'br':
                    if L.LLVMIsConditional(i):
                        I.ops = [opnd(L.LLVMGetCondition(i))]
                        I.x = (bbi[L.LLVMGetSuccessor(i, 0)], bbi[L.LLVMGetSuccessor(i, 1)])
                    else:
                        I.ops = []
                        I.x = (bbi[L.LLVMGetSuccessor(i, 0)],)
                elif op == 'switch':
                    I.ops = [opnd(L.LLVMGetOperand(i, 0))]
                    dflt = bbi[L.LLVMGetSuccessor(i, 0)]
                    cases = []
                    for k in range(2, n, 2):
                        cases.append((L.LLVMConstIntGetZExtValue(L.LLVMGetOperand(i, k)),
                                      bbi[L.LLVMGetSuccessor(i, k // 2)]))
                    I.x = (dflt, cases, self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))))
                elif op in ('call', 'invoke'):
                    na = L.LLVMGetNumArgOperands(i)
                    I.ops = [opnd(L.LLVMGetOperand(i, k)) for k in range(na)]
                    cv = L.LLVMGetCalledValue(i)
                    vk = L.LLVMGetValueKind(cv)
                    name = self.vname(cv) if vk == 5 else None
                    if name is not None and name.startswith('llvm.dbg'):
                        continue
                    argt = [self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, k))) for k in range(na)]
                    I.x = [name, None if name is not None else opnd(cv), argt, None, None]
                    if op == 'invoke':
                        I.x[3] = bbi[L.LLVMGetNormalDest(i)]
                        I.x[4] = bbi[L.LLVMGetUnwindDest(i)]
                elif op == 'landingpad':
                    I.ops = []
                    cl = []
                    for k in range(L.LLVMGetNumClauses(i)):
                        cl.append(opnd(L.LLVMGetClause(i, k)))
                    I.x = (bool(L.LLVMIsCleanup(i)), cl)
                else:
                    I.ops = [opnd(L.LLVMGetOperand(i, k)) for k in range(n)]
                    if op == 'icmp':
                        I.x = (L.LLVMGetICmpPredicate(i), self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))))
                    elif op == 'fcmp':
                        I.x = (L.LLVMGetFCmpPredicate(i), self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))))
                    elif op == 'alloca':
                        I.x = self.ty(L.LLVMGetAllocatedType(i))
                    elif op == 'gep':
                        I.x = (self.ty(L.LLVMGetGEPSourceElementType(i)),
                               [self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, k))) for k in range(1, n)])
                    elif op in ('extractvalue', 'insertvalue'):
                        ni = L.LLVMGetNumIndices(i)
                        arr = C.cast(L.LLVMGetIndices(i), C.POINTER(C.c_uint))
                        I.x = [arr[k] for k in range(ni)]
                    elif op == 'shufflevector':
                        I.x = [L.LLVMGetMaskValue(i, k) for k in range(L.LLVMGetNumMaskElements(i))]
                    elif op in ('store',):
                        I.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    elif op in ('trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext',
                                'bitcast', 'ptrtoint', 'inttoptr', 'fneg', 'freeze'):
                        I.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    elif op in ('add', 'sub', 'mul', 'shl'):
                        I.x = bool(L.LLVMGetNSW(i))
                    elif op == 'atomicrmw':
                        I.x = L.LLVMGetAtomicRMWBinOp(i)
                body.append(I)
            starts.append(len(code))
            phis.append(ph)
            code.extend((I, bi) for I in body)
        F.code = [c[0] for c in code]
        F.starts = starts
        F.phis = phis
        F.nregs = nreg
        F.consts = consts
        return F

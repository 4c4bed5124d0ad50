"""LLVM IR loaded through the LLVM-C API (ctypes on the installed libLLVM).

Only reads the IR: nothing is compiled or executed here.
"""
import ctypes as C
import glob
import os

_lib = None


def lib():
    global _lib
    if _lib is None:
        cands = sorted(glob.glob('/usr/lib/llvm-*/lib/libLLVM*.so*')) + \
            sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libLLVM*.so*'))
        err = None
        for c in cands:
            try:
                _lib = C.CDLL(os.path.realpath(c))
                _lib.LLVMParseIRInContext
                break
            except Exception as e:  # pragma: no cover
                err = e
                _lib = None
        if _lib is None:
            raise RuntimeError('libLLVM not loadable: %s' % err)
        P = C.c_void_p
        U = C.c_uint

        def sig(name, res, *args):
            f = getattr(_lib, name)
            f.restype = res
            f.argtypes = list(args)
        sig('LLVMContextCreate', P)
        sig('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
        sig('LLVMParseIRInContext', C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
        for n in ('LLVMGetFirstFunction', 'LLVMGetFirstGlobal', 'LLVMGetModuleDataLayout'):
            sig(n, P, P)
        for n in ('LLVMGetNextFunction', 'LLVMGetNextGlobal', 'LLVMGetFirstBasicBlock', 'LLVMGetNextBasicBlock',
                  'LLVMGetFirstInstruction', 'LLVMGetNextInstruction', 'LLVMTypeOf', 'LLVMGetBasicBlockTerminator',
                  'LLVMGetCalledValue', 'LLVMGetAllocatedType', 'LLVMGetGEPSourceElementType', 'LLVMGetInitializer',
                  'LLVMGlobalGetValueType', 'LLVMBasicBlockAsValue', 'LLVMGetElementType', 'LLVMGetReturnType',
                  'LLVMGetInstructionParent', 'LLVMValueAsBasicBlock', 'LLVMIsAInstruction', 'LLVMIsAFunction',
                  'LLVMIsAGlobalVariable', 'LLVMIsAConstantExpr', 'LLVMIsAConstantInt', 'LLVMIsAConstantFP',
                  'LLVMIsAConstantPointerNull', 'LLVMIsAUndefValue', 'LLVMIsAPoisonValue', 'LLVMIsAConstantAggregateZero',
                  'LLVMIsAArgument', 'LLVMIsABasicBlock', 'LLVMIsAConstantDataArray', 'LLVMIsAConstantArray',
                  'LLVMIsAConstantStruct', 'LLVMIsAGlobalAlias', 'LLVMIsAInlineAsm'):
            sig(n, P, P)
        for n in ('LLVMGetInstructionOpcode', 'LLVMGetICmpPredicate', 'LLVMGetFCmpPredicate', 'LLVMGetTypeKind',
                  'LLVMGetConstOpcode', 'LLVMIsDeclaration', 'LLVMIsGlobalConstant', 'LLVMGetLinkage',
                  'LLVMIsThreadLocal', 'LLVMGetNumOperands', 'LLVMIsFunctionVarArg', 'LLVMIsConstant'):
            sig(n, C.c_int, P)
        for n in ('LLVMCountParams', 'LLVMGetIntTypeWidth', 'LLVMCountIncoming', 'LLVMGetNumSuccessors',
                  'LLVMGetNumArgOperands', 'LLVMGetDebugLocLine', 'LLVMCountStructElementTypes', 'LLVMGetArrayLength',
                  'LLVMGetNumIndices'):
            sig(n, U, P)
        for n in ('LLVMGetParam', 'LLVMGetOperand', 'LLVMGetIncomingValue', 'LLVMGetIncomingBlock',
                  'LLVMGetSuccessor', 'LLVMStructGetTypeAtIndex', 'LLVMGetAggregateElement'):
            sig(n, P, P, U)
        sig('LLVMGetValueName2', C.c_char_p, P, C.POINTER(C.c_size_t))
        sig('LLVMConstIntGetZExtValue', C.c_ulonglong, P)
        sig('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
        sig('LLVMABISizeOfType', C.c_ulonglong, P, P)
        sig('LLVMOffsetOfElement', C.c_ulonglong, P, P, U)
        sig('LLVMGetDebugLocFilename', P, P, C.POINTER(C.c_uint))
        sig('LLVMGetAsString', P, P, C.POINTER(C.c_size_t))
        sig('LLVMPrintValueToString', P, P)
        sig('LLVMPrintTypeToString', P, P)
        sig('LLVMDisposeMessage', None, P)
        sig('LLVMConstIntGetSExtValue', C.c_longlong, P)
    return _lib


OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
       17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'getelementptr', 30: 'trunc', 31: 'zext', 32: 'sext',
       33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint',
       40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call',
       46: 'select', 68: 'freeze', 49: 'va_arg', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector',
       53: 'extractvalue', 54: 'insertvalue', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw'}
IPRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FPRED = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
         10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}


class Type:
    __slots__ = ('kind', 'bits', 'size', 'text', 'elems', 'offsets', 'elem', 'count', 'ref')

    def __repr__(self):
        return self.text


class Const:
    """kind: int fp null undef global func expr agg zero str"""
    __slots__ = ('kind', 'ty', 'v', 'op', 'args', 'extra')

    def __init__(self, kind, ty, v=None, op=None, args=None, extra=None):
        self.kind, self.ty, self.v, self.op, self.args, self.extra = kind, ty, v, op, args, extra

    def __repr__(self):
        return 'Const(%s,%r)' % (self.kind, self.v if self.op is None else (self.op, self.args))


class Arg:
    __slots__ = ('name', 'ty', 'index', 'fn')

    def __repr__(self):
        return '%' + self.name


class Inst:
    __slots__ = ('id', 'op', 'ty', 'ops', 'block', 'name', 'pred', 'line', 'file', 'succs', 'incoming', 'callee',
                 'aty', 'gep', 'fn')

    def __repr__(self):
        return '<%s #%d %s:%s>' % (self.op, self.id, os.path.basename(self.file or '?'), self.line)


class Block:
    __slots__ = ('name', 'insts', 'fn', 'idx', 'preds', 'loop')

    def __repr__(self):
        return '%s:%s' % (self.fn.name, self.name)


class Function:
    __slots__ = ('name', 'args', 'blocks', 'decl', 'ret', 'linkage', 'loops', 'file', 'vararg', 'module')

    def __repr__(self):
        return '@' + self.name


class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'linkage', 'tls', 'decl')

    def __repr__(self):
        return '@' + self.name


class Loop:
    __slots__ = ('header', 'blocks', 'latches', 'parent', 'fn')


class Module:
    def __init__(self, path):
        L = self.L = lib()
        ctx = L.LLVMContextCreate()
        buf = C.c_void_p()
        msg = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError('cannot read %s: %s' % (path, msg.value))
        mod = C.c_void_p()
        if L.LLVMParseIRInContext(ctx, buf, C.byref(mod), C.byref(msg)):
            raise RuntimeError('cannot parse %s: %s' % (path, msg.value))
        self.mod = mod
        self.td = L.LLVMGetModuleDataLayout(mod)
        self._types = {}
        self.functions = {}
        self.globals = {}
        self._vals = {}
        self.ninst = 0
        g = L.LLVMGetFirstGlobal(mod)
        gl = []
        while g:
            G = Global()
            G.name = self._name(g)
            G.ty = self._type(L.LLVMGlobalGetValueType(g))
            G.const = bool(L.LLVMIsGlobalConstant(g))
            G.decl = bool(L.LLVMIsDeclaration(g))
            G.linkage = L.LLVMGetLinkage(g)
            G.tls = bool(L.LLVMIsThreadLocal(g))
            G.init = None
            self.globals[G.name] = G
            gl.append((g, G))
            g = L.LLVMGetNextGlobal(g)
        f = L.LLVMGetFirstFunction(mod)
        fl = []
        while f:
            F = Function()
            F.module = self
            F.name = self._name(f)
            F.decl = bool(L.LLVMIsDeclaration(f))
            F.linkage = L.LLVMGetLinkage(f)
            fty = L.LLVMGlobalGetValueType(f)
            F.vararg = bool(L.LLVMIsFunctionVarArg(fty))
            F.ret = self._type(L.LLVMGetReturnType(fty))
            F.args = []
            F.blocks = []
            F.loops = []
            F.file = None
            for i in range(L.LLVMCountParams(f)):
                p = L.LLVMGetParam(f, i)
                A = Arg()
                A.name = self._name(p) or ('arg%d' % i)
                A.ty = self._type(L.LLVMTypeOf(p))
                A.index = i
                A.fn = F
                self._vals[p] = A
                F.args.append(A)
            self.functions[F.name] = F
            fl.append((f, F))
            f = L.LLVMGetNextFunction(f)
        for f, F in fl:
            if not F.decl:
                self._body(f, F)
        for g, G in gl:
            i = L.LLVMGetInitializer(g)
            if i:
                G.init = self._value(i)
        self.defined = [F for F in self.functions.values() if not F.decl]

    # -- helpers
    def _name(self, v):
        n = C.c_size_t()
        return self.L.LLVMGetValueName2(v, C.byref(n)).decode()

    def text(self, v):
        p = self.L.LLVMPrintValueToString(v)
        s = C.cast(p, C.c_char_p).value.decode(errors='replace')
        self.L.LLVMDisposeMessage(p)
        return s

    def _type(self, t):
        r = self._types.get(t)
        if r is not None:
            return r
        L = self.L
        T = Type()
        self._types[t] = T
        T.ref = t
        k = L.LLVMGetTypeKind(t)
        p = L.LLVMPrintTypeToString(t)
        T.text = C.cast(p, C.c_char_p).value.decode()
        L.LLVMDisposeMessage(p)
        T.bits = T.size = T.elems = T.offsets = T.elem = T.count = None
        names = {0: 'void', 2: 'float', 3: 'double', 7: 'label', 8: 'int', 9: 'func', 10: 'struct', 11: 'array',
                 12: 'ptr', 13: 'vector', 14: 'metadata'}
        T.kind = names.get(k, 'other%d' % k)
        if T.kind == 'int':
            T.bits = L.LLVMGetIntTypeWidth(t)
        if T.kind in ('int', 'float', 'double', 'ptr', 'struct', 'array', 'vector'):
            try:
                T.size = L.LLVMABISizeOfType(self.td, t)
            except Exception:
                T.size = None
        if T.kind == 'struct':
            n = L.LLVMCountStructElementTypes(t)
            T.elems = [self._type(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            T.offsets = [L.LLVMOffsetOfElement(self.td, t, i) for i in range(n)]
        if T.kind == 'array':
            T.elem = self._type(L.LLVMGetElementType(t))
            T.count = L.LLVMGetArrayLength(t)
        return T

    def _value(self, v):
        r = self._vals.get(v)
        if r is not None:
            return r
        L = self.L
        ty = self._type(L.LLVMTypeOf(v))
        if L.LLVMIsAConstantInt(v):
            if ty.bits <= 64:
                r = Const('int', ty, L.LLVMConstIntGetZExtValue(v) & ((1 << ty.bits) - 1))
            else:
                r = Const('undef', ty)
        elif L.LLVMIsAConstantFP(v):
            loss = C.c_int()
            r = Const('fp', ty, L.LLVMConstRealGetDouble(v, C.byref(loss)))
        elif L.LLVMIsAConstantPointerNull(v):
            r = Const('null', ty)
        elif L.LLVMIsAUndefValue(v):
            r = Const('undef', ty)
        elif L.LLVMIsAFunction(v):
            r = Const('func', ty, self._name(v))
        elif L.LLVMIsAGlobalVariable(v):
            r = Const('global', ty, self._name(v))
        elif L.LLVMIsAConstantAggregateZero(v):
            r = Const('zero', ty)
        elif L.LLVMIsAConstantDataArray(v) or L.LLVMIsAConstantArray(v) or L.LLVMIsAConstantStruct(v):
            n = ty.count if ty.kind == 'array' else len(ty.elems)
            r = Const('agg', ty, [self._value(L.LLVMGetAggregateElement(v, i)) for i in range(n)])
        elif L.LLVMIsAConstantExpr(v):
            op = OPC.get(L.LLVMGetConstOpcode(v), '?')
            args = [self._value(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
            extra = None
            if op == 'getelementptr':
                extra = self._type(L.LLVMGetGEPSourceElementType(v))
            r = Const('expr', ty, None, op, args, extra)
        elif ty.kind == 'metadata':
            r = Const('undef', ty)
        elif L.LLVMIsAInlineAsm(v):
            r = Const('asm', ty, self.text(v))
        elif L.LLVMIsABasicBlock(v):
            r = Const('undef', ty)
        else:
            if L.LLVMIsAInstruction(v):
                raise KeyError('instruction before definition')
            r = Const('undef', ty)
        self._vals[v] = r
        return r

    def _body(self, f, F):
        L = self.L
        bb = L.LLVMGetFirstBasicBlock(f)
        bmap = {}
        raw = []
        while bb:
            B = Block()
            B.fn = F
            B.idx = len(F.blocks)
            B.name = self._name(L.LLVMBasicBlockAsValue(bb)) or ('bb%d' % B.idx)
            B.insts = []
            B.preds = []
            B.loop = None
            bmap[bb] = B
            F.blocks.append(B)
            ins = L.LLVMGetFirstInstruction(bb)
            while ins:
                op = OPC.get(L.LLVMGetInstructionOpcode(ins), 'op%d' % L.LLVMGetInstructionOpcode(ins))
                I = Inst()
                I.id = self.ninst
                self.ninst += 1
                I.op = op
                I.fn = F
                I.block = B
                I.ty = self._type(L.LLVMTypeOf(ins))
                I.name = self._name(ins)
                I.pred = I.succs = I.incoming = I.callee = I.aty = I.gep = None
                I.line = L.LLVMGetDebugLocLine(ins)
                n = C.c_uint()
                p = L.LLVMGetDebugLocFilename(ins, C.byref(n))
                I.file = C.string_at(p, n.value).decode() if p else None
                if I.file and not F.file:
                    F.file = I.file
                I.ops = []
                self._vals[ins] = I
                B.insts.append(I)
                raw.append((ins, I, bb))
                ins = L.LLVMGetNextInstruction(ins)
            bb = L.LLVMGetNextBasicBlock(bb)
        for ins, I, bb in raw:
            op = I.op
            if op == 'phi':
                I.incoming = [(self._value(L.LLVMGetIncomingValue(ins, i)), bmap[L.LLVMGetIncomingBlock(ins, i)])
                              for i in range(L.LLVMCountIncoming(ins))]
                I.ops = [v for v, _ in I.incoming]
            elif op == 'br':
                n = L.LLVMGetNumSuccessors(ins)
                I.succs = [bmap[L.LLVMGetSuccessor(ins, i)] for i in range(n)]
                I.ops = [self._value(L.LLVMGetOperand(ins, 0))] if n == 2 else []
            elif op == 'switch':
                n = L.LLVMGetNumSuccessors(ins)
                I.succs = [bmap[L.LLVMGetSuccessor(ins, i)] for i in range(n)]
                I.ops = [self._value(L.LLVMGetOperand(ins, 0))]
                no = L.LLVMGetNumOperands(ins)
                for i in range(2, no, 2):
                    I.ops.append(self._value(L.LLVMGetOperand(ins, i)))
            elif op == 'call':
                cv = L.LLVMGetCalledValue(ins)
                I.callee = self._value(cv)
                n = L.LLVMGetNumArgOperands(ins)
                I.ops = [self._value(L.LLVMGetOperand(ins, i)) for i in range(n)]
            else:
                I.ops = [self._value(L.LLVMGetOperand(ins, i)) for i in range(L.LLVMGetNumOperands(ins))]
            if op == 'icmp':
                I.pred = IPRED[L.LLVMGetICmpPredicate(ins)]
            elif op == 'fcmp':
                I.pred = FPRED[L.LLVMGetFCmpPredicate(ins)]
            elif op == 'alloca':
                I.aty = self._type(L.LLVMGetAllocatedType(ins))
            elif op == 'getelementptr':
                I.gep = self._type(L.LLVMGetGEPSourceElementType(ins))
        for B in F.blocks:
            for s in (B.insts[-1].succs or []):
                s.preds.append(B)
        F.loops = find_loops(F)


def find_loops(F):
    blocks = F.blocks
    if not blocks:
        return []
    n = len(blocks)
    order = []
    seen = set()

    def dfs(b):
        stack = [(b, iter(b.insts[-1].succs or []))]
        seen.add(b.idx)
        while stack:
            x, it = stack[-1]
            for s in it:
                if s.idx not in seen:
                    seen.add(s.idx)
                    stack.append((s, iter(s.insts[-1].succs or [])))
                    break
            else:
                order.append(x)
                stack.pop()
    dfs(blocks[0])
    rpo = order[::-1]
    dom = {b.idx: None for b in rpo}
    dom[blocks[0].idx] = {blocks[0].idx}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            ps = [dom[p.idx] for p in b.preds if dom.get(p.idx) is not None]
            if not ps:
                continue
            d = set.intersection(*ps) | {b.idx}
            if d != dom[b.idx]:
                dom[b.idx] = d
                changed = True
    loops = {}
    for b in rpo:
        for s in (b.insts[-1].succs or []):
            if dom[b.idx] is not None and s.idx in dom[b.idx]:
                lp = loops.setdefault(s.idx, None)
                if lp is None:
                    lp = loops[s.idx] = Loop()
                    lp.header = s
                    lp.blocks = {s.idx}
                    lp.latches = []
                    lp.parent = None
                    lp.fn = F
                lp.latches.append(b)
                work = [b]
                while work:
                    x = work.pop()
                    if x.idx in lp.blocks:
                        continue
                    lp.blocks.add(x.idx)
                    work.extend(x.preds)
    # irreducible flow: retreating edge whose target does not dominate its source
    pos = {b.idx: i for i, b in enumerate(rpo)}
    F_irreducible = []
    for b in rpo:
        for s in (b.insts[-1].succs or []):
            if pos[s.idx] <= pos[b.idx] and s.idx not in dom[b.idx]:
                F_irreducible.append((b, s))
    res = sorted(loops.values(), key=lambda l: len(l.blocks))
    for b in blocks:
        for l in res:
            if b.idx in l.blocks:
                b.loop = l
                break
    for i, l in enumerate(res):
        for m in res[i + 1:]:
            if l.header.idx in m.blocks and m is not l:
                l.parent = m
                break
    if F_irreducible:
        for l in res:
            pass
    return res

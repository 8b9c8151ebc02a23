"""Symbolic execution of LLVM IR functions producing verification conditions.

 * calls:   library model (assumed contract)  ->  repo contract  ->  body in line
 * loops:   cut at the header with an inductive invariant found by Houdini over candidate predicates,
            or unrolled when the trip count is concrete
 * every obligation is a validity query  path-condition => goal  discharged by z3 / cvc5
"""
import re, time, os, subprocess, sys, collections
import z3
from .core import *
from .irparse import *
from . import solver as SV

sys.setrecursionlimit(20000)


class Obl:
    __slots__ = ('name', 'fn', 'line', 'status', 'backend', 'time', 'model', 'goal', 'pc', 'trail', 'taint', 'kind', 'state', 'reason')

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))


class Outcome:
    __slots__ = ('st', 'kind', 'val')

    def __init__(self, st, kind, val=None):
        self.st, self.kind, self.val = st, kind, val   # kind: ret | throw | abort

    def __repr__(self):
        return 'Outcome(%s,%r)' % (self.kind, self.val)


class Exc:
    """in-flight exception"""
    __slots__ = ('ptr', 'ti')

    def __init__(self, ptr, ti):
        self.ptr, self.ti = ptr, ti

    def __repr__(self):
        return 'Exc(%s)' % self.ti


class LoopBack(Exception):
    pass


class Frame:
    __slots__ = ('fn', 'regs', 'allocas', 'args', 'cur')

    def __init__(self, fn):
        self.fn, self.regs, self.allocas, self.args = fn, {}, {}, None


def same_val(a, b):
    from .loops import vsame
    return vsame(a, b)


def bits_of(outs):
    for o in outs:
        if is_sym(o.val) and z3.is_bv(o.val):
            return o.val.size()
    for o in outs:
        if is_sym(o.val) and z3.is_int(o.val):
            return 64
    for o in outs:
        if isinstance(o.val, int) and not isinstance(o.val, bool) and o.val > 1:
            return 64
    return 1


class Engine:
    def __init__(self, prog, opts=None):
        self.prog = prog
        self.opts = opts or {}
        self.models = []          # (name matcher, handler)
        self.mexact = {}
        self.mregex = []
        self.contracts = {}
        self.obls = []
        self.collect = True
        self.used_models = collections.Counter()
        self.used_contracts = collections.Counter()
        self.inlined = collections.Counter()
        self.solver_time = 0.0
        self.nqueries = 0
        self.stack = []
        self.fn_of = {}
        self.max_paths = self.opts.get('max_paths', 3000)
        self.unroll = self.opts.get('unroll', 24)
        self.bounded = False       # bounded mode: cut loops after `unroll` iterations
        self.bounded_cut = False
        self.timeout = self.opts.get('timeout', 20000)
        self.loop_cands = []       # active candidate generators
        self.axioms = []
        self.deadline = None
        self.obl_prefix = ''
        self.line = None
        self.inv_log = []
        self.exc_models = True

    # ------------------------------------------------------------------ solving
    def check_deadline(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget for this function exhausted')

    def _check(self, pc, extra, timeout):
        self.check_deadline()
        t = time.time()
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*pc)
        s.add(*extra)
        r = s.check()
        self.solver_time += time.time() - t
        self.nqueries += 1
        return r, s

    def feasible(self, st, *extra):
        ex = []
        for c in extra:
            c = z3.simplify(c) if is_sym(c) else z3.BoolVal(bool(c))
            if z3.is_false(c):
                return False
            if z3.is_true(c):
                continue
            ex.append(c)
        if not ex:
            return True
        key = set(p.get_id() for p in st.pc)
        for c in ex:
            if z3.Not(c).get_id() in key:
                return False
        r, _ = self._check(st.pc, ex, self.opts.get('feas_timeout', 500))
        return r != z3.unsat

    def must(self, st, c, timeout=1500):
        """pc entails c ?"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        r, _ = self._check(st.pc, [z3.Not(c)], timeout)
        return r == z3.unsat

    def prove(self, st, goal, name, kind='post', line=None):
        """record obligation; on success the goal becomes an assumption of the path"""
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if not self.collect:
            st.assume(goal)
            return True
        fn = self.stack[0] if self.stack else '?'
        o = Obl(name=self.obl_prefix + name, fn=fn, line=line if line is not None else self.line, goal=goal, kind=kind,
                trail=list(st.trail[-40:]), taint=list(st.taint))
        t = time.time()
        g = z3.simplify(goal)
        if z3.is_true(g):
            o.status, o.backend = 'proved', 'simplifier'
        else:
            self.check_deadline()
            o.status, o.backend, o.model, o.reason = SV.valid(st.pc, g, self.timeout)
            self.nqueries += 1
        o.time = time.time() - t
        self.solver_time += o.time
        if o.status != 'proved':
            o.pc = list(st.pc)
            o.state = st
        self.obls.append(o)
        st.assume(goal)
        return o.status == 'proved'

    # ------------------------------------------------------------------ integers
    def w_of(self, t):
        return t[1]

    def wrap(self, st, t, w):
        """Int term -> canonical [0,2^w)"""
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long() % (1 << w)
        M = 1 << w
        r, _ = self._check(st.pc, [z3.Or(t < 0, t >= M)], 1500)
        if r == z3.unsat:
            return t
        r, _ = self._check(st.pc, [z3.Or(t < -M, t >= 2 * M)], 1500)
        if r == z3.unsat:
            return z3.simplify(z3.If(t < 0, t + M, z3.If(t >= M, t - M, t)))
        return z3.simplify(t % M)

    def sgn(self, st, x, w):
        """signed reading of canonical value, as Int/py"""
        H = 1 << (w - 1)
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, int):
            return x - (1 << w) if x >= H else x
        if z3.is_bool(x):
            return I(x) if w > 1 else -I(x)
        if z3.is_bv(x):
            return z3.BV2Int(x, is_signed=True)
        if self.must(st, x < H):
            return x
        return z3.If(x >= H, x - (1 << w), x)

    def binop(self, st, op, w, a, b, flags=()):
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        M = 1 << w
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            return self.ptrint_op(st, op, a, b)
        if isinstance(a, int) and isinstance(b, int):
            return self.fold(op, w, a, b)
        if w == 1:
            A, Bb = B(a), B(b)
            if op == 'and':
                return z3.simplify(z3.And(A, Bb))
            if op == 'or':
                return z3.simplify(z3.Or(A, Bb))
            if op in ('xor', 'add'):
                return z3.simplify(z3.Xor(A, Bb))
            raise Unsupported('i1 ' + op)
        ab = is_sym(a) and z3.is_bv(a)
        bb = is_sym(b) and z3.is_bv(b)
        ai = is_sint(a)
        bi = is_sint(b)
        bol = (is_sym(a) and z3.is_bool(a)) or (is_sym(b) and z3.is_bool(b))
        if bol and not ab and not bb and op in ('and', 'or', 'xor'):
            # bool-valued integers (masks): keep boolean when other side is 0/1 or bool
            if all((is_sym(x) and z3.is_bool(x)) or x in (0, 1) for x in (a, b)):
                A, Bb = B(a), B(b)
                return z3.simplify({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](A, Bb))
        if (ab or bb) and not ai and not bi:
            A, Bb = BV(a, w), BV(b, w)
            r = {'add': lambda: A + Bb, 'sub': lambda: A - Bb, 'mul': lambda: A * Bb,
                 'and': lambda: A & Bb, 'or': lambda: A | Bb, 'xor': lambda: A ^ Bb, 'shl': lambda: A << Bb,
                 'lshr': lambda: z3.LShR(A, Bb), 'ashr': lambda: A >> Bb, 'udiv': lambda: z3.UDiv(A, Bb),
                 'urem': lambda: z3.URem(A, Bb), 'sdiv': lambda: A / Bb, 'srem': lambda: z3.SRem(A, Bb)}[op]()
            return z3.simplify(r)
        # Int domain
        A, Bb = I(a), I(b)
        if op == 'add':
            if isinstance(b, int) and b >= M // 2:
                return self.wrap(st, A - (M - b), w)
            if isinstance(a, int) and a >= M // 2:
                return self.wrap(st, Bb - (M - a), w)
            return self.wrap(st, A + Bb, w)
        if op == 'sub':
            return self.wrap(st, A - Bb, w)
        if op == 'mul':
            if isinstance(b, int) and b >= M // 2:
                return self.wrap(st, -(M - b) * A, w)
            if 'nsw' in flags:
                sa, sb = self.sgn(st, a, w), self.sgn(st, b, w)
                return self.wrap(st, I(sa) * I(sb), w)
            return self.wrap(st, A * Bb, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.prove(st, int_eq(b, 0) == False, 'no division by zero', 'safety')
            if op[0] == 's' and not (self.must(st, A < M // 2) and self.must(st, Bb < M // 2)):
                sa, sb = I(self.sgn(st, a, w)), I(self.sgn(st, b, w))
                if isinstance(b, int) and 0 < b < M // 2:
                    k = self.factor(sa, b)
                    if k is not None and op == 'sdiv':
                        return self.wrap(st, k, w)
                    q = z3.If(sa >= 0, sa / sb, -((-sa) / sb))
                    return self.wrap(st, q if op == 'sdiv' else sa - q * sb, w)
                raise Unsupported('signed division')
            k = self.factor(A, b) if isinstance(b, int) else None
            if op in ('udiv', 'sdiv'):
                return k if k is not None else z3.simplify(A / Bb)
            return z3.simplify(A % Bb)
        if op == 'and' and isinstance(b, int) and (b & (b + 1)) == 0:
            return z3.simplify(A % (b + 1)) if b else 0
        if op == 'and' and isinstance(a, int) and (a & (a + 1)) == 0:
            return z3.simplify(Bb % (a + 1)) if a else 0
        if op == 'shl' and isinstance(b, int):
            return self.wrap(st, A * (1 << b), w)
        if op == 'lshr' and isinstance(b, int):
            return z3.simplify(A / (1 << b))
        if op == 'xor' and isinstance(b, int) and b == M - 1:
            return z3.simplify((M - 1) - A)
        if op in ('or', 'xor') and isinstance(b, int) and b == 0:
            return a
        A, Bb = BV(a, w), BV(b, w)
        r = {'and': lambda: A & Bb, 'or': lambda: A | Bb, 'xor': lambda: A ^ Bb, 'shl': lambda: A << Bb,
             'lshr': lambda: z3.LShR(A, Bb), 'ashr': lambda: A >> Bb}[op]()
        return r

    def factor(self, t, k):
        """t == k*q syntactically -> q"""
        if k == 1:
            return t
        t = z3.simplify(t)
        if z3.is_int_value(t) and t.as_long() % k == 0:
            return z3.IntVal(t.as_long() // k)
        if z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % k == 0:
            c = t.arg(0).as_long() // k
            rest = t.arg(1) if t.num_args() == 2 else z3.Product([t.arg(i) for i in range(1, t.num_args())])
            return z3.simplify(c * rest)
        if z3.is_add(t):
            qs = [self.factor(t.arg(i), k) for i in range(t.num_args())]
            if all(q is not None for q in qs):
                return z3.simplify(z3.Sum(qs))
        return None

    def fold(self, op, w, a, b):
        M = 1 << w
        sa = a - M if a >= M // 2 else a
        sb = b - M if b >= M // 2 else b
        if op == 'add':
            r = a + b
        elif op == 'sub':
            r = a - b
        elif op == 'mul':
            r = a * b
        elif op == 'and':
            r = a & b
        elif op == 'or':
            r = a | b
        elif op == 'xor':
            r = a ^ b
        elif op == 'shl':
            r = a << b
        elif op == 'lshr':
            r = a >> b
        elif op == 'ashr':
            r = sa >> b
        elif op == 'udiv':
            r = a // b
        elif op == 'urem':
            r = a % b
        elif op == 'sdiv':
            r = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
        elif op == 'srem':
            q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
            r = sa - q * sb
        return r % M

    def ptrint_op(self, st, op, a, b):
        if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
            p, q = a.p, b.p
            if isinstance(p, Ptr) and isinstance(q, Ptr):
                if p.base != q.base:
                    raise Unsupported('difference of unrelated pointers')
                d = I(p.off) - I(q.off)
                if p.idx is not None or q.idx is not None:
                    es = self.elsize(st, p.base)
                    d = d + es * (I(p.idx or 0) - I(q.idx or 0))
                return self.wrap(st, z3.simplify(d), 64)
        if op in ('add', 'sub') and isinstance(a, PtrInt) and isinstance(b, int):
            return PtrInt(a.p, a.add + (b if op == 'add' else -b))
        raise Unsupported('arithmetic on addresses: ' + op)

    def icmp(self, st, pred, t, a, b):
        if isinstance(a, Undef) or isinstance(b, Undef):
            return fbool('undefcmp')
        if t == PTR or isinstance(a, (Ptr, SymPtr, FnPtr, VFn)) or isinstance(b, (Ptr, SymPtr, FnPtr, VFn)):
            if pred in ('eq', 'ne'):
                e = z3.simplify(self.ptr_equal(st, a, b))
                return z3.simplify(z3.Not(e)) if pred == 'ne' else e
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base:
                x = I(a.idx) if a.idx is not None else I(a.off)
                y = I(b.idx) if b.idx is not None else I(b.off)
                return {'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y}[pred]
            raise Unsupported('pointer ordering')
        w = t[1]
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if isinstance(a, PtrInt) and isinstance(b, int) and b == 0:
                e = self.ptr_equal(st, a.p, NULL)
                return z3.Not(e) if pred == 'ne' else e
            raise Unsupported('comparison of addresses')
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, int) and isinstance(b, int):
            M = 1 << w
            sa = a - M if a >= M // 2 else a
            sb = b - M if b >= M // 2 else b
            return {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                    'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pred]
        if pred == 'eq':
            return z3.simplify(int_eq(a, b))
        if pred == 'ne':
            return z3.simplify(z3.Not(int_eq(a, b)))
        ai, bi = is_sint(a), is_sint(b)
        if not ai and not bi and ((is_sym(a) and z3.is_bv(a)) or (is_sym(b) and z3.is_bv(b))):
            A, Bb = BV(a, w), BV(b, w)
            r = {'ult': lambda: z3.ULT(A, Bb), 'ule': lambda: z3.ULE(A, Bb), 'ugt': lambda: z3.UGT(A, Bb),
                 'uge': lambda: z3.UGE(A, Bb), 'slt': lambda: A < Bb, 'sle': lambda: A <= Bb, 'sgt': lambda: A > Bb,
                 'sge': lambda: A >= Bb}[pred]()
            return z3.simplify(r)
        if pred[0] == 's':
            A, Bb = I(self.sgn(st, a, w)), I(self.sgn(st, b, w))
        else:
            A, Bb = I(a), I(b)
        r = {'lt': lambda: A < Bb, 'le': lambda: A <= Bb, 'gt': lambda: A > Bb, 'ge': lambda: A >= Bb}[pred[1:]]()
        return z3.simplify(r)

    def ptr_equal(self, st, a, b):
        return ptr_eq(a, b)

    def cast(self, st, op, t, v, t2):
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, Undef):
            return UNDEF
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            return v
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and v.isnull:
                return 0
            return PtrInt(v)
        if op == 'inttoptr':
            if isinstance(v, PtrInt):
                return v.p.add(v.add) if v.add else v.p
            if v == 0:
                return NULL
            raise Unsupported('inttoptr')
        if op in ('zext', 'sext', 'trunc'):
            w, w2 = t[1], t2[1]
            if isinstance(v, PtrInt):
                raise Unsupported('cast of address')
            if isinstance(v, int):
                if op == 'sext' and v >= 1 << (w - 1):
                    v -= 1 << w
                return v % (1 << w2)
            if z3.is_bool(v):
                if op == 'sext' and w == 1:
                    return z3.If(v, z3.BitVecVal(-1, w2), z3.BitVecVal(0, w2))
                return v
            if z3.is_bv(v):
                if op == 'zext':
                    return z3.simplify(z3.ZeroExt(w2 - w, v))
                if op == 'sext':
                    return z3.simplify(z3.SignExt(w2 - w, v))
                if w2 == 1:
                    return z3.simplify(z3.Extract(0, 0, v) == 1)
                return z3.simplify(z3.Extract(w2 - 1, 0, v))
            if op == 'zext':
                return v
            if op == 'sext':
                return z3.simplify(self.wrap(st, I(self.sgn(st, v, w)), w2)) if not self.must(st, v < (1 << (w - 1))) else v
            if w2 == 1:
                return z3.simplify(v % 2 == 1)
            if self.must(st, v < (1 << w2)):
                return v
            return z3.simplify(v % (1 << w2))
        if op in ('sitofp', 'uitofp', 'fpext', 'fptrunc'):
            if isinstance(v, Flt):
                return v
            f = z3.Function('int2dbl_%s' % op, INT, F64)
            return Flt(f(I(self.sgn(st, v, t[1]) if op == 'sitofp' else v)))
        if op in ('fptosi', 'fptoui'):
            f = z3.Function('dbl2int_%d' % t2[1], F64, INT)
            r = f(v.t)
            st.assume(r >= 0, r < (1 << t2[1]))
            return r
        raise Unsupported('cast ' + op)

    # ------------------------------------------------------------------ memory
    def elsize(self, st, base):
        if base[0] in ('it', 'mmit'):
            return 1 << 30     # pointer arithmetic stays inside the element
        v = self.aget(st, base[1])
        if isinstance(v, (StrV, VecB, BytesV)):
            return 1
        if isinstance(v, SeqV):
            return v.elsize
        raise Unsupported('element size')

    def gep(self, st, mod, t, p, idx):
        """idx: list of (type,value) after base"""
        if isinstance(p, Undef):
            return UNDEF
        off = 0
        dyn = []
        ty = t
        for k, (it, iv) in enumerate(idx):
            if k == 0:
                sz = mod.size(ty)
                if isinstance(iv, int):
                    n = iv - (1 << it[1]) if iv >= (1 << (it[1] - 1)) else iv
                    off += n * sz
                else:
                    dyn.append((iv, sz, it[1]))
            else:
                r = mod.resolve(ty)
                if r[0] == 'struct':
                    o, ty = mod.field(r, iv)
                    off += o
                else:
                    ty = r[2]
                    sz = mod.size(ty)
                    if isinstance(iv, int):
                        n = iv - (1 << it[1]) if iv >= (1 << (it[1] - 1)) else iv
                        off += n * sz
                    else:
                        dyn.append((iv, sz, it[1]))
        return self.ptr_add(st, p, off, dyn)

    def ptr_add(self, st, p, off, dyn=()):
        if isinstance(p, PtrInt):
            p = p.p
        if isinstance(p, SymPtr):
            if dyn:
                raise Unsupported('symbolic offset from symbolic reference')
            return p.add(off)
        if isinstance(p, FnPtr):
            raise Unsupported('gep on function')
        if not isinstance(p, Ptr):
            raise Unsupported('gep on %r' % (p,))
        if p.idx is not None:
            es = self.elsize(st, p.base)
            idx = p.idx
            o = p.off
            q, r = (off // es, off % es)
            if q:
                idx = idx + q if isinstance(idx, int) else z3.simplify(I(idx) + q)
            o += r
            for iv, sz, w in dyn:
                if sz % es:
                    raise Unsupported('odd gep into container')
                d = self.sgn(st, iv, w)
                idx = z3.simplify(I(idx) + I(d) * (sz // es))
                if z3.is_int_value(idx):
                    idx = idx.as_long()
            return Ptr(p.base, o, idx)
        o = p.off
        if off:
            o = o + off if isinstance(o, int) else z3.simplify(o + off)
        for iv, sz, w in dyn:
            if is_sym(iv) and z3.is_bv(iv) and sz == 1 and isinstance(o, int) and o == 0:
                o = iv if iv.size() == 64 else iv
            else:
                d = self.sgn(st, iv, w)
                o = z3.simplify(I(o) + I(d) * sz)
                if z3.is_int_value(o):
                    o = o.as_long()
        return Ptr(p.base, o, None)

    def deref_check(self, st, p, what):
        if isinstance(p, Undef):
            self.prove(st, False, what + ': pointer is initialised', 'safety')
            raise Infeasible()
        if isinstance(p, SymPtr):
            if not self.must(st, p.ref != 0):
                self.prove(st, p.ref != 0, what + ': pointer not null', 'safety')
            return
        if isinstance(p, Ptr):
            if p.isnull:
                self.prove(st, False, what + ': pointer not null', 'safety')
                raise Infeasible()
            if isinstance(p.base, int):
                b = st.blocks.get(p.base)
                if b is None or not b.alive:
                    self.prove(st, False, what + ': object still alive (%s)' % (b.name if b else '?'), 'safety')
                    raise Infeasible()
                if self.guard is not None:
                    self.guard(self, st, p)

    rank = on_acquire = on_release = on_wait = on_notify = None     # what locks mean here (lockm.py)
    on_delete = None    # called when an object known by reference only is freed
    guard = None        # called with every access to memory: who may touch it now

    def load(self, st, mod, p, t):
        self.deref_check(st, p, 'load')
        r = mod.resolve(t)
        if r[0] == 'struct':
            out = []
            for i, e in enumerate(r[1]):
                o, et = mod.field(r, i)
                out.append(self.load(st, mod, self.ptr_add(st, p, o), et))
            return tuple(out)
        size = mod.size(t)
        if isinstance(p, SymPtr):
            return self.sym_load(st, p, r, size)
        if isinstance(p, (FnPtr, VFn)):
            raise Unsupported('load from function')
        base = p.base
        if isinstance(base, tuple):
            return self.special_load(st, p, r, size)
        b = st.blocks[base]
        if p.idx is not None:
            raise Unsupported('indexed block')
        if not isinstance(p.off, int):
            return self.dyn_load(st, b, p, r, size)
        if r[0] == 'i' and r[1] > 8 and r[1] not in (16, 32, 64, 128):      # a structure in a register
            n = (r[1] + 7) // 8
            return CellsV(n, [(o - p.off, sz, v) for o, (sz, v) in b.cells.items() if p.off <= o and o + sz <= p.off + n])
        c = b.cells.get(p.off)
        if c is not None and c[0] == size and not isinstance(c[1], (BytesV,)):
            v = c[1]
            if v is LOST:
                raise Unsupported('value carried around a loop is not tracked (%s+%s)' % (b.name, p.off))
            return self.conv_load(st, v, r)
        if b.bytes is not None and r[0] == 'i':
            if p.off < 0 or p.off + size > len(b.bytes):
                self.prove(st, False, 'read within bounds of %s' % b.name, 'safety')
                raise Infeasible()
            return int.from_bytes(b.bytes[p.off:p.off + size], 'little')
        if b.size is not None and isinstance(b.size, int) and (p.off < 0 or p.off + size > b.size):
            self.prove(st, False, 'read within bounds of %s' % b.name, 'safety')
            raise Infeasible()
        # inside a byte region?
        for o, (sz, v) in b.cells.items():
            if o <= p.off and p.off + size <= o + sz:
                if isinstance(v, BytesV) and size == 1:
                    return z3.simplify(v.s[z3.IntVal(p.off - o)])
                if r[0] == 'i' and isinstance(v, int):
                    return (v >> (8 * (p.off - o))) & ((1 << (8 * size)) - 1)
                if r[0] == 'i' and is_sym(v) and z3.is_bv(v) and v.size() == sz * 8:
                    lo = 8 * (p.off - o)
                    return z3.simplify(z3.Extract(lo + 8 * size - 1, lo, v))
                if isinstance(v, Abs):
                    raise Unsupported('raw read of %d bytes inside %s object (%s)' % (size, type(v).__name__, b.name))
        # combine smaller cells
        parts = []
        o = p.off
        ok = r[0] == 'i'
        while ok and o < p.off + size:
            cc = b.cells.get(o)
            if cc is None:
                ok = False
                break
            parts.append((cc[1], cc[0], o - p.off))
            o += cc[0]
        if ok and o == p.off + size and all(isinstance(v, int) or (is_sym(v)) for v, _, _ in parts):
            if all(isinstance(v, int) for v, _, _ in parts):
                x = 0
                for v, sz, o in parts:
                    x |= v << (8 * o)
                return x
            return z3.simplify(z3.Concat(*[BV(v, 8 * sz) for v, sz, o in reversed(parts)]))
        if b.default == 0:
            if r[0] == 'i':
                return 0
            if r == PTR:
                return NULL
            if r[0] == 'double':
                return Flt(z3.Const('dbl_zero', F64))
        v = self.uninit(st, r, size, b, p)
        st.put(p, size, v)
        return v

    def uninit(self, st, r, size, b, p):
        if b.kind in ('alloca',) and r == PTR:
            return UNDEF
        if r == PTR and p.base in getattr(self, 'described', ()):
            st.taint.append('pointer %s+%s is not described by the contract' % (b.name, p.off))
        return self.fresh_of(st, r, 'uninit_%s_%s' % (b.name, p.off))

    def fresh_of(self, st, r, name='x'):
        if r[0] == 'i':
            w = r[1]
            if w == 1:
                return fbool(name)
            if w == 8:
                return fresh(z3.BitVecSort(8), name)
            v = fint(name)
            st.assume(v >= 0, v < (1 << w))
            return v
        if r == PTR:
            v = fint(name)
            return SymPtr(v)
        if r[0] in ('double', 'float'):
            return Flt(fresh(F64, name))
        raise Unsupported('fresh of %r' % (r,))

    def conv_load(self, st, v, r):
        if r[0] == 'i':
            if isinstance(v, Ptr) and v.isnull:
                return 0
            if isinstance(v, (Ptr, SymPtr, FnPtr)):
                return PtrInt(v)
            if isinstance(v, Abs) and not isinstance(v, Opq):
                raise Unsupported('integer load of abstract object')
            return v
        if r == PTR:
            if isinstance(v, int) and v == 0:
                return NULL
            if isinstance(v, PtrInt):
                return v.p
        return v

    def dyn_load(self, st, b, p, r, size):
        off = p.off
        if b.bytes is not None and size == 1 and r[0] == 'i':
            n = len(b.bytes)
            w = off.size() if z3.is_bv(off) else None
            if w:
                inb = z3.ULT(off, z3.BitVecVal(n, w))
                eqk = lambda k: off == z3.BitVecVal(k, w)
            else:
                inb = z3.And(off >= 0, off < n)
                eqk = lambda k: off == k
            self.prove(st, inb, 'index within %s[%d]' % (b.name, n), 'safety')
            if w:
                arr = self.table(b.bytes, w)
                return z3.Select(arr, off)
            # Int index
            e = z3.BitVecVal(b.bytes[-1], 8)
            for k in range(n - 2, -1, -1):
                e = z3.If(eqk(k), z3.BitVecVal(b.bytes[k], 8), e)
            return e
        if size == 1 and r[0] == 'i':
            for o, (sz, v) in b.cells.items():
                if isinstance(v, BytesV):
                    x = I(off)
                    if o == 0 and sz == b.size:
                        self.prove(st, z3.And(x >= 0, x < sz), 'index within %s[%d]' % (b.name, sz), 'safety')
                        return z3.simplify(v.s[x])
                    if self.must(st, z3.And(x >= o, x < o + sz)):
                        return z3.simplify(v.s[x - o])
        if r == PTR or r[0] == 'i':
            # table of cells with a common stride
            cells = sorted((o, v) for o, (sz, v) in b.cells.items() if sz == size)
            if cells and all(not isinstance(v, Abs) for _, v in cells) and r[0] == 'i':
                x = I(off)
                self.prove(st, z3.Or(*[x == o for o, _ in cells]), 'index within %s' % b.name, 'safety')
                e = I(cells[-1][1])
                for o, v in reversed(cells[:-1]):
                    e = z3.If(x == o, I(v), e)
                return e
        raise Unsupported('load at symbolic offset in %s' % b.name)

    _tables = {}

    def table(self, data, w):
        k = (data, w)
        a = self._tables.get(k)
        if a is None:
            a = z3.K(z3.BitVecSort(w), z3.BitVecVal(0, 8))
            for i, c in enumerate(data):
                a = z3.Store(a, z3.BitVecVal(i, w), z3.BitVecVal(c, 8))
            self._tables[k] = a
        return a

    def special_load(self, st, p, r, size):
        k = p.base[0]
        if k == 'vt':
            return VFn(p.base[1], p.off // 8)
        if k == 'cd':
            v = self.aget(st, p.base[1])
            if isinstance(v, (StrV, VecB)):
                if size != 1:
                    raise Unsupported('wide load from string data')
                i = I(p.idx)
                n = slen(v.s)
                if isinstance(v, StrV):
                    self.prove(st, z3.And(i >= 0, i <= n), 'read within string bounds', 'safety')
                    if self.must(st, i < n):
                        return z3.simplify(v.s[i])
                    return z3.If(i < n, v.s[i], z3.BitVecVal(0, 8))
                self.prove(st, z3.And(i >= 0, i < n), 'read within vector bounds', 'safety')
                return z3.simplify(v.s[i])
            if isinstance(v, SeqV):
                i = I(p.idx)
                self.prove(st, z3.And(i >= 0, i < I(v.size())), 'element index in range', 'safety')
                for li, (o, sz, kd) in enumerate(v.schema):
                    if o == p.off and sz == size:
                        return self.leaf_to_val(v.get(i, li), kd)
        if k in ('node', 'it'):
            return self.node_load(st, p, r, size)
        if k == 'mmit':
            from .boostm import mm_load
            return mm_load(self, st, p)
        raise Unsupported('load through %r' % (p,))

    def leaf_to_val(self, term, kind):
        if kind.startswith('ptr:'):
            return SymPtr(term, kind[4:] or None)
        if kind == 'str':
            return StrV(term)
        if kind == 'f64':
            return Flt(term)
        if kind.startswith('opq:'):
            return Opq(kind[4:], term)
        return term

    def val_to_leaf(self, st, v, kind):
        if kind.startswith('ptr:'):
            if isinstance(v, SymPtr):
                return v.ref
            if isinstance(v, Ptr):
                if v.isnull:
                    return z3.IntVal(0)
                if self.escape_hook:
                    r = self.escape_hook(self, st, v, kind)
                    if r is not None:
                        return r
                if isinstance(v.base, int) and v.off == 0:
                    return block_ref(v.base)
            raise Unsupported('pointer %r stored in container' % (v,))
        if kind == 'str':
            return v.s
        if kind == 'f64':
            return v.t
        if kind == 'bool':
            return B(v)
        if kind.startswith('bv'):
            return BV(v, int(kind[2:]))
        if kind.startswith('opq:'):
            return v.t
        return I(v)

    KSZ = {'str': 32, 'int': 8, 'int32': 8, 'int64': 8, 'int16': 8}

    def node_load(self, st, p, r, size):
        m = self.aget(st, p.base[1], MapV)
        if p.base[0] == 'it':
            i = I(p.idx)
            en = p.base[2]
            self.prove(st, z3.And(i >= 0, i < en.n), 'iterator dereferenced inside the container', 'safety')
            kt = z3.Select(en.keys, i)
            en.touch(st, i)
        else:
            kt = p.base[2].t
            self.prove(st, m.has(kt), 'element is in the container', 'safety')
        ksz = self.KSZ[m.kkind]
        if p.off == 0:
            return kt if m.kkind != 'str' else StrV(kt)
        for li, (o, sz, kd) in enumerate(m.schema):
            if p.off == ksz + o:
                return self.leaf_to_val(m.get(kt, li), kd)
        raise Unsupported('map node field %s' % p.off)

    def sym_load(self, st, p, r, size):
        if r == PTR and p.off == 0 and p.cls and self.prog.is_poly(p.cls):
            return Ptr(('vt', p.cls), 0)
        h = st.ghost.get('heap', {})
        key = (p.cls, p.off)
        a = h.get(key)
        if a is None:
            sort = {1: BYTE}.get(size, INT) if r[0] == 'i' else INT
            if r[0] == 'double':
                sort = F64
            a = fresh(z3.ArraySort(INT, sort), 'H_%s_%s' % (str(p.cls).split('::')[-1], p.off))
            h = dict(h)
            h[key] = a
            st.ghost['heap'] = h
        v = z3.Select(a, p.ref)
        if r == PTR:
            ft = self.prog.field_type(p.cls, p.off)
            return SymPtr(v, ft)
        if r[0] == 'double':
            return Flt(v)
        if r[0] == 'i' and size > 1:
            st.assume(v >= 0, v < (1 << (8 * size)))
        return v

    def store(self, st, mod, p, t, v):
        self.deref_check(st, p, 'store')
        r = mod.resolve(t)
        size = mod.size(t)
        if r[0] == 'struct' and isinstance(v, tuple):
            for i, e in enumerate(r[1]):
                o, et = mod.field(r, i)
                self.store(st, mod, self.ptr_add(st, p, o), et, v[i])
            return
        if isinstance(p, SymPtr):
            h = dict(st.ghost.get('heap', {}))
            key = (p.cls, p.off)
            self.sym_load(st, p, r, size) if key not in h else None
            h = dict(st.ghost.get('heap', {}))
            h[key] = z3.Store(h[key], p.ref, self.val_to_leaf(st, v, 'ptr:' if r == PTR else ('bv8' if size == 1 else ('f64' if r[0] == 'double' else 'int'))))
            st.ghost['heap'] = h
            return
        if isinstance(p.base, tuple):
            return self.special_store(st, p, r, size, v)
        if isinstance(v, CellsV):
            b = st.wb(p.base)
            for o in [o for o, (sz, _) in b.cells.items() if o < p.off + v.n and p.off < o + sz]:
                del b.cells[o]
            for o, sz, x in v.items:
                b.cells[p.off + o] = (sz, x)
            return
        b = st.blocks[p.base]
        if b.const:
            self.prove(st, False, 'no write to constant %s' % b.name, 'safety')
            raise Infeasible()
        if isinstance(p.off, int):
            if b.size is not None and isinstance(b.size, int) and (p.off < 0 or p.off + size > b.size):
                self.prove(st, False, 'write within bounds of %s' % b.name, 'safety')
                raise Infeasible()
            c = b.cells.get(p.off)
            if c is None or c[0] != size:
                for o, (sz, vv) in b.cells.items():
                    if o <= p.off and p.off + size <= o + sz and isinstance(vv, BytesV) and size == 1:
                        i = p.off - o
                        s = cat(sub(vv.s, 0, i), z3.Unit(BV(v, 8)), sub(vv.s, i + 1, vv.n - i - 1))
                        st.put(Ptr(p.base, o), sz, BytesV(s, vv.n))
                        return
            st.put(p, size, v)
            return
        # symbolic offset store into byte array
        for o, (sz, vv) in b.cells.items():
            if isinstance(vv, BytesV) and size == 1:
                i = I(p.off) - o
                self.prove(st, z3.And(i >= 0, i < vv.n), 'write within bounds of %s' % b.name, 'safety')
                s = cat(sub(vv.s, 0, i), z3.Unit(BV(v, 8)), sub(vv.s, i + 1, vv.n - i - 1))
                st.put(Ptr(p.base, o), sz, BytesV(s, vv.n))
                return
        raise Unsupported('store at symbolic offset in %s' % b.name)

    def special_store(self, st, p, r, size, v):
        k = p.base[0]
        if k == 'cd':
            cp = p.base[1]
            cv = self.aget(st, cp)
            i = I(p.idx)
            if isinstance(cv, (StrV, VecB)) and size == 1:
                n = slen(cv.s)
                self.prove(st, z3.And(i >= 0, i < n), 'write within string bounds', 'safety')
                s = cat(sub(cv.s, 0, i), z3.Unit(BV(v, 8)), sub(cv.s, i + 1, n - i - 1))
                self.aset(st, cp, None, type(cv)(s))
                return
            if isinstance(cv, SeqV):
                self.prove(st, z3.And(i >= 0, i < I(cv.size())), 'element index in range', 'safety')
                for li, (o, sz, kd) in enumerate(cv.schema):
                    if o == p.off:
                        arrs = list(cv.arrs)
                        arrs[li] = z3.Store(arrs[li], I(cv.lo) + i, self.val_to_leaf(st, v, kd))
                        self.aset(st, cp, None, cv.with_(arrs=tuple(arrs)))
                        return
        if k in ('node', 'it'):
            m = self.aget(st, p.base[1], MapV)
            if k == 'node':
                kt = p.base[2].t
            else:
                kt = z3.Select(p.base[2].keys, I(p.idx))
                p.base[2].touch(st, I(p.idx))
            ksz = self.KSZ[m.kkind]
            for li, (o, sz, kd) in enumerate(m.schema):
                if p.off == ksz + o:
                    vals = list(m.vals)
                    vals[li] = z3.Store(vals[li], kt, self.val_to_leaf(st, v, kd))
                    self.aset(st, p.base[1], None, MapV(m.kkind, m.schema, m.pres, tuple(vals)))
                    return
        raise Unsupported('store through %r' % (p,))

    # abstract object access through any pointer ------------------------
    def aget(self, st, p, cls=None, what='object'):
        """abstract library object at p"""
        self.deref_check(st, p, what)
        if isinstance(p, Ptr):
            if isinstance(p.base, int):
                if isinstance(p.off, int):
                    c = st.blocks[p.base].cells.get(p.off)
                    if c and isinstance(c[1], Abs):
                        if cls is None or isinstance(c[1], cls):
                            return c[1]
                        raise Unsupported('expected %s found %r' % (cls.__name__, c[1]))
                    b = st.blocks[p.base]
                    if b.kind in ('alloca', 'heap') and c is None:
                        raise Unsupported('%s used before construction in %s+%s' % (what, b.name, p.off))
            elif p.base[0] == 'cd':
                c = self.aget(st, p.base[1])
                if isinstance(c, SeqV):
                    i = I(p.idx)
                    self.prove(st, z3.And(i >= 0, i < I(c.size())), 'element index in range', 'safety')
                    for li, (o, sz, kd) in enumerate(c.schema):
                        if o == p.off:
                            return self.leaf_to_val(c.get(i, li), kd)
            elif p.base[0] in ('node', 'it'):
                return self.node_load(st, p, None, None)
            elif p.base[0] == 'mmit':
                from .boostm import mm_load
                return mm_load(self, st, p)
        if isinstance(p, SymPtr):
            ft = self.prog.field_type_name(p.cls, p.off)
            h = st.ghost.get('heap', {})
            key = (p.cls, p.off)
            if ft and 'basic_string<char>' in ft:
                a = h.get(key)
                if a is None:
                    a = fresh(z3.ArraySort(INT, STR), 'H_%s_%s' % (str(p.cls).split('::')[-1], p.off))
                    h = dict(h)
                    h[key] = a
                    st.ghost['heap'] = h
                v = z3.Select(a, p.ref)
                st.assume(slen(v) < MAXLEN)
                return StrV(v)
        raise Unsupported('no abstract %s at %r' % (what, p))

    def aset(self, st, p, size, v):
        self.deref_check(st, p, 'write')
        if isinstance(p, Ptr):
            if isinstance(p.base, int):
                if size is None:
                    size = st.blocks[p.base].cells[p.off][0]
                st.put(p, size, v)
                return
            return self.special_store(st, p, None, size, v)
        if isinstance(p, SymPtr) and isinstance(v, StrV):
            self.aget(st, p)
            h = dict(st.ghost['heap'])
            h[(p.cls, p.off)] = z3.Store(h[(p.cls, p.off)], p.ref, v.s)
            st.ghost['heap'] = h
            return
        raise Unsupported('write of abstract object at %r' % (p,))

    def memcpy(self, st, d, s, n):
        if isinstance(n, int) and n == 0:
            return
        self.deref_check(st, d, 'memcpy')
        self.deref_check(st, s, 'memcpy')
        if not isinstance(n, int):
            raise Unsupported('memcpy of symbolic size')
        if isinstance(s, Ptr) and isinstance(d, Ptr) and isinstance(s.base, int) and isinstance(d.base, int) \
                and isinstance(s.off, int) and isinstance(d.off, int):
            sb = st.blocks[s.base]
            items = []
            if sb.bytes is not None:
                items = [(0, n, BytesV(sbytes(sb.bytes[s.off:s.off + n]), n))]
                covered = True
            else:
                for o, (sz, v) in sb.cells.items():
                    if s.off <= o and o + sz <= s.off + n:
                        items.append((o - s.off, sz, v))
                    elif o < s.off + n and s.off < o + sz:
                        raise Unsupported('memcpy of part of a cell')
            db = st.wb(d.base)
            for o in [o for o, (sz, _) in db.cells.items() if o < d.off + n and d.off < o + sz]:
                del db.cells[o]
            for o, sz, v in items:
                db.cells[d.off + o] = (sz, v)
            return
        if isinstance(s, Ptr) and isinstance(s.base, tuple) and s.base[0] == 'cd' and isinstance(d, Ptr) and isinstance(d.base, int) and isinstance(d.off, int) and same(s.off, 0):
            c = self.aget(st, s.base[1])
            if isinstance(c, SeqV) and c.elsize == n:       # a whole element
                i = I(s.idx)
                self.prove(st, z3.And(i >= 0, i < I(c.size())), 'element index in range', 'safety')
                for li, (o, sz, kd) in enumerate(c.schema):
                    st.put(d.add(o), sz, self.leaf_to_val(c.get(i, li), kd))
                return
        raise Unsupported('memcpy %r <- %r' % (d, s))

    # ------------------------------------------------------------------ globals
    def init_state(self, st):
        """dynamic initialisation of namespace-scope objects (what can be executed of it)"""
        want = self.opts.get('init_globals')
        if not want:
            return
        want = re.compile(want)
        collect, self.collect = self.collect, False
        try:
            for m in self.prog.mods:
                for n in m.fn_lines:
                    if not n.startswith('__cxx_global_var_init'):
                        continue
                    lo, hi = m.fn_lines[n]
                    if not any(want.search(self.prog.dem(x)) for l in m.lines[lo:hi] for x in re.findall(r'@(_Z\w+)', l)):
                        continue
                    s2 = st.fork()
                    try:
                        outs = self.run(s2, m.fn(n), [])
                    except (Unsupported, KeyError, AttributeError, TypeError) as e:
                        if self.opts.get('debug'):
                            print('global initialiser', n, repr(e))
                        continue
                    if len(outs) == 1 and outs[0].kind == 'ret':
                        o = outs[0].st
                        st.blocks, st.pc, st.globals, st.ghost = o.blocks, o.pc, o.globals, o.ghost
        finally:
            self.collect = collect

    def gptr(self, st, mod, name):
        key = (mod.path, name) if name in mod.globals and self.prog.is_local_global(mod, name) else name
        bid = st.globals.get(key)
        if bid is None:
            m2 = mod
            if name not in mod.globals or mod.globals_ext(name):
                m2 = self.prog.global_home(name) or mod
            bid = self.prog.global_block(self, st, key, m2, name)
            st.globals[key] = bid
        elif bid not in st.blocks:
            st.blocks[bid] = self.prog.gblocks[bid]
        return Ptr(bid, 0)

    # ------------------------------------------------------------------ operands
    def val(self, st, fr, t, v):
        k = v[0]
        if k == 'loc':
            return fr.regs[v[1]]
        if k == 'int':
            return v[1] % (1 << t[1]) if t[0] == 'i' else v[1]
        if k == 'null':
            return NULL
        if k == 'glob':
            return self.glob(st, fr.fn.mod, v[1])
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(fr.fn.mod, t)
        if k == 'flt':
            return Flt(z3.Const('dbl_' + v[1], F64))
        if k == 'agg':
            return tuple(self.val(st, fr, et, ev) for et, ev in v[1])
        if k == 'cgep':
            return self.cgep(st, fr.fn.mod, v)
        if k == 'ccast':
            return self.cast(st, v[1], v[2], self.val(st, fr, v[2], v[3]), v[4])
        if k == 'cbin':
            return self.binop(st, v[1], v[2][1], self.val(st, fr, v[2], v[3]), self.val(st, fr, v[2], v[4]))
        raise Unsupported('operand %r' % (v,))

    def zero(self, mod, t):
        r = mod.resolve(t)
        if r[0] == 'i':
            return 0
        if r == PTR:
            return NULL
        if r[0] == 'struct':
            return tuple(self.zero(mod, e) for e in r[1])
        if r[0] == 'arr':
            return tuple(self.zero(mod, r[2]) for _ in range(r[1]))
        if r[0] in ('double', 'float'):
            return Flt(z3.Const('dbl_zero', F64))
        raise Unsupported('zero')

    def glob(self, st, mod, name):
        if self.prog.is_function(mod, name):
            return FnPtr(name)
        return self.gptr(st, mod, name)

    def cgep(self, st, mod, v):
        t, args = v[1], v[2]
        base = args[0][1]
        p = self.constval(st, mod, args[0][0], base)
        idx = [(it, iv[1] % (1 << it[1])) for it, iv in args[1:]]
        return self.gep(st, mod, t, p, idx)

    def constval(self, st, mod, t, v):
        fr = Frame(None)

        class _F:
            pass
        f = _F()
        f.mod = mod
        fr.fn = f
        return self.val(st, fr, t, v)

    # ------------------------------------------------------------------ calls
    def model(self, pat, h=None):
        pass

    def find_model(self, dem):
        h = self.mexact.get(dem)
        if h is not None:
            return h
        h = self._mcache.get(dem, 0) if hasattr(self, '_mcache') else 0
        if h != 0:
            return h
        if not hasattr(self, '_mcache'):
            self._mcache = {}
        r = None
        for rx, hh in self.mregex:
            if rx.search(dem):
                r = hh
                break
        self._mcache[dem] = r
        return r

    def find_contract(self, dem):
        return self.contracts.get(dem)

    def call(self, st, mod, callee, args, rt, line=None, cinfo=None):
        """-> list of Outcome"""
        self.line = line if line is not None else self.line
        if isinstance(callee, VFn):
            return self.vcall(st, mod, callee, args, rt)
        if not isinstance(callee, FnPtr):
            if isinstance(callee, Ptr) and callee.isnull:
                self.prove(st, False, 'call through null function pointer', 'safety')
                return []
            raise Unsupported('indirect call %r' % (callee,))
        name = callee.name
        dem = self.prog.dem(name)
        if name.startswith('llvm.'):
            return self.intrinsic(st, mod, name, args, rt)
        c = self.find_contract(dem)
        if c is not None and not self.is_self(c, dem):
            self.used_contracts[dem] += 1
            return c.apply(self, st, args, rt)
        h = self.find_model(dem)
        if h is not None:
            self.used_models[dem] += 1
            r = h(self, st, args, rt, mod, dem)
            return self.norm(st, r)
        m = self.prog.home(mod, name)
        if m is None:
            raise Unsupported('no body, contract or model for %s' % dem)
        fn = m.fn(name)
        if len(self.stack) > 60:
            raise Unsupported('call depth')
        if self.stack.count(dem) >= 2:
            raise Unsupported('recursion without contract: %s' % dem)
        self.inlined[dem] += 1
        n0 = len(st.pc)
        outs = self.run(st, fn, args)
        return self.merge(outs, n0) if len(outs) > 1 else outs

    def merge(self, outs, n0):
        """join outcomes of an inlined call that left the same memory behind"""
        from .loops import vsame
        groups = []
        for o in outs:
            for g in groups:
                if self.mergeable(g[0], o, vsame):
                    g.append(o)
                    break
            else:
                groups.append([o])
        res = []
        for g in groups:
            if len(g) == 1:
                res.append(g[0])
                continue
            conds = [z3.And(*o.st.pc[n0:]) if len(o.st.pc) > n0 else z3.BoolVal(True) for o in g]
            first = g[0]
            val = first.val
            if first.kind == 'ret' and any(not same_val(o.val, val) for o in g[1:]):
                val = g[-1].val
                for o, c in list(zip(g, conds))[-2::-1]:
                    val = self.ite(c, o.val, val, ('i', bits_of(g)))
            s = first.st
            s.pc = s.pc[:n0] + [z3.Or(*conds)]
            for o in g[1:]:
                for t in o.st.taint:
                    if t not in s.taint:
                        s.taint.append(t)
            res.append(Outcome(s, first.kind, val))
        return res

    def mergeable(self, a, b, vsame):
        if a.kind != b.kind or a.kind == 'abort':
            return False
        skip = set()
        if a.kind == 'throw':
            if a.val.ti != b.val.ti:
                return False
            pa, pb = a.val.ptr, b.val.ptr
            if pa != pb:
                ba, bb = a.st.blocks[pa.base], b.st.blocks[pb.base]
                if set(ba.cells) != set(bb.cells):
                    return False
                for o in ba.cells:
                    if not vsame(ba.cells[o][1], bb.cells[o][1]):
                        return False
                skip = {pa.base, pb.base}
        else:
            va, vb = a.val, b.val
            if not same_val(va, vb):
                ok = lambda v: isinstance(v, (int, bool)) or (is_sym(v) and (z3.is_bool(v) or z3.is_bv(v) or z3.is_int(v)))
                if not (ok(va) and ok(vb)):
                    return False
                try:
                    bits_of([a, b])
                except Unsupported:
                    return False
        ka = {k for k in a.st.blocks if k not in skip}
        kb = {k for k in b.st.blocks if k not in skip}
        for k in ka ^ kb:
            blk = a.st.blocks.get(k) or b.st.blocks.get(k)
            if not (blk.const or blk.kind in ('global', 'gvar')):
                return False
            if blk.kind == 'gvar' and blk.cells:
                return False
        for k in ka & kb:
            x, y = a.st.blocks[k], b.st.blocks[k]
            if x is y:
                continue
            if x.alive != y.alive or set(x.cells) != set(y.cells):
                return False
            for o in x.cells:
                if not vsame(x.cells[o][1], y.cells[o][1]):
                    return False
        ga = {k: v for k, v in a.st.ghost.items() if k != 'match'}
        gb = {k: v for k, v in b.st.ghost.items() if k != 'match'}
        if set(ga) != set(gb):
            return False
        for k in ga:
            if k == 'heap':
                if set(ga[k]) != set(gb[k]) or any(not ga[k][q].eq(gb[k][q]) for q in ga[k]):
                    return False
            elif k == 'ev':
                if len(ga[k]) != len(gb[k]) or any(x is not y for x, y in zip(ga[k], gb[k])):
                    return False
            elif not vsame(ga[k], gb[k]):
                return False
        return len(a.st.caught) == len(b.st.caught)

    def is_self(self, c, dem):
        return False

    def run_top(self, st, fn, args):
        """body of the function under verification (recursive calls use its contract)"""
        return self.run(st, fn, args)

    def norm(self, st, r):
        if isinstance(r, list):
            return r
        if isinstance(r, Outcome):
            return [r]
        return [Outcome(st, 'ret', r)]

    escape_hook = None

    def vcall(self, st, mod, vf, args, rt):
        self.vslot_no = vf.slot
        cand = self.prog.vslot(vf.cls, vf.slot)
        for dem in cand:
            c = self.find_contract(dem)
            if c is not None:
                self.used_contracts[dem] += 1
                return c.apply(self, st, args, rt)
            h = self.find_model(dem)
            if h is not None:
                self.used_models[dem] += 1
                return self.norm(st, h(self, st, args, rt, mod, dem))
        one = self.prog.vimpl(vf.cls, vf.slot)
        if len(one) == 1:
            return self.call(st, mod, FnPtr(one[0]), args, rt)      # the same body in every class of the program
        raise Unsupported('virtual call %s slot %s (%s) has no contract' % (vf.cls, vf.slot, cand[:2]))

    def intrinsic(self, st, mod, name, args, rt):
        if name.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.assume', 'llvm.invariant', 'llvm.experimental', 'llvm.donothing', 'llvm.stack')):
            return [Outcome(st, 'ret', None)]
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.memcpy(st, args[0], args[1], args[2])
            return [Outcome(st, 'ret', None)]
        if name.startswith('llvm.memset'):
            p, v, n = args[:3]
            self.deref_check(st, p, 'memset')
            if not isinstance(n, int) or v != 0:
                raise Unsupported('memset')
            b = st.wb(p.base)
            for o in [o for o, (sz, _) in b.cells.items() if o < p.off + n and p.off < o + sz]:
                del b.cells[o]
            if p.off == 0 and n == b.size:
                b.default = 0
            else:
                # zero words
                o = p.off
                while o < p.off + n:
                    sz = 8 if o % 8 == 0 and o + 8 <= p.off + n else (4 if o % 4 == 0 and o + 4 <= p.off + n else 1)
                    b.cells[o] = (sz, 0)
                    o += sz
            return [Outcome(st, 'ret', None)]
        if name.startswith('llvm.eh.typeid.for'):
            return [Outcome(st, 'ret', self.ti_id(st, args[0]))]
        if name.startswith('llvm.trap'):
            return [Outcome(st, 'abort')]
        m = re.match(r'llvm\.([us])(min|max)\.i(\d+)', name)
        if m:
            a, b = args[:2]
            c = self.icmp(st, ('u' if m[1] == 'u' else 's') + ('lt' if m[2] == 'min' else 'gt'), ('i', int(m[3])), a, b)
            return [Outcome(st, 'ret', self.ite(c, a, b, ('i', int(m[3]))))]
        m = re.match(r'llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)', name)
        if m:
            w = int(m[3])
            r = self.binop(st, m[2], w, args[0], args[1])
            raise Unsupported(name)
        if name.startswith('llvm.objectsize') or name.startswith('llvm.expect'):
            return [Outcome(st, 'ret', args[0])]
        raise Unsupported(name)

    def ite(self, c, a, b, t):
        if isinstance(c, bool):
            return a if c else b
        if isinstance(c, int):
            return a if c else b
        if same(a, b):
            return a
        if isinstance(a, (Ptr, SymPtr, FnPtr)) or isinstance(b, (Ptr, SymPtr, FnPtr)):
            return None
        if t == I1:
            return z3.If(c, B(a), B(b))
        if isinstance(a, Flt):
            return Flt(z3.If(c, a.t, b.t))
        w = t[1]
        if (is_sym(a) and z3.is_bv(a)) or (is_sym(b) and z3.is_bv(b)):
            return z3.If(c, BV(a, w), BV(b, w))
        if all((is_sym(x) and z3.is_bool(x)) or x in (0, 1) for x in (a, b)):
            return z3.If(c, B(a), B(b))
        return z3.If(c, I(a), I(b))

    _tids = {}

    def ti_id(self, st, p):
        if isinstance(p, Ptr) and p.isnull:
            return 1
        name = self.ti_name(st, p)
        if name not in self._tids:
            self._tids[name] = len(self._tids) + 2
        return self._tids[name]

    def ti_name(self, st, p):
        if isinstance(p, Ptr) and isinstance(p.base, int):
            return st.blocks[p.base].name
        raise Unsupported('typeinfo %r' % (p,))

    def caught_types(self):
        """typeinfos named by the handlers of the functions being executed: what foreign code raises may be any of them"""
        out = []
        for d in self.stack:
            for b in self.fn_of[d].blocks.values():
                for i in b:
                    if i.op == 'landingpad':
                        for cl in i.a:
                            if cl[0] == 'catch' and cl[1][0] == 'glob' and cl[1][1] not in out:
                                out.append(cl[1][1])
        return out

    # ------------------------------------------------------------------ execution
    def run(self, st, fn, args):
        dem = fn.dem
        self.stack.append(dem)
        self.fn_of[dem] = fn
        depth = len(self.stack)
        outs = []
        fr = Frame(fn)
        fr.args = args
        for (t, pn, info), a in zip(fn.params, args):
            fr.regs[pn] = a
        # blocks allocated by this frame die at exit
        try:
            work = [(st, fr, fn.order[0], None, 0)]
            steps = 0
            while work:
                s, f, bb, prev, ii = work.pop()
                steps += 1
                if steps > self.max_paths * 20:
                    raise Unsupported('path explosion in %s' % dem)
                try:
                    res = self.block(s, f, bb, prev, ii)
                except Infeasible:
                    continue
                for r in res:
                    if isinstance(r, Outcome):
                        self.frame_exit(r.st, f)
                        outs.append(r)
                        if len(outs) > self.max_paths:
                            raise Unsupported('too many paths in %s' % dem)
                    else:
                        work.append(r)
        finally:
            del self.stack[depth - 1:]
        return outs

    def frame_exit(self, st, f):
        for p in f.allocas.values():
            st.blocks.pop(p.base, None)

    def fcopy(self, f):
        g = Frame(f.fn)
        g.regs = dict(f.regs)
        g.allocas = dict(f.allocas)
        g.args = f.args
        return g

    def block(self, st, fr, bb, prev, ii):
        """execute from block bb (entered from prev) instruction ii; returns list of Outcome or work items"""
        fn = fr.fn
        loops = fn.loops()
        if ii == 0 and bb in loops and prev is not None:
            r = self.loop_entry(st, fr, bb, prev)
            if r is not None:
                return r
        return self.block_body(st, fr, bb, prev, ii)

    def block_body(self, st, fr, bb, prev, ii):
        fn = fr.fn
        mod = fn.mod
        ins = fn.blocks[bb]
        # phis first
        if ii == 0:
            newv = {}
            k = 0
            while ins[k].op == 'phi':
                t, inc = ins[k].a
                for v, l in inc:
                    if l == prev:
                        newv[ins[k].dst] = self.val(st, fr, t, v)
                        break
                k += 1
            fr.regs.update(newv)
            ii = k
        n = len(ins)
        regs = fr.regs
        while ii < n:
            x = ins[ii]
            op = x.op
            if x.line:
                self.line = x.line
            if op == 'load':
                t, pv = x.a
                p = self.val(st, fr, PTR, pv)
                regs[x.dst] = self.load(st, mod, p, t)
            elif op == 'store':
                t, v, pv = x.a
                self.store(st, mod, self.val(st, fr, PTR, pv), t, self.val(st, fr, t, v))
            elif op == 'alloca':
                t, cnt = x.a
                size = mod.size(t)
                if cnt is not None:
                    c = self.val(st, fr, cnt[0], cnt[1])
                    size = size * c if isinstance(c, int) else None
                p = st.alloc(size, 'alloca', x.dst)
                r = mod.resolve(t)
                if r[0] == 'arr' and r[2] == I8 and cnt is None:
                    s = fstr('buf_' + x.dst)
                    st.assume(slen(s) == r[1])
                    st.put(p, size, BytesV(s, r[1]))
                st.blocks[p.base].cls = t
                regs[x.dst] = p
                fr.allocas[x.dst] = p
            elif op == 'getelementptr':
                t, idx = x.a
                vals = [(it, self.val(st, fr, it, iv)) for it, iv in idx]
                regs[x.dst] = self.gep(st, mod, t, vals[0][1], vals[1:])
            elif op in ('call', 'invoke'):
                return self.do_call(st, fr, bb, ii, x)
            elif op == 'br':
                if x.a[0] is None:
                    return [(st, fr, x.a[1], bb, 0)]
                c = self.val(st, fr, I1, x.a[0])
                return self.branch(st, fr, bb, c, x.a[1], x.a[2], x.line)
            elif op == 'switch':
                return self.do_switch(st, fr, bb, x)
            elif op == 'ret':
                t, v = x.a
                rv = None if v is None else self.val(st, fr, t, v)
                return [Outcome(st, 'ret', rv)]
            elif op == 'icmp':
                pred, t, a, b = x.a
                regs[x.dst] = self.icmp(st, pred, t, self.val(st, fr, t, a), self.val(st, fr, t, b))
            elif op == 'fcmp':
                pred, t, a, b = x.a
                f = z3.Function('fcmp_' + pred, F64, F64, BOOL)
                regs[x.dst] = f(self.val(st, fr, t, a).t, self.val(st, fr, t, b).t)
            elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                t, a, b, flags = x.a
                regs[x.dst] = self.binop(st, op, t[1], self.val(st, fr, t, a), self.val(st, fr, t, b), flags)
            elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
                t, a, b, flags = x.a
                f = z3.Function(op, F64, F64, F64)
                regs[x.dst] = Flt(f(self.val(st, fr, t, a).t, self.val(st, fr, t, b).t))
            elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi',
                        'fptoui', 'fpext', 'fptrunc', 'addrspacecast'):
                t, v, t2 = x.a
                regs[x.dst] = self.cast(st, op, t, self.val(st, fr, t, v), t2)
            elif op == 'select':
                t, c, a, b = x.a
                cv = self.val(st, fr, I1, c)
                av = self.val(st, fr, t, a)
                bv = self.val(st, fr, t, b)
                r = self.ite(cv, av, bv, t)
                if r is None:
                    res = []
                    for cond, v in ((cv, av), (z3.Not(cv), bv)):
                        if self.feasible(st, cond):
                            s2 = st.fork()
                            s2.assume(cond)
                            f2 = self.fcopy(fr)
                            f2.regs[x.dst] = v
                            res.append((s2, f2, bb, prev, ii + 1))
                    return res
                regs[x.dst] = r
            elif op == 'extractvalue':
                t, v, idx = x.a
                val = self.val(st, fr, t, v)
                for i in idx:
                    val = val[i]
                regs[x.dst] = val
            elif op == 'insertvalue':
                t, v, t2, v2, idx = x.a
                val = self.val(st, fr, t, v)
                if isinstance(val, Undef):
                    r = mod.resolve(t)
                    val = tuple([UNDEF] * (len(r[1]) if r[0] == 'struct' else r[1]))
                val = list(val)
                val[idx[0]] = self.val(st, fr, t2, v2)
                regs[x.dst] = tuple(val)
            elif op == 'resume':
                v = self.val(st, fr, None, x.a)
                e = v[0]
                return [Outcome(st, 'throw', self.inflight(st, e))]
            elif op == 'unreachable':
                return []
            elif op == 'fence':
                pass
            elif op == 'freeze':
                regs[x.dst] = self.val(st, fr, x.a[0], x.a[1])
            elif op == 'fneg':
                f = z3.Function('fneg', F64, F64)
                regs[x.dst] = Flt(f(self.val(st, fr, x.a[0], x.a[1]).t))
            elif op == 'atomicrmw':
                o, pv, t, v = x.a
                p = self.val(st, fr, PTR, pv)
                old = self.load(st, mod, p, t)
                nv = self.val(st, fr, t, v)
                self.store(st, mod, p, t, self.binop(st, o, t[1], old, nv) if o != 'xchg' else nv)
                regs[x.dst] = old
            else:
                raise Unsupported('instruction %s' % op)
            ii += 1
        raise Unsupported('fell off block')

    def inflight(self, st, p):
        if isinstance(p, Exc):
            return p
        raise Unsupported('resume of %r' % (p,))

    def branch(self, st, fr, bb, c, l1, l2, line):
        if isinstance(c, Undef):
            c = fbool('undef')
        if isinstance(c, (bool, int)):
            return [(st, fr, l1 if c else l2, bb, 0)]
        c = z3.simplify(c)
        if z3.is_true(c):
            return [(st, fr, l1, bb, 0)]
        if z3.is_false(c):
            return [(st, fr, l2, bb, 0)]
        nc = z3.simplify(z3.Not(c))
        f1 = self.feasible(st, c)
        f2 = True if not f1 else self.feasible(st, nc)
        if f1 and f2:
            s2 = st.fork()
            fr2 = self.fcopy(fr)
            st.assume(c)
            s2.assume(nc)
            st.trail.append((fr.fn.name, line, True))
            s2.trail.append((fr.fn.name, line, False))
            return [(st, fr, l1, bb, 0), (s2, fr2, l2, bb, 0)]
        if f1:
            st.assume(c)
            return [(st, fr, l1, bb, 0)]
        if f2:
            st.assume(nc)
            return [(st, fr, l2, bb, 0)]
        return []

    def do_switch(self, st, fr, bb, x):
        t, v, d, cases = x.a
        val = self.val(st, fr, t, v)
        if isinstance(val, bool):
            val = int(val)
        if isinstance(val, int):
            for cv, l in cases:
                if cv % (1 << t[1]) == val:
                    return [(st, fr, l, bb, 0)]
            return [(st, fr, d, bb, 0)]
        res = []
        neg = []
        for cv, l in cases:
            c = int_eq(val, cv % (1 << t[1]))
            neg.append(z3.Not(c))
            if self.feasible(st, c):
                s2 = st.fork()
                s2.assume(c)
                res.append((s2, self.fcopy(fr), l, bb, 0))
        if self.feasible(st, *neg):
            s2 = st.fork()
            s2.assume(*neg)
            res.append((s2, self.fcopy(fr), d, bb, 0))
        return res

    def do_call(self, st, fr, bb, ii, x):
        a = x.a
        callee = self.val(st, fr, PTR, a['callee'])
        args = [self.val(st, fr, t, v) if t != ('metadata',) else None for t, v, _ in a['args']]
        for k, (t, v, info) in enumerate(a['args']):
            if 'byval' in info:
                # copy of the object
                p = st.alloc(fr.fn.mod.size(info['byval']), 'alloca', 'byval')
                self.memcpy(st, p, args[k], fr.fn.mod.size(info['byval']))
                fr.allocas['byval%d' % p.base] = p
                args[k] = p
        line = x.line
        outs = self.call(st, fr.fn.mod, callee, args, a['rt'], line)
        res = []
        many = len(outs) > 1
        for o in outs:
            f2 = self.fcopy(fr) if many else fr
            if o.kind == 'ret':
                if x.dst is not None:
                    f2.regs[x.dst] = o.val
                if x.op == 'invoke':
                    res.append((o.st, f2, a['to'], bb, 0))
                else:
                    res.append((o.st, f2, bb, None, ii + 1))
            elif o.kind == 'throw':
                if x.op == 'invoke':
                    r = self.unwind(o.st, f2, a['unwind'], bb, o.val)
                    res.extend(r)
                else:
                    res.append(o)
            else:
                res.append(o)
        return res

    def unwind(self, st, fr, lbl, prev, exc):
        fn = fr.fn
        ins = fn.blocks[lbl]
        k = 0
        while ins[k].op == 'phi':
            k += 1
        lp = ins[k]
        assert lp.op == 'landingpad'
        sel = None
        cleanup = False
        for cl in lp.a:
            if cl[0] == 'cleanup':
                cleanup = True
            elif cl[0] == 'catch':
                if sel is None:
                    v = cl[1]
                    if v[0] == 'null':
                        sel = 1
                        match = None
                    else:
                        p = self.constval(st, fn.mod, PTR, v)
                        nm = self.ti_name(st, p)
                        if self.prog.derives(exc.ti, nm):
                            sel = self.ti_id(st, p)
                            match = nm
            elif cl[0] == 'filter':
                if sel is None:
                    allowed = []
                    if cl[1][0] == 'agg':
                        for t, v in cl[1][1]:
                            allowed.append(self.ti_name(st, self.constval(st, fn.mod, PTR, v)))
                    if not any(self.prog.derives(exc.ti, n) for n in allowed):
                        sel = (1 << 32) - 1
                        match = None
        if sel is None and not cleanup:
            return [Outcome(st, 'throw', exc)]
        e = Exc(exc.ptr, exc.ti)
        if sel is not None:
            st.ghost['match'] = match
        fr.regs[lp.dst] = (e, sel or 0)
        # phis of the landing block
        for j in range(k):
            t, inc = ins[j].a
            for v, l in inc:
                if l == prev:
                    fr.regs[ins[j].dst] = self.val(st, fr, t, v)
        if lbl in fn.loops():
            raise Unsupported('landing pad is a loop header')
        return [(st, fr, lbl, prev, k + 1)]

    # ------------------------------------------------------------------ loops
    def loop_entry(self, st, fr, head, prev):
        """called when control reaches a loop header. Returns list of work items / outcomes, or None to just execute."""
        fn = fr.fn
        body = fn.loops()[head]
        key = (id(fr.fn), head, len(self.stack))
        inv = st.ghost.get('inv', {})
        if prev in body:
            # back edge
            h = self.loop_handlers[-1] if getattr(self, 'loop_handlers', None) else None
            for h in reversed(getattr(self, 'loop_handlers', [])):
                if h.key == key:
                    return h.back(st, fr, prev)
            n = st.fuel.get(key, 0) + 1
            st.fuel[key] = n
            if n > self.unroll:
                if self.bounded:
                    self.bounded_cut = True
                    return []
                raise Unsupported('loop in %s (line %s) is not bounded by a constant and no invariant applies' % (fn.dem, self.line))
            return None
        # entry from outside
        st.fuel[key] = 0
        if self.bounded:
            return None
        return self.cut_loop(st, fr, head, prev, key, body)

    def cut_loop(self, st, fr, head, prev, key, body):
        from .loops import LoopCut
        return LoopCut(self, st, fr, head, prev, key, body).run()

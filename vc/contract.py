"""Contracts: pre/postconditions and frames of repo functions.

A contract is declarative: given the pre-state and the arguments it yields a list of cases
    Case(guard, ret / throw, writes, ...)
with mutually exclusive guards.  The same object is used (a) to verify the body against it and (b) in place of the
body when callers are verified."""
import z3, time
from .core import *
from .irparse import *
from .engine import Outcome, Exc, Engine, Obl
from . import models


class New:
    """result: pointer to a freshly allocated object of exact class cls with the given field values"""

    def __init__(self, cls, fields=None, size=None):
        self.cls, self.fields, self.size = cls, fields or {}, size


class Any_:
    """result unconstrained"""

    def __init__(self, mk=None):
        self.mk = mk


class Case:
    def __init__(self, guard=True, ret=None, throw=None, writes=(), frees=(), label='', post=None, exc_code=None, any_frame=False, ghost=None, anyret=False, effect=None, anyway=False, build=None):
        self.build = build        # callable(E, st) -> (state, exception): the exception object callers get
        self.anyway = anyway      # may return or raise; post tells what is allowed
        self.effect = effect      # callable(E, st): ghost state after the call, assumed by callers (must be implied by post)
        """ret: value | New | None(void);  throw: exception class (exact or base)
        writes: list of (ptr, size, value);  frees: list of block pointers
        post: optional callable(E, st, outcome) -> list[(name, Bool)] extra checks on verify (not used on apply)"""
        self.guard, self.ret, self.throw, self.writes, self.frees = guard, ret, throw, list(writes), list(frees)
        self.label, self.post, self.exc_code, self.any_frame = label, post, exc_code, any_frame
        self.ghost = ghost or {}
        self.anyret = anyret


class Ctx:
    """access helper over a state"""
    variant = None
    applying = False        # the cases are taken as the effect of a call, not as the specification under proof

    def __init__(self, E, st):
        self.E, self.st, self.prog = E, st, E.prog
        self.inputs = {}

    def inp(self, name, t):
        self.inputs[name] = t
        return t

    def obj(self, cls, kind='heap', exact=True, **fields):
        return new_obj(self.E, self.st, cls, kind, exact, fields)

    def f(self, p, cls, name):
        """value of field"""
        o = self.prog.off(cls, name)
        return get_field(self.E, self.st, p.add(o), self.prog.ftype(cls, name))

    def s(self, p, cls, name):
        return self.f(p, cls, name).s

    def fp(self, p, cls, name):
        return p.add(self.prog.off(cls, name))

    def str(self, p):
        return models.S(self.E, self.st, p)

    def run(self, dem, args, rt=('void',), pick=None):
        """execute a real function while building the pre-state (constructors establishing an invariant)"""
        E = self.E
        fn = E.prog.fn_by_dem(dem)
        if fn is None:
            raise Unsupported('function %s not found' % dem)
        col, E.collect = E.collect, False
        try:
            outs = [o for o in E.run(self.st, fn, args) if o.kind == 'ret' and (pick is None or pick(o))]
        finally:
            E.collect = col
        if len(outs) != 1:
            raise Unsupported('%d normal outcomes of %s in a pre-state' % (len(outs), dem))
        self.st = outs[0].st
        return outs[0].val

    def newstr(self, s=None, name='str'):
        p = self.st.alloc(32, 'heap', name)
        if s is None:
            s = fstr(name)
            self.st.assume(slen(s) < MAXLEN)
        self.st.put(p, 32, StrV(s))
        return p


SCALAR = {'int': 4, 'unsigned int': 4, 'unsigned': 4, 'size_t': 8, 'unsigned long': 8, 'long': 8, 'int64_t': 8, 'uint64_t': 8,
          '_Bool': 1, 'bool': 1, 'char': 1, 'short': 2, 'unsigned short': 2, 'uint16_t': 2, 'double': 8, 'time_t': 8, 'ssize_t': 8, 'in_port_t': 2}


def fresh_field(E, st, ty, name):
    """(size, value) of a fresh member of C++ type ty, or None when the type is not modelled"""
    t = ty.strip()
    if t.startswith('const '):
        t = t[6:]
    if t == 'std::basic_string<char>' or t == 'std::string':
        v = fstr(name)
        st.assume(slen(v) < MAXLEN)
        return 32, StrV(v)
    if t in ('_Bool', 'bool'):
        return 1, fbool(name)
    if t in SCALAR:
        n = SCALAR[t]
        if t == 'double':
            return 8, Flt(fresh(F64, name))
        return n, E.fresh_of(st, ('i', 8 * n), name)
    if t.endswith('*') or t.endswith('&'):
        return None
    if t in E.prog.records:
        return None
    return None


def new_obj(E, st, cls, kind='heap', exact=True, fields=None, unknown=True):
    size = E.prog.size(cls)
    p = st.alloc(size, kind, cls.split('::')[-1], cls)
    b = st.blocks[p.base]
    b.exact = cls if exact else None
    init_obj(E, st, p, cls, exact, fields or {}, unknown)
    return p


def init_obj(E, st, p, cls, exact, fields, unknown=True, top=True, prefix=''):
    if top and E.prog.is_poly(cls):
        if exact:
            try:
                st.put(p, 8, E.prog.vptr_for(E, st, cls))
            except Unsupported:
                st.put(p, 8, Ptr(('vt', cls), 0))
        else:
            st.put(p, 8, Ptr(('vt', cls), 0))
    for off, ty, nm in E.prog.fields(cls):
        if ty == 'vptr':
            continue
        full = prefix + nm
        q = p.add(off)
        if full in fields:
            v = fields[full]
            if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], int) and not isinstance(v[1], int):
                st.put(q, v[0], v[1])
            else:
                st.put(q, field_size(E, ty, v), v)
            continue
        ff = fresh_field(E, st, ty, full)
        if ff is not None:
            if unknown:
                st.put(q, ff[0], ff[1])
        elif ty in E.prog.records and not ty.startswith('std::') and not ty.startswith('boost::'):
            init_obj(E, st, q, ty, True, {k[len(full) + 1:]: v for k, v in fields.items() if k.startswith(full + '.')}, unknown, False)


def field_size(E, ty, v):
    t = ty.strip()
    if t.startswith('const '):
        t = t[6:]
    if isinstance(v, StrV):
        return 32
    if t in SCALAR:
        return SCALAR[t]
    if t.endswith('*') or t.endswith('&'):
        return 8
    if t in E.prog.records:
        return E.prog.records[t][0]
    if isinstance(v, (Ptr, SymPtr)):
        return 8
    if isinstance(v, MapV):
        return 48
    if isinstance(v, SeqV):
        return 24
    return 4


def get_field(E, st, q, ty):
    b = st.blocks[q.base]
    c = b.cells.get(q.off)
    if c is None:
        raise Unsupported('field at %r not initialised' % (q,))
    return c[1]


class Contract:
    """name: demangled function name (or list of alternatives)"""

    dflt_cands = ()

    def __init__(self, name, setup, cases, requires=None, cands=(), level='lemma', frame=True, opts=None, prop='', fn=None, inputs=None, recursive=False, weight=1, variants=None, use=True, engine=None):
        self.engine = engine      # models only this proof works with
        self.variants, self.use, self.variant = variants, use, None
        self.recursive, self.weight = recursive, weight
        self.names = [name] if isinstance(name, str) else list(name)
        self.setup, self.cases, self.requires = setup, cases, requires
        self.cands, self.level, self.frame, self.opts = list(cands), level, frame, opts or {}
        self.under_proof = False
        self.prop = prop
        self.fn = fn
        self.inputs = inputs

    @property
    def name(self):
        return self.names[0]

    # ------------------------------------------------------------------ use at call sites
    def apply(self, E, st, args, rt):
        c = Ctx(E, st)
        c.applying = True
        if self.requires:
            for nm, g in self.requires(c, args):
                E.prove(st, g, 'precondition of %s: %s' % (short(self.name), nm), 'pre')
        outs = []
        cases = self.cases(c, args)
        for cs in cases:
            g = cs.guard if not isinstance(cs.guard, bool) else z3.BoolVal(cs.guard)
            g = z3.simplify(g)
            if not E.feasible(st, g):
                continue
            s2 = st.fork()
            if not z3.is_true(g):
                s2.assume(g)
            for p, size, v in cs.writes:
                E.aset(s2, p, size, v)
            for p in cs.frees:
                s2.wb(p.base).alive = False
            if cs.effect:
                cs.effect(E, s2)
            for k, v in cs.ghost.items():
                s2.ghost[k] = v(s2) if callable(v) else v
            if cs.throw and cs.build:
                s3, x = cs.build(E, s2)
                outs.append(Outcome(s3, 'throw', x))
            elif cs.throw:
                for t in (cs.throw if isinstance(cs.throw, tuple) else (cs.throw,)):
                    s3 = s2.fork() if isinstance(cs.throw, tuple) else s2
                    outs.append(Outcome(s3, 'throw', make_exc(E, s3, t, cs.exc_code)))
            elif isinstance(cs.ret, New):
                p = new_obj(E, s2, cs.ret.cls, 'heap', True, cs.ret.fields)
                outs.append(Outcome(s2, 'ret', p))
            else:
                outs.append(Outcome(s2, 'ret', cs.ret(s2) if callable(cs.ret) else cs.ret))
        return outs

    # ------------------------------------------------------------------ verification of the body
    def verify(self, E, budget=120):
        fn = None
        for n in self.names:
            fn = E.prog.fn_by_dem(n)
            if fn:
                break
        if fn is None:
            raise Unsupported('function %s not found' % self.name)
        n0 = len(E.obls)
        for v in (self.variants or [None]):
            self.variant = v
            self._verify(E, fn, budget)
        for ob in E.obls[n0:]:
            ob.fn = self.name
        return E.obls[n0:]

    def _verify(self, E, fn, budget):
        st = State()
        E.init_state(st)
        c = Ctx(E, st)
        c.variant = self.variant
        args = self.setup(c)
        E.described = set(c.st.blocks)
        st = c.st
        pre_inputs = dict(getattr(c, 'inputs', {}))
        if self.requires:
            for nm, g in self.requires(c, args):
                st.assume(g)
        r, s = E._check(st.pc, [], 5000)
        if r == z3.unsat:
            raise Unsupported('precondition of %s is unsatisfiable' % self.name)
        E.last_inputs = pre_inputs
        pre = st.fork()
        cpre = Ctx(E, pre)
        old = E.loop_cands
        E.loop_cands = list(self.cands) + [g for g in self.dflt_cands if g not in self.cands]
        self.under_proof = True
        E.deadline = time.time() + budget
        E.stack = []
        E.obl_prefix = short(self.name) + ': ' + ('(%s) ' % self.variant if self.variant is not None else '')
        oldopts = dict(E.opts)
        E.opts.update(self.opts)
        try:
            outs = E.run_top(st, fn, args)
            npaths = 0
            for o in outs:
                npaths += self.check_outcome(E, o, pre, args)
            if npaths == 0:
                raise Unsupported('no feasible path through %s' % self.name)
        finally:
            self.under_proof = False
            E.loop_cands = old
            E.deadline = None
            E.obl_prefix = ''
            E.opts = oldopts

    def check_outcome(self, E, o, pre, args):
        n = 0
        # spec is evaluated over the pre-state; definitional facts it adds go to a copy of the outcome's path condition
        sp = pre.fork()
        sp.pc = list(o.st.pc)
        sp.globals = o.st.globals
        c = Ctx(E, sp)
        c.variant = self.variant
        cases = self.cases(c, args)
        defs = sp.pc[len(o.st.pc):]
        for cs in cases:
            g = cs.guard if not isinstance(cs.guard, bool) else z3.BoolVal(cs.guard)
            s2 = o.st.fork()
            s2.pc += defs
            if not E.feasible(s2, g):
                continue
            s2.assume(g)
            # confirm it is a real path before blaming it
            n += 1
            lab = cs.label or ('throw ' + (cs.throw if isinstance(cs.throw, str) else cs.throw[0]).split('::')[-1] if cs.throw else 'return')
            if o.kind == 'abort':
                E.prove(s2, False, '[%s] does not terminate the program (%s)' % (lab, o.val), 'post')
                continue
            if cs.anyway:
                pass
            elif cs.throw:
                if o.kind != 'throw':
                    E.prove(s2, False, '[%s] must throw %s, returns' % (lab, cs.throw), 'post')
                    continue
                ts = cs.throw if isinstance(cs.throw, tuple) else (cs.throw,)      # one of several classes
                E.prove(s2, any(E.prog.derives(o.val.ti, E.prog.ti_of(t)) for t in ts), '[%s] exception type is %s' % (lab, cs.throw), 'post')
                if cs.exc_code is not None:
                    check_code(E, s2, o.val, cs.exc_code, lab)
            else:
                if o.kind != 'ret':
                    E.prove(s2, False, '[%s] must return, throws %s' % (lab, E.prog.ti_cls(o.val.ti)), 'post')
                    continue
                self.check_ret(E, s2, o, cs, lab)
            if cs.post:
                for nm, g2 in cs.post(E, s2, o):
                    E.prove(s2, g2, '[%s] %s' % (lab, nm), 'post')
            written = set()
            freed = {p.base for p in cs.frees}
            for p, size, v in cs.writes:
                written.add((p.base, p.off))
                if isinstance(p.base, int):
                    b = s2.blocks.get(p.base)
                    cell = b.cells.get(p.off) if b else None
                    got = cell[1] if cell else None
                else:
                    got = E.aget(s2, p)
                if callable(v):
                    for nm, g2 in v(E, s2, got):
                        E.prove(s2, g2, '[%s] %s' % (lab, nm), 'post')
                    continue
                E.prove(s2, val_eq(got, v) if got is not None else False, '[%s] final value of %s' % (lab, where(E, pre, p)), 'post')
            if self.frame and not cs.any_frame:
                check_frame(E, s2, pre, written, freed, lab)
            for k, v in cs.ghost.items():
                want = v(s2) if callable(v) else v
                E.prove(s2, val_eq(s2.ghost.get(k), want), '[%s] %s' % (lab, k), 'post')
        return n

    def check_ret(self, E, s2, o, cs, lab):
        if cs.anyret or cs.ret is None and not isinstance(cs.ret, New):
            return
        if isinstance(cs.ret, New):
            p = o.val
            ok = isinstance(p, Ptr) and isinstance(p.base, int) and not p.isnull and s2.blocks[p.base].kind == 'heap' and s2.blocks[p.base].alive
            E.prove(s2, bool(ok), '[%s] returns a new live object' % lab, 'post')
            if ok:
                for f, v in cs.ret.fields.items():
                    off = E.prog.off(cs.ret.cls, f)
                    cell = s2.blocks[p.base].cells.get(off)
                    E.prove(s2, val_eq(cell[1], v) if cell else False, '[%s] new object: %s' % (lab, f), 'post')
            return
        want = cs.ret(s2) if callable(cs.ret) else cs.ret
        E.prove(s2, val_eq(o.val, want), '[%s] result' % lab, 'post')


class Lemma:
    """a fact about the specification functions, proved on its own: fn() -> [(name, [hypotheses], goal)]"""
    level = 'property'
    weight = 1
    recursive = False

    def __init__(self, name, fn, level='property'):
        self.names, self.fn, self.level = [name], fn, level

    @property
    def name(self):
        return self.names[0]

    def verify(self, E, budget=120):
        E.deadline = time.time() + budget
        for nm, hyps, goal in self.fn():
            st = State()
            st.assume(*hyps)
            r, _ = E._check(st.pc, [], 3000)
            if r == z3.unsat:
                raise Unsupported('hypotheses of lemma %s are contradictory' % nm)
            E.prove(st, goal, '%s: %s' % (self.name, nm), 'lemma')
        return E.obls


def given(check, ks):
    """contracts used here and discharged by another check"""
    ks = list(ks)
    for k in ks:
        k.elsewhere = check
    return ks


def where(E, st, p):
    if isinstance(p.base, int):
        b = st.blocks.get(p.base)
        if b is not None and b.cls in E.prog.records:
            for off, ty, nm in E.prog.fields(b.cls):
                if off == p.off:
                    return '%s.%s' % (b.name, nm)
        return '%s+%s' % (b.name if b else p.base, p.off)
    return repr(p)


def check_frame(E, s2, pre, written, freed, lab):
    for bid, b0 in pre.blocks.items():
        if b0.const or b0.kind == 'global':
            continue
        b1 = s2.blocks.get(bid)
        if b1 is b0:
            continue
        if bid in freed:
            E.prove(s2, bool(b1 is None or not b1.alive), '[%s] %s is released' % (lab, b0.name), 'frame')
            continue
        if b1 is None or not b1.alive:
            E.prove(s2, False, '[%s] %s stays alive' % (lab, b0.name), 'frame')
            continue
        for o, (sz, v) in b0.cells.items():
            if (bid, o) in written:
                continue
            c = b1.cells.get(o)
            if c is None:
                E.prove(s2, False, '[%s] frame: %s kept' % (lab, where(E, pre, Ptr(bid, o))), 'frame')
                continue
            if c[1] is v:
                continue
            E.prove(s2, val_eq(v, c[1]), '[%s] frame: %s unchanged' % (lab, where(E, pre, Ptr(bid, o))), 'frame')


def make_exc(E, st, cls, code=None):
    p = st.alloc(E.prog.records[cls][0] if cls in E.prog.records else 64, 'heap', 'exc:' + cls, cls)
    b = st.blocks[p.base]
    b.exact = cls
    if cls in E.prog.records:
        for off, ty, nm in E.prog.fields(cls):
            if nm == 'ex_code' and code is not None:
                b.cells[off] = (4, code % (1 << 32))
    return Exc(p, E.prog.ti_of(cls))


def check_code(E, st, exc, code, lab):
    cls = E.prog.ti_cls(exc.ti)
    off = E.prog.off(cls, 'ex_code')
    b = st.blocks[exc.ptr.base]
    c = b.cells.get(exc.ptr.off + off)
    E.prove(st, val_eq(c[1], code % (1 << 32)) if c else False, '[%s] fault code %d' % (lab, code), 'post')


def short(n):
    n = n.split('(')[0]
    return n.replace('iqxmlrpc::', '').replace('[abi:cxx11]', '')

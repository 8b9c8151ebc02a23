"""Loop cutting: inductive invariants by Houdini over candidate predicates."""
import re, z3, time
from .core import *
from .irparse import *


class Loc:
    """a mutable location: memory cell or ghost variable"""
    __slots__ = ('kind', 'blk', 'off', 'size', 'name')

    def __init__(self, kind, blk, off=0, size=0, name=''):
        self.kind, self.blk, self.off, self.size, self.name = kind, blk, off, size, name

    def key(self):
        return (self.kind, self.blk, self.off)

    def get(self, st):
        if self.kind == 'ghost':
            return st.ghost.get(self.blk)
        if self.kind == 'heap':
            return st.ghost['heap'].get(self.blk)
        b = st.blocks.get(self.blk)
        if b is None:
            return None
        c = b.cells.get(self.off)
        return c[1] if c else None

    def put(self, st, v):
        if self.kind == 'ghost':
            st.ghost[self.blk] = v
        elif self.kind == 'heap':
            h = dict(st.ghost['heap'])
            h[self.blk] = v
            st.ghost['heap'] = h
        else:
            b = st.wb(self.blk)
            b.cells[self.off] = (self.size, v)

    def drop(self, st):
        b = st.wb(self.blk)
        b.cells[self.off] = (self.size, LOST)

    def __repr__(self):
        return 'Loc(%s)' % self.name


def vsame(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        if is_sym(a) and is_sym(b):
            return a.eq(b)
        return False
    if isinstance(a, (int, bool, Ptr, SymPtr, FnPtr)):
        return a == b
    if is_sym(a):
        return a.eq(b)
    if isinstance(a, (StrV, VecB)):
        return a.s.eq(b.s)
    if isinstance(a, BytesV):
        return a.n == b.n and a.s.eq(b.s)
    if isinstance(a, SeqV):
        return same(a.lo, b.lo) and same(a.hi, b.hi) and all(x.eq(y) for x, y in zip(a.arrs, b.arrs))
    if isinstance(a, MapV):
        return a.pres.eq(b.pres) and all(x.eq(y) for x, y in zip(a.vals, b.vals))
    if isinstance(a, ListV):
        return len(a.items) == len(b.items) and all(vsame(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Opq):
        return a.kind == b.kind and same(a.t, b.t)
    if isinstance(a, Flt):
        return a.t.eq(b.t)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(vsame(x, y) for x, y in zip(a, b))
    try:
        return a == b
    except Exception:
        return False


class LoopCut:
    def __init__(self, E, st, fr, head, prev, key, body):
        self.E, self.st, self.fr, self.head, self.prev, self.key, self.body = E, st, fr, head, prev, key, body
        self.backs = []
        self.line = E.line

    # handler interface
    def back(self, st, fr, prev):
        self.backs.append((st, fr, prev))
        return []

    def iterate(self, st, fr, prev, skip_phi=False):
        """one pass through the body from the header; -> (exits, backs)"""
        E = self.E
        self.backs = []
        exits = []
        hs = E.__dict__.setdefault('loop_handlers', [])
        hs.append(self)
        try:
            if skip_phi:
                k = 0
                while fr.fn.blocks[self.head][k].op == 'phi':
                    k += 1
                work = None
                try:
                    work = list(E.block_body(st, fr, self.head, prev, k) if k else E.block_body(st, fr, self.head, prev, 0))
                except Infeasible:
                    work = []
            else:
                try:
                    work = list(E.block_body(st, fr, self.head, prev, 0))
                except Infeasible:
                    work = []
            n = 0
            pend = []
            for w in work:
                (exits if not isinstance(w, tuple) or w[2] not in self.body else pend).append(w)
            while pend:
                s, f, bb, pv, ii = pend.pop()
                n += 1
                if n > E.max_paths * 5:
                    raise Unsupported('path explosion in loop')
                try:
                    res = E.block(s, f, bb, pv, ii)
                except Infeasible:
                    continue
                for w in res:
                    if isinstance(w, tuple) and w[2] in self.body:
                        pend.append(w)
                    else:
                        exits.append(w)
        finally:
            hs.remove(self)
        b = self.backs
        self.backs = []
        return exits, b

    def normal_exits(self, exits):
        return [x for x in exits if isinstance(x, tuple) and not any(i.op == 'landingpad' or (i.op in ('call', 'invoke') and '__cxa_allocate_exception' in str(i.a)) for i in x[1].fn.blocks[x[2]])]

    def run(self):
        E = self.E
        # ---- concrete?
        lim = self.limit = E.opts.get('concrete_limit', 10)
        table = self.counted()
        if table is not None:
            lim = self.limit = max(lim, table + 1)
        collect = E.collect
        nob = len(E.obls)
        E.collect = False
        try:
            items = [(self.st.fork(), E.fcopy(self.fr), self.prev)]
            conc = True
            for k in range(lim + 1):
                nxt = []
                ex_ = []
                for s, f, pv in items:
                    ex, bk = self.iterate(s, f, pv)
                    ex_ += self.normal_exits(ex)
                    nxt += bk
                if not nxt:
                    break
                if (ex_ and not E.opts.get('concrete_exits') and table is None) or len(nxt) > E.opts.get('concrete_width', 8):
                    conc = False
                    break
                items = nxt
            else:
                conc = False
        finally:
            E.collect = collect
        if conc:
            return self.unrolled()
        nob = len(E.obls)
        try:
            return self.cut()
        except Unsupported:
            # cut behind the test of the loop instead, where the condition is known to hold
            for at in rotations(self.fr.fn, self.head, self.body):
                del E.obls[nob:]
                try:
                    return self.rotated(at)
                except Unsupported:
                    pass
            raise

    def rotated(self, at):
        return Rotated(self.E, self.st.fork(), self.E.fcopy(self.fr), at, self.prev, self.key, self.body, self.head).run()

    def counted(self):
        """the constant a local counter with a known start is compared with in the header, if small"""
        ins = self.fr.fn.blocks[self.head]
        cmp = [i for i in ins if i.op == 'icmp']
        if len(cmp) != 1 or ins[-1].op != 'br':
            return None
        for b in re.findall(r' (\d+)\b', cmp[0].raw.split('!dbg')[0])[-1:]:
            if 10 < int(b) <= 100:
                loads = [i for i in ins if i.op == 'load']
                for l in loads:
                    try:
                        v = self.st.cell(self.E.val(self.st, self.fr, PTR, l.a[1]))
                    except Exception:
                        continue
                    if isinstance(v, int) and 0 <= v < int(b):
                        return int(b)
        return None

    def unrolled(self):
        E = self.E
        items = [(self.st, self.fr, self.prev)]
        out = []
        for k in range(self.limit + 2):
            nxt = []
            for s, f, pv in items:
                ex, bk = self.iterate(s, f, pv)
                out += ex
                nxt += bk
            items = nxt
            if not items:
                break
        return out

    # ------------------------------------------------------------ modified set
    def diff(self, s0, s1, mod):
        """locations whose value differs between header state and back-edge state"""
        new = []
        for bid, b0 in s0.blocks.items():
            b1 = s1.blocks.get(bid)
            if b1 is b0 or b1 is None:
                if b1 is None and b0.alive:
                    pass
                continue
            if b1.alive != b0.alive:
                raise Unsupported('loop frees an object (%s)' % b0.name)
            if b0.const:
                continue
            for o, (sz, v) in b0.cells.items():
                c1 = b1.cells.get(o)
                if c1 is None:
                    if ('cell', bid, o) not in mod:
                        new.append(('gone', Loc('cell', bid, o, sz, '%s+%s' % (b0.name, o)), v, None))
                    continue
                if not vsame(v, c1[1]) and ('cell', bid, o) not in mod:
                    new.append(('chg', Loc('cell', bid, o, sz, '%s+%s' % (b0.name, o)), v, c1[1]))
        g0, g1 = s0.ghost, s1.ghost
        for k in set(g0) | set(g1):
            if k in ('match', 'inv', 'allocs'):
                continue
            if k == 'heap':
                h0, h1 = g0.get('heap', {}), g1.get('heap', {})
                for kk in h1:
                    if kk in h0 and not h0[kk].eq(h1[kk]) and ('heap', kk, 0) not in mod:
                        new.append(('chg', Loc('heap', kk, 0, 0, 'heap' + str(kk)), h0[kk], h1[kk]))
                continue
            if k not in g0:
                raise Unsupported('loop creates ghost ' + str(k))
            if k == 'ev':
                if g0[k] is not g1.get(k):
                    raise Unsupported('loop emits events')
                continue
            if not vsame(g0[k], g1.get(k)) and ('ghost', k, 0) not in mod:
                new.append(('chg', Loc('ghost', k, 0, 0, 'ghost ' + str(k)), g0[k], g1.get(k)))
        return new

    def havoc_val(self, st, loc, v, size):
        E = self.E
        if isinstance(v, Abs):
            return v.havoc(E, st)
        if isinstance(v, Flt):
            return Flt(fresh(F64, 'hf'))
        if isinstance(v, Ptr):
            if v.idx is not None:
                return Ptr(v.base, v.off, fint('hi'))
            if isinstance(v.base, tuple) and v.base[0] == 'node':
                raise Unsupported('map iterator in loop')
            if isinstance(v.base, int) and not v.isnull and loc in self.ptr_off:
                o = fint('ho')
                return Ptr(v.base, o)
            raise Unsupported('loop changes pointer %s' % loc.name)
        if isinstance(v, SymPtr):
            return SymPtr(fint('hr'), v.cls, v.off)
        if isinstance(v, (int, bool)) or is_sym(v):
            if is_sym(v) and not (z3.is_bv(v) or z3.is_int(v) or z3.is_bool(v)):
                return fresh(v.sort(), 'hg')
            if loc.kind != 'cell':
                return fresh(v.sort(), 'hg')
            if size == 1:
                if (is_sym(v) and z3.is_bool(v)) or (self.boolish.get(loc.key())):
                    return fbool('hb')
                return fresh(z3.BitVecSort(8), 'hc')
            if is_sym(v) and z3.is_bv(v):
                return fresh(v.sort(), 'hc')
            x = fint('hx_' + loc.name.replace('+', '_'))
            st.assume(x >= 0, x < (1 << (8 * size)))
            return x
        if isinstance(v, Undef):
            return v
        raise Unsupported('havoc of %r' % (v,))

    def header_state(self, mod):
        st = self.st.fork()
        fr = self.E.fcopy(self.fr)
        for key, (how, loc, v, v1) in mod.items():
            if how == 'gone':
                if loc.kind == 'ghost':
                    raise Unsupported('loop changes ' + loc.name)
                loc.drop(st)
                continue
            loc.put(st, self.havoc_val(st, loc, v, loc.size))
        # header phis
        for ins in fr.fn.blocks[self.head]:
            if ins.op != 'phi':
                break
            fr.regs[ins.dst] = self.E.fresh_of(st, fr.fn.mod.resolve(ins.a[0]), ins.dst)
        return st, fr

    def cut(self):
        E = self.E
        collect = E.collect
        E.collect = False
        mod = {}
        self.boolish = {}
        self.ptr_off = set()
        try:
            for rnd in range(12):
                st, fr = self.header_state(mod)
                s0 = st.fork()
                ex, backs = self.iterate(st, fr, self.prev, True)
                new = {}
                for (s1, f1, pv) in backs:
                    for how, loc, v, v1 in self.diff(s0, s1, mod):
                        k = loc.key()
                        if isinstance(v, int) and loc.size == 1 and v in (0, 1) and (v1 in (0, 1) if isinstance(v1, int) else (is_sym(v1) and z3.is_bool(v1))):
                            self.boolish[k] = True
                        if how == 'chg' and isinstance(v, Ptr) and isinstance(v1, Ptr) and v.base != v1.base:
                            how = 'gone' if loc.kind != 'cell' or s0.blocks[loc.blk].kind == 'alloca' else how
                        if how == 'chg' and v1 is not None and not compatible(v, v1):
                            how = 'gone'
                        if k not in new or new[k][0] == 'chg':
                            new[k] = (how, loc, v, v1)
                if not new:
                    break
                # 'gone' after earlier 'chg'
                mod.update(new)
            else:
                raise Unsupported('modified set does not stabilise')
            self.mod = mod
            # ---- candidates
            L = View(self, mod)
            cands = L.generic()
            for g in E.loop_cands:
                cands += g(L) or []
            # entry filter
            keep = []
            for lab, f in cands:
                try:
                    t = f(self.st)
                except Exception as e:
                    if E.opts.get('debug'):
                        print('cand %s failed: %r' % (lab, e))
                    continue
                if t is None:
                    continue
                keep.append((lab, f))
            keep = self.filter(self.st, keep)
            # ---- Houdini
            rounds = 0
            while True:
                rounds += 1
                if rounds > 40:
                    raise Unsupported('Houdini did not converge')
                st, fr = self.header_state(mod)
                for lab, f in keep:
                    st.assume(f(st))
                ex, backs = self.iterate(st, fr, self.prev, True)
                n = len(keep)
                for (s1, f1, pv) in backs:
                    keep = self.filter(s1, keep)
                if len(keep) == n:
                    break
        finally:
            E.collect = collect
        if E.collect:
            E.inv_log.append((self.fr.fn.dem, self.line, [l for l, _ in keep], rounds))
            # the invariant obligations themselves
            s = self.st.fork()
            for lab, f in keep:
                E.prove(s, f(s), 'loop invariant holds on entry: ' + lab, 'inv', self.line)
        st, fr = self.header_state(mod)
        st.taint.append('loop at line %s' % self.line)
        for lab, f in keep:
            st.assume(f(st))
        ex, backs = self.iterate(st, fr, self.prev, True)
        if E.collect:
            for (s1, f1, pv) in backs:
                base = s1
                for lab, f in keep:
                    s2 = base.fork()
                    E.prove(s2, f(s2), 'loop invariant preserved: ' + lab, 'inv', self.line)
        return ex

    def filter(self, st, cands):
        """keep candidates entailed in st"""
        E = self.E
        keep = []
        terms = []
        for lab, f in cands:
            try:
                t = f(st)
            except Exception:
                continue
            if isinstance(t, bool):
                t = z3.BoolVal(t)
            t = z3.simplify(t)
            if z3.is_false(t):
                continue
            terms.append((lab, f, t))
        # batch by model
        work = [x for x in terms if not z3.is_true(x[2])]
        keepl = {id(x[1]) for x in terms if z3.is_true(x[2])}
        cand = list(work)
        for _ in range(30):
            if not cand:
                break
            r, s = E._check(st.pc, [z3.Not(z3.And(*[t for _, _, t in cand]))], 1000)
            if r == z3.unsat:
                keepl |= {id(f) for _, f, _ in cand}
                break
            if r == z3.sat:
                m = s.model()
                nc = [x for x in cand if not z3.is_false(m.eval(x[2], model_completion=True))]
                if len(nc) < len(cand):
                    cand = nc
                    continue
            # individually
            for x in cand:
                if E.must(st, x[2], getattr(x[1], 'patience', E.opts.get('cand_timeout', 1200))):
                    keepl.add(id(x[1]))
            break
        return [(l, f) for l, f, t in terms if id(f) in keepl]


class Rotated(LoopCut):
    """the same loop cut at the first block behind one of its exit tests"""
    def __init__(self, E, st, fr, head, prev, key, body, top):
        LoopCut.__init__(self, E, st, fr, head, prev, key, body)
        self.top = top
        # values computed between the top and the cut do not survive it
        seen, work = set(), [top]
        while work:
            b = work.pop()
            if b not in seen and b in body and b != head:
                seen.add(b)
                work += fr.fn.succs(b)
        self.stale = {i.dst for b in seen for i in fr.fn.blocks[b] if i.dst}

    def back(self, st, fr, prev):
        return None

    def walk(self, work, arrived):
        E = self.E
        exits, n = [], 0
        hs = E.__dict__.setdefault('loop_handlers', [])
        hs.append(self)
        try:
            while work:
                w = work.pop()
                if not isinstance(w, tuple) or w[2] not in self.body:
                    exits.append(w)
                    continue
                s, f, bb, pv, ii = w
                if bb == self.head and ii == 0:
                    arrived.append((s, f, pv))
                    continue
                n += 1
                if n > E.max_paths * 5:
                    raise Unsupported('path explosion in loop')
                try:
                    work += E.block(s, f, bb, pv, ii)
                except Infeasible:
                    continue
        finally:
            hs.remove(self)
        return exits

    def iterate(self, st, fr, prev, skip_phi=False):
        backs = []
        try:
            work = list(self.E.block_body(st, fr, self.head, prev, 0))
        except Infeasible:
            work = []
        exits = self.walk(work, backs)
        return exits, backs

    def header_state(self, mod):
        st, fr = LoopCut.header_state(self, mod)
        for r in self.stale:
            fr.regs.pop(r, None)
        return st, fr

    def run(self):
        E = self.E
        entry = []
        try:
            work = list(E.block_body(self.st, self.fr, self.top, self.prev, 0))
        except Infeasible:
            work = []
        out = self.walk(work, entry)
        for s, f, pv in entry:
            self.st, self.fr, self.prev = s, f, pv
            out += self.cut()
        return out


def rotations(fn, head, body):
    """blocks behind the exit tests every iteration passes, in order from the top"""
    out, seen, work = [], set(), [head]
    preds = {}
    for b in body:
        for x in fn.succs(b):
            preds.setdefault(x, []).append(b)
    while work:
        b = work.pop(0)
        if b in seen:
            continue
        seen.add(b)
        t = fn.blocks[b][-1]
        nx = [x for x in fn.succs(b) if x in body and x != head]
        work += nx
        if t.op != 'br' or t.a[0] is None or len(nx) != 1 or all(x in body for x in fn.succs(b)):
            continue
        at = nx[0]
        if preds[at] != [b] or at in fn.loops() or fn.blocks[at][0].op == 'phi':
            continue
        # every way round the loop goes through it
        reach, w2 = set(), [head]
        ok = True
        while w2 and ok:
            y = w2.pop()
            if y in reach or y == at:
                continue
            reach.add(y)
            for x in fn.succs(y):
                if x == head:
                    ok = False
                elif x in body:
                    w2.append(x)
        if ok:
            out.append(at)
    return out


def compatible(a, b):
    if isinstance(a, Abs) or isinstance(b, Abs):
        return type(a) is type(b) and (not isinstance(a, Opq) or a.kind == b.kind)
    ia = isinstance(a, (int, bool)) or is_sym(a)
    ib = isinstance(b, (int, bool)) or is_sym(b)
    if ia and ib:
        return True
    return type(a) is type(b)


def csize(st, p):
    """number of elements of the container at p"""
    try:
        v = st.cell(p)
    except Exception:
        return None
    return slen(v.s) if isinstance(v, (StrV, VecB)) else I(v.size()) if isinstance(v, SeqV) else None


class View:
    """what candidate generators may look at"""

    def __init__(self, cut, mod):
        self.cut, self.E, self.entry, self.fr = cut, cut.E, cut.st, cut.fr
        self.fn = cut.fr.fn
        self.mod = mod
        self.ints = []     # (name, getter(st)->Int term, entry term)
        self.strs = []
        self.seqs = []
        self.maps = []
        self.ghosts = {}
        self.ptrs = []
        names = {p.base: n for n, p in cut.fr.allocas.items()}
        for k, (how, loc, v, v1) in mod.items():
            if how == 'gone':
                continue
            if loc.kind == 'ghost':
                self.ghosts[loc.blk] = (loc, v)
                continue
            if loc.kind == 'heap':
                continue
            nm = names.get(loc.blk, loc.name)
            if isinstance(v, Ptr) and v.idx is not None:
                self.ints.append((nm, (lambda st, loc=loc: I(loc.get(st).idx)), I(v.idx)))
                self.ptrs.append((nm, loc, v))
            elif (isinstance(v, (int,)) or is_sym(v)) and loc.size in (4, 8) and not (is_sym(v) and z3.is_bv(v)):
                self.ints.append((nm, (lambda st, loc=loc: I(loc.get(st))), I(v)))
            elif isinstance(v, (StrV, VecB)):
                self.strs.append((nm, loc, v))
            elif isinstance(v, SeqV):
                self.seqs.append((nm, loc, v))
            elif isinstance(v, MapV):
                self.maps.append((nm, loc, v))

    def const_ints(self):
        """integer terms of the frame the loop does not modify (locals, container lengths)"""
        out = []
        seen = set()
        for n, p in list(self.fr.allocas.items()):
            b = self.entry.blocks.get(p.base)
            if not b:
                continue
            for o, (sz, v) in b.cells.items():
                if ('cell', p.base, o) in self.mod:
                    continue
                t = None
                if isinstance(v, (int,)) and sz in (4, 8) and not isinstance(v, bool):
                    t = I(v)
                elif is_sint(v):
                    t = v
                elif isinstance(v, Ptr) and v.idx is not None:
                    t = I(v.idx)
                elif isinstance(v, (StrV, VecB)):
                    t = slen(v.s)
                elif isinstance(v, SeqV):
                    t = I(v.size())
                elif isinstance(v, Ptr) and isinstance(v.base, int) and not v.isnull:
                    bb = self.entry.blocks.get(v.base)
                    c = bb.cells.get(v.off) if bb and isinstance(v.off, int) else None
                    if c and isinstance(c[1], (StrV, VecB)) and ('cell', v.base, v.off) not in self.mod:
                        t = slen(c[1].s)
                    elif c and isinstance(c[1], SeqV) and ('cell', v.base, v.off) not in self.mod:
                        t = I(c[1].size())
                    elif c and isinstance(c[1], Ptr) and c[1].idx is not None and ('cell', v.base, v.off) not in self.mod:
                        t = I(c[1].idx)
                    if bb and n.startswith('this'):
                        for o2, (_, m) in list(bb.cells.items())[:20]:
                            if isinstance(m, (StrV, VecB, SeqV)) and ('cell', v.base, o2) not in self.mod:
                                u = z3.simplify(slen(m.s) if not isinstance(m, SeqV) else I(m.size()))
                                if u.get_id() not in seen:
                                    seen.add(u.get_id())
                                    out.append(('size of a member', u))
                if t is not None:
                    t = z3.simplify(t)
                    if t.get_id() not in seen:
                        seen.add(t.get_id())
                        out.append((n, t))
        return out

    def all_strs(self):
        """distinct string contents visible at loop entry that the loop does not modify"""
        out, seen = [], set()
        for bid, b in self.entry.blocks.items():
            if b.const or not b.alive:
                continue
            for o, (sz, v) in b.cells.items():
                if isinstance(v, StrV) and ('cell', bid, o) not in self.mod:
                    t = z3.simplify(v.s)
                    if t.get_id() not in seen and not t.eq(EMPTY):
                        seen.add(t.get_id())
                        out.append(t)
        return out[:6]

    def generic(self):
        cs = []
        consts = self.const_ints()[:12]
        for nm, g, x0 in self.ints:
            cs.append(('%s >= entry' % nm, lambda st, g=g, x0=x0: g(st) >= x0))
            cs.append(('%s <= entry' % nm, lambda st, g=g, x0=x0: g(st) <= x0))
            for k in (2, 3, 4):
                cs.append(('%s = entry mod %d' % (nm, k), lambda st, g=g, x0=x0, k=k: (g(st) - x0) % k == 0))
            for cn, t in consts:
                cs.append(('%s <= %s' % (nm, cn), lambda st, g=g, t=t: g(st) <= t))
                if isinstance(self.cut, Rotated):
                    cs.append(('%s < %s' % (nm, cn), lambda st, g=g, t=t: g(st) < t))
                cs.append(('%s >= %s' % (nm, cn), lambda st, g=g, t=t: g(st) >= t))
                if nm != cn:
                    for k in (1, 2):
                        cs.append(('%s <= %s+%d' % (nm, cn, k), lambda st, g=g, t=t, k=k: g(st) <= t + k))
        for nm, loc, v in self.ptrs:
            if isinstance(v.base, tuple) and v.base[0] == 'cd' and csize(self.entry, v.base[1]) is not None:
                if isinstance(self.cut, Rotated):
                    cs.append(('%s before the end of its container' % nm, lambda st, loc=loc, v=v: I(loc.get(st).idx) < csize(st, v.base[1])))
                cs.append(('%s in its container' % nm, lambda st, loc=loc, v=v: z3.And(I(loc.get(st).idx) >= 0, I(loc.get(st).idx) <= csize(st, v.base[1]))))
                q = self.entry.cell(v.base[1])
                if isinstance(q, SeqV) and z3.is_int(q.get(0)):
                    for cn, t in self.const_ints()[:6]:
                        j = z3.Int(fresh_name('j'))
                        cs.append(('%s not before %s' % (cn, nm), lambda st, loc=loc, v=v, t=t, j=j: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I(loc.get(st).idx)), st.cell(v.base[1]).get(j) != t))))
        for i, (n1, g1, a) in enumerate(self.ints):
            for n2, g2, b in self.ints[i + 1:]:
                cs.append(('%s-%s const' % (n1, n2), lambda st, g1=g1, g2=g2, a=a, b=b: g1(st) - a == g2(st) - b))
                cs.append(('%s+%s const' % (n1, n2), lambda st, g1=g1, g2=g2, a=a, b=b: g1(st) + g2(st) == a + b))
        for nm, loc, v in self.strs:
            cs.append(('len %s >= entry' % nm, lambda st, loc=loc, v=v: slen(loc.get(st).s) >= slen(v.s)))
            for n2, g, x0 in self.ints:
                cs.append(('len %s grows with %s' % (nm, n2), lambda st, loc=loc, v=v, g=g, x0=x0: slen(loc.get(st).s) - slen(v.s) == g(st) - x0))
                cs.append(('%s <= len %s' % (n2, nm), lambda st, loc=loc, g=g: g(st) <= slen(loc.get(st).s)))
        for nm, loc, v in self.seqs:
            cs.append(('size %s >= entry' % nm, lambda st, loc=loc, v=v: I(loc.get(st).size()) >= I(v.size())))
            for n2, g, x0 in self.ints:
                cs.append(('size %s grows with %s' % (nm, n2), lambda st, loc=loc, v=v, g=g, x0=x0: I(loc.get(st).size()) - I(v.size()) == g(st) - x0))
                cs.append(('%s <= size %s' % (n2, nm), lambda st, loc=loc, g=g: g(st) <= I(loc.get(st).size())))
        return cs

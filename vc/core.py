"""Value domain, memory and path state of the verifier."""
import z3

BYTE = z3.BitVecSort(8)
STR = z3.SeqSort(BYTE)
INT = z3.IntSort()
BOOL = z3.BoolSort()
F64 = z3.DeclareSort('F64')

EMPTY = z3.Empty(STR)


class Unsupported(Exception):
    """the verifier cannot decide (never a verdict about the code)"""


class Infeasible(Exception):
    pass


_ctr = [0]


def fresh_name(p):
    _ctr[0] += 1
    return '%s!%d' % (p, _ctr[0])


def fresh(sort, p='v'):
    return z3.Const(fresh_name(p), sort)


def fint(p='n'):
    return fresh(INT, p)


def fstr(p='s'):
    return fresh(STR, p)


def fbool(p='b'):
    return fresh(BOOL, p)


_ucache = {}


def sbytes(b):
    """python bytes -> Seq constant"""
    if isinstance(b, str):
        b = b.encode('latin-1')
    r = _ucache.get(b)
    if r is None:
        if len(b) == 0:
            r = EMPTY
        elif len(b) == 1:
            r = z3.Unit(z3.BitVecVal(b[0], 8))
        else:
            r = z3.Concat(*[z3.Unit(z3.BitVecVal(c, 8)) for c in b])
        _ucache[b] = r
    return r


def cat(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (bytes, str)):
            x = sbytes(x)
        if x.eq(EMPTY):
            continue
        ys.append(x)
    if not ys:
        return EMPTY
    if len(ys) == 1:
        return ys[0]
    return z3.Concat(*ys)


def slen(s):
    return z3.Length(s)


def sub(s, off, ln):
    return z3.SubSeq(s, I(off), I(ln))


def I(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if z3.is_bv(x):
        return z3.BV2Int(x)
    if z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def BV(x, w):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if z3.is_bool(x):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if z3.is_int(x):
        return z3.Int2BV(x, w)
    return x


def B(x):
    if isinstance(x, (bool, int)):
        return z3.BoolVal(bool(x))
    return x


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def is_sint(x):
    return isinstance(x, z3.ArithRef)


class Ptr:
    __slots__ = ('base', 'off', 'idx')

    def __init__(self, base, off=0, idx=None):
        self.base, self.off, self.idx = base, off, idx

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.base == o.base and same(self.off, o.off) and same(self.idx, o.idx)

    def __hash__(self):
        return hash(self.base)

    def __repr__(self):
        return 'Ptr(%r+%s%s)' % (self.base, self.off, '' if self.idx is None else '[%s]' % self.idx)

    def add(self, n):
        if isinstance(n, int) and isinstance(self.off, int):
            return Ptr(self.base, self.off + n, self.idx)
        return Ptr(self.base, z3.simplify(I(self.off) + I(n)), self.idx)

    @property
    def isnull(self):
        return self.base == 0


NULL = Ptr(0)


def same(a, b):
    if a is b:
        return True
    sa, sb = is_sym(a), is_sym(b)
    if sa and sb:
        return a.eq(b)
    if sa or sb:
        return False
    return a == b


class SymPtr:
    """pointer given by an SMT term (object reference); null is 0.
    cls: static class of the pointee (None: unknown)."""
    __slots__ = ('ref', 'cls', 'off')

    def __init__(self, ref, cls=None, off=0):
        self.ref, self.cls, self.off = ref, cls, off

    def __repr__(self):
        return 'SymPtr(%s:%s+%s)' % (self.ref, self.cls, self.off)

    def add(self, n):
        return SymPtr(self.ref, self.cls, self.off + n)

    def __eq__(self, o):
        return isinstance(o, SymPtr) and same(self.ref, o.ref) and self.off == o.off

    def __hash__(self):
        return 7


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, FnPtr) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Fn(%s)' % self.name


class VFn:
    """virtual function pointer of an object whose exact class is unknown"""
    __slots__ = ('cls', 'slot')

    def __init__(self, cls, slot):
        self.cls, self.slot = cls, slot


class PtrInt:
    """ptrtoint result"""
    __slots__ = ('p', 'add')

    def __init__(self, p, add=0):
        self.p, self.add = p, add


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Lost_:
    def __repr__(self):
        return 'lost'


LOST = Lost_()


class Key:
    """container key term, comparable structurally"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Key) and same(self.t, o.t)

    def __hash__(self):
        return 11


class Enum:
    """one traversal order of an associative container: keys[0..n) are exactly the present keys, each once"""

    def __init__(self, m, st):
        self.m = m
        self.n = fint('mapsize')
        self.keys = fresh(z3.ArraySort(INT, m.pres.sort().domain()), 'keys')
        self.pos = z3.Function(fresh_name('pos'), m.pres.sort().domain(), INT)
        st.assume(self.n >= 0, self.n < MAXLEN)
        k = z3.Const(fresh_name('k'), m.pres.sort().domain())
        st.assume(z3.ForAll([k], z3.Implies(z3.Select(m.pres, k), z3.And(self.pos(k) >= 0, self.pos(k) < self.n, z3.Select(self.keys, self.pos(k)) == k)),
                            patterns=[self.pos(k)]))

    def touch(self, st, i):
        """facts about position i"""
        k = z3.Select(self.keys, i)
        st.assume(z3.Implies(z3.And(i >= 0, i < self.n), z3.And(z3.Select(self.m.pres, k), self.pos(k) == i)))


class Flt:
    """opaque double"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'Flt(%s)' % self.t


# ---------------------------------------------------------------- abstract library objects
class Abs:
    """abstract contents of a library object. immutable."""

    def eq(self, o):
        raise NotImplementedError(type(self))

    def havoc(self, E, st):
        raise NotImplementedError(type(self))


class StrV(Abs):
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def eq(self, o):
        if not isinstance(o, StrV):
            return z3.BoolVal(False)
        return self.s == o.s

    def havoc(self, E, st):
        v = fstr('h')
        st.assume(slen(v) < MAXLEN)
        return StrV(v)

    def __repr__(self):
        return 'StrV(%s)' % (self.s,)


MAXLEN = 1 << 60


class BytesV(Abs):
    """raw byte array contents, sequence of exactly n bytes"""
    __slots__ = ('s', 'n')

    def __init__(self, s, n):
        self.s, self.n = s, n

    def eq(self, o):
        return self.s == o.s

    def havoc(self, E, st):
        v = fstr('hb')
        st.assume(slen(v) == self.n)
        return BytesV(v, self.n)


class VecB(Abs):
    """std::vector<char> and friends"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def eq(self, o):
        return self.s == o.s

    def havoc(self, E, st):
        v = fstr('hv')
        st.assume(slen(v) < MAXLEN)
        return VecB(v)


class SeqV(Abs):
    """vector / deque / list of elements described by a schema
    schema: tuple of (offset, size, kind) leaves;   kind in 'str','int<w>','bool','ptr:<cls>','val'
    contents: arrs[i] : Array Int -> sort,   valid on [lo,hi)"""
    __slots__ = ('schema', 'elsize', 'arrs', 'lo', 'hi')

    def __init__(self, schema, elsize, arrs, lo, hi):
        self.schema, self.elsize, self.arrs, self.lo, self.hi = schema, elsize, arrs, lo, hi

    def size(self):
        if same(self.lo, 0):
            return self.hi
        if isinstance(self.lo, int) and isinstance(self.hi, int):
            return self.hi - self.lo
        return z3.simplify(I(self.hi) - I(self.lo))

    def get(self, i, leaf=0):
        return z3.Select(self.arrs[leaf], I(self.lo) + I(i) if not same(self.lo, 0) else I(i))

    def with_(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return SeqV(**d)

    def push_back(self, leaves):
        arrs = tuple(z3.Store(a, I(self.hi), v) for a, v in zip(self.arrs, leaves))
        hi = self.hi + 1 if isinstance(self.hi, int) else z3.simplify(self.hi + 1)
        return self.with_(arrs=arrs, hi=hi)

    def push_front(self, leaves):
        lo = self.lo - 1 if isinstance(self.lo, int) else z3.simplify(self.lo - 1)
        arrs = tuple(z3.Store(a, I(lo), v) for a, v in zip(self.arrs, leaves))
        return self.with_(arrs=arrs, lo=lo)

    def eq(self, o):
        # extensional on [lo,hi)
        j = z3.Int(fresh_name('j'))
        cs = [I(self.size()) == I(o.size())]
        for k in range(len(self.arrs)):
            if self.arrs[k].eq(o.arrs[k]) and same(self.lo, o.lo):
                continue
            cs.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I(self.size())), self.get(j, k) == o.get(j, k))))
        return z3.And(*cs)

    def havoc(self, E, st):
        n = fint('hn')
        st.assume(n >= 0, n < MAXLEN)
        return SeqV(self.schema, self.elsize, tuple(fresh(a.sort(), 'ha') for a in self.arrs), 0, n)


class MapV(Abs):
    """std::map: pres: K->Bool ; vals: per leaf K->sort"""
    __slots__ = ('kkind', 'schema', 'pres', 'vals', 'en')

    def __init__(self, kkind, schema, pres, vals):
        self.en = None
        self.kkind, self.schema, self.pres, self.vals = kkind, schema, pres, vals

    def has(self, k):
        return z3.Select(self.pres, k)

    def get(self, k, leaf=0):
        return z3.Select(self.vals[leaf], k)

    def put(self, k, leaves):
        if is_sym(leaves):
            leaves = (leaves,)
        return MapV(self.kkind, self.schema, z3.Store(self.pres, k, z3.BoolVal(True)),
                    tuple(z3.Store(v, k, x) for v, x in zip(self.vals, leaves)))

    def erase(self, k):
        return MapV(self.kkind, self.schema, z3.Store(self.pres, k, z3.BoolVal(False)), self.vals)

    def eq(self, o):
        # values only matter where present; keep extensional equality cheap: pres equal and vals equal where present
        cs = [self.pres == o.pres]
        k = z3.Const(fresh_name('k'), self.pres.sort().domain())
        for a, b in zip(self.vals, o.vals):
            if a.eq(b):
                continue
            cs.append(z3.Or(a == b, z3.ForAll([k], z3.Implies(z3.Select(self.pres, k), z3.Select(a, k) == z3.Select(b, k)))))
        return z3.And(*cs)

    def havoc(self, E, st):
        return MapV(self.kkind, self.schema, fresh(self.pres.sort(), 'hp'), tuple(fresh(v.sort(), 'hv') for v in self.vals))


class ListV(Abs):
    """container with a concretely known list of elements (each a tuple of cells (off,size,val))"""
    __slots__ = ('items', 'tag')

    def __init__(self, items, tag=''):
        self.items, self.tag = tuple(items), tag

    def eq(self, o):
        if not isinstance(o, ListV) or len(o.items) != len(self.items):
            return z3.BoolVal(False)
        cs = []
        for a, b in zip(self.items, o.items):
            cs.append(val_eq(a, b))
        return z3.And(*cs) if cs else z3.BoolVal(True)

    def havoc(self, E, st):
        raise Unsupported('havoc of concrete list')


class CellsV:
    """a small structure passed in a register: its cells (offset, size, value)"""
    __slots__ = ('n', 'items')

    def __init__(self, n, items):
        self.n, self.items = n, items


class Opq(Abs):
    """opaque object with an SMT term / python payload"""
    __slots__ = ('kind', 't')

    def __init__(self, kind, t=None):
        self.kind, self.t = kind, t

    def eq(self, o):
        if not isinstance(o, Opq) or o.kind != self.kind:
            return z3.BoolVal(False)
        if is_sym(self.t) and is_sym(o.t):
            return self.t == o.t
        return z3.BoolVal(self.t is o.t or (not is_sym(self.t) and not is_sym(o.t) and self.t == o.t))

    def havoc(self, E, st):
        if is_sym(self.t):
            return Opq(self.kind, fresh(self.t.sort(), 'ho'))
        return self

    def __repr__(self):
        return 'Opq(%s,%s)' % (self.kind, self.t)


def val_eq(a, b):
    """equality of two cell values as z3 Bool"""
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, Abs) or isinstance(b, Abs):
        if isinstance(a, Abs) and isinstance(b, Abs):
            return a.eq(b)
        return z3.BoolVal(False)
    if isinstance(a, (Ptr, SymPtr)) or isinstance(b, (Ptr, SymPtr)):
        return ptr_eq(a, b)
    if isinstance(a, FnPtr) or isinstance(b, FnPtr):
        return z3.BoolVal(a == b)
    if isinstance(a, Flt) and isinstance(b, Flt):
        return a.t == b.t
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And(*[val_eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, Undef) or isinstance(b, Undef):
        return z3.BoolVal(isinstance(a, Undef) and isinstance(b, Undef))
    if a is None or b is None:
        return z3.BoolVal(a is b)
    return int_eq(a, b)


def int_eq(a, b):
    if isinstance(a, bool):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if isinstance(a, int) and isinstance(b, int):
        return z3.BoolVal(a == b)
    if z3.is_bool(a) if is_sym(a) else False:
        if isinstance(b, int):
            return a if b == 1 else (z3.Not(a) if b == 0 else z3.BoolVal(False))
        if z3.is_bool(b):
            return a == b
    if z3.is_bool(b) if is_sym(b) else False:
        if isinstance(a, int):
            return int_eq(b, a)
    abv = is_sym(a) and z3.is_bv(a)
    bbv = is_sym(b) and z3.is_bv(b)
    if abv and bbv:
        return a == b
    if abv and isinstance(b, int):
        return a == z3.BitVecVal(b, a.size())
    if bbv and isinstance(a, int):
        return b == z3.BitVecVal(a, b.size())
    return I(a) == I(b)


def ptr_eq(a, b):
    """-> z3 Bool or python-decided BoolVal"""
    if isinstance(a, int) and a == 0:
        a = NULL
    if isinstance(b, int) and b == 0:
        b = NULL
    if isinstance(a, SymPtr) and isinstance(b, SymPtr):
        return a.ref == b.ref
    if isinstance(a, SymPtr):
        a, b = b, a
    if isinstance(b, SymPtr):
        if isinstance(a, Ptr) and a.isnull:
            return b.ref == 0
        if isinstance(a, Ptr) and isinstance(a.base, int):
            # concrete block: identified by its address term
            return b.ref == block_ref(a.base)
        return z3.BoolVal(False)
    if isinstance(a, (FnPtr, VFn)) or isinstance(b, (FnPtr, VFn)):
        return z3.BoolVal(isinstance(a, FnPtr) and isinstance(b, FnPtr) and a == b)
    if not isinstance(a, Ptr) or not isinstance(b, Ptr):
        raise Unsupported('pointer comparison %r %r' % (a, b))
    if a.base != b.base:
        if isinstance(a.base, tuple) and isinstance(b.base, tuple) and a.base[0] == 'node' and b.base[0] == 'node' and a.base[1] == b.base[1]:
            return a.base[2].t == b.base[2].t
        if isinstance(a.base, tuple) and isinstance(b.base, tuple):
            if a.base[0] == 'it' and b.base[0] == 'end' and a.base[1] == b.base[1]:
                return I(a.idx) == a.base[2].n
            if b.base[0] == 'it' and a.base[0] == 'end' and a.base[1] == b.base[1]:
                return I(b.idx) == b.base[2].n
            if {a.base[0], b.base[0]} == {'it', 'node'}:
                raise Unsupported('comparison of map iterators')
        return z3.BoolVal(False)
    cs = []
    if not same(a.off, b.off):
        cs.append(I(a.off) == I(b.off))
    if not same(a.idx, b.idx):
        cs.append(I(a.idx if a.idx is not None else 0) == I(b.idx if b.idx is not None else 0))
    return z3.And(*cs) if cs else z3.BoolVal(True)


def block_ref(bid):
    """address term of a concrete block (positive, distinct for distinct blocks).
    Symbolic references that may alias it must be related by the contract; otherwise references created by the
    contract set-up are negative numbers and so distinct from every concrete block."""
    return z3.IntVal(bid)


class Block:
    __slots__ = ('id', 'size', 'cells', 'alive', 'kind', 'cls', 'name', 'owner', 'default', 'const', 'exact', 'bytes')

    def __init__(self, id, size, kind, name='', cls=None):
        self.id, self.size, self.kind, self.name, self.cls = id, size, kind, name, cls
        self.cells = {}
        self.alive = True
        self.owner = None
        self.default = None
        self.const = False
        self.exact = None
        self.bytes = None

    def copy(self):
        b = Block.__new__(Block)
        for k in Block.__slots__:
            setattr(b, k, getattr(self, k))
        b.cells = dict(self.cells)
        return b


_bid = [1000]
_sid = [0]


class State:
    def __init__(self):
        _sid[0] += 1
        self.sid = _sid[0]
        self.blocks = {}
        self.pc = []
        self.ghost = {}
        self.globals = {}
        self.caught = []
        self.trail = []      # (function, line) decisions - for reports
        self.fuel = {}
        self.taint = []      # reasons why this path is only an over-approximation

    def fork(self):
        s = State.__new__(State)
        _sid[0] += 1
        s.sid = _sid[0]
        s.blocks = dict(self.blocks)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.globals = dict(self.globals)
        s.caught = list(self.caught)
        s.trail = list(self.trail)
        s.fuel = dict(self.fuel)
        s.taint = list(self.taint)
        # owner ids no longer match either side: both copy on write
        _sid[0] += 1
        self.sid = _sid[0]
        return s

    def wb(self, bid):
        """writable block"""
        b = self.blocks[bid]
        if b.owner != self.sid:
            b = b.copy()
            b.owner = self.sid
            self.blocks[bid] = b
        return b

    def assume(self, *cs):
        for c in cs:
            if isinstance(c, bool):
                c = z3.BoolVal(c)
            self.pc.append(c)

    def alloc(self, size, kind, name='', cls=None):
        _bid[0] += 1
        b = Block(_bid[0], size, kind, name, cls)
        b.owner = self.sid
        self.blocks[b.id] = b
        return Ptr(b.id, 0)

    # raw cell access ---------------------------------------------------
    def cell(self, p):
        """abstract cell at pointer (exact offset) or None"""
        b = self.blocks.get(p.base) if isinstance(p.base, int) else None
        if b is None:
            return None
        c = b.cells.get(p.off if isinstance(p.off, int) else None)
        return c[1] if c else None

    def put(self, p, size, val):
        b = self.wb(p.base)
        off = p.off
        if not isinstance(off, int):
            raise Unsupported('store at symbolic offset in %s' % b.name)
        old = b.cells.get(off)
        if old is not None and old[0] == size:
            b.cells[off] = (size, val)
            return
        # remove overlapping cells
        for o in [o for o, (sz, _) in b.cells.items() if o < off + size and off < o + sz]:
            sz, v = b.cells[o]
            del b.cells[o]
            if isinstance(v, int) and not isinstance(v, bool):
                # keep the bytes that are not overwritten
                if o < off:
                    b.cells[o] = (off - o, v & ((1 << (8 * (off - o))) - 1))
                if o + sz > off + size:
                    b.cells[off + size] = (o + sz - off - size, v >> (8 * (off + size - o)))
        b.cells[off] = (size, val)

"""C04: arrays and structs as a list and a map of deeply copied values (value_type.cc, value.cc)

Ghost state.  Value objects are references r > 0 with
    alive[r]   the object exists          av[r]   its abstract value (an element of an abstract domain)
The one assumed step is the induction hypothesis: copying a Value makes a fresh object with the same abstract value
(proved for every kind, given the same for the values inside: Value::Value(Value const&) and the clone() of each kind),
deleting one requires it to be alive and ends its life.
Data-structure invariant of arrays: the elements are alive and pairwise distinct; of structs: the member values are alive
and pairwise distinct.  'Pairwise distinct' is stated with an inverse function (pos / keyof)."""
import z3
from ..core import *
from ..contract import *
from ..values import *
from .. import models, containers
from ..engine import Outcome

TUS = ['value_type.cc', 'value.cc']
ARR, STRU = 'iqxmlrpc::Array', 'iqxmlrpc::Struct'
VAL = z3.DeclareSort('VAL')
ASB = z3.ArraySort(INT, BOOL)
ASV = z3.ArraySort(INT, VAL)
EMIT = ''
EXTRA = '''#include "libiqxmlrpc/value.h"
#include "libiqxmlrpc/value_type.h"
// forces the compiler to emit inline members
namespace { size_t (iqxmlrpc::Array::*f1)() const = &iqxmlrpc::Array::size;
const iqxmlrpc::Value& (iqxmlrpc::Array::*f2)(unsigned) const = &iqxmlrpc::Array::operator[];
iqxmlrpc::Value& (iqxmlrpc::Array::*f3)(unsigned) = &iqxmlrpc::Array::operator[]; }
void* emit_them() { static void* t[3]; t[0] = (void*)&f1; t[1] = (void*)&f2; t[2] = (void*)&f3; return t; }
'''


# ---- ghost heap ---------------------------------------------------------------------------------------------------
def ghosts(st, t=''):
    st.ghost['alive' + t] = fresh(ASB, 'alive' + t)
    st.ghost['av' + t] = fresh(ASV, 'av' + t)
    n = fint('next')
    r = z3.Int('r!wf')
    st.ghost['next' + t] = n      # identities are never reused
    st.assume(n > 0, z3.ForAll([r], z3.Implies(z3.Select(st.ghost['alive' + t], r), z3.And(r > 0, r < n)), patterns=[z3.Select(st.ghost['alive' + t], r)]))


def newref(st, val, t=''):
    r = st.ghost['next' + t]
    st.ghost['next' + t] = z3.simplify(r + 1)
    st.ghost['alive' + t] = z3.Store(st.ghost['alive' + t], r, z3.BoolVal(True))
    st.ghost['av' + t] = z3.Store(st.ghost['av' + t], r, val)
    return r


def get_av(E, st, p):
    if isinstance(p, SymPtr):
        E.prove(st, z3.Select(st.ghost['alive'], p.ref), 'copied value exists (not freed)', 'safety')
        return z3.Select(st.ghost['av'], p.ref)
    E.deref_check(st, p, 'Value')
    c = st.blocks[p.base].cells.get(p.off + 8)
    if c and isinstance(c[1], Opq) and c[1].kind == 'av':
        return c[1].t
    raise Unsupported('abstract value of %r' % (p,))


def value_copy(E, st, a, rt, mod, dem):
    t = get_av(E, st, a[1])
    st.put(a[0], 8, Ptr(('vt', V), 0))
    st.put(a[0].add(8), 8, Opq('av', t))


def value_dtor(E, st, a, rt, mod, dem):
    p = a[0]
    if isinstance(p, SymPtr):
        E.prove(st, z3.Select(st.ghost['alive'], p.ref), 'deleted value exists (no double free)', 'safety')
        st.ghost['alive'] = z3.Store(st.ghost['alive'], p.ref, z3.BoolVal(False))
        return None
    get_av(E, st, p)
    if getattr(E, 'vslot_no', None) == 1 or True:
        b = st.blocks[p.base]
        if b.kind == 'heap' and E.vslot_no == 1:
            st.wb(p.base).alive = False
    return None


def escape(E, st, v, kind):
    if kind != 'ptr:' + V or not isinstance(v.base, int):
        return None
    c = st.blocks[v.base].cells.get(8)
    if not (c and isinstance(c[1], Opq) and c[1].kind == 'av'):
        return None
    E.prove(st, bool(st.blocks[v.base].alive), 'stored value exists', 'safety')
    r = newref(st, c[1].t)
    b = st.wb(v.base)
    b.alive = False
    b.name += ' (now owned by a container)'
    return r


def type_clone(E, st, a, rt, mod, dem):
    """induction hypothesis at the level of the payload"""
    p = a[0]
    if not isinstance(p, SymPtr):
        raise Unsupported('clone of %r' % (p,))
    E.prove(st, z3.Select(st.ghost['alive_t'], p.ref), 'cloned payload exists', 'safety')
    return SymPtr(newref(st, z3.Select(st.ghost['av_t'], p.ref), '_t'), 'iqxmlrpc::Value_type')


def type_dtor(E, st, a, rt, mod, dem):
    p = a[0]
    if not isinstance(p, SymPtr):
        return      # the base part of a concrete object
    E.prove(st, z3.Select(st.ghost['alive_t'], p.ref), 'deleted payload exists (no double free)', 'safety')
    st.ghost['alive_t'] = z3.Store(st.ghost['alive_t'], p.ref, z3.BoolVal(False))


def value_assign(E, st, a, rt, mod, dem):
    raise Unsupported('a stored value is assigned in place (what it held may hold what is read next)')


def engine(E):
    E.mexact[V + '::operator=(iqxmlrpc::Value const&)'] = value_assign
    E.mexact[V + '::Value(iqxmlrpc::Value const&)'] = value_copy
    E.mexact[V + '::~Value()'] = value_dtor
    E.mexact['iqxmlrpc::Value_type::clone() const'] = type_clone
    E.mexact['iqxmlrpc::Value_type::~Value_type()'] = type_dtor
    E.escape_hook = escape
    E._mcache = {}


# ---- arrays -----------------------------------------------------------------------------------------------------
def arr(c, name='array', refs=True):
    st = c.st
    p = st.alloc(c.prog.size(ARR), 'heap', name, ARR)
    st.blocks[p.base].exact = ARR
    st.put(p, 8, c.prog.vptr_for(c.E, st, ARR))
    s = containers.fresh_seq(st, 'iqxmlrpc::Value*', name)
    st.put(p.add(c.prog.off(ARR, 'values')), 24, s)
    inv_arr(c, s, name)
    return p


POS = {}


def inv_arr(c, s, name):
    st = c.st
    al = st.ghost['alive']
    pos = z3.Function('pos_' + name, INT, INT)
    j = z3.Int('j!' + name)
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I(s.hi)), z3.And(z3.Select(al, s.get(j)), s.get(j) > 0, pos(s.get(j)) == j)), patterns=[s.get(j)]))
    POS[name] = pos


def aseq(c, p):
    return c.st.cell(p.add(c.prog.off(ARR, 'values')))


def setup_a(c):
    ghosts(c.st)
    return [arr(c)]


def setup_aa(c):
    ghosts(c.st)
    p = c.st.alloc(c.prog.size(ARR), 'heap', 'new array', ARR)
    return [p, arr(c, 'other')]


def j_(n='j'):
    return z3.Int(fresh_name(n))


def grown(E, st, pre):
    """nothing that existed was freed or changed"""
    r = j_('r')
    a0, v0, a1, v1 = pre.ghost['alive'], pre.ghost['av'], st.ghost['alive'], st.ghost['av']
    return z3.ForAll([r], z3.Implies(z3.Select(a0, r), z3.And(z3.Select(a1, r), z3.Select(v1, r) == z3.Select(v0, r))), patterns=[z3.Select(a1, r), z3.Select(v1, r)] if not (a1.eq(a0)) else None) if not (a1.eq(a0) and v1.eq(v0)) else z3.BoolVal(True)


def copied(E, st, pre, new, old):
    """new is an element-wise fresh copy of old"""
    j, k = j_(), j_('k')
    a0, v0, a1, v1 = pre.ghost['alive'], pre.ghost['av'], st.ghost['alive'], st.ghost['av']
    rng = z3.And(j >= 0, j < I(old.size()))
    return [('same number of elements', I(new.size()) == I(old.size())),
            ('each element equals the original', z3.ForAll([j], z3.Implies(rng, z3.Select(v1, new.get(j)) == z3.Select(v0, old.get(j))))),
            ('each element is a new live object', z3.ForAll([j], z3.Implies(rng, z3.And(z3.Select(a1, new.get(j)), z3.Not(z3.Select(a0, new.get(j))))))),
            ('elements are distinct objects', z3.ForAll([j, k], z3.Implies(z3.And(rng, k >= 0, k < I(old.size()), j != k), new.get(j) != new.get(k)))),
            ('the original values are untouched', grown(E, st, pre))]


def cases_acopy(c, a):
    old = aseq(c, a[1])
    pre = c.st.fork()
    vo = c.prog.off(ARR, 'values')

    def post(E, st, o):
        n = st.blocks[a[0].base].cells.get(vo)
        if not n or not isinstance(n[1], SeqV):
            return [('elements built', False)]
        return copied(E, st, pre, n[1], old)

    def effect(E, st):
        n = containers.fresh_seq(st, 'iqxmlrpc::Value*', 'copy')
        st.put(a[0].add(vo), 24, n)
        st.put(a[0], 8, E.prog.vptr_for(E, st, ARR))
        ghosts(st)
        for nm, g in copied(E, st, pre, n, old):
            st.assume(g)
    return [Case(True, post=post, effect=effect, label='deep copy', writes=[])]


def cleared(E, st, pre, old, name):
    r = j_('r')
    a0, a1 = pre.ghost['alive'], st.ghost['alive']
    mem = z3.And(POS[name](r) >= 0, POS[name](r) < I(old.size()), old.get(POS[name](r)) == r)
    return [('exactly the elements are freed', z3.ForAll([r], z3.Select(a1, r) == z3.And(z3.Select(a0, r), z3.Not(mem)))),
            ('other values keep their contents', st.ghost['av'] == pre.ghost['av'] if not st.ghost['av'].eq(pre.ghost['av']) else z3.BoolVal(True))]


def cases_aclear(c, a):
    old = aseq(c, a[0])
    pre = c.st.fork()
    vp = a[0].add(c.prog.off(ARR, 'values'))

    def post(E, st, o):
        return cleared(E, st, pre, old, 'array')
    return [Case(True, post=post, writes=[(vp, 24, lambda E, st, got: [('empty afterwards', I(got.size()) == 0)])], label='clear')]


def cases_adtor(c, a):
    old = aseq(c, a[0])
    pre = c.st.fork()
    return [Case(True, post=lambda E, st, o: cleared(E, st, pre, old, 'array'), any_frame=True, label='destruction')]


def setup_push(c):
    ghosts(c.st)
    p = arr(c)
    r = fint('v')
    c.st.assume(r > 0, z3.Select(c.st.ghost['alive'], r))
    return [p, SymPtr(r, V)]


def appended(E, st, pre, old, got, want_av, ref=None):
    n = I(old.size())
    j = j_()
    x = got.get(n)
    a0, a1 = pre.ghost['alive'], st.ghost['alive']
    out = [('one element more', I(got.size()) == n + 1),
           ('earlier elements stay', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), got.get(j) == old.get(j)))),
           ('last element has the given value', z3.Select(st.ghost['av'], x) == want_av)]
    if ref is None:
        out += [('it is a new object of its own', z3.And(z3.Select(a1, x), z3.Not(z3.Select(a0, x)))), ('nothing else changed', grown(E, st, pre))]
    else:
        out += [('it is the given object', x == ref), ('which stays alive', z3.Select(a1, x)), ('nothing else changed', grown(E, st, pre))]
    return out


def cases_push(c, a):
    old = aseq(c, a[0])
    pre = c.st.fork()
    vp = a[0].add(c.prog.off(ARR, 'values'))
    w = z3.Select(pre.ghost['av'], a[1].ref)
    return [Case(True, writes=[(vp, 24, lambda E, st, got: appended(E, st, pre, old, got, w))], label='append a copy')]


def setup_pushp(c):
    ghosts(c.st)
    p = arr(c)
    r = fint('v')
    c.st.assume(r > 0, z3.Select(c.st.ghost['alive'], r))
    q = c.st.alloc(8, 'heap', 'owner')
    c.st.put(q, 8, SymPtr(r, V))
    return [p, q]


def cases_pushp(c, a):
    old = aseq(c, a[0])
    pre = c.st.fork()
    vp = a[0].add(c.prog.off(ARR, 'values'))
    r = c.st.cell(a[1]).ref
    w = z3.Select(pre.ghost['av'], r)
    return [Case(True, writes=[(vp, 24, lambda E, st, got: appended(E, st, pre, old, got, w, r)), (a[1], 8, lambda E, st, got: [('ownership is taken', ptr_eq(got, NULL))])], label='append an owned object')]


def setup_aidx(c):
    ghosts(c.st)
    i = c.E.fresh_of(c.st, ('i', 32), 'i')
    return [arr(c), i]


def cases_aidx(c, a):
    s = aseq(c, a[0])
    ok = I(a[1]) < I(s.size())
    return [Case(ok, ret=SymPtr(s.get(I(a[1])), V), label='element'), Case(z3.Not(ok), throw=ARR + '::Out_of_range', label='outside')]


def cases_asize(c, a):
    return [Case(True, ret=aseq(c, a[0]).size())]


def setup_assign(c):
    ghosts(c.st)
    p = arr(c)
    return [p, p if c.variant == 'itself' else arr(c, 'other')]


def cases_aassign(c, a):
    old, oth = aseq(c, a[0]), aseq(c, a[1])
    pre = c.st.fork()
    vp = a[0].add(c.prog.off(ARR, 'values'))
    if a[0] == a[1]:
        return [Case(True, ret=a[0], post=lambda E, st, o: [('values untouched', z3.And(st.ghost['alive'] == pre.ghost['alive'], st.ghost['av'] == pre.ghost['av']))], label='self-assignment')]

    def chk(E, st, got):
        j = j_()
        a0, v0, a1, v1 = pre.ghost['alive'], pre.ghost['av'], st.ghost['alive'], st.ghost['av']
        rng = z3.And(j >= 0, j < I(oth.size()))
        r = j_('r')
        mem = z3.And(POS['array'](r) >= 0, POS['array'](r) < I(old.size()), old.get(POS['array'](r)) == r)
        return [('same number of elements', I(got.size()) == I(oth.size())),
                ('each element equals the original', z3.ForAll([j], z3.Implies(rng, z3.Select(v1, got.get(j)) == z3.Select(v0, oth.get(j))))),
                ('each element is a new live object', z3.ForAll([j], z3.Implies(rng, z3.And(z3.Select(a1, got.get(j)), z3.Not(z3.Select(a0, got.get(j))))))),
                ('old elements are freed, everything else stays', z3.ForAll([r], z3.Implies(z3.Select(a0, r), z3.Select(a1, r) == z3.Not(mem))))]
    return [Case(True, ret=a[0], writes=[(vp, 24, chk)], label='assignment')]


def cases_aclone(c, a):
    old = aseq(c, a[0])
    pre = c.st.fork()
    vo = c.prog.off(ARR, 'values')

    def post(E, st, o):
        p = o.val
        ok = isinstance(p, Ptr) and isinstance(p.base, int) and not p.isnull and st.blocks[p.base].alive and st.blocks[p.base].kind == 'heap' and p.base != a[0].base
        out = [('a new object', bool(ok))]
        if ok:
            b = st.blocks[p.base]
            out.append(('which is an array', bool(b.cells.get(0) and b.cells[0][1] == E.prog.vptr_for(E, st, ARR))))
            out += copied(E, st, pre, b.cells[vo][1], old)
        return out
    return [Case(True, anyret=True, post=post, label='clone')]


# ---- structs ----------------------------------------------------------------------------------------------------
KEYOF = {}


def stru(c, name='struct'):
    st = c.st
    p = st.alloc(c.prog.size(STRU), 'heap', name, STRU)
    st.blocks[p.base].exact = STRU
    st.put(p, 8, c.prog.vptr_for(c.E, st, STRU))
    m = containers.fresh_map(MAPT, name)
    st.put(p.add(c.prog.off(STRU, 'values')), 48, m)
    ko = z3.Function('keyof_' + name, INT, STR)
    k = z3.Const('k!' + name, STR)
    st.assume(z3.ForAll([k], z3.Implies(m.has(k), z3.And(z3.Select(st.ghost['alive'], m.get(k)), m.get(k) > 0, ko(m.get(k)) == k)), patterns=[m.get(k)]))
    KEYOF[name] = ko
    return p


def smap(c, p):
    return c.st.cell(p.add(c.prog.off(STRU, 'values')))


def setup_s(c):
    ghosts(c.st)
    return [stru(c)]


def setup_ss(c):
    ghosts(c.st)
    return [c.st.alloc(c.prog.size(STRU), 'heap', 'new struct', STRU), stru(c, 'other')]


def scopied(E, st, pre, new, old):
    k, l = z3.Const(fresh_name('k'), STR), z3.Const(fresh_name('l'), STR)
    a0, v0, a1, v1 = pre.ghost['alive'], pre.ghost['av'], st.ghost['alive'], st.ghost['av']
    return [('same member names', z3.ForAll([k], new.has(k) == old.has(k))),
            ('each member equals the original', z3.ForAll([k], z3.Implies(old.has(k), z3.Select(v1, new.get(k)) == z3.Select(v0, old.get(k))))),
            ('each member is a new live object', z3.ForAll([k], z3.Implies(old.has(k), z3.And(z3.Select(a1, new.get(k)), z3.Not(z3.Select(a0, new.get(k))))))),
            ('members are distinct objects', z3.ForAll([k, l], z3.Implies(z3.And(old.has(k), old.has(l), k != l), new.get(k) != new.get(l)))),
            ('the original values are untouched', grown(E, st, pre))]


def cases_scopy(c, a):
    old = smap(c, a[1])
    pre = c.st.fork()
    vo = c.prog.off(STRU, 'values')

    def post(E, st, o):
        n = st.blocks[a[0].base].cells.get(vo)
        if not n or not isinstance(n[1], MapV):
            return [('members built', False)]
        return scopied(E, st, pre, n[1], old)

    def effect(E, st):
        n = containers.fresh_map(MAPT, 'copy')
        st.put(a[0].add(vo), 48, n)
        st.put(a[0], 8, E.prog.vptr_for(E, st, STRU))
        ghosts(st)
        for nm, g in scopied(E, st, pre, n, old):
            st.assume(g)
    return [Case(True, post=post, effect=effect, label='deep copy')]


def scleared(E, st, pre, old, name):
    r = j_('r')
    k = KEYOF[name](r)
    mem = z3.And(old.has(k), old.get(k) == r)
    return [('exactly the members are freed', z3.ForAll([r], z3.Select(st.ghost['alive'], r) == z3.And(z3.Select(pre.ghost['alive'], r), z3.Not(mem)))),
            ('other values keep their contents', st.ghost['av'] == pre.ghost['av'] if not st.ghost['av'].eq(pre.ghost['av']) else z3.BoolVal(True))]


def cases_sclear(c, a):
    old = smap(c, a[0])
    pre = c.st.fork()
    vp = a[0].add(c.prog.off(STRU, 'values'))

    def chk(E, st, got):
        k = z3.Const(fresh_name('k'), STR)
        return [('empty afterwards', z3.ForAll([k], z3.Not(got.has(k))))]
    return [Case(True, post=lambda E, st, o: scleared(E, st, pre, old, 'struct'), writes=[(vp, 48, chk)], label='clear')]


def cases_sdtor(c, a):
    old = smap(c, a[0])
    pre = c.st.fork()
    return [Case(True, post=lambda E, st, o: scleared(E, st, pre, old, 'struct'), any_frame=True, label='destruction')]


def setup_sidx(c):
    ghosts(c.st)
    return [stru(c), c.newstr(name='field')]


def cases_sidx(c, a):
    m, f = smap(c, a[0]), c.str(a[1])
    return [Case(m.has(f), ret=SymPtr(m.get(f), V), label='member'), Case(z3.Not(m.has(f)), throw=STRU + '::No_field', label='no such member')]


def cases_shas(c, a):
    m, f = smap(c, a[0]), c.str(a[1])
    return [Case(True, ret=m.has(f))]


def setup_sins(c):
    ghosts(c.st)
    p = stru(c)
    f = c.newstr(name='field')
    r = fint('v')
    c.st.assume(r > 0, z3.Select(c.st.ghost['alive'], r))
    k = z3.Const('k!own', STR)
    m = smap(c, p)
    if c.variant == 'owned':
        # an owned object is not stored in the struct already
        c.st.assume(z3.ForAll([k], z3.Implies(m.has(k), m.get(k) != r), patterns=[m.get(k)]))
        q = c.st.alloc(8, 'heap', 'owner')
        c.st.put(q, 8, SymPtr(r, V))
        return [p, f, q]
    return [p, f, SymPtr(r, V)]


def cases_sins(c, a):
    m, f = smap(c, a[0]), c.str(a[1])
    pre = c.st.fork()
    owned = isinstance(a[2], Ptr)
    r = c.st.cell(a[2]).ref if owned else a[2].ref
    w = z3.Select(pre.ghost['av'], r)
    vp = a[0].add(c.prog.off(STRU, 'values'))

    def chk(E, st, got):
        k = z3.Const(fresh_name('k'), STR)
        q = j_('r')
        a0, a1, v0, v1 = pre.ghost['alive'], st.ghost['alive'], pre.ghost['av'], st.ghost['av']
        x = got.get(f)
        gone = z3.And(m.has(f), q == m.get(f))
        out = [('the member is present', got.has(f)),
               ('other members stay', z3.ForAll([k], z3.Implies(k != f, z3.And(got.has(k) == m.has(k), z3.Implies(m.has(k), got.get(k) == m.get(k)))))),
               ('the member has the given value', z3.Select(v1, x) == w),
               ('the member is alive', z3.Select(a1, x)),
               ('a replaced value is freed, nothing else', z3.ForAll([q], z3.Implies(z3.Select(a0, q), z3.And(z3.Select(a1, q) == z3.Not(gone), z3.Or(gone, z3.Select(v1, q) == z3.Select(v0, q))))))]
        if not owned:
            out.append(('it is an object of its own', z3.Not(z3.Select(a0, x))))
        else:
            out.append(('it is the given object', x == r))
        return out
    wr = [(vp, 48, chk)]
    if owned:
        wr.append((a[2], 8, lambda E, st, got: [('ownership is taken', ptr_eq(got, NULL))]))
    return [Case(True, writes=wr, label='insert')]


def setup_sassign(c):
    ghosts(c.st)
    p = stru(c)
    return [p, p if c.variant == 'itself' else stru(c, 'other')]


def cases_sassign(c, a):
    old, oth = smap(c, a[0]), smap(c, a[1])
    pre = c.st.fork()
    vp = a[0].add(c.prog.off(STRU, 'values'))
    if a[0] == a[1]:
        return [Case(True, ret=a[0], post=lambda E, st, o: [('values untouched', z3.And(st.ghost['alive'] == pre.ghost['alive'], st.ghost['av'] == pre.ghost['av']))], label='self-assignment')]

    def chk(E, st, got):
        k = z3.Const(fresh_name('k'), STR)
        a0, v0, a1, v1 = pre.ghost['alive'], pre.ghost['av'], st.ghost['alive'], st.ghost['av']
        r = j_('r')
        kr = KEYOF['struct'](r)
        mem = z3.And(old.has(kr), old.get(kr) == r)
        return [('same member names', z3.ForAll([k], got.has(k) == oth.has(k))),
                ('each member equals the original', z3.ForAll([k], z3.Implies(oth.has(k), z3.Select(v1, got.get(k)) == z3.Select(v0, oth.get(k))))),
                ('each member is a new live object', z3.ForAll([k], z3.Implies(oth.has(k), z3.And(z3.Select(a1, got.get(k)), z3.Not(z3.Select(a0, got.get(k))))))),
                ('old members are freed, everything else stays', z3.ForAll([r], z3.Implies(z3.Select(a0, r), z3.Select(a1, r) == z3.Not(mem))))]
    return [Case(True, ret=a[0], writes=[(vp, 48, chk)], label='assignment')]


def cases_sclone(c, a):
    old = smap(c, a[0])
    pre = c.st.fork()
    vo = c.prog.off(STRU, 'values')

    def post(E, st, o):
        p = o.val
        ok = isinstance(p, Ptr) and isinstance(p.base, int) and not p.isnull and st.blocks[p.base].alive and st.blocks[p.base].kind == 'heap' and p.base != a[0].base
        out = [('a new object', bool(ok))]
        if ok:
            b = st.blocks[p.base]
            out.append(('which is a struct', bool(b.cells.get(0) and b.cells[0][1] == E.prog.vptr_for(E, st, STRU))))
            out += scopied(E, st, pre, b.cells[vo][1], old)
        return out
    return [Case(True, anyret=True, post=post, label='clone')]


# ---- loop invariants ----------------------------------------------------------------------------------------------
def cand_heap(L):
    """copying and deleting loops"""
    out = []
    E0 = L.entry
    a0, v0 = E0.ghost.get('alive'), E0.ghost.get('av')
    if a0 is None or a0.sort() != ASB:
        return out
    r, j, k2 = z3.Int('r!c'), z3.Int('j!c'), z3.Int('k!c')
    ks, ls = z3.Const('ks!c', STR), z3.Const('ls!c', STR)
    out.append(('values that existed stay', lambda st: z3.ForAll([r], z3.Implies(z3.Select(a0, r), z3.And(z3.Select(st.ghost['alive'], r), z3.Select(st.ghost['av'], r) == z3.Select(v0, r))))))
    n0_ = E0.ghost['next']
    out.append(('identities grow', lambda st: st.ghost['next'] >= n0_))
    out.append(('live identities are used', lambda st: z3.ForAll([r], z3.Implies(z3.Select(st.ghost['alive'], r), z3.And(r > 0, r < st.ghost['next'])))))
    out.append(('contents unchanged', lambda st: st.ghost['av'] == v0))
    consts = {}
    for bid, b in E0.blocks.items():
        for o, (sz, v) in b.cells.items():
            if isinstance(v, (SeqV, MapV)) and ('cell', bid, o) not in L.mod:
                consts[(bid, o)] = v
    for key, old in consts.items():
        if isinstance(old, SeqV) and old.schema[0][2].startswith('ptr:'):
            for nm, loc, n0 in L.seqs:
                out.append(('copy of prefix', lambda st, loc=loc, old=old: z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I(loc.get(st).size())), z3.And(
                    z3.Select(st.ghost['av'], loc.get(st).get(j)) == z3.Select(v0, old.get(j)), z3.Select(st.ghost['alive'], loc.get(st).get(j)), z3.Not(z3.Select(a0, loc.get(st).get(j))))))))
                out.append(('distinct copies', lambda st, loc=loc: z3.ForAll([j, k2], z3.Implies(z3.And(j >= 0, j < k2, k2 < I(loc.get(st).size())), loc.get(st).get(j) != loc.get(st).get(k2)))))
            for n2, g, x0 in L.ints:
                for name, pos in POS.items():
                    out.append(('freed prefix by ' + n2, lambda st, old=old, g=g, pos=pos: z3.ForAll([r], z3.Select(st.ghost['alive'], r) == z3.And(z3.Select(a0, r), z3.Not(z3.And(pos(r) >= 0, pos(r) < g(st), old.get(pos(r)) == r))))))
        if isinstance(old, MapV) and old.kkind == 'str' and old.en is not None:
            en = old.en
            for n2, g, x0 in L.ints:
                for nm, loc, n0 in L.maps:
                    out.append(('copied keys', lambda st, loc=loc, old=old, g=g, en=en: z3.ForAll([ks], loc.get(st).has(ks) == z3.And(old.has(ks), en.pos(ks) < g(st)))))
                    out.append(('copied members', lambda st, loc=loc, old=old: z3.ForAll([ks], z3.Implies(loc.get(st).has(ks), z3.And(
                        z3.Select(st.ghost['av'], loc.get(st).get(ks)) == z3.Select(v0, old.get(ks)), z3.Select(st.ghost['alive'], loc.get(st).get(ks)), z3.Not(z3.Select(a0, loc.get(st).get(ks))))))))
                    out.append(('distinct members', lambda st, loc=loc: z3.ForAll([ks, ls], z3.Implies(z3.And(loc.get(st).has(ks), loc.get(st).has(ls), ks != ls), loc.get(st).get(ks) != loc.get(st).get(ls)))))
                for name, ko in KEYOF.items():
                    out.append(('freed members by ' + n2, lambda st, old=old, g=g, ko=ko, en=en: z3.ForAll([r], z3.Select(st.ghost['alive'], r) == z3.And(z3.Select(a0, r), z3.Not(z3.And(old.has(ko(r)), old.get(ko(r)) == r, en.pos(ko(r)) < g(st)))))))
    for n2, g, x0 in L.ints:
        for key, old in consts.items():
            if isinstance(old, MapV) and old.en is not None:
                out.append(('%s within' % n2, lambda st, g=g, en=old.en: z3.And(g(st) >= 0, g(st) <= en.n)))
    return out


CANDS = [cand_heap]


# ---- Value over an abstract payload ---------------------------------------------------------------------------------
def val_t(c, name='value'):
    st = c.st
    p = st.alloc(c.prog.size(V), 'heap', name, V)
    st.blocks[p.base].exact = V
    st.put(p, 8, c.prog.vptr_for(c.E, st, V))
    r = fint('payload')
    st.assume(r > 0, z3.Select(st.ghost['alive_t'], r))
    st.put(p.add(c.prog.off(V, 'value')), 8, SymPtr(r, 'iqxmlrpc::Value_type'))
    return p


def vref(c, p):
    return c.st.cell(p.add(c.prog.off(V, 'value'))).ref


def setup_vcopy(c):
    ghosts(c.st, '_t')
    return [c.st.alloc(c.prog.size(V), 'heap', 'new value', V), val_t(c)]


def fresh_payload(c, pre, src):
    def chk(E, st, got):
        if not isinstance(got, SymPtr):
            return [('holds a payload', False)]
        r = j_('r')
        a0, a1, v0, v1 = pre.ghost['alive_t'], st.ghost['alive_t'], pre.ghost['av_t'], st.ghost['av_t']
        return [('equal contents', z3.Select(v1, got.ref) == z3.Select(v0, src)), ('a payload of its own', z3.And(z3.Select(a1, got.ref), z3.Not(z3.Select(a0, got.ref))))]
    return chk


def cases_vcopy(c, a):
    pre = c.st.fork()
    src = vref(c, a[1])

    def post(E, st, o):
        r = j_('r')
        return [('existing values untouched', z3.ForAll([r], z3.Implies(z3.Select(pre.ghost['alive_t'], r), z3.And(z3.Select(st.ghost['alive_t'], r), z3.Select(st.ghost['av_t'], r) == z3.Select(pre.ghost['av_t'], r)))))]
    return [Case(True, writes=[(a[0].add(c.prog.off(V, 'value')), 8, fresh_payload(c, pre, src))], post=post, label='deep copy')]


def setup_vdtor(c):
    ghosts(c.st, '_t')
    return [val_t(c)]


def cases_vdtor(c, a):
    pre = c.st.fork()
    src = vref(c, a[0])
    return [Case(True, any_frame=True, post=lambda E, st, o: [('exactly its payload is freed', st.ghost['alive_t'] == z3.Store(pre.ghost['alive_t'], src, z3.BoolVal(False)))], label='destruction')]


def setup_vassign(c):
    ghosts(c.st, '_t')
    p = val_t(c)
    q = p if c.variant == 'itself' else val_t(c, 'other')
    if q is not p:
        c.st.assume(vref(c, p) != vref(c, q))
    return [p, q]


def cases_vassign(c, a):
    pre = c.st.fork()
    old, src = vref(c, a[0]), vref(c, a[1])

    def post(E, st, o):
        r = j_('r')
        a0, a1 = pre.ghost['alive_t'], st.ghost['alive_t']
        return [('exactly the old payload is freed', z3.ForAll([r], z3.Implies(z3.Select(a0, r), z3.Select(a1, r) == (r != old)))),
                ('other contents stay', z3.ForAll([r], z3.Implies(z3.And(z3.Select(a0, r), r != old), z3.Select(st.ghost['av_t'], r) == z3.Select(pre.ghost['av_t'], r))))]
    return [Case(True, ret=a[0], writes=[(a[0].add(c.prog.off(V, 'value')), 8, fresh_payload(c, pre, src))], post=post, label='assignment')]


# ---- clone of the scalar kinds
def sclone(kind):
    rec, cls, _ = KINDS[kind]

    def setup(c):
        return [payload(c, kind)]

    def cases(c, a):
        def post(E, st, o):
            p = o.val
            ok = isinstance(p, Ptr) and isinstance(p.base, int) and not p.isnull and st.blocks[p.base].alive and st.blocks[p.base].kind == 'heap' and p.base != a[0].base
            out = [('a new object', bool(ok))]
            if ok:
                b = st.blocks[p.base]
                for off, (sz, v) in c.st.blocks[a[0].base].cells.items():
                    w = b.cells.get(off)
                    out.append(('equal contents at +%d' % off, val_eq(w[1], v) if w else False))
            return out
        return [Case(True, anyret=True, post=post, label='clone')]
    return Contract(cls + '::clone() const', setup, cases, level='property', use=False)


ASSUME = ['memory allocation does not fail', 'values form finite trees (each container owns its elements): the copy of a value is verified by induction on that tree',
          'fewer than 2^32 elements per array where an unsigned index is used']


def contracts(P):
    A, T = ARR, STRU
    return [
        Contract(A + '::Array(iqxmlrpc::Array const&)', setup_aa, cases_acopy, level='property', weight=9),
        Contract(A + '::clear()', setup_a, cases_aclear, level='property', weight=8, use=False),
        Contract(A + '::~Array()', setup_a, cases_adtor, level='property', weight=8, use=False),
        Contract(A + '::push_back(iqxmlrpc::Value const&)', setup_push, cases_push, level='property', use=False),
        Contract(A + '::push_back(iqxmlrpc::util::ExplicitPtr<iqxmlrpc::Value*>)', setup_pushp, cases_pushp, level='property', use=False),
        Contract(A + '::operator[](unsigned int) const', setup_aidx, cases_aidx, level='property', use=False),
        Contract(A + '::operator[](unsigned int)', setup_aidx, cases_aidx, level='property', use=False),
        Contract(A + '::size() const', setup_a, cases_asize, level='property', use=False),
        Contract(A + '::operator=(iqxmlrpc::Array const&)', setup_assign, cases_aassign, level='property', variants=['another', 'itself'], use=False, weight=8),
        Contract(A + '::clone() const', setup_a, cases_aclone, level='property', use=False),
        Contract(T + '::Struct(iqxmlrpc::Struct const&)', setup_ss, cases_scopy, level='property', weight=9),
        Contract(T + '::clear()', setup_s, cases_sclear, level='property', weight=8, use=False),
        Contract(T + '::~Struct()', setup_s, cases_sdtor, level='property', weight=8, use=False),
        Contract(T + '::operator[](std::string const&) const', setup_sidx, cases_sidx, level='property', use=False),
        Contract(T + '::operator[](std::string const&)', setup_sidx, cases_sidx, level='property', use=False),
        Contract(T + '::has_field(std::string const&) const', setup_sidx, cases_shas, level='property', use=False),
        Contract(T + '::insert(std::string const&, iqxmlrpc::Value const&)', setup_sins, cases_sins, level='property', variants=['copied'], use=False),
        Contract(T + '::insert(std::string const&, iqxmlrpc::util::ExplicitPtr<iqxmlrpc::Value*>)', setup_sins, cases_sins, level='property', variants=['owned'], use=False),
        Contract(T + '::operator=(iqxmlrpc::Struct const&)', setup_sassign, cases_sassign, level='property', variants=['another', 'itself'], use=False, weight=8),
        Contract(T + '::clone() const', setup_s, cases_sclone, level='property', use=False),
        Contract(V + '::Value(iqxmlrpc::Value const&)', setup_vcopy, cases_vcopy, level='property', use=False),
        Contract(V + '::~Value()', setup_vdtor, cases_vdtor, level='property', use=False),
        Contract(V + '::operator=(iqxmlrpc::Value const&)', setup_vassign, cases_vassign, level='property', variants=['another', 'itself'], use=False),
    ] + [sclone(k) for k in ('nil', 'int', 'int64', 'bool', 'double', 'string', 'binary', 'datetime')]

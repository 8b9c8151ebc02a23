"""C17: the event loop (reactor_impl.h, reactor_poll_impl.cc, reactor.h)"""
from ..core import *
from ..contract import *
from ..models import _out
from .. import models, containers, lockm, netm
from ..events import emit, events
from ..engine import Exc
from ..irparse import PTR

HS, EH, RPI, PIM = 'iqnet::Reactor_base::HandlerState', 'iqnet::Event_handler', 'iqnet::Reactor_poll_impl', 'iqnet::Reactor_poll_impl::Impl'
NL, MX = 'iqnet::Null_lock', 'boost::mutex'
HMAP = 'std::map<int, iqnet::Event_handler*, std::less<int>, std::allocator<std::pair<int const, iqnet::Event_handler*>>>'
HLIST = 'std::list<%s, std::allocator<%s>>' % (HS, HS)
NOH, NETERR = 'iqnet::Reactor_base::No_handlers', 'iqnet::network_error'
POLLIN, POLLOUT, POLLERR, POLLHUP = 1, 4, 8, 16
LEAVES = ((0, 4, 'int32'), (4, 2, 'bv16'), (6, 2, 'bv16'))
containers.CUSTOM[HS] = containers.CUSTOM['pollfd'] = (8, LEAVES)
TUS = ['executor.cc', 'reactor_poll_impl.cc']
EXTRA = """#include <boost/thread/mutex.hpp>
#include "libiqxmlrpc/reactor_impl.h"
#include <stdexcept>
struct emit_handler: iqnet::Event_handler { virtual iqnet::Socket::Handler get_handler() const; };
iqnet::Socket::Handler emit_handler::get_handler() const { return 0; }
struct env_error: std::exception { const char* what() const throw(); };
const char* env_error::what() const throw() { return ""; }
void emit_throw() { throw env_error(); }
template class iqnet::Reactor<iqnet::Null_lock>;
template class iqnet::Reactor<boost::mutex>;
"""
# what a handler is: its descriptor, whether it is a stopper, whether its errors are to be caught
FD, STOP, CATCH = z3.Function('descriptor', INT, INT), z3.Function('is_stopper', INT, BOOL), z3.Function('catches', INT, BOOL)
A16 = z3.ArraySort(INT, z3.BitVecSort(16))
CNT = z3.Function('reported_before', A16, INT, INT)     # how many of the first i entries report something
bv = lambda n: z3.BitVecVal(n, 16)


def R(lk):
    return 'iqnet::Reactor<%s>' % lk


def RC(lk):
    return 'iqnet::Reactor<class %s>' % lk


def parts(prog, lk, p):
    c = RC(lk)
    return p.add(prog.off(c, 'handlers')), p.add(prog.off(c, 'handlers_states')), p.add(prog.off(c, 'num_stoppers'))


def inv(st, m, q, pos=None):
    """descriptors in the list are exactly the keys of the map, each once; the handlers are those of their descriptors"""
    pos = pos if pos is not None else fresh(z3.ArraySort(INT, INT), 'pos')
    j, k = z3.Int(fresh_name('j')), z3.Int(fresh_name('k'))
    n, P = I(q.size()), lambda x: z3.Select(pos, x)
    a = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(m.has(q.get(j)), P(q.get(j)) == j, q.get(j) >= 0, q.get(j) < 1 << 32, q.get(j, 1) != bv(0))), patterns=[q.get(j)])
    b = z3.ForAll([k], z3.Implies(m.has(k), z3.And(P(k) >= 0, P(k) < n, q.get(P(k)) == k, m.get(k) != 0, FD(m.get(k)) == k)), patterns=[m.has(k)])
    return z3.And(a, b), pos


def state(E, st, lk, p):
    """any registration state"""
    hm, hl, ns = parts(E.prog, lk, p)
    m, q = containers.fresh_map(HMAP, 'handlers'), containers.fresh_seq(st, HS, 'states')
    f, pos = inv(st, m, q)
    st.assume(f)
    en = containers.enum(st, m)
    st.assume(en.n == I(q.size()))       # as many as there are descriptors
    st.put(hm, 48, m)
    st.put(hl, 24, q)
    st.put(ns, 4, E.fresh_of(st, ('i', 32), 'stoppers'))
    st.ghost['pos'] = pos


def reactor(c, lk):
    st, prog = c.st, c.prog
    p = st.alloc(prog.size(RC(lk)), 'heap', 'reactor', RC(lk))
    st.blocks[p.base].exact = RC(lk)
    prog.put_vptrs(c.E, st, p, RC(lk))
    state(c.E, st, lk, p)
    st.ghost['reactor'] = (lk, p)
    st.ghost['ev'] = ()
    st.ghost['held'] = ()
    return p


def handler(c):
    r = fint('handler')
    c.st.assume(r > 0)
    return SymPtr(r, EH)


def mask(c):
    v = c.E.fresh_of(c.st, ('i', 32), 'mask')
    c.st.assume(v >= 1, v <= 3)
    return v


def ref(E, st, p):
    return I(E.val_to_leaf(st, p, 'ptr:'))


# ---- the handlers: any code
def m_fd(E, st, a, rt, mod, dem):
    f = FD(ref(E, st, a[0]))
    st.assume(f >= 0, f < 1 << 32)
    return f


def m_stop(E, st, a, rt, mod, dem):
    return STOP(ref(E, st, a[0]))


def m_catch(E, st, a, rt, mod, dem):
    return CATCH(ref(E, st, a[0]))


def anything(E, st):
    """a callback may register, withdraw and post events as it likes"""
    lk, p = st.ghost['reactor']
    state(E, st, lk, p)


def m_call(name):
    def f(E, st, a, rt, mod, dem):
        lockm.free(E, st, 'while a handler runs')
        h = ref(E, st, a[0])
        anything(E, st)
        b1, b2 = st.fork(), st.fork()
        if len(a) > 1:
            st.put(a[1], 1, fbool('terminate'))
            emit(st, name, h, B(st.cell(a[1])))
            for b in (b1, b2):
                b.put(a[1], 1, fbool('terminate'))
        emit(b1, name, h, z3.BoolVal(False))
        emit(b2, name, h, z3.BoolVal(False))
        e1 = b1.alloc(16, 'heap', 'raised error', 'env_error')
        b1.blocks[e1.base].exact = 'env_error'
        b1.put(e1, 8, E.prog.vptr_for(E, b1, 'env_error'))
        emit(b1, 'raise', h, 'error')
        e2 = b2.alloc(4, 'heap', 'thrown int')
        b2.put(e2, 4, 1)
        emit(b2, 'raise', h, 'other')
        more = []
        for t in E.caught_types():
            # an error some handler singles out
            if not E.prog.derives(E.prog.ti_of('env_error'), t) and E.prog.derives(t, E.prog.ti_of('std::exception')):
                more.append(_out(b1.fork(), 'throw', Exc(e1, t)))
        return [_out(st, 'ret', None), _out(b1, 'throw', Exc(e1, E.prog.ti_of('env_error'))), _out(b2, 'throw', Exc(e2, '_ZTIi'))] + more
    return f


def m_log(name):
    def f(E, st, a, rt, mod, dem):
        lockm.free(E, st, 'while a handler runs')
        emit(st, name, ref(E, st, a[0]))
    return f


def m_finish(E, st, a, rt, mod, dem):
    lockm.free(E, st, 'while a handler is finished')
    h = ref(E, st, a[0])
    lk, p = st.ghost['reactor']
    hm, hl, ns = parts(E.prog, lk, p)
    m, q = st.cell(hm), st.cell(hl)
    j = z3.Int(fresh_name('j'))
    E.prove(st, z3.Not(m.has(FD(h))), 'a finished handler is withdrawn first', 'post')
    E.prove(st, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I(q.size())), q.get(j) != FD(h))), 'and not polled any more', 'post')
    anything(E, st)
    emit(st, 'finish', h)


def guard(E, st, p):
    """the thread-safe loop touches its registrations only under its lock"""
    if 'reactor' not in st.ghost:
        return
    lk, r = st.ghost['reactor']
    q = p.base[1] if isinstance(p.base, tuple) and len(p.base) > 1 and isinstance(p.base[1], Ptr) else p
    if lk == MX and q.base == r.base and isinstance(q.off, int) and q.off >= E.prog.off(RC(lk), 'handlers'):
        E.prove(st, lockm.key(r.add(E.prog.off(RC(lk), 'lock'))) in lockm.held(st), 'registrations are accessed only under the lock', 'safety')


def engine(E):
    E.guard = guard
    lockm.install(E)
    netm.install(E)
    X = E.mexact
    X[EH + '::get_handler() const'], X[EH + '::is_stopper() const'], X[EH + '::catch_in_reactor() const'] = m_fd, m_stop, m_catch
    X[EH + '::handle_input(bool&)'], X[EH + '::handle_output(bool&)'] = m_call('input'), m_call('output')
    X[EH + '::log_exception(std::exception const&)'], X[EH + '::log_unknown_exception()'] = m_log('logged'), m_log('logged_unknown')
    X[EH + '::finish()'] = m_finish
    E._mcache = {}


# ---- registration
def setup_rg(lk, withmask=True):
    def f(c):
        p = reactor(c, lk)
        return [p, handler(c)] + ([mask(c)] if withmask else [])
    return f


def before(c, lk, p):
    hm, hl, ns = parts(c.prog, lk, p)
    return c.st.cell(hm), c.st.cell(hl), c.st.cell(ns), c.st.ghost['pos']


def after(E, s2, lk, p):
    hm, hl, ns = parts(E.prog, lk, p)
    return s2.cell(hm), s2.cell(hl), s2.cell(ns)


def same_map(m2, m, but=None):
    k = z3.Int(fresh_name('k'))
    g = z3.And(m2.has(k) == m.has(k), z3.Implies(m.has(k), m2.get(k) == m.get(k)))
    return z3.ForAll([k], g if but is None else z3.Implies(k != but, g))


def entry(q, j):
    return [q.get(j, x) for x in range(3)]


def same_entries(q2, q, lo, hi, shift=0, but=None, leaves=(0, 1, 2)):
    j = z3.Int(fresh_name('j'))
    g = z3.And(*[q2.get(j, x) == q.get(j + shift, x) for x in leaves])
    cond = z3.And(j >= lo, j < hi)
    return z3.ForAll([j], z3.Implies(cond if but is None else z3.And(cond, j != but), g))


def done(o, s2):
    return [('returns', o.kind == 'ret'), ('no lock is kept', not s2.ghost['held']), ('no handler is called', not events(s2))]


def cases_rg(lk):
    def f(c, a):
        m, q, ns, pos = before(c, lk, a[0])
        h = ref(c.E, c.st, a[1])
        k, n, mk = FD(h), I(q.size()), z3.Int2BV(I(a[2]), 16)

        def new(E, s2, o):
            m2, q2, ns2 = after(E, s2, lk, a[0])
            return done(o, s2) + [('one more entry', I(q2.size()) == n + 1), ('for this descriptor and exactly these events, with nothing reported', z3.And(q2.get(n) == k, q2.get(n, 1) == mk, q2.get(n, 2) == bv(0))),
                                  ('the others stay', same_entries(q2, q, 0, n)), ('the handler is the one given', z3.And(m2.has(k), m2.get(k) == h)), ('all other handlers stay', same_map(m2, m, k)),
                                  ('stoppers are counted', I(ns2) == (I(ns) + z3.If(STOP(h), 1, 0)) % (1 << 32)),
                                  ('descriptors and handlers still agree', inv(s2, m2, q2, z3.Store(pos, k, n))[0])]

        def more(E, s2, o):
            m2, q2, ns2 = after(E, s2, lk, a[0])
            i = z3.Select(pos, k)
            return done(o, s2) + [('no more entries', I(q2.size()) == n), ('the events are added', z3.And(q2.get(i) == k, q2.get(i, 1) == q.get(i, 1) | mk, q2.get(i, 2) == q.get(i, 2))),
                                  ('the others stay', same_entries(q2, q, 0, n, 0, i)), ('the handlers stay', same_map(m2, m)), ('descriptors and handlers still agree', inv(s2, m2, q2, pos)[0])]
        return [Case(z3.Not(m.has(k)), any_frame=True, anyway=True, post=new, label='new descriptor'), Case(m.has(k), any_frame=True, anyway=True, post=more, label='known descriptor')]
    return f


def gone(E, s2, lk, a, m, q, ns, pos, h):
    """this descriptor is neither polled nor known any more, everything else stays"""
    m2, q2, ns2 = after(E, s2, lk, a[0])
    k, n = FD(h), I(q.size())
    i = z3.Select(pos, k)
    p2 = fresh(z3.ArraySort(INT, INT), 'pos')
    x = z3.Int(fresh_name('x'))
    s2.assume(z3.ForAll([x], z3.Select(p2, x) == z3.If(z3.Select(pos, x) > i, z3.Select(pos, x) - 1, z3.Select(pos, x)), patterns=[z3.Select(p2, x)]))
    return [('one entry less', I(q2.size()) == n - 1), ('those before stay', same_entries(q2, q, 0, i)), ('those after stay', same_entries(q2, q, i, n - 1, 1)),
            ('the handler is not known any more', z3.Not(m2.has(k))), ('all other handlers stay', same_map(m2, m, k)), ('stoppers are counted', I(ns2) == (I(ns) - z3.If(STOP(h), 1, 0)) % (1 << 32)),
            ('descriptors and handlers still agree', inv(s2, m2, q2, p2)[0])]


def kept(E, s2, lk, a, m, q, ns):
    m2, q2, ns2 = after(E, s2, lk, a[0])
    return [('nothing changes', z3.And(I(q2.size()) == I(q.size()), same_entries(q2, q, 0, I(q.size())), same_map(m2, m), I(ns2) == I(ns)))]


def cases_un(lk):
    def f(c, a):
        m, q, ns, pos = before(c, lk, a[0])
        h = ref(c.E, c.st, a[1])
        k = FD(h)
        return [Case(m.has(k), any_frame=True, anyway=True, post=lambda E, s2, o: done(o, s2) + gone(E, s2, lk, a, m, q, ns, pos, h), label='registered'),
                Case(z3.Not(m.has(k)), any_frame=True, anyway=True, post=lambda E, s2, o: done(o, s2) + kept(E, s2, lk, a, m, q, ns), label='not registered')]
    return f


def cases_um(lk):
    """withdrawing some events: none of them is polled any more; nothing is left of it when all were withdrawn"""
    def f(c, a):
        m, q, ns, pos = before(c, lk, a[0])
        h = ref(c.E, c.st, a[1])
        k, mk = FD(h), z3.Int2BV(I(a[2]), 16)
        n, i = I(q.size()), z3.Select(pos, k)

        def post(E, s2, o):
            m2, q2, ns2 = after(E, s2, lk, a[0])
            if not E.feasible(s2, m2.has(k)):
                return done(o, s2) + gone(E, s2, lk, a, m, q, ns, pos, h)
            return done(o, s2) + [('something else is left', q2.get(i, 1) != bv(0)), ('the events are withdrawn', q2.get(i, 1) == q.get(i, 1) & ~mk), ('same entry', z3.And(I(q2.size()) == n, same_entries(q2, q, 0, n, 0, i), q2.get(i) == k)),
                                  ('the handlers stay', same_map(m2, m))]
        return [Case(m.has(k), any_frame=True, anyway=True, post=post, label='registered'),
                Case(z3.Not(m.has(k)), any_frame=True, anyway=True, post=lambda E, s2, o: done(o, s2) + kept(E, s2, lk, a, m, q, ns), label='not registered')]
    return f


def cases_fe(lk):
    def f(c, a):
        m, q, ns, pos = before(c, lk, a[0])
        h = ref(c.E, c.st, a[1])
        k, mk = FD(h), z3.Int2BV(I(a[2]), 16)
        n, i = I(q.size()), z3.Select(pos, k)

        def post(E, s2, o):
            m2, q2, ns2 = after(E, s2, lk, a[0])
            return done(o, s2) + [('same entries', z3.And(I(q2.size()) == n, same_entries(q2, q, 0, n, 0, i))), ('the event is posted for this descriptor', z3.And(q2.get(i) == k, q2.get(i, 1) == q.get(i, 1), q2.get(i, 2) == q.get(i, 2) | mk)),
                                  ('the handlers stay', z3.And(same_map(m2, m), I(ns2) == I(ns)))]
        return [Case(m.has(k), any_frame=True, anyway=True, post=post, label='registered'),
                Case(z3.Not(m.has(k)), any_frame=True, anyway=True, post=lambda E, s2, o: done(o, s2) + kept(E, s2, lk, a, m, q, ns), label='not registered')]
    return f


# ---- one report
def setup_ie(lk):
    def f(c):
        st = c.st
        p = reactor(c, lk)
        h = st.alloc(8, 'heap', 'report', HS)
        fd = c.E.fresh_of(st, ('i', 32), 'fd')
        st.put(h, 4, fd)
        st.put(h.add(4), 2, fresh(z3.BitVecSort(16), 'mask'))
        st.put(h.add(6), 2, fresh(z3.BitVecSort(16), 'revents'))
        return [p, h]
    return f


def bits(x):
    return x if is_sym(x) and z3.is_bv(x) else z3.Int2BV(I(x), 16)


def cases_ie(lk):
    def f(c, a):
        m, q, ns, pos = before(c, lk, a[0])
        fd, rev = I(c.st.cell(a[1])), bits(c.st.cell(a[1].add(6)))
        h = m.get(fd)
        isin, isout = rev & bv(1) != bv(0), rev & bv(2) != bv(0)

        def none(E, s2, o):
            return done(o, s2)

        def post(E, s2, o):
            ca = events(s2, 'input', 'output')
            ra, fi, lg = events(s2, 'raise'), events(s2, 'finish'), events(s2, 'logged', 'logged_unknown')
            out = [('no lock is kept', not s2.ghost['held']), ('only the handler of this descriptor is used', z3.And(True, *[e[1] == h for e in events(s2)])), ('at most one call', len(ca) <= 1)]
            if not ca:
                return out + [('called when input or output is reported', z3.Not(z3.Or(isin, isout))), ('nothing else happens', not events(s2) and o.kind == 'ret')]
            out.append(('called for what was reported', isin if ca[0][0] == 'input' else z3.And(isout, z3.Not(isin))))
            if ra:
                cat = CATCH(h)
                if o.kind == 'throw':
                    return out + [('an error leaves the loop only when it is not to be caught', z3.Not(cat)), ('nothing else happens', not fi and not lg)]
                return out + [('an error is caught only when it is to be', cat), ('it is logged once', len(lg) == 1 and lg[0][0] == ('logged' if ra[0][2] == 'error' else 'logged_unknown')), ('the handler is finished once', len(fi) == 1)]
            return out + [('returns', o.kind == 'ret'), ('finished exactly once when it asks to terminate', z3.If(B(ca[0][2]), z3.BoolVal(len(fi) == 1), z3.BoolVal(len(fi) == 0))), ('nothing is logged', not lg)]
        return [Case(z3.Not(m.has(fd)), any_frame=True, anyway=True, post=none, label='withdrawn'), Case(m.has(fd), any_frame=True, anyway=True, post=post, label='registered')]
    return f


# ---- many reports
def m_invoke(E, st, a, rt, mod, dem):
    """by its own contract: the report is delivered; then the registration is any"""
    lockm.free(E, st, 'while a handler runs')
    hs = a[1]
    if st.ghost.get('user'):
        E.prove(st, z3.Implies(I(st.ghost['calls'].size()) == 0, taken(E, st)), 'posted events are taken before they are delivered', 'post')
    st.ghost['calls'] = st.ghost['calls'].push_back([I(E.load(st, E.prog.mods[0], hs, ('i', 32))), bits(E.load(st, E.prog.mods[0], hs.add(4), ('i', 16))), bits(E.load(st, E.prog.mods[0], hs.add(6), ('i', 16)))])
    anything(E, st)
    bad = st.fork()
    e = bad.alloc(4, 'heap', 'thrown int')
    bad.put(e, 4, 1)
    bad.ghost['failed'] = z3.BoolVal(True)
    return [_out(st, 'ret', None), _out(bad, 'throw', Exc(e, '_ZTIi'))]


def taken(E, st):
    """no posted event is left"""
    lk, p = st.ghost['reactor']
    q = st.cell(parts(E.prog, lk, p)[1])
    j = z3.Int(fresh_name('j'))
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I(q.size())), q.get(j, 2) == bv(0)))


def m_reset(E, st, a, rt, mod, dem):
    lockm.free(E, st, 'while waiting')
    q = containers.seq(E, st, a[1])
    st.ghost['polled'] = q
    st.ghost['ev'] = st.ghost['ev'] + (('reset',),)


def m_poll(E, st, a, rt, mod, dem):
    lockm.free(E, st, 'while waiting')
    E.prove(st, I(st.ghost['polled'].size()) > 0, 'waits only with somebody to wait for', 'post')
    emit(st, 'wait', a[2])
    none, bad = st.fork(), st.fork()
    q = containers.fresh_seq(st, HS, 'reports')
    E.aset(st, a[1], None, q)
    st.ghost['reports'] = q
    none.ghost['timeout'] = z3.BoolVal(True)
    bad.ghost['failed'] = z3.BoolVal(True)
    return [_out(st, 'ret', z3.BoolVal(True)), _out(none, 'ret', z3.BoolVal(False)), _out(bad, 'throw', make_exc(E, bad, NETERR))]


def many_engine(E):
    engine(E)
    X = E.mexact
    for lk in (NL, MX):
        X[R(lk) + '::invoke_event_handler(%s&)' % HS] = m_invoke
    X[RPI + '::reset(%s const&)' % HLIST] = m_reset
    X[RPI + '::poll(%s&, int)' % HLIST] = m_poll
    E._mcache = {}


def calls(c):
    st = c.st
    st.ghost['calls'] = containers.empty_seq(HS)
    st.ghost['failed'] = st.ghost['timeout'] = z3.BoolVal(False)
    st.ghost['polled'] = st.ghost['reports'] = containers.empty_seq(HS)


def setup_ue(lk):
    def f(c):
        p = reactor(c, lk)
        calls(c)
        c.st.ghost['user'] = True
        c.st.ghost['states0'] = c.st.cell(parts(c.prog, lk, p)[1])
        return [p]
    return f


def unfold(st, A, i):
    st.assume(CNT(A, z3.IntVal(0)) == 0, z3.Implies(i >= 0, CNT(A, i + 1) == CNT(A, i) + z3.If(z3.Select(A, i) != bv(0), 1, 0)))


def delivered(A, q0, q, i, size, leaf=True):
    """the first i entries' reports are in q, in order"""
    j = z3.Int(fresh_name('j'))
    n = CNT(A, j)
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i, z3.Select(A, j) != bv(0)), z3.And(n >= 0, n < size, q.get(n) == q0.get(j), q.get(n, 2) == q0.get(j, 2))), patterns=[n])


def cases_ue(lk):
    def f(c, a):
        q0 = c.st.ghost['states0']
        A = q0.arrs[2]

        def post(E, s2, o):
            cl = s2.ghost['calls']
            n = I(q0.size())
            unfold(s2, A, n - 1)
            out = [('no lock is kept', not s2.ghost['held'])]
            if o.kind == 'throw':
                return out + [('raises only what a handler raised', s2.ghost['failed'])]
            return out + [('as many calls as there are posted events', I(cl.size()) == CNT(A, n)), ('every posted event is delivered, in order', delivered(A, q0, cl, n, I(cl.size()))),
                          ('none is left when none was delivered', z3.Implies(I(cl.size()) == 0, taken(E, s2)))]
        return [Case(True, any_frame=True, anyway=True, anyret=True, post=post)]
    return f


def setup_se(lk):
    def f(c):
        p = reactor(c, lk)
        calls(c)
        c.st.ghost['states0'] = c.st.cell(parts(c.prog, lk, p)[1])
        return [p, c.E.fresh_of(c.st, ('i', 32), 'timeout')]
    return f


def cases_se(lk):
    def f(c, a):
        q0 = c.st.ghost['states0']

        def post(E, s2, o):
            ev = events(s2)
            g = s2.ghost
            out = [('no lock is kept', not g['held'])]
            if not ev:
                return out + [('waits unless nobody is registered', I(q0.size()) == 0), ('returns', o.kind == 'ret' and B(o.val))]
            out += [('one wait', [e[0] for e in ev] == ['reset', 'wait'] and I(ev[1][1]) == I(a[1])), ('for exactly what is registered', z3.And(I(g['polled'].size()) == I(q0.size()), same_entries(g['polled'], q0, 0, I(q0.size()), 0, None, (0, 1))))]
            r, cl = g['reports'], g['calls']
            if o.kind == 'throw':
                return out + [('raises only what the wait or a handler raised', g['failed'])]
            return out + [('a timeout is reported exactly when the wait timed out', B(o.val) == z3.Not(g['timeout'])), ('as many calls as there are reports', I(cl.size()) == I(r.size())), ('every report is delivered, in order', same_entries(cl, r, 0, I(r.size()), 0, None, (0, 2)))]
        return [Case(True, any_frame=True, anyway=True, anyret=True, post=post)]
    return f


def cand(L):
    out = []
    g0 = L.entry.ghost
    lists = []
    if 'states0' in g0:
        q0 = g0['states0']
        A = q0.arrs[2]
        lk, p = g0['reactor']
        hl = parts(L.E.prog, lk, p)[1]
        for n2, g, x0 in L.ints:
            out.append(('%s within' % n2, lambda st, g=g: z3.And(g(st) >= 0, g(st) <= I(q0.size()))))
            for n1, loc, v in L.seqs:
                def cnt(st, g=g, loc=loc):
                    i = g(st)
                    unfold(st, A, i)
                    unfold(st, A, i - 1)
                    return z3.And(I(loc.get(st).size()) == CNT(A, i), CNT(A, i) >= 0)
                out.append(('%s holds what was reported before %s' % (n1, n2), cnt))

                def dl(st, g=g, loc=loc):
                    return delivered(A, q0, loc.get(st), g(st), CNT(A, g(st)))
                out.append(('reports before %s are in %s' % (n2, n1), dl))
            def rest(st, g=g):
                q, i = st.cell(hl), g(st)
                return z3.And(I(q.size()) == I(q0.size()), same_entries(q, q0, 0, I(q0.size()), 0, None, (0, 1)), same_entries(q, q0, i, I(q0.size())), z3.ForAll([z3.Int('j!t')], z3.Implies(z3.And(z3.Int('j!t') >= 0, z3.Int('j!t') < i), q.get(z3.Int('j!t'), 2) == bv(0))))
            out.append(('entries from %s on are untouched' % n2, rest))
    if 'calls' in L.ghosts:
        loc0, c0 = L.ghosts['calls']
        for n1, loc, v in L.seqs:
            if len(v.arrs) != 3:
                continue
            out.append(('every entry is called or waits', lambda st, loc=loc, v=v: I(loc.get(st).size()) + I(st.ghost['calls'].size()) == I(v.size()) + I(c0.size())))

            def wait(st, loc=loc, v=v):
                d = I(st.ghost['calls'].size()) - I(c0.size())
                return same_entries(loc.get(st), v, 0, I(loc.get(st).size()), d, None, (0, 2))
            out.append(('the rest waits', wait))

            def was(st, loc=loc, v=v):
                n = I(st.ghost['calls'].size())
                return z3.And(n >= I(c0.size()), same_entries(st.ghost['calls'], v, I(c0.size()), n, 0, None, (0, 2)))
            out.append(('the others were called', was))
        # or the list is walked without being changed
        for bid, b in L.entry.blocks.items():
            for off, (sz, v) in b.cells.items():
                if b.kind != 'alloca' or not isinstance(v, SeqV) or len(v.arrs) != 3 or ('cell', bid, off) in L.mod:
                    continue
                for n2, g, x0 in L.ints:
                    out.append(('as many calls as entries before %s' % n2, lambda st, g=g, v=v: z3.And(g(st) >= 0, g(st) <= I(v.size()), I(st.ghost['calls'].size()) == I(c0.size()) + g(st))))
                    out.append(('the entries before %s were called' % n2, lambda st, g=g, v=v: same_entries(st.ghost['calls'], v, I(c0.size()), I(c0.size()) + g(st), 0, None, (0, 2))))
        out.append(('no failure', lambda st: st.ghost['failed'] == g0['failed']))

        if g0.get('user'):
            out.append(('posted events are taken', lambda st: z3.Implies(I(st.ghost['calls'].size()) == 0, taken(L.E, st))))
    if 'pfd_in' in g0:
        for n2, g, x0 in L.ints:
            out.append(('%s within' % n2, lambda st, g=g: z3.And(g(st) >= 0, g(st) <= I(g0['pfd_in'].size()))))
            for n1, loc, v in L.seqs:
                out.append(('%s is as long' % n1, lambda st, g=g, loc=loc: I(loc.get(st).size()) == g(st)))
                out.append(('%s so far' % n1, lambda st, g=g, loc=loc: asked(loc.get(st), g0['pfd_in'], g(st))))
    if 'pfd_out' in g0:
        for n2, g, x0 in L.ints:
            out.append(('%s within' % n2, lambda st, g=g: z3.And(g(st) >= 0, g(st) <= I(g0['pfd_out'].size()))))
            for n1, loc, v in L.seqs:
                def cnt2(st, g=g, loc=loc):
                    r, i = st.ghost['pfd_out'], g(st)
                    unfold(st, r.arrs[2], i)
                    unfold(st, r.arrs[2], i - 1)
                    return z3.And(i >= 0, I(loc.get(st).size()) == CNT(r.arrs[2], i), CNT(r.arrs[2], i) >= 0)
                out.append(('%s counts' % n1, cnt2))
                out.append(('%s so far' % n1, lambda st, g=g, loc=loc: told(loc.get(st), st.ghost['pfd_out'], g(st), CNT(st.ghost['pfd_out'].arrs[2], g(st)))))
    return out


CANDS = [cand]


# ---- one turn
def m_user(E, st, a, rt, mod, dem):
    emit(st, 'user')
    anything(E, st)
    bad = st.fork()
    e = bad.alloc(4, 'heap', 'thrown int')
    bad.put(e, 4, 1)
    emit(bad, 'failed')
    return [_out(st, 'ret', None), _out(bad, 'throw', Exc(e, '_ZTIi'))]


def m_system(E, st, a, rt, mod, dem):
    v = fbool('more')
    emit(st, 'system', a[1], v)
    bad = st.fork()
    e = bad.alloc(4, 'heap', 'thrown int')
    bad.put(e, 4, 1)
    emit(bad, 'failed')
    return [_out(st, 'ret', v), _out(bad, 'throw', Exc(e, '_ZTIi'))]


def turn_engine(E):
    engine(E)
    X = E.mexact
    for lk in (NL, MX):
        X[R(lk) + '::handle_user_events()'] = m_user
        X[R(lk) + '::handle_system_events(int)'] = m_system
    E._mcache = {}


def setup_he(lk):
    def f(c):
        return [reactor(c, lk), c.E.fresh_of(c.st, ('i', 32), 'timeout')]
    return f


def cases_he(lk):
    def f(c, a):
        m, q, ns, pos = before(c, lk, a[0])
        n = containers.enum(c.st, m).n

        def post(E, s2, o):
            ev = events(s2)
            names = [e[0] for e in ev]
            if 'failed' in names:
                return [('raises what was raised', o.kind == 'throw')]
            if not ev:
                if o.kind == 'throw':
                    return [('gives up only when nobody but stoppers is left', z3.And(n > 0, n == I(ns))), ('with its own error', o.val.ti == E.prog.ti_of(NOH))]
                return [('nothing to do only when nobody is registered', n == 0), ('reported as nothing done', z3.Not(B(o.val)))]
            return [('goes on when somebody is registered', z3.And(n > 0, n != I(ns))), ('posted events first, then one wait with this timeout', z3.And(names == ['user', 'system'], I(ev[1][1]) == I(a[1])) if len(ev) == 2 else False),
                    ('reports what the wait reported', z3.And(o.kind == 'ret', B(o.val) == ev[1][2]) if o.kind == 'ret' and len(ev) == 2 else False)]
        return [Case(True, any_frame=True, anyway=True, anyret=True, post=post)]
    return f


# ---- the waiting itself
def pfd(c, q):
    st = c.st
    p = st.alloc(c.prog.size(RPI), 'heap', 'poller', RPI)
    i = st.alloc(c.prog.size(PIM), 'heap', 'poller impl', PIM)
    st.put(p.add(c.prog.off(RPI, 'impl')), 8, i)
    st.put(i.add(c.prog.off(PIM, 'pfd')), 24, q)
    st.ghost['ev'] = ()
    st.ghost['held'] = ()
    return p, i.add(c.prog.off(PIM, 'pfd'))


def setup_rs(c):
    p, v = pfd(c, containers.fresh_seq(c.st, 'pollfd', 'old'))
    q = containers.fresh_seq(c.st, HS, 'states')
    l = c.st.alloc(24, 'heap', 'list')
    c.st.put(l, 24, q)
    c.st.ghost['pfd_in'] = q
    return [p, l]


def asked(v, q, n):
    j = z3.Int(fresh_name('j'))
    mk = q.get(j, 1)
    ev = z3.If(mk & bv(1) != bv(0), bv(POLLIN), bv(0)) | z3.If(mk & bv(2) != bv(0), bv(POLLOUT), bv(0))
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(v.get(j) == q.get(j), v.get(j, 1) == ev, v.get(j, 2) == bv(0))))


def cases_rs(c, a):
    q = c.st.ghost['pfd_in']
    at = c.st.cell(a[0].add(c.prog.off(RPI, 'impl'))).add(c.prog.off(PIM, 'pfd'))

    def post(E, s2, o):
        v = s2.cell(at)
        return [('as many as registered', I(v.size()) == I(q.size())), ('each descriptor with exactly its events', asked(v, q, I(q.size())))]
    return [Case(True, any_frame=True, post=post)]


def m_syspoll(E, st, a, rt, mod, dem):
    """poll(2): error, timeout, or some reports"""
    p = a[0]
    if not (isinstance(p, Ptr) and isinstance(p.base, tuple) and p.base[0] == 'cd'):
        raise Unsupported('poll on %r' % (p,))
    v = containers.seq(E, st, p.base[1])
    E.prove(st, z3.And(I(p.idx) == 0, I(a[1]) == I(v.size())), 'waits for all descriptors', 'post')
    E.prove(st, I(a[2]) == I(st.ghost['timeout']), 'waits as long as asked', 'post')
    bad, none = st.fork(), st.fork()
    emit(bad, 'error')
    emit(none, 'nothing')
    rv = fresh(A16, 'revents')
    n = E.fresh_of(st, ('i', 32), 'ready')
    st.assume(n > 0, n < 1 << 31)
    w = v.with_(arrs=(v.arrs[0], v.arrs[1], rv))
    E.aset(st, p.base[1], None, w)
    st.ghost['pfd_out'] = w
    emit(st, 'ready')
    return [_out(bad, 'ret', (1 << 32) - 1), _out(none, 'ret', 0), _out(st, 'ret', n)]


def poll_engine(E):
    engine(E)
    E.mexact['poll'] = m_syspoll
    E._mcache = {}


def setup_pl(c):
    q = containers.fresh_seq(c.st, 'pollfd', 'descriptors')
    c.st.assume(I(q.size()) > 0, I(q.size()) < 1 << 31)
    j = z3.Int(fresh_name('j'))
    c.st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I(q.size())), q.get(j, 2) == bv(0)), patterns=[q.get(j, 2)]))
    p, v = pfd(c, q)
    c.st.ghost['pfd_out'] = q
    l = c.st.alloc(24, 'heap', 'list')
    c.st.put(l, 24, containers.empty_seq(HS))
    t = c.E.fresh_of(c.st, ('i', 32), 'timeout')
    c.st.ghost['timeout'] = t
    return [p, l, t]


def told(q, r, n, size):
    """the reports of the first n descriptors"""
    j = z3.Int(fresh_name('j'))
    A = r.arrs[2]
    e = r.get(j, 2)
    c = CNT(A, j)
    has = lambda b: e & bv(b) != bv(0)
    ev = z3.If(has(POLLIN), bv(1), bv(0)) | z3.If(z3.Or(has(POLLOUT), has(POLLERR), has(POLLHUP)), bv(2), bv(0))
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, e != bv(0)), z3.And(c >= 0, c < size, q.get(c) == r.get(j), q.get(c, 2) == ev)), patterns=[c])


def cases_pl(c, a):
    def post(E, s2, o):
        ev = [e[0] for e in events(s2)]
        r = s2.ghost['pfd_out']
        n = I(r.size())
        unfold(s2, r.arrs[2], n - 1)
        q = s2.cell(a[1])
        if ev == ['error']:
            if o.kind == 'throw':
                return [('an error is reported as such', bool(E.prog.derives(o.val.ti, E.prog.ti_of(NETERR))))]
            return [('an interrupted wait reports nothing', z3.And(B(o.val), I(q.size()) == 0))]
        if ev == ['nothing']:
            return [('a timeout is reported', z3.And(o.kind == 'ret', z3.Not(B(o.val))) if o.kind == 'ret' else False)]
        return [('one wait', ev == ['ready']), ('something is ready', z3.And(o.kind == 'ret', B(o.val)) if o.kind == 'ret' else False), ('one report for each ready descriptor', I(q.size()) == CNT(r.arrs[2], n)),
                ('with what it is ready for', told(q, r, n, I(q.size())))]
    return [Case(True, any_frame=True, anyway=True, anyret=True, post=post)]


def contracts(P):
    K = lambda *a, **k: Contract(*a, level='property', use=False, **k)
    out = []
    for lk in (NL, MX):
        r = R(lk) + '::'
        out += [
            K(r + 'register_handler(iqnet::Event_handler*, iqnet::Reactor_base::Event_mask)', setup_rg(lk), cases_rg(lk)),
            K(r + 'unregister_handler(iqnet::Event_handler*)', setup_rg(lk, False), cases_un(lk)),
            K(r + 'unregister_handler(iqnet::Event_handler*, iqnet::Reactor_base::Event_mask)', setup_rg(lk), cases_um(lk)),
            K(r + 'fake_event(iqnet::Event_handler*, iqnet::Reactor_base::Event_mask)', setup_rg(lk), cases_fe(lk)),
            K(r + 'invoke_event_handler(%s&)' % HS, setup_ie(lk), cases_ie(lk)),
            K(r + 'handle_user_events()', setup_ue(lk), cases_ue(lk), engine=many_engine),
            K(r + 'handle_system_events(int)', setup_se(lk), cases_se(lk), engine=many_engine),
            K(r + 'handle_events(int)', setup_he(lk), cases_he(lk), engine=turn_engine),
        ]
    return out + [
        K(RPI + '::reset(%s const&)' % HLIST, setup_rs, cases_rs),
        K(RPI + '::poll(%s&, int)' % HLIST, setup_pl, cases_pl, engine=poll_engine),
    ]


NOTE = ('Contracts on registering, withdrawing, posting, delivering one report, delivering all posted events, one wait, one turn of the loop and the poll back end, for both the plain and the thread-safe loop, '
        'discharged for any number of registrations and reports and for handlers that register, withdraw, post, terminate or raise as they like. The battery runs scripts against the real loop with scripted and with real polls.')
# THEOREM: what is polled is exactly what is registered; every report leads to at most one call, of the handler registered for that descriptor at that time, for the reported direction
# THEOREM: a handler that asks to terminate or raises while errors are to be caught is withdrawn and then finished, exactly once; its error does not leave the loop
# THEOREM: a turn reports a timeout exactly when the wait timed out (or nobody is registered)
# THEOREM: no lock is held while a handler runs or while waiting; the thread-safe loop touches registrations only under its lock
ASSUME = ['the descriptor of a handler does not change while it is registered, and no two registered handlers share one (a second one is merged with the first)', 'poll(2) behaves as documented',
          'other threads change registrations only through the contracts here, at any time no lock is held', 'the select() back end is not built on this platform', 'memory allocation does not fail']


def replay(name, v):
    out = []
    for lk in 'nm':
        for s in ('r01,r11,c0:u1,p1:0=1+1=1,p1:1=1', 'r01,p5:0=1,u0,p5:0=1', 'r01,r02,p7:0=5,p7:0=4,p7:0=1', 'r03,p-1:T,p-1:E,p-1:N,p-1:0=1', 'r01,f01,p1:T,p1:T', 'k0,r01,r11,c0:e,p1:0=1+1=1,p1:0=1+1=1', 'r01,c0:t,p1:0=1,p1:0=1'):
            out.append('script %s %s' % (lk, s))
    return out

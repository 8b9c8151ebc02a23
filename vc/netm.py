"""System calls on sockets and the event loop interface: every call is recorded in the event list with what it was given."""
import z3
from .core import *
from . import models
from .models import bytes_at, _out
from .events import emit, events
from .irparse import PTR

RB, EH = 'iqnet::Reactor_base', 'iqnet::Event_handler'
NOSIGNAL = 0x4000
INPUT, OUTPUT = 1, 2
NETERR = 'iqnet::network_error'
SMALL = 1 << 31


def m_recv(E, st, a, rt, mod, dem):
    """-1, or up to len bytes put at the start of the buffer"""
    bad = st.fork()
    emit(bad, 'recv_error', a[0])
    buf, n = a[1], I(a[2])
    d = fstr('incoming')
    st.assume(slen(d) <= n, slen(d) < MAXLEN)
    if isinstance(buf, Ptr) and not isinstance(buf.base, int) and buf.base[0] == 'cd':
        v = E.aget(st, buf.base[1])
        i = I(buf.idx)
        L = slen(v.s)
        E.prove(st, z3.And(i >= 0, n >= 0, i + n <= L), 'receive within the buffer', 'safety')
        k = slen(d)
        E.aset(st, buf.base[1], None, type(v)(cat(sub(v.s, 0, i), d, sub(v.s, i + k, L - i - k)) if not same(buf.idx, 0) else cat(d, sub(v.s, k, L - k))))
    else:
        raise Unsupported('receive into %r' % (buf,))
    emit(st, 'recv', a[0], d)
    return [_out(bad, 'ret', (1 << 64) - 1 if rt == ('i', 64) else (1 << 32) - 1), _out(st, 'ret', slen(d))]


def m_send(E, st, a, rt, mod, dem):
    data = bytes_at(E, st, a[1], a[2])
    fl = I(a[3])
    E.prove(st, (fl / NOSIGNAL) % 2 == 1, 'sending never raises a signal', 'safety')
    bad = st.fork()
    emit(bad, 'send_error', a[0])
    n = fint('accepted')
    st.assume(n >= 0, n <= slen(data))
    emit(st, 'sent', a[0], data, n)
    return [_out(bad, 'ret', (1 << 64) - 1), _out(st, 'ret', n)]


def m_reg(kind):
    def f(E, st, a, rt, mod, dem):
        emit(st, kind, *a[1:])
    return f


def m_neterr(E, st, a, rt, mod, dem):
    st.put(a[0].add(8), 8, Opq('what', fstr('what')))


def m_close(name):
    def f(E, st, a, rt, mod, dem):
        emit(st, name, *a)
        return 0
    return f


def install(E):
    X = E.mexact
    X['recv'], X['send'] = m_recv, m_send
    X['shutdown'], X['close'] = m_close('shutdown'), m_close('close')
    X[NETERR + '::network_error(std::string const&, bool, int)'] = m_neterr
    for k in ('register', 'unregister'):
        X[RB + '::%s_handler(iqnet::Event_handler*, iqnet::Reactor_base::Event_mask)' % k] = m_reg(k)
    X[RB + '::unregister_handler(iqnet::Event_handler*)'] = m_reg('unregister_all')
    E._mcache = {}


def reactor(c):
    st = c.st
    r = st.alloc(8, 'heap', 'reactor', RB)
    st.blocks[r.base].exact = None
    st.put(r, 8, Ptr(('vt', RB), 0))
    return r


def is_reg(e, kind, obj, mask=None):
    """event e is a (un)registration of this object (for exactly this mask)"""
    if not (e[0] == kind and isinstance(e[1], Ptr) and e[1].base == obj.base):
        return False
    return I(e[2]) == mask if mask is not None else True


def trace(st, *want):
    """the event list is exactly this: each entry a function of the event giving a condition"""
    ev = events(st)
    if len(ev) != len(want):
        return z3.BoolVal(False)
    cs = [w(e) for w, e in zip(want, ev)]
    return z3.And(*[z3.BoolVal(c) if isinstance(c, bool) else c for c in cs])


def reg(kind, obj, mask=None):
    return lambda e: is_reg(e, kind, obj, mask)


def sent(fd, data, n=None):
    """one transfer of exactly these bytes on this descriptor"""
    return lambda e: z3.And(I(e[1]) == I(fd), e[2] == data) if e[0] == 'sent' else False


def named(name):
    return lambda e: e[0] == name

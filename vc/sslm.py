"""OpenSSL calls used by the library, as documented: results are arbitrary within the documentation, calls are recorded in the event list."""
from .netm import *
from . import netm
from .models import _out, bytes_at

SX = 'iqnet::ssl'
RC, SC = SX + '::Reaction_connection', SX + '::Connection'
# SSL_get_error codes
NONE, SSLERR, WREAD, WWRITE, X509, SYSCALL, ZERO = 0, 1, 2, 3, 4, 5, 6


def sint(v):
    """a C int as the engine keeps it"""
    return v % (1 << 32) if isinstance(v, int) else z3.If(v < 0, v + (1 << 32), v)


def m_write(E, st, a, rt, mod, dem):
    """all bytes at once, or none (partial writes are not enabled)"""
    data = bytes_at(E, st, a[1], a[2])
    bad = st.fork()
    r = fint('ssl_ret')
    bad.assume(r <= 0, r > -(1 << 31))
    emit(bad, 'ssl_fail', a[0], r)
    emit(st, 'ssl_sent', a[0], data)
    return [_out(bad, 'ret', sint(r)), _out(st, 'ret', I(a[2]))]


def m_read(E, st, a, rt, mod, dem):
    bad = st.fork()
    r = fint('ssl_ret')
    bad.assume(r <= 0, r > -(1 << 31))
    emit(bad, 'ssl_fail', a[0], r)
    outs = netm.m_recv(E, st, a, rt, mod, dem)
    ok = outs[1].st
    ev = ok.ghost['ev']
    d = ev[-1][2]
    ok.ghost['ev'] = ev[:-1] + (('ssl_recv', a[0], d),)
    ok.assume(slen(d) > 0)
    return [_out(bad, 'ret', sint(r)), _out(ok, 'ret', slen(d))]


def m_handshake(name):
    def f(E, st, a, rt, mod, dem):
        bad = st.fork()
        r = fint('ssl_ret')
        bad.assume(r <= 0, r > -(1 << 31))
        emit(bad, 'ssl_fail', a[0], r)
        emit(st, name, a[0])
        return [_out(bad, 'ret', sint(r)), _out(st, 'ret', 1)]
    return f


def m_error(E, st, a, rt, mod, dem):
    """SSL_get_error: none exactly for positive results"""
    r = I(E.sgn(st, a[1], 32))
    outs = []
    for code in (NONE, SSLERR, WREAD, WWRITE, X509, SYSCALL, ZERO):
        c = r > 0 if code == NONE else r <= 0
        if not E.feasible(st, c):
            continue
        s2 = st.fork()
        s2.assume(c)
        emit(s2, 'ssl_error', code)
        outs.append(_out(s2, 'ret', code))
    return outs


def m_shutdown(E, st, a, rt, mod, dem):
    outs = []
    for r in (1, 0, -1):
        s2 = st.fork()
        emit(s2, 'ssl_shutdown', a[0], r)
        outs.append(_out(s2, 'ret', sint(r)))
    return outs


def m_get_shutdown(E, st, a, rt, mod, dem):
    outs = []
    for r in (0, 1, 2, 3):
        s2 = st.fork()
        outs.append(_out(s2, 'ret', r))
        s2.ghost['shut'] = r
    return outs


def m_pending(E, st, a, rt, mod, dem):
    outs = []
    for r in (0, 1):
        s2 = st.fork()
        s2.ghost['pending'] = r
        outs.append(_out(s2, 'ret', r))
    return outs


def m_exc(E, st, a, rt, mod, dem):
    """ssl::exception constructors: the message is C19's business"""
    st.put(a[0].add(8), 8, Opq('what', fstr('what')))


def m_ev(kind):
    def f(E, st, a, rt, mod, dem):
        emit(st, kind, *a)
    return f


def install(E):
    netm.install(E)
    X = E.mexact
    X['SSL_write'], X['SSL_read'], X['SSL_get_error'] = m_write, m_read, m_error
    X['SSL_accept'], X['SSL_connect'] = m_handshake('ssl_accepted'), m_handshake('ssl_connected')
    X['SSL_shutdown'], X['SSL_get_shutdown'], X['SSL_pending'] = m_shutdown, m_get_shutdown, m_pending
    X['SSL_set_shutdown'] = m_ev('ssl_set_shutdown')
    for s in ('exception()', 'exception(unsigned long)', 'exception(std::string const&)'):
        X[SX + '::exception::' + s] = m_exc
    X[RB + '::fake_event(iqnet::Event_handler*, iqnet::Reactor_base::Event_mask)'] = m_reg('fake')
    X[SX + '::Ctx::prepare_verify(ssl_st*, bool)'] = m_ev('prepare_verify')
    for n, s in (('recv_succeed', 'bool&, unsigned long, unsigned long'), ('send_succeed', 'bool&'), ('accept_succeed', ''), ('connect_succeed', '')):
        X['%s::%s(%s)' % (RC, n, s)] = m_ev(n)
    E._mcache = {}


def ssl_conn(c, cls=RC, abstract=True):
    """an SSL connection in an arbitrary state with a buffer to send from and one to receive into"""
    st = c.st
    p = st.alloc(c.prog.size(cls), 'heap', 'connection', cls)
    F = lambda n: p.add(c.prog.off(cls, n))
    st.blocks[p.base].exact = None if abstract else cls
    st.put(p, 8, Ptr(('vt', cls), 0) if abstract else c.prog.vptr_for(c.E, st, cls))
    fd = c.E.fresh_of(st, ('i', 32), 'descriptor')
    st.put(F('sock').add(c.prog.off('iqnet::Socket', 'sock')), 4, fd)
    s = st.alloc(8, 'heap', 'ssl')
    st.put(F('ssl'), 8, s)
    st.put(F('ssl_ctx'), 8, st.alloc(64, 'heap', 'ctx'))
    if cls != SC:
        st.put(F('reactor'), 8, netm.reactor(c))
    out, buf = fstr('message'), fstr('buffer')
    so, sb = st.alloc(32, 'heap', 'message'), st.alloc(24, 'heap', 'buffer')
    st.put(so, 32, StrV(out))
    st.put(sb, 24, VecB(buf))
    st.assume(slen(out) > 0, slen(out) < SMALL, slen(buf) > 0, slen(buf) < SMALL)
    return p, F, s, so, sb, out, buf


def same_ptr(E, st, x, y):
    r = E.ptr_equal(st, x, y)
    return z3.BoolVal(r) if isinstance(r, bool) else r

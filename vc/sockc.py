"""Sockets of a client (socket.cc): made, switched to non-blocking, connected, asked for their error, closed."""
from .clim import *
from . import netm
from .models import _out

SK, ADDR = 'iqnet::Socket', 'iqnet::Inet_addr'
EINPROGRESS = 115
M1 = (1 << 32) - 1


def fd_of(c, p):
    return I(c.st.cell(p.add(c.prog.off(SK, 'sock'))))


def m_connect(E, st, a, rt, mod, dem):
    """0, or -1 with any errno"""
    bad = st.fork()
    emit(st, 'connect', *a)
    e = fint('errno')
    bad.assume(e > 0, e < 1 << 31)
    p = models.m_errno(E, bad, [], None, None, None)
    bad.put(p, 4, e)
    emit(bad, 'connect_error', *a, e)
    return [_out(st, 'ret', 0), _out(bad, 'ret', M1)]


def m_socket(E, st, a, rt, mod, dem):
    bad = st.fork()
    emit(bad, 'socket_error', *a)
    fd = E.fresh_of(st, ('i', 32), 'new fd')
    st.assume(fd < (1 << 31))
    emit(st, 'socket', *a, fd)
    return [_out(bad, 'ret', M1), _out(st, 'ret', fd)]


def m_fcntl(E, st, a, rt, mod, dem):
    bad = st.fork()
    emit(bad, 'fcntl_error', *a)
    emit(st, 'fcntl', *a)
    return [_out(bad, 'ret', M1), _out(st, 'ret', 0)]


def m_getsockopt(E, st, a, rt, mod, dem):
    """the pending error of the socket; a failing call leaves the variable alone"""
    v = fint('pending')
    st.assume(v >= 0, v < 1 << 31)
    st.put(a[3], 4, v)
    emit(st, 'getsockopt', a[0], a[1], a[2], v)
    return 0


def m_setsockopt(E, st, a, rt, mod, dem):
    emit(st, 'setsockopt', *a)
    return 0


def m_sa(E, st, a, rt, mod, dem):
    p = st.alloc(16, 'heap', 'socket address')
    emit(st, 'address', a[0], p)
    return p


def m_asg(E, st, a, rt, mod, dem):
    emit(st, 'peer', a[0], a[1])
    return a[0]


def engine(E):
    cl_engine(E)
    netm.install(E)
    X = E.mexact
    X['connect'], X['socket'], X['fcntl'], X['fcntl64'], X['getsockopt'], X['setsockopt'] = m_connect, m_socket, m_fcntl, m_fcntl, m_getsockopt, m_setsockopt
    X[ADDR + '::get_sockaddr() const'] = m_sa
    X[ADDR + '::operator=(iqnet::Inet_addr const&)'] = m_asg
    X[ADDR + '::Inet_addr()'] = lambda E, st, a, rt, mod, dem: None
    X[ADDR + '::~Inet_addr()'] = lambda E, st, a, rt, mod, dem: None
    E._mcache = {}


def sock(c):
    st = c.st
    p = st.alloc(c.prog.size(SK), 'heap', 'socket', SK)
    fd = c.E.fresh_of(st, ('i', 32), 'fd')
    st.assume(fd < (1 << 31))
    st.put(p.add(c.prog.off(SK, 'sock')), 4, fd)
    st.ghost['ev'] = ()
    return p


def setup_conn(c):
    p = sock(c)
    q = c.st.alloc(c.prog.size(ADDR), 'heap', 'address', ADDR)
    return [p, q]


def cases_conn(c, a):
    fd = fd_of(c, a[0])
    peer = a[0].add(c.prog.off(SK, 'peer'))

    def post(E, s2, o):
        ok, bad, ad = events(s2, 'connect'), events(s2, 'connect_error'), events(s2, 'address')
        res = [('one attempt, with this socket', I((ok + bad)[0][1]) == fd if len(ok + bad) == 1 else False),
               ('to the address given', z3.And(z3.BoolVal(len(ad) >= 1 and same_base(ad[0][1], a[1])), z3.BoolVal(any(same_base(x[2], (ok + bad)[0][2]) for x in ad))) if ok + bad else False)]
        if ok:
            return res + [('connected', o.kind == 'ret' and I(o.val) == 1)]
        e = bad[0][-1]
        if o.kind == 'throw':
            return res + [('raised only for a failure', e != EINPROGRESS), ('as a network error', E.prog.derives(o.val.ti, E.prog.ti_of(netm.NETERR)))]
        return res + [('a failure is never taken for a connection', z3.And(e == EINPROGRESS, I(o.val) == 0))]
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


def same_base(x, y):
    return isinstance(x, Ptr) and isinstance(y, Ptr) and x.base == y.base


def setup_err(c):
    return [sock(c)]


def cases_err(c, a):
    fd = fd_of(c, a[0])

    def post(E, s2, o):
        g = events(s2, 'getsockopt')
        return [('the pending error of this socket', z3.And(I(g[-1][1]) == fd, I(g[-1][2]) == 1, I(g[-1][3]) == 4, I(o.val) == g[-1][4]) if g else False), ('asked once: asking clears it', len(g) == 1)]
    return [Case(True, any_frame=True, anyret=True, post=post)]


def setup_nb(c):
    return [sock(c), z3.BoolVal(True)]


def cases_nb(c, a):
    fd = fd_of(c, a[0])

    def post(E, s2, o):
        f, b = events(s2, 'fcntl'), events(s2, 'fcntl_error')
        if b:
            return [('a failure is reported', o.kind == 'throw')]
        sets = [e for e in f if len(e) > 3]
        return [('returns', o.kind == 'ret'), ('this socket does not block', z3.And(I(sets[-1][1]) == fd, I(sets[-1][2]) == 4, (I(sets[-1][3]) / 2048) % 2 == 1) if sets else False)]
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


def cases_close(c, a):
    fd = fd_of(c, a[0])
    return [Case(True, any_frame=True, post=lambda E, s2, o: [('this descriptor is released once, and nothing else', I(events(s2, 'close')[0][1]) == fd if len(events(s2, 'close')) == 1 else False)])]


def setup_new(c):
    p = c.st.alloc(c.prog.size(SK), 'heap', 'socket', SK)
    c.st.ghost['ev'] = ()
    return [p]


def cases_new(c, a):
    def post(E, s2, o):
        s, b = events(s2, 'socket'), events(s2, 'socket_error')
        if b:
            return [('a failure is reported', o.kind == 'throw' and E.prog.derives(o.val.ti, E.prog.ti_of(netm.NETERR)))]
        return [('returns', o.kind == 'ret'), ('one stream socket', z3.And(I(s[0][1]) == 2, I(s[0][2]) == 1) if len(s) == 1 else False),
                ('held by the object', I(s2.cell(a[0].add(c.prog.off(SK, 'sock')))) == I(s[0][4]) if len(s) == 1 else False)]
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


def sock_contracts():
    K = lambda n, s, f: Contract(SK + '::' + n, s, f, level='property', use=False, engine=engine)
    return [K('connect(iqnet::Inet_addr const&)', setup_conn, cases_conn), K('get_last_error()', setup_err, cases_err), K('set_non_blocking(bool)', setup_nb, cases_nb),
            K('close()', setup_err, cases_close), K('Socket()', setup_new, cases_new)]

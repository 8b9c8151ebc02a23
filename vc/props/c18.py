"""C18: the gate in front of the server (acceptor.cc, socket.cc, inet_addr.cc, server.cc, http_server.cc, https_server.cc)"""
from ..srv import *
from ..models import _out
from .. import netm, sslm
from ..netm import reactor, NETERR, INPUT, RB
from ..contract import make_exc

AC, SOCK, ADDR, AIMPL, FW, CF = 'iqnet::Acceptor', 'iqnet::Socket', 'iqnet::Inet_addr', 'iqnet::Inet_addr::Impl', 'iqnet::Firewall_base', 'iqnet::Accepted_conn_factory'
HSX = 'iqxmlrpc::(anonymous namespace)::Https_server_connection'
TUS = ['acceptor.cc', 'socket.cc', 'inet_addr.cc', 'connection.cc', 'http_server.cc', 'https_server.cc', 'ssl_connection.cc', 'server_conn.cc', 'server.cc', 'http.cc']
EXTRA = CONN_EXTRA + """#include "libiqxmlrpc/acceptor.h"
#include "libiqxmlrpc/conn_factory.h"
#include "libiqxmlrpc/firewall.h"
struct emit_firewall: iqnet::Firewall_base { ~emit_firewall(); virtual bool grant(const iqnet::Inet_addr&); virtual std::string message(); };
emit_firewall::~emit_firewall() {}
bool emit_firewall::grant(const iqnet::Inet_addr&) { return false; }
std::string emit_firewall::message() { return ""; }
struct emit_cf: iqnet::Accepted_conn_factory { virtual void create_accepted(const iqnet::Socket&); };
void emit_cf::create_accepted(const iqnet::Socket&) {}
struct emit_reactor: iqnet::Reactor_base { virtual void register_handler(iqnet::Event_handler*, Event_mask); virtual void unregister_handler(iqnet::Event_handler*, Event_mask); virtual void unregister_handler(iqnet::Event_handler*);
  virtual void fake_event(iqnet::Event_handler*, Event_mask); virtual bool handle_events(Timeout); };
void emit_reactor::register_handler(iqnet::Event_handler*, Event_mask) {}
void emit_reactor::unregister_handler(iqnet::Event_handler*, Event_mask) {}
void emit_reactor::unregister_handler(iqnet::Event_handler*) {}
void emit_reactor::fake_event(iqnet::Event_handler*, Event_mask) {}
bool emit_reactor::handle_events(Timeout) { return false; }
"""
NTOA = z3.Function('dotted_quad', z3.IntSort(), STR)
CANDS = []


def m_accept(E, st, a, rt, mod, dem):
    """-1, or a new descriptor with the address of the peer"""
    bad = st.fork()
    emit(bad, 'accept_error', a[0])
    fd, port, ip = E.fresh_of(st, ('i', 32), 'new fd'), E.fresh_of(st, ('i', 16), 'port'), E.fresh_of(st, ('i', 32), 'ip')
    st.assume(fd < (1 << 31))
    for o, n, v in ((0, 2, 2), (2, 2, port), (4, 4, ip), (8, 8, 0)):
        st.put(a[1].add(o), n, v)
    emit(st, 'accept', a[0], fd, ip, port)
    return [_out(bad, 'ret', (1 << 32) - 1), _out(st, 'ret', fd)]


def m_ntoa(E, st, a, rt, mod, dem):
    s = NTOA(I(a[0]))
    st.assume(slen(s) < 16, z3.Not(z3.Contains(s, sbytes(b'\0'))))
    p = st.alloc(32, 'heap', 'dotted quad')
    st.put(p, 32, StrV(s))
    return models.data_ptr(p)


def m_ntohs(E, st, a, rt, mod, dem):
    x = I(a[0])
    return (x % 256) * 256 + x / 256


def addr_of(E, st, p):
    """(host, port) of an address object"""
    i = st.cell(p.add(E.prog.off(ADDR, 'impl_')))
    if not isinstance(i, Ptr) or i.isnull:
        return None
    return st.cell(i.add(E.prog.off(AIMPL, 'host'))).s, st.cell(i.add(E.prog.off(AIMPL, 'port')))


def m_grant(E, st, a, rt, mod, dem):
    v = fbool('granted')
    emit(st, 'grant', addr_of(E, st, a[1]), v)
    return v


def m_message(E, st, a, rt, mod, dem):
    m = fstr('message')
    st.assume(slen(m) < (1 << 31))
    st.put(a[0], 32, StrV(m))
    emit(st, 'message', m)


def m_create(E, st, a, rt, mod, dem):
    p = a[1]
    emit(st, 'create', st.cell(p.add(E.prog.off(SOCK, 'sock'))), addr_of(E, st, p.add(E.prog.off(SOCK, 'peer'))))


def m_fcntl(E, st, a, rt, mod, dem):
    bad = st.fork()
    emit(bad, 'fcntl_error', a[0])
    emit(st, 'fcntl', *a)
    return [_out(bad, 'ret', (1 << 32) - 1), _out(st, 'ret', 0)]


def m_sys(name):
    def f(E, st, a, rt, mod, dem):
        bad = st.fork()
        emit(bad, name + '_error', *a)
        emit(st, name, *a)
        return [_out(bad, 'ret', (1 << 32) - 1), _out(st, 'ret', 0)]
    return f


def engine(E):
    httpm.engine(E)
    netm.install(E)
    X = E.mexact
    X['accept'], X['inet_ntoa'], X['ntohs'], X['htons'], X['fcntl'] = m_accept, m_ntoa, m_ntohs, m_ntohs, m_fcntl
    for n in ('bind', 'listen', 'setsockopt'):
        X[n] = m_sys(n)
    X[FW + '::grant(iqnet::Inet_addr const&)'] = m_grant
    X[FW + '::message()'] = m_message
    X[CF + '::create_accepted(iqnet::Socket const&)'] = m_create
    E._mcache = {}


def m_sslnew(E, st, a, rt, mod, dem):
    bad = st.fork()
    emit(bad, 'ssl_error')
    return [_out(bad, 'ret', NULL), _out(st, 'ret', st.alloc(8, 'heap', 'ssl'))]


def m_setfd(E, st, a, rt, mod, dem):
    bad = st.fork()
    emit(bad, 'ssl_error')
    emit(st, 'ssl_fd', *a)
    return [_out(bad, 'ret', 0), _out(st, 'ret', 1)]


def ssl_engine(E):
    engine(E)
    sslm.install(E)
    X = E.mexact
    X['SSL_new'], X['SSL_set_fd'], X['SSL_free'] = m_sslnew, m_setfd, m_reg_free
    X['iqnet::ssl::Ctx::context()'] = lambda E, st, a, rt, mod, dem: Ptr(st.alloc(8, 'heap', 'context').base, 0)
    X['fcntl'] = m_fcntl
    E._mcache = {}


def m_reg_free(E, st, a, rt, mod, dem):
    emit(st, 'ssl_free', *a)


def abstract(c, cls, name):
    p = c.st.alloc(8, 'heap', name, cls)
    c.st.blocks[p.base].exact = None
    c.st.put(p, 8, Ptr(('vt', cls), 0))
    return p


def sock(c, p, name):
    st, prog = c.st, c.prog
    fd = c.E.fresh_of(st, ('i', 32), name)
    st.assume(fd < (1 << 31))
    prog.put_vptrs(c.E, st, p, SOCK)
    q = p.add(prog.off(SOCK, 'peer'))
    st.put(q, 8, c.prog.vptr_for(c.E, st, ADDR))
    st.put(p.add(prog.off(SOCK, 'sock')), 4, fd)
    st.put(q.add(prog.off(ADDR, 'impl_')), 8, NULL)
    st.put(q.add(prog.off(ADDR, 'impl_')).add(8), 8, NULL)
    return fd


def address(c, p, name='peer'):
    """an address object made from a socket address"""
    st, prog = c.st, c.prog
    i = st.alloc(prog.size(AIMPL), 'heap', name, AIMPL)
    h = fstr(name + ' host')
    st.assume(slen(h) < 1 << 16)
    st.put(i.add(prog.off(AIMPL, 'host')), 32, StrV(h))
    st.put(i.add(prog.off(AIMPL, 'port')), 4, c.E.fresh_of(st, ('i', 32), 'port'))
    cnt = st.alloc(8, 'heap', 'use count')
    st.put(cnt, 8, 1)
    st.put(p, 8, prog.vptr_for(c.E, st, ADDR))
    st.put(p.add(prog.off(ADDR, 'impl_')), 8, i)
    st.put(p.add(prog.off(ADDR, 'impl_')).add(8), 8, cnt)


def setup_ac(c):
    st, prog = c.st, c.prog
    st.ghost['ev'] = ()
    p = st.alloc(prog.size(AC), 'heap', 'acceptor', AC)
    st.blocks[p.base].exact = AC
    prog.put_vptrs(c.E, st, p, AC)
    sock(c, p.add(prog.off(AC, 'sock')), 'listening fd')
    st.put(p.add(prog.off(AC, 'factory')), 8, abstract(c, CF, 'factory'))
    st.put(p.add(prog.off(AC, 'reactor')), 8, reactor(c))
    st.put(p.add(prog.off(AC, 'firewall')), 8, abstract(c, FW, 'firewall') if c.variant == 'firewall' else NULL)
    t = st.alloc(1, 'heap', 'terminate')
    st.put(t, 1, fbool('terminate'))
    return [p, t]


def is_peer(ad, ev):
    if ad is None:
        return z3.BoolVal(False)
    return z3.And(ad[0] == NTOA(I(ev[3])), I(ad[1]) == (I(ev[4]) % 256) * 256 + I(ev[4]) / 256)


def cases_ac(c, a):
    """exactly one connection is taken; denied: message, closed, nothing else; granted or no firewall: handed over once"""
    fd = c.st.cell(a[0].add(c.prog.off(AC, 'sock') + c.prog.off(SOCK, 'sock')))

    def post(E, s2, o):
        ev = events(s2)
        out = [('one connection is taken from the listening socket', len(events(s2, 'accept', 'accept_error')) == 1)]
        ac = events(s2, 'accept')
        if not ac:
            return out + [('a failure to take a connection is reported', o.kind == 'throw' and E.prog.derives(o.val.ti, E.prog.ti_of(NETERR))), ('nothing else happens', len(ev) == 1)]
        ac = ac[0]
        new = I(ac[2])
        out += [('from the listening socket', I(ac[1]) == I(fd)), ('returns', o.kind == 'ret')]
        gr, cr, cl = events(s2, 'grant'), events(s2, 'create'), events(s2, 'close')
        io = [e for e in events(s2, 'sent', 'send_error', 'shutdown')]
        if c.variant == 'firewall':
            out.append(('the firewall is asked exactly once', len(gr) == 1))
            if len(gr) != 1:
                return out
            out.append(('about the peer of this connection', is_peer(gr[0][1], ac)))
            ok = gr[0][2]
        else:
            out.append(('no firewall is asked', not gr))
            ok = z3.BoolVal(True)
        if cr:
            out += [('handed over only when granted', ok), ('handed over exactly once', len(cr) == 1), ('with its descriptor', I(cr[0][1]) == new), ('and the address of the peer', is_peer(cr[0][2], ac)),
                    ('the connection is neither closed nor used', not cl and not io)]
        else:
            out += [('not handed over only when denied', z3.Not(B(ok))), ('the descriptor is released exactly once', z3.And(len(cl) == 1, I(cl[0][1]) == new) if cl else False)]
            ms = events(s2, 'message')
            sent = events(s2, 'sent', 'send_error')
            out.append(('only this connection is used', z3.And(True, *[I(e[1]) == new for e in io])))
            out.append(('the descriptor is released last', ev[-1][0] == 'close'))
            if len(ms) == 1:
                m = ms[0][1]
                out.append(('the message is sent exactly once if there is one, and nothing else is', z3.If(slen(m) > 0, z3.BoolVal(len(sent) == 1) if not (sent and sent[0][0] == 'sent') else z3.And(len(sent) == 1, sent[0][2] == m), z3.BoolVal(not sent))))
            else:
                out.append(('the message is asked for once', False))
        return out
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


# ---- taking one connection ---------------------------------------------------------------------------------------------
def setup_sa(c):
    st = c.st
    st.ghost['ev'] = ()
    p = st.alloc(c.prog.size(SOCK), 'heap', 'socket', SOCK)
    sock(c, p, 'listening fd')
    r = st.alloc(c.prog.size(SOCK), 'heap', 'result', SOCK)
    return [r, p]


def cases_sa(c, a):
    fd = c.st.cell(a[1].add(c.prog.off(SOCK, 'sock')))

    def post(E, s2, o):
        ev = events(s2)
        if len(ev) != 1:
            return [('one system call', False)]
        if ev[0][0] == 'accept_error':
            return [('a failure is reported', o.kind == 'throw' and E.prog.derives(o.val.ti, E.prog.ti_of(NETERR)))]
        out = [('a connection is returned', o.kind == 'ret'), ('of this socket', I(ev[0][1]) == I(fd))]
        if o.kind == 'ret':
            out += [('descriptor', I(s2.cell(a[0].add(E.prog.off(SOCK, 'sock')))) == I(ev[0][2])), ('address of the peer', is_peer(addr_of(E, s2, a[0].add(E.prog.off(SOCK, 'peer'))), ev[0]))]
        return out
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


# ---- handing over ------------------------------------------------------------------------------------------------------
def factory(k):
    return 'iqnet::Serial_conn_factory<%s>' % k


def setup_cf(k):
    def f(c):
        st, prog = c.st, c.prog
        st.ghost['ev'] = ()
        cls = [r for r in prog.records if r.startswith('iqxmlrpc::Server_conn_factory<') and r.endswith(k.split('::')[-1] + '>')][0]
        p = st.alloc(prog.size(cls), 'heap', 'factory', cls)
        st.blocks[p.base].exact = cls
        prog.put_vptrs(c.E, st, p, cls)
        s = st.alloc(8, 'heap', 'server', SRV)
        st.put(p.add(prog.off(cls, 'server')), 8, s)
        st.put(p.add(prog.off(cls, 'reactor')), 8, reactor(c))
        q = st.alloc(prog.size(SOCK), 'heap', 'socket', SOCK)
        sock(c, q, 'fd')
        address(c, q.add(prog.off(SOCK, 'peer')))
        return [p, q]
    return f


def cases_cf(k):
    def f(c, a):
        st, prog = c.st, c.prog
        cls = [r for r in prog.records if r.startswith('iqxmlrpc::Server_conn_factory<') and r.endswith(k.split('::')[-1] + '>')][0]
        srv, rea = st.cell(a[0].add(prog.off(cls, 'server'))), st.cell(a[0].add(prog.off(cls, 'reactor')))
        fd = st.cell(a[1].add(prog.off(SOCK, 'sock')))
        ad = addr_of(c.E, st, a[1].add(prog.off(SOCK, 'peer')))
        old = set(st.blocks)

        def post(E, s2, o):
            new = [i for i, b in s2.blocks.items() if i not in old and b.kind == 'heap' and b.size == prog.size(k) and b.alive]
            if events(s2, 'fcntl_error', 'ssl_error'):
                return [('a failure is reported', o.kind == 'throw')]
            if o.kind == 'throw' and E.prog.ti_cls(o.val.ti) == 'iqnet::ssl::not_initialized':
                return [('without TLS set up nothing is made', not new)]
            out = [('returns', o.kind == 'ret'), ('one connection object is made', len(new) == 1)]
            if len(new) == 1:
                p = Ptr(new[0], 0)
                g = addr_of(E, s2, p.add(prog.off(k, 'peer_addr')))
                out += [('it owns the descriptor', I(s2.cell(p.add(prog.off(k, 'sock') + prog.off(SOCK, 'sock')))) == I(fd)),
                        ('it knows the address of the peer', z3.And(g[0] == ad[0], I(g[1]) == I(ad[1])) if g else False),
                        ('it belongs to the server', same_ptr(s2.cell(p.add(prog.off(k, 'server'))), srv)), ('and to its event loop', same_ptr(s2.cell(p.add(prog.off(k, 'reactor'))), rea))]
                rg = events(s2, 'register')
                out.append(('it is registered exactly once, for input', z3.And(len(rg) == 1, netm.is_reg(rg[0], 'register', p, INPUT)) if len(rg) == 1 else False))
            out.append(('the descriptor stays open', not events(s2, 'close', 'shutdown', 'sent', 'send_error')))
            return out
        return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]
    return f


def same_ptr(x, y):
    return isinstance(x, Ptr) and isinstance(y, Ptr) and x.base == y.base and same(x.off, y.off)


# ---- setting the firewall ----------------------------------------------------------------------------------------------
def m_fwdel(E, st, a, rt, mod, dem):
    emit(st, 'delete', a[0])
    st.wb(a[0].base).alive = False


def fw_engine(E):
    engine(E)
    E.mexact[FW + '::~Firewall_base()'] = m_fwdel
    E._mcache = {}


def setup_sf(c):
    p, t = setup_ac(c)
    return [p, abstract(c, FW, 'new firewall')]


def cases_sf(c, a):
    f = a[0].add(c.prog.off(AC, 'firewall'))
    return [Case(True, anyret=True, any_frame=True, writes=[(f, 8, a[1])])]


def setup_ssf(c):
    s, i, lev, mx = server(c)
    f = i.add(c.prog.off(IMPL, 'firewall'))
    c.st.put(f, 8, NULL)
    return [s, abstract(c, FW, 'new firewall')]


def cases_ssf(c, a):
    i = c.st.cell(a[0].add(c.prog.off(SRV, 'impl')))
    return [Case(True, writes=[(i.add(c.prog.off(IMPL, 'firewall')), 8, a[1])])]


# ---- the serving loop --------------------------------------------------------------------------------------------------
def m_handle(E, st, a, rt, mod, dem):
    """one turn of the event loop: whatever it does, it finds the acceptor with the firewall of the server"""
    i = st.ghost['impl']
    ac = st.cell(i.add(E.prog.off(IMPL, 'acceptor')))
    ok = isinstance(ac, Ptr) and not ac.isnull and not same(ac.base, 0)
    E.prove(st, bool(ok), 'events are handled only with the acceptor in place', 'post')
    if ok:
        E.prove(st, bool(same_ptr(st.cell(ac.add(E.prog.off(AC, 'firewall'))), st.cell(i.add(E.prog.off(IMPL, 'firewall'))))), 'the acceptor asks the firewall of the server', 'post')
        E.prove(st, bool(same_ptr(st.cell(ac.add(E.prog.off(AC, 'factory'))), st.cell(i.add(E.prog.off(IMPL, 'conn_factory'))))), 'and hands over to the connection factory of the server', 'post')
    st.put(i.add(E.prog.off(IMPL, 'exit_flag')), 1, fbool('exit'))
    return fbool('more')


def m_socket(E, st, a, rt, mod, dem):
    bad = st.fork()
    emit(bad, 'socket_error')
    fd = E.fresh_of(st, ('i', 32), 'fd')
    st.assume(fd < (1 << 31))
    emit(st, 'socket', fd)
    return [_out(bad, 'ret', (1 << 32) - 1), _out(st, 'ret', fd)]


def work_engine(E):
    engine(E)
    X = E.mexact
    X[RB + '::handle_events(int)'] = m_handle
    X['socket'] = m_socket
    X[ADDR + '::get_sockaddr() const'] = lambda E, st, a, rt, mod, dem: st.alloc(16, 'heap', 'socket address')
    X[AC + '::set_firewall(iqnet::Firewall_base*)'] = m_set_fw
    E._mcache = {}


def m_set_fw(E, st, a, rt, mod, dem):
    """by its own contract"""
    st.put(a[0].add(E.prog.off(AC, 'firewall')), 8, a[1])


def setup_work(c):
    st, prog = c.st, c.prog
    st.ghost['ev'] = ()
    s, i, lev, mx = server(c)
    st.ghost['impl'] = i
    F = lambda n: i.add(prog.off(IMPL, n))
    st.put(F('firewall'), 8, abstract(c, FW, 'firewall') if c.variant == 'firewall' else NULL)
    st.put(F('conn_factory'), 8, abstract(c, CF, 'factory'))
    st.put(F('acceptor'), 8, NULL)
    st.put(F('reactor'), 8, reactor(c))
    address(c, F('bind_addr'), 'own address')
    st.put(F('exit_flag'), 1, fbool('exit'))
    return [s]


def cases_work(c, a):
    def post(E, s2, o):
        bad = events(s2, 'socket_error', 'bind_error', 'listen_error')
        i = s2.ghost['impl']
        out = [('raises only when listening fails', bool(bad) if o.kind == 'throw' else True)]
        if o.kind == 'ret':
            ac = s2.cell(i.add(E.prog.off(IMPL, 'acceptor')))
            so, cl = events(s2, 'socket'), events(s2, 'close')
            out += [('the acceptor is gone', isinstance(ac, Ptr) and ac.isnull), ('the listening descriptor is released', z3.And(I(so[0][1]) == I(cl[-1][1])) if len(so) == 1 and cl else False)]
        return out
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


def contracts(P):
    K = lambda *a, **k: Contract(*a, level='property', use=False, **k)
    return [
        K(AC + '::handle_input(bool&)', setup_ac, cases_ac, variants=['firewall', 'no firewall']),
        K(SOCK + '::accept()', setup_sa, cases_sa),
        K(factory(HSC) + '::create_accepted(iqnet::Socket const&)', setup_cf(HSC), cases_cf(HSC)),
        K(factory(HSX) + '::create_accepted(iqnet::Socket const&)', setup_cf(HSX), cases_cf(HSX), engine=ssl_engine),
        K(AC + '::set_firewall(iqnet::Firewall_base*)', setup_sf, cases_sf, variants=['firewall', 'no firewall'], engine=fw_engine),
        K(SRV + '::set_firewall(iqnet::Firewall_base*)', setup_ssf, cases_ssf),
        K(SRV + '::work()', setup_work, cases_work, variants=['firewall', 'no firewall'], engine=work_engine),
    ]


NOTE = ('Contracts on taking a connection, on the gate, on setting the firewall, on handing a connection to the server (plain and TLS) and on the serving loop, discharged for all addresses, decisions, '
        'messages and failures. The battery runs real servers behind a programmable firewall on the loopback interface.')
# THEOREM: a denied connection gets the message exactly, is closed last and exactly once, and is never handed over, also when sending fails
# THEOREM: a granted connection is handed over exactly once with its descriptor and the peer's address; the firewall is asked exactly once
# THEOREM: events are handled only with an acceptor that has the firewall of the server
ASSUME = ['accept, send, shutdown and close behave as documented; a blocking send takes the whole message', 'the firewall answers without raising', 'inet_ntoa is a specification function', 'memory allocation does not fail']


def replay(name, v):
    return ['deny 6e6f 127.0.0.1 n -', 'deny - 127.0.0.2 n -', 'deny 6e6f 127.0.0.1 n -1', 'grant g 127.0.0.3', 'grant n 127.0.0.1', 'mix gdgd', 'many 20 6e6f', 'again']

"""Client side: one session of a client connection (client_conn.cc) and a client's connection cache (client.cc)."""
import z3
from .sexec import *
from . import sexec
from .boostm import dec, delete_obj
from .models import _out
from .core import *

CC, CO, CB, CBI, RQ = 'iqxmlrpc::Client_connection', 'iqxmlrpc::Client_options', 'iqxmlrpc::Client_base', 'iqxmlrpc::Client_base::Impl', 'iqxmlrpc::Request'
CL_TUS = ['client_conn.cc', 'client.cc', 'http.cc', 'xheaders.cc', 'response.cc', 'value_type.cc']
CL_EXTRA = """#include "libiqxmlrpc/client.h"
#include "libiqxmlrpc/client_conn.h"
#include "libiqxmlrpc/except.h"
#include "libiqxmlrpc/http.h"
struct env_error: std::exception { virtual const char* what() const noexcept; };
const char* env_error::what() const noexcept { return ""; }
struct env_fault: iqxmlrpc::Fault { env_fault(): iqxmlrpc::Fault(0, "") {} virtual const char* what() const noexcept; };
const char* env_fault::what() const noexcept { return ""; }
struct env_exception: iqxmlrpc::Exception { env_exception(): iqxmlrpc::Exception("") {} virtual int code() const; virtual const char* what() const noexcept; };
int env_exception::code() const { return 0; }
const char* env_exception::what() const noexcept { return ""; }
void env_use() { env_error a; env_fault b; env_exception c; throw 1; }
struct emit_cconn: iqxmlrpc::Client_connection { virtual iqxmlrpc::http::Packet* do_process_session(const std::string&); };
iqxmlrpc::http::Packet* emit_cconn::do_process_session(const std::string&) { return 0; }
struct emit_client: iqxmlrpc::Client_base { emit_client(const iqnet::Inet_addr& a): iqxmlrpc::Client_base(a, "", "") {} virtual void do_set_proxy(const iqnet::Inet_addr&); virtual iqxmlrpc::Client_connection* get_connection(); };
void emit_client::do_set_proxy(const iqnet::Inet_addr&) {}
iqxmlrpc::Client_connection* emit_client::get_connection() { return 0; }
"""
PORT = z3.Function('port_of', INT, INT)


def m_port(E, st, a, rt, mod, dem):
    p = PORT(z3.IntVal(a[0].base))
    st.assume(p >= 0, p < 1 << 32)
    return p


def m_dumpreq(E, st, a, rt, mod, dem):
    """C05: some document for this call"""
    s = fstr('document')
    st.assume(slen(s) < MAXLEN)
    emit(st, 'print call', a[1], s)
    models.setS(E, st, a[0], s)


def m_uri(E, st, a, rt, mod, dem):
    s = fstr('uri')
    st.assume(slen(s) < MAXLEN)
    emit(st, 'uri', s)
    models.setS(E, st, a[0], s)


def m_pdump(E, st, a, rt, mod, dem):
    """C10: the text of this message"""
    g = lambda p, cls, n: st.cell(p.add(E.prog.off(cls, n)))
    h = g(a[1], PKT, 'header_')
    t = fstr('message')
    st.assume(slen(t) < MAXLEN)
    emit(st, 'message', g(h, REQ, 'uri_').s, g(h, HDR, 'options_'), g(a[1], PKT, 'content_').s, t)
    models.setS(E, st, a[0], t)


def m_session(E, st, a, rt, mod, dem):
    """C14/C07: the message received in answer, or an error"""
    from .props import c10
    t = models.S(E, st, a[1])
    emit(st, 'session', a[0], t)
    bad = st.fork()
    c = Ctx(E, st)
    p, h, b = c10.packet(c, RSP, 'reply')
    st = c.st
    code, ph = st.cell(h.add(E.prog.off(RSP, 'code_'))), st.cell(h.add(E.prog.off(RSP, 'phrase_'))).s
    cnt = st.alloc(8, 'heap', 'use count')
    st.put(cnt, 8, 1)
    st.put(p.add(E.prog.off(PKT, 'header_') + 8), 8, cnt)
    emit(st, 'reply', p, code, ph, b)
    return [_out(st, 'ret', p)] + raised(E, bad, 'session')


def m_parse_response(E, st, a, rt, mod, dem):
    """C06: the response in this document, or an error"""
    s = models.S(E, st, a[1])
    emit(st, 'read response', s)
    bad = st.fork()
    v = st.alloc(8, 'heap', 'parsed value')
    F = lambda n: a[0].add(E.prog.off(RESP, n))
    st.put(F('value_'), 8, v)
    st.put(F('value_').add(8), 8, NULL)
    st.put(F('fault_code_'), 4, 0)
    st.put(F('fault_string_'), 32, StrV(EMPTY))
    emit(st, 'response', v)
    return [_out(st, 'ret', None)] + raised(E, bad, 'response parser')


def cl_engine(E):
    httpm.engine(E)
    X = E.mexact
    for k in ('env_error', 'env_fault', 'env_exception'):
        X[k + '::what() const'] = sexec.m_what
    X['env_exception::code() const'] = sexec.m_code
    X['iqnet::Inet_addr::get_port() const'] = m_port
    X['iqxmlrpc::dump_request(iqxmlrpc::Request const&)'] = m_dumpreq
    X[CC + '::decorate_uri() const'] = m_uri
    X[CC + '::do_process_session(std::string const&)'] = m_session
    X['iqxmlrpc::parse_response(std::string const&)'] = m_parse_response
    X[PKT + '::dump() const'] = m_pdump
    E._mcache = {}


def xinv(st, m):
    """every stored custom header name starts with x- (contracts of XHeaders::operator[] and operator=)"""
    k = z3.Const(fresh_name('k'), STR)
    st.assume(z3.ForAll([k], z3.Implies(m.has(k), z3.PrefixOf(sbytes('x-'), k)), patterns=[m.has(k)]))


def options(c, p=None):
    st = c.st
    p = p or st.alloc(c.prog.size(CO), 'heap', 'options', CO)
    F = lambda n: p.add(c.prog.off(CO, n))
    ad = F('addr_')
    st.put(ad, 8, Opq('vptr-addr'))
    st.put(ad.add(8), 8, NULL)
    st.put(ad.add(16), 8, NULL)
    for n in ('uri_', 'vhost_', 'auth_user_', 'auth_passwd_'):
        s = fstr(n)
        st.assume(slen(s) < MAXLEN)
        st.put(F(n), 32, StrV(s))
    st.put(F('keep_alive_'), 1, c.E.fresh_of(st, ('i', 8), 'keep') if False else fbool('keep'))
    st.put(F('timeout_'), 4, c.E.fresh_of(st, ('i', 32), 'timeout'))
    st.put(F('non_blocking_flag_'), 1, fbool('nb'))
    fill(c, F('xheaders_'))
    xinv(st, xmap(c, F('xheaders_')))
    return p


def conn(c, opts=None):
    st = c.st
    p = st.alloc(c.prog.size(CC), 'heap', 'client connection', CC)
    st.blocks[p.base].exact = None
    st.put(p, 8, Ptr(('vt', CC), 0))
    if opts is not None:
        st.put(p.add(c.prog.off(CC, 'options')), 8, opts)
    return p


def setup_ps(c):
    o = options(c)
    p = conn(c, o)
    r = c.st.alloc(c.prog.size(RESP), 'heap', 'result', RESP)
    q = c.st.alloc(c.prog.size(RQ), 'heap', 'call', RQ)
    x = xheaders(c)
    xinv(c.st, xmap(c, x))
    header(c, RSP, 'error header')
    c.st.ghost['ev'] = ()
    return [r, p, q, x]


def cases_ps(c, a):
    from .props import c01
    r, p, q, x = a
    o = c.st.cell(p.add(c.prog.off(CC, 'options')))
    g = lambda n: c.st.cell(o.add(c.prog.off(CO, n)))
    user, pw, vhost, keep = g('auth_user_').s, g('auth_passwd_').s, g('vhost_').s, B(g('keep_alive_'))
    m1, m2 = xmap(c, o.add(c.prog.off(CO, 'xheaders_'))), xmap(c, x)
    port = PORT(z3.IntVal(o.base))
    port = z3.If(port >= 1 << 31, port - (1 << 32), port)
    d = z3.Concat(user, sbytes(':'), pw)
    cred = z3.Concat(sbytes('Basic '), c01.ENC(c.st, d, slen(d)))

    def post(E, s2, out):
        ev = events(s2)
        n = [e[0] for e in ev]
        if n[:4] != ['print call', 'uri', 'message', 'session']:
            return [('the call is printed and sent', False)]
        doc, uri, msg, ses = ev[0][2], ev[1][1], ev[2], ev[3]
        m = msg[2]
        k = z3.Const('k!q', STR)
        xk = z3.PrefixOf(sbytes('x-'), k)
        S = sbytes
        res = [('the call itself is printed', same_ptr(E, s2, ev[0][1], q)), ('to the address of the connection', msg[1] == uri), ('the body is the printed call', msg[3] == doc),
               ('exactly this message is sent once on this connection', z3.And(same_ptr(E, s2, ses[1], p), ses[2] == msg[4], z3.BoolVal(n.count('session') == 1))),
               ('host', z3.And(m.has(S('host')), m.get(S('host')) == z3.Concat(vhost, S(':'), dec(port)))),
               ('length', z3.And(m.has(S('content-length')), m.get(S('content-length')) == dec(slen(doc)))),
               ('keep-alive as configured', z3.And(m.has(S('connection')), m.get(S('connection')) == z3.If(keep, S('keep-alive'), S('close')))),
               ('credentials as configured', z3.And(m.has(S('authorization')) == (slen(user) > 0), z3.Implies(slen(user) > 0, m.get(S('authorization')) == cred))),
               ('custom headers: the client\'s and the call\'s', z3.ForAll([k], z3.Implies(xk, m.has(k) == z3.Or(m1.has(k), m2.has(k))))),
               ('the call\'s override the client\'s', z3.ForAll([k], z3.Implies(z3.And(xk, m.has(k)), m.get(k) == z3.If(m2.has(k), m2.get(k), m1.get(k)))))]
        ra = events(s2, 'raise')
        if ra and ra[0][1] == 'session':
            return res + [('a failed session is reported', bool(out.kind == 'throw' and 'read response' not in n))]
        _, rp, code, ph, body = events(s2, 'reply')[0]
        res.append(('the reply is freed', not s2.blocks[rp.base].alive))
        if 'read response' not in n:
            bad = out.kind == 'throw' and not ra
            res.append(('not read only when the status is not 200', z3.And(I(code) != 200, z3.BoolVal(bad))))
            if bad:
                e = out.val.ptr if hasattr(out.val, 'ptr') else out.val.obj
                try:
                    h = s2.blocks[e.base].cells[e.off + E.prog.off(PKT, 'header_')][1]
                    c2, p2 = s2.blocks[h.base].cells[E.prog.off(RSP, 'code_')][1], s2.blocks[h.base].cells[E.prog.off(RSP, 'phrase_')][1].s
                except (KeyError, AttributeError):
                    return res + [('an HTTP error', False)]
                res.append(('the error carries status and phrase', z3.And(I(c2) == I(code), p2 == ph)))
            return res
        res.append(('read only when the status is 200', I(code) == 200))
        res.append(('the body of the reply is read', events(s2, 'read response')[0][1] == body))
        if ra:
            return res + [('an unreadable response is reported', out.kind == 'throw')]
        return res + [('the response read is returned', same_ptr(E, s2, s2.cell(r.add(E.prog.off(RESP, 'value_'))), events(s2, 'response')[0][1]) if out.kind == 'ret' else False)]
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


def ps_contract():
    return Contract(CC + '::process_session(iqxmlrpc::Request const&, iqxmlrpc::XHeaders const&)', setup_ps, cases_ps, level='property', use=False, engine=cl_engine)


# ---- a client and its connection cache
SESS = CC + '::process_session(iqxmlrpc::Request const&, iqxmlrpc::XHeaders const&)'
PLT = 'std::vector<iqxmlrpc::Value, std::allocator<iqxmlrpc::Value>> const&'


def m_connect(E, st, a, rt, mod, dem):
    bad = st.fork()
    c = Ctx(E, st)
    p = conn(c)
    emit(st, 'connect', a[0], p)
    return [_out(st, 'ret', p)] + raised(E, bad, 'connect')


def m_sess(E, st, a, rt, mod, dem):
    E.deref_check(st, a[1], 'connection')
    emit(st, 'session', a[1], st.cell(a[1].add(E.prog.off(CC, 'options'))), a[2], a[3])
    bad = st.fork()
    v = st.alloc(8, 'heap', 'answer')
    F = lambda n: a[0].add(E.prog.off(RESP, n))
    st.put(F('value_'), 8, v)
    st.put(F('value_').add(8), 8, NULL)
    st.put(F('fault_code_'), 4, 0)
    st.put(F('fault_string_'), 32, StrV(EMPTY))
    emit(st, 'answer', v)
    return [_out(st, 'ret', None)] + raised(E, bad, 'session')


def m_ccdead(E, st, a, rt, mod, dem):
    E.deref_check(st, a[0], 'connection')
    emit(st, 'closed', a[0])
    if getattr(E, 'vslot_no', 0):
        st.wb(a[0].base).alive = False


def m_request(E, st, a, rt, mod, dem):
    emit(st, 'call', a[0], models.S(E, st, a[1]), a[2])


def cb_engine(E):
    cl_engine(E)
    X = E.mexact
    X[CB + '::get_connection()'] = m_connect
    X[SESS] = m_sess
    X[CC + '::~Client_connection()'] = m_ccdead
    X[RQ + '::Request(std::string const&, %s)' % PLT] = m_request
    X[RQ + '::~Request()'] = lambda E, st, a, rt, mod, dem: None
    E._mcache = {}


def client(c):
    st = c.st
    b = st.alloc(c.prog.size(CB), 'heap', 'client', CB)
    st.blocks[b.base].exact = None
    st.put(b, 8, Ptr(('vt', CB), 0))
    i = st.alloc(c.prog.size(CBI), 'heap', 'client impl', CBI)
    st.put(b.add(c.prog.off(CB, 'impl_')), 8, i)
    options(c, i.add(c.prog.off(CBI, 'opts')))
    st.put(i.add(c.prog.off(CBI, 'conn_cache')), 8, conn(c) if c.variant == 'cached' else NULL)
    header(c, RSP, 'error header')
    return b, i


def cparts(c, b):
    i = c.st.cell(b.add(c.prog.off(CB, 'impl_')))
    return i, i.add(c.prog.off(CBI, 'opts')), i.add(c.prog.off(CBI, 'conn_cache'))


def setup_cx(c):
    b, i = client(c)
    c.st.ghost['ev'] = ()
    return [c.st.alloc(c.prog.size(RESP), 'heap', 'result', RESP), b, c.newstr(name='method'), c.st.alloc(24, 'heap', 'params'), c.st.alloc(56, 'heap', 'xheaders')]


def cases_cx(c, a):
    i, o, cc = cparts(c, a[1])
    keep = B(c.st.cell(o.add(c.prog.off(CO, 'keep_alive_'))))
    old = c.st.cell(cc)
    cached = c.variant == 'cached'
    name = c.str(a[2])

    def post(E, s2, out):
        n = [e[0] for e in events(s2)]
        con, ses, dead, ra = events(s2, 'connect'), events(s2, 'session'), events(s2, 'closed'), events(s2, 'raise')
        now = s2.cell(cc)
        call = events(s2, 'call')
        res = []
        allc = ([old] if cached else []) + [e[2] for e in con]
        isdead = lambda p: sum(1 for d in dead if d[1].base == p.base)
        if out.kind == 'throw' and not ra:
            return [('only what went wrong is raised', False)]
        if ra:
            res += [('the failure is reported', out.kind == 'throw'), ('no connection is kept after a failure', same_ptr(E, s2, now, NULL)), ('every connection is closed once', all(isdead(p) == 1 and not s2.blocks[p.base].alive for p in allc))]
            if ra[0][1] == 'connect':
                return res + [('nothing is sent', not ses)]
        if len(ses) != 1 or len(call) != 1 or len(con) > 1:
            return res + [('one session', False)]
        used = ses[0][1]
        res += [('this very call is made', z3.And(same_ptr(E, s2, ses[0][3], call[0][1]), call[0][2] == name, same_ptr(E, s2, call[0][3], a[3]), same_ptr(E, s2, ses[0][4], a[4]))),
                ('with the options of this client', same_ptr(E, s2, ses[0][2], o)),
                ('on the kept connection exactly when there is one and keep-alive is set', (z3.BoolVal(not con and cached and used.base == old.base)) == (z3.And(keep, z3.BoolVal(cached)))),
                ('and otherwise on a new one', z3.Implies(z3.Not(z3.And(keep, z3.BoolVal(cached))), z3.BoolVal(len(con) == 1 and used.base == con[0][2].base)))]
        if ra:
            return res
        ans = events(s2, 'answer')[0][1]
        res.append(('the answer of the session is returned', same_ptr(E, s2, s2.cell(a[0].add(E.prog.off(RESP, 'value_'))), ans)))
        res.append(('with keep-alive the connection is kept open', z3.Implies(keep, z3.And(same_ptr(E, s2, now, used), z3.BoolVal(not dead and s2.blocks[used.base].alive)))))
        res.append(('without it every connection is closed once', z3.Implies(z3.Not(keep), z3.And(same_ptr(E, s2, now, NULL), z3.BoolVal(all(isdead(p) == 1 and not s2.blocks[p.base].alive for p in allc))))))
        return res
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


def setup_ska(c):
    b, i = client(c)
    c.st.ghost['ev'] = ()
    return [b, fbool('on')]


def cases_ska(c, a):
    i, o, cc = cparts(c, a[0])
    old = c.st.cell(cc)
    cached = c.variant == 'cached'
    on = B(a[1])

    def post(E, s2, out):
        dead = events(s2, 'closed')
        now = s2.cell(cc)
        return [('the option is set', B(s2.cell(o.add(E.prog.off(CO, 'keep_alive_')))) == on),
                ('switched off: the kept connection is closed once and forgotten', z3.Implies(z3.Not(on), z3.And(same_ptr(E, s2, now, NULL), z3.BoolVal(len(dead) == (1 if cached else 0))))),
                ('switched on: nothing else changes', z3.Implies(on, z3.And(same_ptr(E, s2, now, old), z3.BoolVal(not dead))))]
    return [Case(True, any_frame=True, post=post)]


def setup_opt(kind):
    def setup(c):
        b, i = client(c)
        c.st.ghost['ev'] = ()
        if kind == 'timeout':
            return [b, c.E.fresh_of(c.st, ('i', 32), 'seconds')]
        if kind == 'auth':
            return [b, c.newstr(name='user'), c.newstr(name='password')]
        return [b, xheaders(c)]
    return setup


def cases_opt(kind):
    def cases(c, a):
        i, o, cc = cparts(c, a[0])
        old = c.st.cell(cc)
        g = lambda s2, n: s2.cell(o.add(c.prog.off(CO, n)))

        def post(E, s2, out):
            res = [('no connection is touched', z3.And(same_ptr(E, s2, s2.cell(cc), old), z3.BoolVal(not events(s2))))]
            if kind == 'timeout':
                res.append(('time limit', I(g(s2, 'timeout_')) == I(a[1])))
            elif kind == 'auth':
                res += [('user', g(s2, 'auth_user_').s == c.str(a[1])), ('password', g(s2, 'auth_passwd_').s == c.str(a[2]))]
            else:
                res.append(('custom headers', xmap(c, a[1]).eq(s2.cell(o.add(E.prog.off(CO, 'xheaders_') + E.prog.off(XH, 'xheaders_'))))))
            return res
        return [Case(True, any_frame=True, post=post)]
    return cases


def cl_contracts():
    CV = ['cached', 'nothing cached']
    K = lambda n, s, f, **k: Contract(n, s, f, level='property', use=False, engine=cb_engine, **k)
    return [
        ps_contract(),
        K(CB + '::execute(std::string const&, %s, iqxmlrpc::XHeaders const&)' % PLT, setup_cx, cases_cx, variants=CV),
        K(CB + '::set_keep_alive(bool)', setup_ska, cases_ska, variants=CV),
        K(CB + '::set_timeout(int)', setup_opt('timeout'), cases_opt('timeout')),
        K(CB + '::set_authinfo(std::string const&, std::string const&)', setup_opt('auth'), cases_opt('auth')),
        K(CB + '::set_xheaders(iqxmlrpc::XHeaders const&)', setup_opt('xh'), cases_opt('xh')),
    ]


# ---- one session on the wire
HCC, HPC, XCC, XPC = ['iqxmlrpc::%s_client_connection' % k for k in ('Http', 'Http_proxy', 'Https', 'Https_proxy')]
CTR, CPR = 'iqnet::Connector_base', 'iqnet::Connect_processor'
CTMO = 'iqxmlrpc::Client_timeout'
SESS_TUS = CL_TUS + ['http_client.cc', 'https_client.cc', 'connector.cc', 'connection.cc', 'socket.cc']
SESS_EXTRA = CL_EXTRA + """#include "libiqxmlrpc/http_client.h"
#include "libiqxmlrpc/https_client.h"
template class iqxmlrpc::Client<iqxmlrpc::Http_client_connection>;
"""


def millis(t):
    t = z3.If(I(t) >= 1 << 31, I(t) - (1 << 32), I(t))
    return t


def m_wait(E, st, a, rt, mod, dem):
    """one round of the event loop: nothing in time, something handled (perhaps the whole reply read), or an error"""
    g = st.ghost
    E.prove(st, I(a[1]) == g['wait'], 'waits as long as configured', 'post')
    if g.get('outgoing') is not None:
        p, off, want = g['outgoing']
        E.prove(st, st.cell(Ptr(p, off)).s == want, 'the message is waiting to be sent', 'post')
        if not [e for e in events(st) if e[0] in ('register', 'reg_send')] and not g.get('handshake'):
            E.prove(st, z3.BoolVal(False), 'registered before waiting', 'post')
    bad, late = st.fork(), st.fork()
    late.ghost['late'] = 1
    outs = [_out(late, 'ret', z3.BoolVal(False))]
    if g.get('slot') is not None:
        b, o = g['slot']
        more = st.fork()
        more.put(Ptr(b, o), 8, NULL)
        c = Ctx(E, st)
        from .props import c10
        p, h, body = c10.packet(c, RSP, 'reply')
        st = c.st
        cnt = st.alloc(8, 'heap', 'use count')
        st.put(cnt, 8, 1)
        st.put(p.add(E.prog.off(PKT, 'header_') + 8), 8, cnt)
        st.put(Ptr(b, o), 8, p)
        st.ghost['got'] = p
        outs.append(_out(more, 'ret', z3.BoolVal(True)))
    outs.append(_out(st, 'ret', z3.BoolVal(True)))
    return outs + raised(E, bad, 'event loop')


def wire(c, cls):
    """a connection of this class with valid options"""
    from . import netm
    st = c.st
    o = options(c)
    st = c.st
    p = st.alloc(c.prog.size(cls), 'heap', 'connection', cls)
    st.blocks[p.base].exact = cls
    F = lambda n: p.add(c.prog.off(cls, n))
    c.prog.put_vptrs(c.E, st, p, cls)
    st.put(F('options'), 8, o)
    r = netm.reactor(c)
    for fo, ty, nm in c.prog.fields(cls):
        if nm == 'reactor':
            st.put(p.add(fo), 8, r)
    out = fstr('old text')
    st.put(F('out_str'), 32, StrV(out))
    st.put(F('resp_packet'), 8, NULL)
    header(c, RSP, 'error header')
    st = c.st
    t = millis(st.cell(o.add(c.prog.off(CO, 'timeout_'))))
    st.assume(t < 2000000)
    w = z3.If(t >= 0, t * 1000, -1)
    st.ghost['wait'] = z3.If(w < 0, w + (1 << 32), w)
    st.ghost['ev'] = ()
    st.ghost['got'] = NULL
    st.ghost['late'] = 0
    st.ghost['slot'] = (p.base, c.prog.off(cls, 'resp_packet'))
    return p, F, o


def setup_hs(cls):
    def setup(c):
        p, F, o = wire(c, cls)
        s = c.newstr(name='message')
        if cls == XCC:
            c.st.put(F('established'), 1, z3.BoolVal(c.variant == 'established'))
            if c.variant != 'established':
                c.st.ghost['handshake'] = 1
        stale = c.st.alloc(8, 'heap', 'stale packet')
        c.st.put(F('resp_packet'), 8, stale)
        c.st.ghost['outgoing'] = (p.base, c.prog.off(cls, 'out_str'), c.str(s))
        return [p, s]
    return setup


def thrown_is(E, o, cls):
    return o.kind == 'throw' and o.val.ti == E.prog.ti_of(cls)


def cases_hs(cls):
    def cases(c, a):
        def post(E, s2, o):
            from .netm import is_reg, OUTPUT
            regs = [e for e in events(s2) if e[0] in ('register', 'reg_send')]
            ra = events(s2, 'raise')
            res = []
            if cls == HCC:
                res.append(('registered for output once', z3.And(z3.BoolVal(len(regs) == 1), is_reg(regs[0], 'register', a[0], OUTPUT)) if regs else False))
            else:
                res.append(('sent at once exactly when the handshake is over', len(regs) == (1 if c.variant == 'established' else 0)))
            if o.kind == 'throw':
                return res + [('raises what went wrong, or a timeout when nothing came in time', bool(ra) or bool(s2.ghost['late'] and thrown_is(E, o, CTMO)))]
            return res + [('returns the reply read', z3.And(same_ptr(E, s2, o.val, s2.ghost['got']), z3.Not(same_ptr(E, s2, o.val, NULL)))), ('never after a timeout or an error', not ra and not s2.ghost['late'])]
        return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]
    return cases


def m_ev(kind):
    def f(E, st, a, rt, mod, dem):
        emit(st, kind, *a)
    return f


def s_engine(E):
    from . import netm
    cl_engine(E)
    netm.install(E)
    X = E.mexact
    X[netm.RB + '::handle_events(int)'] = m_wait
    X['iqnet::ssl::Reaction_connection::reg_send(char const*, unsigned long)'] = m_ev('reg_send')
    E._mcache = {}


# ---- connecting
RN = 'iqnet::Reactor<iqnet::Null_lock>'


def m_sockconn(E, st, a, rt, mod, dem):
    bad, wait = st.fork(), st.fork()
    emit(st, 'connected', a[0])
    emit(wait, 'connecting', a[0])
    return [_out(st, 'ret', z3.BoolVal(True)), _out(wait, 'ret', z3.BoolVal(False))] + raised(E, bad, 'connect')


def m_mkconn(E, st, a, rt, mod, dem):
    bad = st.fork()
    c = Ctx(E, st)
    p = conn(c)
    emit(st, 'create', a[0], a[1], p)
    return [_out(st, 'ret', p)] + raised(E, bad, 'create')


def c_engine(E):
    s_engine(E)
    X = E.mexact
    nop = lambda E, st, a, rt, mod, dem: None
    from . import netm
    for k in ('Reactor()', '~Reactor()'):
        X[RN + '::' + k] = nop
    X[RN + '::register_handler(iqnet::Event_handler*, iqnet::Reactor_base::Event_mask)'] = netm.m_reg('register')
    X[RN + '::handle_events(int)'] = m_wait
    X['iqnet::Socket::connect(iqnet::Inet_addr const&)'] = m_sockconn
    X['iqnet::Socket::Socket()'] = nop
    X['iqnet::Socket::set_non_blocking(bool)'] = nop
    X['iqnet::Socket::~Socket()'] = nop
    X['iqnet::Socket::close()'] = m_ev('close')
    X[CTR + '::create_connection(iqnet::Socket const&)'] = m_mkconn
    E._mcache = {}


def setup_cn(c):
    st = c.st
    p = st.alloc(c.prog.size(CTR), 'heap', 'connector', CTR)
    st.blocks[p.base].exact = None
    st.put(p, 8, Ptr(('vt', CTR), 0))
    header(c, RSP, 'error header')
    st = c.st
    t = c.E.fresh_of(st, ('i', 32), 'timeout')
    s = millis(t)
    st.assume(s < 2000000)
    w = z3.If(s > 0, s * 1000, -1)
    st.ghost['wait'] = z3.If(w < 0, w + (1 << 32), w)
    st.ghost['ev'] = ()
    st.ghost['late'] = 0
    return [p, t]


def cases_cn(c, a):
    def post(E, s2, o):
        ev = events(s2)
        n = [e[0] for e in ev]
        ra = events(s2, 'raise')
        mk, reg, cl = events(s2, 'create'), events(s2, 'register'), events(s2, 'close')
        if o.kind == 'throw':
            res = [('raises what went wrong, or a timeout when nothing came in time', bool(ra) or bool(s2.ghost['late'] and thrown_is(E, o, CTMO)))]
            if s2.ghost['late']:
                res.append(('the socket is closed after a timeout', len(cl) == 1 and not mk))
            return res
        res = [('one connection on the connected socket', z3.And(same_ptr(E, s2, mk[0][1], a[0]), same_ptr(E, s2, o.val, mk[0][3])) if len(mk) == 1 else False), ('never after a timeout or an error', not ra and not s2.ghost['late'] and not cl)]
        sock = [e for e in ev if e[0] in ('connected', 'connecting')]
        res.append(('on that very socket', same_ptr(E, s2, mk[0][2], sock[0][1]) if len(mk) == 1 and len(sock) == 1 else False))
        if 'connecting' in n:
            from .netm import OUTPUT
            res.append(('waited until it was connected', I(reg[0][2]) == OUTPUT if len(reg) == 1 and n.index('register') < n.index('create') else False))
        return res
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


def sess_contracts():
    return [
        Contract(HCC + '::do_process_session(std::string const&)', setup_hs(HCC), cases_hs(HCC), level='property', use=False, engine=s_engine),
        Contract(XCC + '::do_process_session(std::string const&)', setup_hs(XCC), cases_hs(XCC), level='property', use=False, engine=s_engine, variants=['established', 'handshake']),
        Contract(CTR + '::connect(int)', setup_cn, cases_cn, level='property', use=False, engine=c_engine),
    ]


# ---- https through a proxy
LOCKED = 'iqnet::Inet_addr::get_host_name() const'
HOST = z3.Function('host_of', INT, STR)


def m_host(E, st, a, rt, mod, dem):
    s = HOST(z3.IntVal(a[1].base))
    st.assume(slen(s) < MAXLEN)
    p = st.alloc(32, 'heap', 'host')
    st.put(p, 32, StrV(s))
    models.setS(E, st, a[0], s)


def m_hdump(E, st, a, rt, mod, dem):
    """C10: the text of this header"""
    t = fstr('tunnel request')
    st.assume(slen(t) < MAXLEN)
    emit(st, 'tunnel request', a[1], t)
    models.setS(E, st, a[0], t)


def m_twait(E, st, a, rt, mod, dem):
    p = st.ghost['self']
    if not events(st, 'tunnel request'):
        E.prove(st, z3.BoolVal(False), 'the tunnel is asked for before waiting', 'post')
    else:
        E.prove(st, st.cell(p.add(E.prog.off(XPC, 'out_str'))).s == events(st, 'tunnel request')[0][2], 'the tunnel request is waiting to be sent', 'post')
    return m_wait(E, st, a, rt, mod, dem)


def t_engine(E):
    from . import netm
    s_engine(E)
    E.mexact[netm.RB + '::handle_events(int)'] = m_twait
    E.mexact[HDR + '::dump() const'] = m_hdump
    E._mcache = {}


def setup_tn(c):
    p, F, o = wire(c, XPC)
    c.st.ghost['self'] = p
    return [p]


def cases_tn(c, a):
    def post(E, s2, o):
        from .netm import is_reg, OUTPUT
        regs, ra = events(s2, 'register'), events(s2, 'raise')
        got = s2.ghost['got']
        res = [('registered for output', z3.And(z3.BoolVal(len(regs) == 1), is_reg(regs[0], 'register', a[0], OUTPUT)) if regs else False)]
        code = None
        if got is not NULL and not (isinstance(got, Ptr) and got.base == NULL.base):
            h = s2.cell(got.add(E.prog.off(PKT, 'header_')))
            code = I(s2.cell(h.add(E.prog.off(RSP, 'code_'))))
        if o.kind == 'throw':
            refused = code is not None and thrown_is(E, o, 'iqxmlrpc::http::Error_response')
            return res + [('raises what went wrong, a timeout, or the refusal of the proxy', z3.Or(z3.BoolVal(bool(ra) or bool(s2.ghost['late'] and thrown_is(E, o, CTMO))), z3.And(z3.BoolVal(refused), code != 200) if refused else z3.BoolVal(False)))]
        return res + [('only over an open tunnel', code == 200 if code is not None else False), ('never after a timeout or an error', not ra and not s2.ghost['late'])]
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


def m_tunnel(E, st, a, rt, mod, dem):
    bad = st.fork()
    emit(st, 'tunnel', a[0])
    return [_out(st, 'ret', None)] + raised(E, bad, 'tunnel')


def m_tlsnew(E, st, a, rt, mod, dem):
    bad = st.fork()
    emit(st, 'tls', a[0], a[1])
    return [_out(st, 'ret', None)] + raised(E, bad, 'tls')


def m_tlssess(E, st, a, rt, mod, dem):
    own = events(st, 'self')[0][1]
    E.prove(st, same_ptr(E, st, st.cell(a[0].add(E.prog.off(XCC, 'options'))), st.cell(own.add(E.prog.off(XPC, 'options')))), 'the tunnelled session has the options of the client', 'post')
    s = models.S(E, st, a[1])
    bad = st.fork()
    p = st.alloc(8, 'heap', 'reply')
    emit(st, 'tls session', a[0], s, p)
    return [_out(st, 'ret', p)] + raised(E, bad, 'tls session')


def p_engine(E):
    s_engine(E)
    X = E.mexact
    X[XPC + '::setup_tunnel()'] = m_tunnel
    X[XCC + '::Https_client_connection(iqnet::Socket const&, bool)'] = m_tlsnew
    X[XCC + '::~Https_client_connection()'] = lambda E, st, a, rt, mod, dem: None
    X['iqnet::ssl::Reaction_connection::post_connect()'] = m_ev('handshake')
    X[XCC + '::do_process_session(std::string const&)'] = m_tlssess
    E._mcache = {}


def setup_px(c):
    p, F, o = wire(c, XPC)
    c.st.put(F('non_blocking'), 1, fbool('nonblocking'))
    emit(c.st, 'self', p)
    s = c.newstr(name='message')
    return [p, s]


def cases_px(c, a):
    def post(E, s2, o):
        n = [e[0] for e in events(s2) if e[0] != 'self']
        if o.kind == 'throw':
            return [('raises what went wrong', bool(events(s2, 'raise')))]
        if n != ['tunnel', 'tls', 'handshake', 'tls session']:
            return [('a tunnel, then a handshake and one session in it', False)]
        ev = events(s2)[1:]
        return [('on the socket of the tunnel', z3.And(same_ptr(E, s2, ev[0][1], a[0]), same_ptr(E, s2, ev[1][2], a[0].add(E.prog.off(XPC, 'sock'))))),
                ('the message is sent and its reply returned', z3.And(ev[3][2] == s2.cell(a[1]).s, same_ptr(E, s2, o.val, ev[3][3])))]
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


# ---- which connector is used, and what is asked for
CH = 'iqxmlrpc::Client<iqxmlrpc::Http_client_connection>'


def m_conn(E, st, a, rt, mod, dem):
    bad = st.fork()
    p = st.alloc(8, 'heap', 'connection')
    emit(st, 'connect', a[0], a[1], p)
    return [_out(st, 'ret', p)] + raised(E, bad, 'connect')


def g_engine(E):
    cl_engine(E)
    E.mexact[CTR + '::connect(int)'] = m_conn
    E._mcache = {}


def setup_gc(c):
    st = c.st
    p = st.alloc(c.prog.size(CH), 'heap', 'client', CH)
    st.blocks[p.base].exact = CH
    c.prog.put_vptrs(c.E, st, p, CH)
    im = st.alloc(c.prog.size(CBI), 'heap', 'impl', CBI)
    options(c, im.add(c.prog.off(CBI, 'opts')))
    st = c.st
    st.put(p.add(c.prog.off(CH, 'impl_')), 8, im)
    st.put(p.add(c.prog.off(CH, 'proxy_ctr')), 1, z3.BoolVal(c.variant == 'proxy'))
    header(c, RSP, 'error header')
    c.st.ghost['ev'] = ()
    return [p]


def cases_gc(c, a):
    im = c.st.cell(a[0].add(c.prog.off(CH, 'impl_')))
    t = c.st.cell(im.add(c.prog.off(CBI, 'opts') + c.prog.off(CO, 'timeout_')))

    def post(E, s2, o):
        if o.kind == 'throw':
            return [('raises what went wrong', bool(events(s2, 'raise')))]
        ev = events(s2)
        if len(ev) != 1:
            return [('connects once', False)]
        lo = c.prog.off(CH, 'ctr')
        hi = c.prog.off(CH, 'proxy_ctr')
        q = ev[0][1]
        where = isinstance(q, Ptr) and q.base == a[0].base and (q.off > hi if c.variant == 'proxy' else q.off == lo)
        return [('to the proxy exactly when one is set', where), ('within the time of the client', I(ev[0][2]) == I(t)), ('returns that connection', same_ptr(E, s2, o.val, ev[0][3]))]
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


def setup_du(cls):
    def setup(c):
        p, F, o = wire(c, cls)
        r = c.st.alloc(32, 'heap', 'result')
        return [r, p]
    return setup


def cases_du(cls):
    def cases(c, a):
        st = c.st
        o = st.cell(a[1].add(c.prog.off(cls, 'options')))
        u, v = st.cell(o.add(c.prog.off(CO, 'uri_'))).s, st.cell(o.add(c.prog.off(CO, 'vhost_'))).s
        port = PORT(z3.IntVal(o.base))

        def post(E, s2, out):
            got = s2.cell(a[0]).s
            if cls == HCC:
                return [('the path asked for', got == u)]
            sep = z3.If(z3.And(slen(u) > 0, z3.Not(z3.PrefixOf(sbytes('/'), u))), sbytes('/'), EMPTY)
            return [('the absolute address asked for', got == z3.Concat(sbytes('http://'), v, sbytes(':'), dec(millis(port)), sep, u))]
        return [Case(True, any_frame=True, post=post)]
    return cases


def m_lasterr(E, st, a, rt, mod, dem):
    v = fint('pending')
    st.assume(v >= 0, v < 1 << 31)
    st.ghost['pending'] = v
    return v


def h_engine(E):
    c_engine(E)
    E.mexact['iqnet::Socket::get_last_error()'] = m_lasterr
    E._mcache = {}


def setup_ho(c):
    from . import netm
    st = c.st
    p = st.alloc(c.prog.size(CPR), 'heap', 'processor', CPR)
    st.put(p.add(c.prog.off(CPR, 'reactor')), 8, netm.reactor(c))
    t = st.alloc(1, 'heap', 'terminate')
    st.put(t, 1, z3.BoolVal(False))
    st.ghost['ev'] = ()
    st.ghost['pending'] = z3.IntVal(-1)
    return [p, t]


def cases_ho(c, a):
    def post(E, s2, o):
        e = s2.ghost['pending']
        fail = z3.And(e != 0, e != 115)
        cl = events(s2, 'close')
        if o.kind == 'throw':
            return [('raised exactly for a failed connection, whose socket is closed', z3.And(fail, z3.BoolVal(len(cl) == 1)))]
        return [('asks to end the wait', I(s2.cell(a[1])) == 1), ('a failed connection is never taken for a good one', z3.And(z3.Not(fail), e >= 0, z3.BoolVal(not cl)))]
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


def more_contracts():
    return [
        Contract(XPC + '::setup_tunnel()', setup_tn, cases_tn, level='property', use=False, engine=t_engine),
        Contract(XPC + '::do_process_session(std::string const&)', setup_px, cases_px, level='property', use=False, engine=p_engine),
        Contract(CH + '::get_connection()', setup_gc, cases_gc, level='property', use=False, engine=g_engine, variants=['direct', 'proxy']),
        Contract(CC + '::decorate_uri() const', setup_du(HCC), cases_du(HCC), level='property', use=False),
        Contract(HPC + '::decorate_uri() const', setup_du(HPC), cases_du(HPC), level='property', use=False),
        Contract(CPR + '::handle_output(bool&)', setup_ho, cases_ho, level='property', use=False, engine=h_engine),
    ]

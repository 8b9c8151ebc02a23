"""Execution of a request on the server: Server::schedule_execute, Server::schedule_response and the executors.
What leaves the library (plugins, dispatchers, executors, methods, interceptors) is an event with every outcome it may have."""
import z3
from .srv import *
from .xhm import *
from . import srv, xhm
from .engine import Exc
from .models import _out, data_ptr

METH, EXEC, FACT, IC, RESP, REQS = 'iqxmlrpc::Method', 'iqxmlrpc::Executor', 'iqxmlrpc::Executor_factory_base', 'iqxmlrpc::Interceptor', 'iqxmlrpc::Response', 'iqxmlrpc::Request'
AUTH = 'iqxmlrpc::Auth_Plugin_base'
SX_TUS = ['server.cc', 'executor.cc', 'method.cc', 'auth_plugin.cc', 'http.cc', 'xheaders.cc', 'response.cc', 'server_conn.cc']
SX_EXTRA = CONN_EXTRA + """#include "libiqxmlrpc/except.h"
#include "libiqxmlrpc/executor.h"
#include "libiqxmlrpc/auth_plugin.h"
struct env_error: std::exception { virtual const char* what() const noexcept; };
const char* env_error::what() const noexcept { return ""; }
struct env_fault: iqxmlrpc::Fault { env_fault(): iqxmlrpc::Fault(0, "") {} virtual const char* what() const noexcept; };
const char* env_fault::what() const noexcept { return ""; }
struct env_exception: iqxmlrpc::Exception { env_exception(): iqxmlrpc::Exception("") {} virtual int code() const; virtual const char* what() const noexcept; };
int env_exception::code() const { return 0; }
const char* env_exception::what() const noexcept { return ""; }
struct emit_auth: iqxmlrpc::Auth_Plugin_base { virtual bool do_authenticate(const std::string&, const std::string&) const; virtual bool do_authenticate_anonymous() const; };
bool emit_auth::do_authenticate(const std::string&, const std::string&) const { return false; }
bool emit_auth::do_authenticate_anonymous() const { return false; }
struct emit_method: iqxmlrpc::Method { virtual void execute(const iqxmlrpc::Param_list&, iqxmlrpc::Value&); };
void emit_method::execute(const iqxmlrpc::Param_list&, iqxmlrpc::Value&) {}
struct emit_interceptor: iqxmlrpc::Interceptor { virtual void process(iqxmlrpc::Method*, const iqxmlrpc::Param_list&, iqxmlrpc::Value&); };
void emit_interceptor::process(iqxmlrpc::Method*, const iqxmlrpc::Param_list&, iqxmlrpc::Value&) {}
void env_use() { env_error a; env_fault b; env_exception c; throw 1; }
"""


def text(st, name):
    s = fstr(name)
    st.assume(slen(s) < MAXLEN, z3.Not(z3.Contains(s, sbytes(b'\0'))))
    return s


def singled_out(E):
    """the exceptions a handler on the stack is waiting for and none of the general ones is"""
    P = E.prog
    known = [('fault', 'env_fault', P.ti_of('env_fault')), ('exception', 'env_exception', P.ti_of('env_exception')), ('error', 'env_error', P.ti_of('env_error'))]
    if N + '::Error_response' in P._cls_ti:
        known.append(('http', None, P.ti_of(N + '::Error_response')))
    base = {'fault': 'iqxmlrpc::Fault', 'exception': 'iqxmlrpc::Exception', 'error': 'std::exception', 'http': N + '::Error_response'}
    out = []
    for t in E.caught_types():
        if t == '_ZTIi' or any(P.derives(k[2], t) for k in known):
            continue
        for kind in ('http', 'fault', 'exception', 'error'):
            k = [x for x in known if x[0] == kind]
            if k and base[kind] in P._cls_ti and P.derives(t, P.ti_of(base[kind])):
                out.append((kind, k[0][1], t))
                break
        else:
            out.append(('other', 'int', t))
    return out


def raised(E, st, who):
    """every kind of exception foreign code may raise; recorded as ('raise', who, kind, code, text)"""
    outs = []
    for kind, cls, ti in [('fault', 'env_fault', None), ('exception', 'env_exception', None), ('error', 'env_error', None), ('http', None, None), ('other', 'int', None)] + singled_out(E):
        s = st.fork()
        if kind == 'http':
            c = Ctx(E, s)
            h = [i for i, b in s.blocks.items() if b.name == 'error header']
            if not h:
                continue
            e = s.alloc(E.prog.size(N + '::Error_response'), 'heap', 'http error', N + '::Error_response')
            s.blocks[e.base].exact = N + '::Error_response'
            E.prog.put_vptrs(E, s, e, N + '::Error_response')
            s.put(e.add(E.prog.off(N + '::Error_response', '_M_msg')), 8, Opq('what', text(s, 'what')))
            s.put(e.add(E.prog.off(PKT, 'header_')), 8, Ptr(h[0], 0))
            cnt = s.alloc(8, 'heap', 'use count')
            s.put(cnt, 8, 1)
            s.put(e.add(E.prog.off(PKT, 'header_') + 8), 8, cnt)
            s.put(e.add(E.prog.off(PKT, 'content_')), 32, StrV(EMPTY))
            emit(s, 'raise', who, kind, None, None)
            outs.append(_out(s, 'throw', Exc(e, ti or E.prog.ti_of(N + '::Error_response'))))
            continue
        t, code = text(s, 'what'), E.fresh_of(s, ('i', 32), 'code')
        if kind == 'other':
            e = s.alloc(4, 'heap', 'thrown int')
            s.put(e, 4, 1)
            emit(s, 'raise', who, kind, None, None)
            outs.append(_out(s, 'throw', Exc(e, ti or '_ZTIi')))
            continue
        e = s.alloc(E.prog.size(cls) if cls in E.prog.records else 32, 'heap', 'raised ' + kind, cls)
        s.blocks[e.base].exact = cls
        s.put(e, 8, E.prog.vptr_for(E, s, cls))
        if kind in ('fault', 'exception'):
            s.put(e.add(E.prog.off(cls, 'ex_code')), 4, code)
        tp = s.alloc(32, 'heap', 'text of ' + kind)
        s.put(tp, 32, StrV(t))
        s.ghost['what'] = dict(s.ghost.get('what', {}))
        s.ghost['what'][e.base] = tp
        emit(s, 'raise', who, kind, code if kind != 'error' else None, t)
        outs.append(_out(s, 'throw', Exc(e, ti or E.prog.ti_of(cls))))
    return outs


def m_what(E, st, a, rt, mod, dem):
    return data_ptr(st.ghost['what'][a[0].base])


def m_code(E, st, a, rt, mod, dem):
    return st.cell(a[0].add(E.prog.off('env_exception', 'ex_code')))


def m_std_what(E, st, a, rt, mod, dem):
    """message of a standard exception object built by the library"""
    v = st.cell(a[0].add(8))
    tp = st.alloc(32, 'heap', 'message')
    t = v.t if v.t is not None else fstr('message')
    st.put(tp, 32, StrV(t))
    return data_ptr(tp)


def m_auth(E, st, a, rt, mod, dem):
    u, p = models.S(E, st, a[1]), models.S(E, st, a[2])
    bad = st.fork()
    v = fbool('verdict')
    emit(st, 'authenticate', u, p, v)
    return [_out(st, 'ret', v)] + raised(E, bad, 'plugin')


def m_anon(E, st, a, rt, mod, dem):
    bad = st.fork()
    v = fbool('verdict')
    emit(st, 'anonymous', v)
    return [_out(st, 'ret', v)] + raised(E, bad, 'plugin')


def m_parse(E, st, a, rt, mod, dem):
    """C06: a call, or an error"""
    s = models.S(E, st, a[0])
    emit(st, 'parse', s)
    bad = st.fork()
    p = st.alloc(E.prog.size(REQS), 'heap', 'call', REQS)
    n = fstr('method')
    st.assume(slen(n) < MAXLEN)
    st.put(p.add(E.prog.off(REQS, 'name')), 32, StrV(n))
    emit(st, 'call', p, n)
    return [_out(st, 'ret', p)] + [o for o in raised(E, bad, 'parser')]


def m_dead(what):
    def f(E, st, a, rt, mod, dem):
        E.deref_check(st, a[0], what)
        emit(st, 'freed', what, a[0])
    return f


def m_find(E, st, a, rt, mod, dem):
    """C13: a new method object for this name, or an error"""
    d = a[1]
    bad = st.fork()
    n = models.S(E, st, d)
    m = method(E, st)
    emit(st, 'method', m, n)
    return [_out(st, 'ret', m)] + raised(E, bad, 'dispatcher')


def method(E, st):
    p = st.alloc(E.prog.size(METH), 'heap', 'method', METH)
    st.blocks[p.base].exact = None
    st.put(p, 8, Ptr(('vt', METH), 0))
    st.put(p.add(E.prog.off(METH, 'authname_')), 32, StrV(EMPTY))
    x = p.add(E.prog.off(METH, 'xheaders_'))
    st.put(x, 8, E.prog.vptr_for(E, st, XH))
    st.put(x.add(E.prog.off(XH, 'xheaders_')), 48, containers.empty_map(OPT))
    return p


def m_create(E, st, a, rt, mod, dem):
    e = executor(E, st)
    F = lambda n: e.add(E.prog.off(EXEC, n))
    st.put(F('method'), 8, a[1])
    st.put(F('server'), 8, a[2])
    st.put(F('conn'), 8, a[3])
    emit(st, 'executor', e, a[1], a[2], a[3])
    return e


def executor(E, st):
    e = st.alloc(E.prog.size(EXEC), 'heap', 'executor', EXEC)
    st.blocks[e.base].exact = None
    st.put(e, 8, Ptr(('vt', EXEC), 0))
    st.put(e.add(E.prog.off(EXEC, 'interceptors')), 8, NULL)
    return e


def m_execute(E, st, a, rt, mod, dem):
    """an executor that returns has taken over; one that raises has done nothing"""
    e = a[0]
    g = lambda n: st.cell(e.add(E.prog.off(EXEC, n)))
    m = g('method')
    if isinstance(m, Ptr) and st.blocks[m.base].name == 'method':
        q = m.add(E.prog.off(METH, 'authname_'))
        xm = st.cell(m.add(E.prog.off(METH, 'xheaders_') + E.prog.off(XH, 'xheaders_')))
        emit(st, 'execute', e, a[1], m, g('interceptors'), st.cell(q).s, xm)
    else:
        emit(st, 'execute', e, a[1], m, g('interceptors'), None, None)
    bad = st.fork()
    return [_out(st, 'ret', None)] + raised(E, bad, 'executor')


def m_edead(E, st, a, rt, mod, dem):
    E.deref_check(st, a[0], 'executor')
    emit(st, 'executor freed', a[0])
    if getattr(E, 'vslot_no', 0):
        st.wb(a[0].base).alive = False


def m_log(E, st, a, rt, mod, dem):
    return None


def m_dump(E, st, a, rt, mod, dem):
    """C05/C06: some document for this response"""
    r = a[1]
    g = lambda n: st.cell(r.add(E.prog.off(RESP, n)))
    v = g('value_')
    s = fstr('document')
    st.assume(slen(s) < MAXLEN)
    null = isinstance(v, Ptr) and v.isnull
    emit(st, 'dump', v, g('fault_code_') if null else None, g('fault_string_').s if null else None, s)
    models.setS(E, st, a[0], s)


def sx_engine(E):
    conn_engine(E)
    X = E.mexact
    for k in ('env_error', 'env_fault', 'env_exception'):
        X[k + '::what() const'] = m_what
    X['env_exception::code() const'] = m_code
    X['std::runtime_error::what() const'] = X['std::exception::what() const'] = X['std::logic_error::what() const'] = m_std_what
    X[AUTH + '::do_authenticate(std::string const&, std::string const&) const'] = m_auth
    X[AUTH + '::do_authenticate_anonymous() const'] = m_anon
    X['iqxmlrpc::parse_request(std::string const&)'] = m_parse
    X[REQS + '::~Request()'] = m_dead('call')
    X['iqxmlrpc::Method_dispatcher_manager::create_method(iqxmlrpc::Method::Data const&)'] = m_find
    X[FACT + '::create(iqxmlrpc::Method*, iqxmlrpc::Server*, iqxmlrpc::Server_connection*)'] = m_create
    X[EXEC + '::execute(std::vector<iqxmlrpc::Value, std::allocator<iqxmlrpc::Value>> const&)'] = m_execute
    X[EXEC + '::~Executor()'] = m_edead
    X[SRV + '::log_err_msg(std::string const&)'] = m_log
    X['iqxmlrpc::dump_response(iqxmlrpc::Response const&)'] = m_dump
    X[CONN + '::schedule_response(iqxmlrpc::http::Packet*)'] = m_resp
    E._mcache = {}


def scene(c, plugin=True):
    """a server, a connection and a complete request in an arbitrary state"""
    from .props import c10
    st, E = c.st, c.E
    s, i, lev, mx = server(c)
    st = c.st
    F = lambda n: i.add(c.prog.off(IMPL, n))
    if plugin:
        ap = st.alloc(8, 'heap', 'plugin', AUTH)
        st.blocks[ap.base].exact = None
        st.put(ap, 8, Ptr(('vt', AUTH), 0))
        st.put(F('auth_plugin'), 8, ap)
    else:
        st.put(F('auth_plugin'), 8, NULL)
    ef = st.alloc(8, 'heap', 'factory', FACT)
    st.blocks[ef.base].exact = None
    st.put(ef, 8, Ptr(('vt', FACT), 0))
    st.put(F('exec_factory'), 8, ef)
    ic = st.alloc(c.prog.size(IC), 'heap', 'interceptor', IC)
    st.put(F('interceptors'), 8, ic)
    st.put(F('log'), 8, NULL)
    p = connection(c, s)
    ad = p.add(c.prog.off(CONN, 'peer_addr'))
    st.put(ad, 8, Opq('vptr-addr'))
    st.put(ad.add(8), 8, NULL)
    st.put(ad.add(16), 8, NULL)
    header(c, RSP, 'error header')
    pk = c10.packet(c, REQ)
    c.st.ghost['ev'] = ()
    return s, p, pk


def setup_ex(c):
    s, p, pk = scene(c, c.variant != 'no plugin')
    return [s, pk[0], p]

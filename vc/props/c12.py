"""C12: every request gets exactly one response (server.cc, executor.cc, response.cc)"""
from ..sexec import *
from . import c11, c10
from ..models import _out

TUS = SX_TUS + ['value_type.cc', 'value.cc']
EXTRA = SX_EXTRA + c11.c01.EXTRA + """#include "libiqxmlrpc/response.h"
#include "libiqxmlrpc/value.h"
void emit_codes(int k) { if (k == 1) throw iqxmlrpc::Unknown_method("x"); if (k == 2) throw iqxmlrpc::XML_RPC_violation("x"); if (k == 3) throw iqxmlrpc::XML_RPC_violation();
  if (k == 4) throw iqxmlrpc::Parse_error("x"); if (k == 5) throw iqxmlrpc::Fault(1, "x"); if (k == 6) throw iqxmlrpc::Invalid_meth_params(); }
"""
engine = sx_engine
CANDS = [cand_kept]
VAL = 'iqxmlrpc::Value'
SER, POOL = 'iqxmlrpc::Serial_executor', 'iqxmlrpc::Pool_executor'
PL = 'std::vector<iqxmlrpc::Value, std::allocator<iqxmlrpc::Value>> const&'
neg = lambda n: n % (1 << 32)


def resp_is(E, s2, p, code=None, header=None, doc=None):
    """exactly one answer on connection p: this HTTP status, or this very header, and this body"""
    ev = events(s2, 'respond')
    if len(ev) != 1 or not isinstance(ev[0][2], Ptr):
        return z3.BoolVal(False)
    e = ev[0]
    cs = [same_ptr(E, s2, e[1], p)]
    if header is not None:
        cs.append(z3.BoolVal(e[2].base == header))
    if code is not None:
        c = s2.blocks[e[2].base].cells.get(e[2].off + E.prog.off(RSP, 'code_'))
        cs.append(I(c[1]) == code if c else z3.BoolVal(False))
    if doc is not None:
        cs.append(val_eq(e[3], StrV(doc)))
    return z3.And(*cs)


def dumped(E, s2, code, txt):
    ev = events(s2, 'dump')
    if len(ev) != 1 or ev[0][2] is None:
        return z3.BoolVal(False), EMPTY
    return z3.And(I(ev[0][2]) == I(code), ev[0][3] == txt), ev[0][4]


def cases_ex(c, a):
    p = a[2]
    eh = [i for i, b in c.st.blocks.items() if b.name == 'error header'][0]
    ic = c.st.cell(c.st.cell(a[0].add(c.prog.off(SRV, 'impl'))).add(c.prog.off(IMPL, 'interceptors')))

    def post(E, s2, o):
        if o.kind == 'throw':
            return [('nothing is raised to the caller', False)]
        ev = events(s2)
        names = [e[0] for e in ev]
        out = [('the request is freed', not s2.blocks[a[1].base].alive)]
        made, dead = events(s2, 'executor'), events(s2, 'executor freed')
        calls, gone = events(s2, 'call'), events(s2, 'freed')
        out.append(('the parsed call is freed once', len(calls) == len(gone)))
        ra = events(s2, 'raise')
        ran = events(s2, 'execute')
        if made:
            m, x = events(s2, 'method')[0], made[0]
            out.append(('the executor gets the method, the server and the connection', z3.And(same_ptr(E, s2, x[2], m[1]), same_ptr(E, s2, x[3], a[0]), same_ptr(E, s2, x[4], p))))
            out.append(('the method asked for is the one called', m[2] == calls[0][2]))
        if ran:
            x = ran[0]
            out.append(('started once, with the parameters and interceptors of the call', z3.And(z3.BoolVal(len(ran) == 1), same_ptr(E, s2, x[1], made[0][1]), same_ptr(E, s2, x[4], ic), same_ptr(E, s2, x[2], calls[0][1].add(E.prog.off(REQS, 'params'))))))
        if ran and not ra:
            out.append(('answering is left to the executor', 'respond' not in names and not dead))
            return out
        out.append(('the executor is freed once if there was one', len(dead) == len(made) and all(same_ptr(E, s2, d[1], m[1]) is not False for d, m in zip(dead, made))))
        if not ra:
            out.append(('answered once', resp_is(E, s2, p)))
            return out
        _, who, kind, code, txt = ra[-1]
        if kind == 'http':
            out.append(('an HTTP error is answered with that error', resp_is(E, s2, p, header=eh, doc=EMPTY)))
        else:
            want, t = (code, txt) if kind in ('fault', 'exception') else (neg(-32500), txt if kind == 'error' else sbytes('Unknown Error'))
            ok, doc = dumped(E, s2, want, t)
            out += [('answered with a fault of the right code and text', ok), ('in a message with status 200', resp_is(E, s2, p, code=200, doc=doc))]
        return out
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


# ---- a response is printed and scheduled, the executor freed
def response(c, kind, st=None):
    st = c.st
    r = st.alloc(c.prog.size(RESP), 'heap', 'response object', RESP)
    F = lambda n: r.add(c.prog.off(RESP, n))
    t = fstr('fault text')
    st.assume(slen(t) < MAXLEN)
    v = NULL
    if 'value' in kind:
        v = st.alloc(c.prog.size(VAL), 'heap', 'value', VAL)
    st.put(F('value_'), 8, v)
    st.put(F('value_').add(8), 8, NULL)
    st.put(F('fault_code_'), 4, c.E.fresh_of(st, ('i', 32), 'code'))
    st.put(F('fault_string_'), 32, StrV(t))
    return r


def setup_sch(c):
    s, i, lev, mx = server(c)
    p = connection(c, s)
    e = executor(c.E, c.st) if 'executor' in c.variant else NULL
    r = response(c, c.variant)
    c.st.ghost['ev'] = ()
    return [s, r, p, e]


def cases_sch(c, a):
    s, r, p, e = a

    def post(E, s2, o):
        d = events(s2, 'dump')
        dead = events(s2, 'executor freed')
        g = lambda n: s2.cell(r.add(E.prog.off(RESP, n)))
        ok = len(d) == 1 and (d[0][2] is None) == ('value' in c.variant)
        out = [('exactly this response is printed', z3.And(same_ptr(E, s2, d[0][1], g('value_')), z3.BoolVal(True) if d[0][2] is None else z3.And(I(d[0][2]) == I(g('fault_code_')), d[0][3] == g('fault_string_').s)) if ok else False),
               ('and answered once with status 200', resp_is(E, s2, p, code=200, doc=d[0][4]) if ok else False),
               ('the executor is freed once if there is one', len(dead) == (1 if 'executor' in c.variant else 0))]
        if dead:
            out.append(('that executor', same_ptr(E, s2, dead[0][1], e)))
        return out
    return [Case(True, any_frame=True, post=post)]


# ---- executors
def m_run(what):
    def f(E, st, a, rt, mod, dem):
        bad = st.fork()
        emit(st, 'run', what, *a)
        return [_out(st, 'ret', None)] + raised(E, bad, 'method')
    return f


def m_sched(E, st, a, rt, mod, dem):
    """contract of Server::schedule_response: answered, executor freed"""
    r = a[1]
    g = lambda n: st.cell(r.add(E.prog.off(RESP, n)))
    v = g('value_')
    null = isinstance(v, Ptr) and v.isnull
    emit(st, 'schedule', a[0], v, g('fault_code_') if null else None, g('fault_string_').s if null else None, a[2], a[3])
    E.deref_check(st, a[3], 'executor')
    st.wb(a[3].base).alive = False


def m_value(E, st, a, rt, mod, dem):
    st.put(a[0], 8, Ptr(('vt', VAL), 0))
    st.wb(a[0].base).exact = None


def m_vdead(E, st, a, rt, mod, dem):
    E.deref_check(st, a[0], 'value')
    emit(st, 'value freed', a[0])
    if getattr(E, 'vslot_no', 0):
        st.wb(a[0].base).alive = False


def m_mdead(E, st, a, rt, mod, dem):
    E.deref_check(st, a[0], 'method')
    emit(st, 'method freed', a[0])
    if getattr(E, 'vslot_no', 0):
        st.wb(a[0].base).alive = False


def ex_engine(E):
    sx_engine(E)
    X = E.mexact
    del X[EXEC + '::~Executor()']
    X[METH + '::execute(%s, iqxmlrpc::Value&)' % PL] = m_run('method')
    X[IC + '::process(iqxmlrpc::Method*, %s, iqxmlrpc::Value&)' % PL] = m_run('interceptor')
    X[SRV + '::schedule_response(iqxmlrpc::Response const&, iqxmlrpc::Server_connection*, iqxmlrpc::Executor*)'] = m_sched
    X[METH + '::~Method()'] = m_mdead
    X[VAL + '::Value(int)'] = m_value
    X[VAL + '::~Value()'] = m_vdead
    E._mcache = {}


def exobj(c, cls):
    st = c.st
    e = st.alloc(c.prog.size(cls), 'heap', 'executor', cls)
    st.blocks[e.base].exact = cls
    st.put(e, 8, c.prog.vptr_for(c.E, st, cls))
    F = lambda n: e.add(c.prog.off(cls, n))
    m = method(c.E, st)
    st.put(F('method'), 8, m)
    if c.variant == 'interceptor':
        ic = st.alloc(c.prog.size(IC), 'heap', 'interceptor', IC)
        st.blocks[ic.base].exact = None
        st.put(ic, 8, Ptr(('vt', IC), 0))
        st.put(F('interceptors'), 8, ic)
    else:
        st.put(F('interceptors'), 8, NULL)
    s = st.alloc(c.prog.size(SRV), 'heap', 'server', SRV)
    p = st.alloc(c.prog.size(CONN), 'heap', 'connection', CONN)
    st.put(F('server'), 8, s)
    st.put(F('conn'), 8, p)
    header(c, RSP, 'error header')
    c.st.ghost['ev'] = ()
    return e


def setup_xe(cls):
    def setup(c):
        e = exobj(c, cls)
        if cls == POOL:
            return [e]
        return [e, c.st.alloc(24, 'heap', 'params')]
    return setup


def cases_xe(cls):
    def cases(c, a):
        e = a[0]
        st = c.st
        F = lambda n: st.cell(e.add(c.prog.off(cls, n)))
        params = a[1] if cls == SER else e.add(c.prog.off(cls, 'params'))
        tgt = F('interceptors') if c.variant == 'interceptor' else F('method')

        def post(E, s2, o):
            ev = events(s2)
            run, sch, ra, vf = events(s2, 'run'), events(s2, 'schedule'), events(s2, 'raise'), events(s2, 'value freed')
            out = []
            keep = cls == SER and ra and ra[0][2] != 'fault'
            if o.kind == 'throw' or keep:
                return [('only what the method raised is passed on, and only by the serial executor', bool(o.kind == 'throw' and keep and len(ra) == 1)), ('then nothing is answered and the executor lives', not sch and s2.blocks[e.base].alive), ('the result is freed once', len(vf) == 1)]
            out.append(('answered exactly once, on the connection of the call', z3.And(same_ptr(E, s2, sch[0][1], F('server')), same_ptr(E, s2, sch[0][5], F('conn')), same_ptr(E, s2, sch[0][6], e)) if len(sch) == 1 else False))
            if len(sch) != 1:
                return out
            if ra:
                _, who, kind, code, txt = ra[0]
                if kind == 'http':
                    out.append(('any other error has code -1', I(sch[0][3]) == neg(-1) if sch[0][3] is not None else False))
                else:
                    want, t = (code, txt) if kind == 'fault' else (neg(-1), txt if kind in ('error', 'exception') else sbytes('Unknown Error'))
                    out.append(('fault code and text', z3.And(I(sch[0][3]) == I(want), sch[0][4] == t) if sch[0][3] is not None else False))
            else:
                r = run[0] if len(run) == 1 else None
                out.append(('the method ran exactly once', r is not None))
                if r:
                    if c.variant == 'interceptor':
                        out.append(('through the interceptors', z3.And(z3.BoolVal(r[1] == 'interceptor'), same_ptr(E, s2, r[2], tgt), same_ptr(E, s2, r[3], F('method')), same_ptr(E, s2, r[4], params))))
                    else:
                        out.append(('with the parameters of the call', z3.And(z3.BoolVal(r[1] == 'method'), same_ptr(E, s2, r[2], tgt), same_ptr(E, s2, r[3], params))))
                    out.append(('its result is the answer', same_ptr(E, s2, sch[0][2], r[-1])))
            out.append(('the result is freed once', len(vf) == 1))
            return out
        return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]
    return cases


# ---- responses and error codes
def setup_r1(c):
    r = c.st.alloc(c.prog.size(RESP), 'heap', 'response object', RESP)
    v = c.st.alloc(c.prog.size(VAL), 'heap', 'value', VAL)
    return [r, v]


def cases_r1(c, a):
    return [Case(True, any_frame=True, post=lambda E, s2, o: [('holds the value', same_ptr(E, s2, s2.cell(a[0].add(E.prog.off(RESP, 'value_'))), a[1]))])]


def setup_r2(c):
    r = c.st.alloc(c.prog.size(RESP), 'heap', 'response object', RESP)
    t = c.newstr(name='text')
    return [r, c.E.fresh_of(c.st, ('i', 32), 'code'), t]


def cases_r2(c, a):
    g = lambda s2, n: s2.cell(a[0].add(c.prog.off(RESP, n)))
    return [Case(True, any_frame=True, post=lambda E, s2, o: [('no value', same_ptr(E, s2, g(s2, 'value_'), NULL)), ('code', I(g(s2, 'fault_code_')) == I(a[1])), ('text', g(s2, 'fault_string_').s == c.str(a[2]))])]


def setup_err(cls, arg):
    def setup(c):
        p = c.st.alloc(c.prog.size(cls), 'heap', 'error', cls)
        a = [p]
        if 'int' in arg:
            a.append(c.E.fresh_of(c.st, ('i', 32), 'code'))
        if 'string' in arg:
            a.append(c.newstr(name='text'))
        return a
    return setup


def cases_err(cls, code):
    def cases(c, a):
        want = neg(code) if code is not None else I(a[1])
        out = lambda E, s2, o: [('fault code', I(s2.cell(a[0].add(E.prog.off(cls, 'ex_code')))) == want)] + ([('text', s2.cell(a[0].add(8)).t == c.str(a[2]))] if code is None else [])
        return [Case(True, any_frame=True, post=out)]
    return cases


def setup_ed(c):
    e = exobj(c, SER)
    return [e]


def cases_ed(c, a):
    m = c.st.cell(a[0].add(c.prog.off(EXEC, 'method')))
    return [Case(True, any_frame=True, post=lambda E, s2, o: [('its method is freed once', len(events(s2, 'method freed')) == 1 and not s2.blocks[m.base].alive)])]


def contracts(P):
    EXC = 'iqxmlrpc::%s'
    out = [
        Contract(SRV + '::schedule_execute(iqxmlrpc::http::Packet*, iqxmlrpc::Server_connection*)', setup_ex, cases_ex, level='property', use=False, variants=['plugin', 'no plugin']),
        Contract(SRV + '::schedule_response(iqxmlrpc::Response const&, iqxmlrpc::Server_connection*, iqxmlrpc::Executor*)', setup_sch, cases_sch, level='property', use=False, variants=['value, executor', 'fault, executor', 'fault']),
        Contract(SER + '::execute(%s)' % PL, setup_xe(SER), cases_xe(SER), level='property', use=False, engine=ex_engine, variants=['plain', 'interceptor']),
        Contract(POOL + '::process_actual_execution()', setup_xe(POOL), cases_xe(POOL), level='property', use=False, engine=ex_engine, variants=['plain', 'interceptor']),
        Contract(EXEC + '::~Executor()', setup_ed, cases_ed, level='property', use=False, engine=ex_engine),
        Contract(RESP + '::Response(iqxmlrpc::Value*)', setup_r1, cases_r1, level='property', use=False),
        Contract(RESP + '::Response(int, std::string const&)', setup_r2, cases_r2, level='property', use=False),
    ]
    for cls, arg, code in (('Unknown_method', 'std::string const&', -32601), ('XML_RPC_violation', 'std::string const&', -32600), ('XML_RPC_violation', '', -32600), ('Parse_error', 'std::string const&', -32700), ('Fault', 'int, std::string const&', None), ('Invalid_meth_params', '', -32602)):
        n = EXC % cls
        out.append(Contract('%s::%s(%s)' % (n, cls, arg), setup_err(n, arg), cases_err(n, code), level='property', use=False))
    return out + given('C20', (k for k in xcontracts() if 'get_xheaders' in k.name)) + given('C11', (k for k in c11.contracts(P) if 'get_authinfo' in k.name))


NOTE = ('Contracts on the execution of a request, on sending its response, on both executors, on the response objects and on the fault codes of the library errors, discharged for every way '
        'a plugin, parser, dispatcher, executor, interceptor or method may end. The battery runs requests of every outcome against real servers with both executors.')
# THEOREM: every way out of Server::schedule_execute leaves exactly one answer, or leaves answering to the executor
# THEOREM: both executors answer exactly once
ASSUME = ['plugins, parser, dispatchers, interceptors and methods are arbitrary: they return or raise any exception', 'an executor that raises has not answered and one that returns answers once (contracts of both executors)', 'printing a response and creating an executor do not fail', 'memory allocation does not fail']


def replay(name, v):
    ws = 'ok:a,fault:3,exc,std,int,http,unknown:x,notxml,nomethod,d_std,d_http,i_fault,i_std,d_code:0,d_code:-32000,exc:0,i_fault:0,text:0,stdx:0,stdx:1,stdx:2'
    return ['hist s ' + w for w in ws.split(',')] + ['hist p ' + w for w in ws.split(',')]

"""Server side objects shared by the checks of the connection and the server (C08, C11, C12, C15)."""
import z3
from .reader import *
from .events import emit, events

CONN, SRV, IMPL = 'iqxmlrpc::Server_connection', 'iqxmlrpc::Server', 'iqxmlrpc::Server::Impl'
CONN_EXTRA = """#include "libiqxmlrpc/server_conn.h"
struct emit_conn: iqxmlrpc::Server_connection { emit_conn(const iqnet::Inet_addr& a): iqxmlrpc::Server_connection(a) {} virtual void do_schedule_response(); };
void emit_conn::do_schedule_response() {}
"""
HUNDRED = sbytes('HTTP/1.1 100\r\n\r\n')


def do_schedule(E, st, a, rt, mod, dem):
    """the transport's part: the response text as it stands is registered for sending"""
    emit(st, 'send', a[0], st.cell(a[0].add(E.prog.off(CONN, 'response'))))


def conn_engine(E):
    httpm.engine(E)
    E.mexact[CONN + '::do_schedule_response()'] = do_schedule
    E._mcache = {}


from . import httpm


def server(c):
    """(server, implementation, level, limit)"""
    st, E = c.st, c.E
    s = st.alloc(c.prog.size(SRV), 'heap', 'server', SRV)
    i = st.alloc(c.prog.size(IMPL), 'heap', 'impl', IMPL)
    st.put(s.add(c.prog.off(SRV, 'impl')), 8, i)
    lev, mx = E.fresh_of(st, ('i', 32), 'level'), E.fresh_of(st, ('i', 64), 'limit')
    st.assume(z3.Or(lev == 0, lev == 1), mx < (1 << 62))
    st.put(i.add(c.prog.off(IMPL, 'ver_level')), 4, lev)
    st.put(i.add(c.prog.off(IMPL, 'max_req_sz')), 8, mx)
    return s, i, lev, mx


def connection(c, s, cls=CONN):
    st = c.st
    p = st.alloc(c.prog.size(cls), 'heap', 'connection', cls)
    st.blocks[p.base].exact = None
    st.put(p, 8, Ptr(('vt', cls), 0))
    F = lambda n: p.add(c.prog.off(CONN, n))
    r = fstr('response')
    st.assume(slen(r) < MAXLEN)
    st.put(F('server'), 8, s)
    st.put(F('response'), 32, StrV(r))
    st.put(F('keep_alive'), 1, fbool('keep_alive'))
    return p


def setup_conn(c):
    c.hcls = REQ
    s, i, lev, mx = server(c)
    p = connection(c, s)
    c.st.ghost['ev'] = ()
    rdr(c, True, place=p.add(c.prog.off(CONN, 'preader')), own=(lev, mx))
    t = c.newstr(name='chunk')
    c.inp('chunk', c.str(t))
    return [p, t]


def cases_conn(c, a):
    """one read event: a message with its keep-alive wish, nothing, the interim response exactly once, or an HTTP error"""
    p = a[0]
    st, E = c.st, c.E
    F = lambda n: p.add(c.prog.off(CONN, n))
    i = st.cell(st.cell(F('server')).add(c.prog.off(SRV, 'impl')))
    lev, mx = I(st.cell(i.add(c.prog.off(IMPL, 'ver_level')))), I(st.cell(i.add(c.prog.off(IMPL, 'max_req_sz'))))
    r = F('preader')
    aux = {}
    cont = B(st.cell(r.add(c.prog.off(RDR, 'continue_sent_')))) if c.variant.startswith('header') else z3.BoolVal(False)
    ka0, resp0 = st.cell(F('keep_alive')), st.cell(F('response'))
    out = []
    lvl = [(r.add(c.prog.off(RDR, 'ver_level_')), 4, lev), (r.add(c.prog.off(RDR, 'pkt_max_sz')), 8, mx)]
    quiet = lambda E, s2, o: [('nothing is sent', not events(s2))]
    for k in cases_read(c, [r, a[1]], REQ, None, lev, mx, aux):
        if k.throw:
            k.throw = {MAL: N + '::Bad_request', c08.REFUSED: N + '::Error_response'}.get(k.throw, k.throw)
            old = k.post or (status(400) if k.throw.endswith('Bad_request') else None)
            k.post = (lambda E, s2, o, old=old: (old(E, s2, o) if old else []) + quiet(E, s2, o))
            out.append(k)
        elif k.label == 'body incomplete':
            m = aux_opts(aux)
            ask = z3.And(m(), z3.Not(cont))
            g, w, post = k.guard, k.writes + lvl, k.post
            w = [x for x in w if x[0].off != r.off + c.prog.off(RDR, 'continue_sent_')]
            cs = r.add(c.prog.off(RDR, 'continue_sent_'))

            def sent(E, s2, o, post=post):
                ev = events(s2)
                return post(E, s2, o) + [('exactly one interim response is sent', len(ev) == 1 and ev[0][0] == 'send' and z3.is_expr(ev[0][2].s) and ev[0][2].s == HUNDRED)]
            out.append(Case(z3.And(g, ask), anyret=True, writes=w + [(F('response'), 32, StrV(HUNDRED)), (F('keep_alive'), 1, z3.BoolVal(True)), (cs, 1, z3.BoolVal(True))], post=sent, label='interim response'))
            out.append(Case(z3.And(g, z3.Not(ask)), anyret=True, writes=w + [(cs, 1, cont)], post=lambda E, s2, o, post=post: post(E, s2, o) + quiet(E, s2, o), label='body incomplete'))
        elif k.label == 'header incomplete':
            k.writes += lvl
            k.post = (lambda E, s2, o, old=k.post: old(E, s2, o) + quiet(E, s2, o))
            out.append(k)
        else:
            def done(E, s2, o, old=k.post):
                m = aux['opts']
                ka = s2.cell(F('keep_alive'))
                return old(E, s2, o) + quiet(E, s2, o) + [('keep-alive is what the request asked for', B(ka) == (mval(m, sbytes('connection')) == sbytes('keep-alive')))]
            k.post = done
            out.append(k)
    return out


def aux_opts(aux):
    return lambda: aux['opts'].has(sbytes('expect'))


def conn_contract():
    return Contract(CONN + '::read_request(std::string const&)', setup_conn, cases_conn, level='property', use=False, variants=VARS, weight=6)


# ---- the plain transport ----------------------------------------------------------------------------------------------
from . import netm
from .netm import reg, trace, named
HSC = 'iqxmlrpc::(anonymous namespace)::Http_server_connection'
TR_TUS = ['http_server.cc', 'https_server.cc', 'https_client.cc', 'ssl_connection.cc', 'ssl_lib.cc', 'server_conn.cc', 'connection.cc', 'socket.cc', 'http.cc', 'server.cc', 'http_client.cc', 'client_conn.cc']


def m_read(E, st, a, rt, mod, dem):
    """what the contract of Server_connection::read_request leaves a caller with: nothing yet, a message with its keep-alive wish, or an HTTP error"""
    from .engine import Exc
    off = E.prog.off(CONN, 'keep_alive')
    base = a[0]
    emit(st, 'read', models.S(E, st, a[1]))
    none, msg, err = st.fork(), st.fork(), st
    inter = st.fork()
    inter.put(base.add(E.prog.off(CONN, 'response')), 32, StrV(HUNDRED))
    inter.put(base.add(off), 1, z3.BoolVal(True))
    emit(inter, 'interim')
    k = fbool('wish')
    msg.put(base.add(off), 1, k)
    p = msg.alloc(E.prog.size(PKT), 'heap', 'request', PKT)
    emit(msg, 'message', p, k)
    e = err.alloc(E.prog.size(N + '::Error_response'), 'heap', 'http error', N + '::Error_response')
    err.blocks[e.base].exact = N + '::Bad_request'
    hb = [i for i, b in err.blocks.items() if b.name == 'error header'][0]
    err.put(e.add(E.prog.off(PKT, 'header_')), 8, Ptr(hb, 0))
    cnt = err.alloc(8, 'heap', 'use count')
    err.put(cnt, 8, 1)
    err.put(e.add(E.prog.off(PKT, 'header_') + 8), 8, cnt)
    err.put(e.add(E.prog.off(PKT, 'content_')), 32, StrV(EMPTY))
    return [models._out(none, 'ret', NULL), models._out(inter, 'ret', NULL), models._out(msg, 'ret', p), models._out(err, 'throw', Exc(e, E.prog.ti_of(N + '::Bad_request')))]


def m_exec(E, st, a, rt, mod, dem):
    emit(st, 'execute', a[0], a[1], a[2])


def m_resp(E, st, a, rt, mod, dem):
    """recorded with the connection's keep-alive flag at that time and the message given"""
    p = a[1]
    h = st.cell(p.add(E.prog.off(PKT, 'header_'))) if isinstance(p, Ptr) else None
    co = st.cell(p.add(E.prog.off(PKT, 'content_'))) if isinstance(p, Ptr) else None
    emit(st, 'respond', a[0], h, co, st.cell(a[0].add(E.prog.off(CONN, 'keep_alive'))))
    st.wb(p.base).alive = False


def tr_engine(E):
    conn_engine(E)
    netm.install(E)
    E.mexact[CONN + '::read_request(std::string const&)'] = m_read
    E.mexact[CONN + '::schedule_response(iqxmlrpc::http::Packet*)'] = m_resp
    E.mexact[SRV + '::schedule_execute(iqxmlrpc::http::Packet*, iqxmlrpc::Server_connection*)'] = m_exec
    E._mcache = {}


def transport(c, cls=HSC):
    """a server side connection over a plain socket in an arbitrary state"""
    st = c.st
    p = st.alloc(c.prog.size(cls), 'heap', 'connection', cls)
    F = lambda n: p.add(c.prog.off(cls, n))
    st.blocks[p.base].exact = cls
    c.prog.put_vptrs(c.E, st, p, cls)
    fd = c.E.fresh_of(st, ('i', 32), 'descriptor')
    st.put(F('sock').add(c.prog.off('iqnet::Socket', 'sock')), 4, fd)
    r = fstr('response')
    st.assume(slen(r) < netm.SMALL)
    st.put(F('response'), 32, StrV(r))
    st.put(F('keep_alive'), 1, fbool('keep_alive'))
    b = fstr('buffer')
    st.assume(slen(b) > 0, slen(b) < netm.SMALL)
    st.put(F('read_buf_'), 24, VecB(b))
    st.put(F('reactor'), 8, netm.reactor(c))
    s = st.alloc(c.prog.size(SRV), 'heap', 'server', SRV)
    st.put(F('server'), 8, s)
    header(c, RSP, 'error header')
    st = c.st
    st.ghost['ev'] = ()
    t = st.alloc(1, 'heap', 'terminate')
    st.put(t, 1, z3.BoolVal(False))
    return p, t


def setup_ho(c):
    p, t = transport(c)
    c.inp('response', c.st.cell(p.add(c.prog.off(HSC, 'response'))).s)
    c.inp('keep', c.st.cell(p.add(c.prog.off(HSC, 'keep_alive'))))
    return [p, t]


def outcome(st, *names):
    """the (only) transfer event"""
    ev = events(st, *names)
    return ev[0] if ev else None


def cases_ho(c, a):
    """one output event: one transfer of exactly the bytes outstanding; they shrink by what was taken, and only after the last the connection moves on"""
    p, t = a
    st = c.st
    F = lambda n: p.add(c.prog.off(HSC, n))
    r, ka = st.cell(F('response')).s, B(st.cell(F('keep_alive')))
    fd = st.cell(F('sock').add(c.prog.off('iqnet::Socket', 'sock')))

    def post(E, s2, o):
        term = B(s2.cell(t))
        if o.kind == 'throw':
            return [('only a failed transfer raises', trace(s2, named('send_error'))), ('nothing is taken as sent', s2.cell(F('response')).s == r), ('error is a network error', E.prog.derives(o.val.ti, E.prog.ti_of(netm.NETERR)))]
        ev = outcome(s2, 'sent')
        if ev is None:
            return [('a failed transfer raises', False)]
        n = ev[3]
        rest = s2.cell(F('response')).s
        tr = netm.sent(fd, r)
        stay = z3.And(trace(s2, tr), z3.Not(term))
        again = z3.And(trace(s2, tr, reg('unregister', p, netm.OUTPUT), reg('register', p, netm.INPUT)), z3.Not(term))
        over = z3.And(trace(s2, tr), term)
        return [('some bytes left: they and only they remain to be sent', z3.Implies(n < slen(r), z3.And(rest == sub(r, n, slen(r) - n), stay))),
                ('all sent, keep-alive: waits for the next request', z3.Implies(z3.And(n == slen(r), ka), again)),
                ('all sent, no keep-alive: closes', z3.Implies(z3.And(n == slen(r), z3.Not(ka)), over)),
                ('keep-alive wish unchanged', B(s2.cell(F('keep_alive'))) == ka)]
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post, label='output')]


def setup_hi(c):
    p, t = transport(c)
    return [p, t]


def cases_hi(c, a):
    """one input event: the bytes received go to the reader once; end of stream closes; a message is handed over for execution once and
    input is withdrawn; an HTTP error is answered and closes"""
    p, t = a
    st = c.st
    F = lambda n: p.add(c.prog.off(HSC, n))
    ka = B(st.cell(F('keep_alive')))
    eh = [i for i, b in st.blocks.items() if b.name == 'error header'][0]
    srv = st.cell(F('server'))

    def post(E, s2, o):
        term = B(s2.cell(t))
        if o.kind == 'throw':
            return [('only a failed transfer raises', trace(s2, named('recv_error'))), ('error is a network error', E.prog.derives(o.val.ti, E.prog.ti_of(netm.NETERR)))]
        ev = outcome(s2, 'recv')
        if ev is None:
            return [('a failed transfer raises', False)]
        d = ev[2]
        kam = B(s2.cell(F('keep_alive')))
        msg, read = outcome(s2, 'message'), outcome(s2, 'read')
        rd = lambda e: e[0] == 'read' and e[1] == d
        out = [('end of stream closes and reads nothing', z3.Implies(slen(d) == 0, z3.And(trace(s2, named('recv')), term))),
               ('anything received is read', z3.Implies(slen(d) > 0, z3.And(z3.BoolVal(read is not None), z3.Not(term))))]
        if msg is not None:
            conn = p.add(c.prog.off(HSC, 'server') - c.prog.off(CONN, 'server'))
            ex = lambda e: e[0] == 'execute' and E.ptr_equal(s2, e[1], srv) and E.ptr_equal(s2, e[2], msg[1]) and E.ptr_equal(s2, e[3], conn)
            out += [('a message: input withdrawn, then executed once for this connection', trace(s2, named('recv'), rd, named('message'), reg('unregister', p, netm.INPUT), ex)), ('keep-alive is the wish of the request', kam == msg[2])]
        elif events(s2, 'respond'):
            def resp(e):
                ok = e[0] == 'respond' and isinstance(e[2], Ptr) and e[2].base == eh
                return z3.And(z3.Not(B(e[4])), val_eq(e[3], StrV(EMPTY))) if ok else False
            out += [('an HTTP error: answered with that error, closing', trace(s2, named('recv'), rd, resp)), ('closes after the answer', z3.Not(kam))]
        elif events(s2, 'interim'):
            out += [('interim response requested: nothing else happens', trace(s2, named('recv'), rd, named('interim'))), ('it is what will be sent', s2.cell(F('response')).s == HUNDRED), ('the connection stays', kam)]
        elif read is not None:
            out += [('incomplete: nothing else happens', trace(s2, named('recv'), rd)), ('keep-alive unchanged', kam == ka)]
        return out
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post, label='input')]


def setup_sr(c):
    from .props import c10
    s, i, lev, mx = server(c)
    p = connection(c, s)
    pk = c10.packet(c, RSP)
    c.inp('keep', c.st.cell(p.add(c.prog.off(CONN, 'keep_alive'))))
    c.st.ghost['ev'] = ()
    return [p, pk[0]]


def cases_sr(c, a):
    """the response text is the message printed with the connection option set as wanted, registered for sending once, and the message is freed"""
    from .props import c10
    st = c.st
    F = lambda n: a[0].add(c.prog.off(CONN, n))
    ka = st.cell(F('keep_alive'))
    p, h, b = c10.parts(c, a[1])
    m = opts_of(c, h).put(*c10.kv(c, B(ka)))
    hd = c10.head(c, h, RSP)

    def post(E, s2, o):
        m2 = s2.blocks[h.base].cells.get(h.off + E.prog.off(HDR, 'options_'))
        mm = m2[1] if m2 else m
        containers.enum(s2, mm)
        c10.unfold(s2, mm, z3.IntVal(0))
        want = z3.Concat(hd, c10.OLINES(mm.pres, mm.vals[0], c10.NKEYS(mm.pres)), c10.CRLF, b)
        return [('the options are those of the message, with the keep-alive wish', m.eq(mm)), ('response text is the message printed', s2.cell(F('response')).s == want),
                ('registered for sending exactly once', trace(s2, lambda e: e[0] == 'send' and e[2].s == want)), ('keep-alive wish unchanged', B(s2.cell(F('keep_alive'))) == B(ka)),
                ('message freed', not s2.blocks[a[1].base].alive)]
    return [Case(True, any_frame=True, post=post, label='response')]


# ---- the SSL transport ------------------------------------------------------------------------------------------------
from . import sslm
from .sslm import same_ptr
HSS = 'iqxmlrpc::(anonymous namespace)::Https_server_connection'


def ssl_engine(E):
    tr_engine(E)
    sslm.install(E)
    for n in list(E.mexact):
        if n.startswith(sslm.RC + '::') and 'succeed' in n:
            del E.mexact[n]
    E._mcache = {}


def ssl_transport(c):
    p, t = transport(c, HSS)
    st = c.st
    F = lambda n: p.add(c.prog.off(HSS, n))
    s = st.alloc(8, 'heap', 'ssl')
    st.put(F('ssl'), 8, s)
    st.put(F('state'), 4, 0)
    for n in ('recv_buf', 'send_buf'):
        st.put(F(n), 8, NULL)
    st.put(F('buf_len'), 8, 0)
    return p, t, F


def pending(E, s2, F, st, what):
    """the transfer that is set up: receiving into the connection's buffer, or sending its response text"""
    own = lambda x, cell: isinstance(x, Ptr) and not isinstance(x.base, int) and x.base[0] == 'cd' and isinstance(x.base[1], Ptr) and x.base[1].base == cell.base and x.base[1].off == cell.off
    if what == 'receive':
        b = s2.cell(F('recv_buf'))
        return z3.And(z3.BoolVal(own(b, F('read_buf_'))), I(b.idx) == 0 if own(b, F('read_buf_')) else z3.BoolVal(False), I(s2.cell(F('buf_len'))) == slen(st.cell(F('read_buf_')).s), I(s2.cell(F('state'))) == 3)
    b = s2.cell(F('send_buf'))
    return z3.And(z3.BoolVal(own(b, F('response'))), I(b.idx) == 0 if own(b, F('response')) else z3.BoolVal(False), I(s2.cell(F('buf_len'))) == slen(st.cell(F('response')).s), I(s2.cell(F('state'))) == 4)


def listening(s2, p, before=()):
    """registered for input (and woken up at once when bytes are already there)"""
    return trace(s2, *(list(before) + [reg('register', p, netm.INPUT)] + ([reg('fake', p, netm.INPUT)] if s2.ghost.get('pending') else [])))


def setup_xr(c):
    p, t, F = ssl_transport(c)
    n = c.E.fresh_of(c.st, ('i', 64), 'received')
    b = c.st.cell(F('read_buf_')).s
    c.st.assume(n > 0, n <= slen(b))
    c.st.put(F('response'), 32, StrV(EMPTY))
    return [p, t, slen(b), n]


def cases_xr(c, a):
    p, t, rl, n = a
    st = c.st
    F = lambda x: p.add(c.prog.off(HSS, x))
    eh = [i for i, b in st.blocks.items() if b.name == 'error header'][0]
    d = sub(st.cell(F('read_buf_')).s, 0, I(n))
    srv, ka = st.cell(F('server')), B(st.cell(F('keep_alive')))

    def post(E, s2, o):
        kam = B(s2.cell(F('keep_alive')))
        rd = lambda e: e[0] == 'read' and e[1] == d
        msg = outcome(s2, 'message')
        out = [('does not end', z3.Not(B(s2.cell(t))))]
        if msg is not None:
            conn = p.add(c.prog.off(HSS, 'server') - c.prog.off(CONN, 'server'))
            ex = lambda e: z3.And(same_ptr(E, s2, e[1], srv), same_ptr(E, s2, e[2], msg[1]), same_ptr(E, s2, e[3], conn)) if e[0] == 'execute' else False
            out += [('a message: executed once for this connection', trace(s2, rd, named('message'), ex)), ('keep-alive is the wish of the request', kam == msg[2])]
        elif events(s2, 'respond'):
            def resp(e):
                ok = e[0] == 'respond' and isinstance(e[2], Ptr) and e[2].base == eh
                return z3.And(z3.Not(B(e[4])), val_eq(e[3], StrV(EMPTY))) if ok else False
            out += [('an HTTP error: answered with that error, closing', trace(s2, rd, resp)), ('closes after the answer', z3.Not(kam))]
        elif events(s2, 'interim'):
            out += [('interim response requested: nothing else happens', trace(s2, rd, named('interim'))), ('the connection stays', kam)]
        else:
            out += [('incomplete: goes on receiving', z3.And(listening(s2, p, [rd]), pending(E, s2, F, st, 'receive'))), ('keep-alive unchanged', kam == ka)]
        return out
    return [Case(True, any_frame=True, anyret=True, post=post, label='received')]


def setup_xss(c):
    p, t, F = ssl_transport(c)
    return [p, t]


def cases_xss(c, a):
    p, t = a
    st = c.st
    F = lambda x: p.add(c.prog.off(HSS, x))
    ka = B(st.cell(F('keep_alive')))

    def post(E, s2, o):
        term = B(s2.cell(t))
        shut = bool(events(s2, 'register')) or not events(s2)
        return [('the response is done with', s2.cell(F('response')).s == EMPTY), ('keep-alive wish unchanged', B(s2.cell(F('keep_alive'))) == ka),
                ('keep-alive: waits for the next request', z3.Implies(ka, z3.And(listening(s2, p), pending(E, s2, F, st, 'receive'), z3.Not(term)))),
                ('no keep-alive: closes', z3.Implies(z3.Not(ka), z3.And(z3.Or(term, I(s2.cell(F('state'))) == 5), z3.BoolVal(len(events(s2)) <= 1), term == z3.BoolVal(not events(s2)))))]
    return [Case(True, any_frame=True, anyret=True, post=post, label='sent')]


def setup_xd(c):
    p, t, F = ssl_transport(c)
    return [p]


def cases_xd(c, a):
    p, st = a[0], c.st
    F = lambda x: p.add(c.prog.off(HSS, x))
    return [Case(True, any_frame=True, post=lambda E, s2, o: [('exactly the response text is set up for sending', pending(E, s2, F, st, 'send')), ('registered once', trace(s2, reg('register', p, netm.OUTPUT)))])]


def setup_pd(c):
    p, t = transport(c)
    return [p]


def cases_pdo(c, a):
    return [Case(True, any_frame=True, post=lambda E, s2, o: [('registered for sending once', trace(s2, reg('register', a[0], netm.OUTPUT)))])]


def setup_fin(c):
    p, t = transport(c)
    st = c.st
    F = lambda n: p.add(c.prog.off(HSC, n))
    r = F('preader')
    R_ = lambda n: r.add(c.prog.off(RDR, n))
    for n, sz, v in (('header_cache', 32, StrV(EMPTY)), ('content_cache', 32, StrV(EMPTY)), ('header', 8, NULL), ('ver_level_', 4, 0), ('constructed', 1, z3.BoolVal(False)), ('pkt_max_sz', 8, 0), ('total_sz', 8, 0), ('continue_sent_', 1, z3.BoolVal(False))):
        st.put(R_(n), sz, v)
    if c.variant == 'header read':
        h = header(c, REQ)
        st = c.st
        st.put(R_('header'), 8, h)
    for o in (F('sock').add(c.prog.off('iqnet::Socket', 'peer')), F('peer_addr')):
        st.put(o.add(8), 8, NULL)
        st.put(o.add(16), 8, NULL)
    st.ghost['ev'] = ()
    return [p]


def cases_fin(c, a):
    p, st = a[0], c.st
    fd = st.cell(p.add(c.prog.off(HSC, 'sock')).add(c.prog.off('iqnet::Socket', 'sock')))
    return [Case(True, any_frame=True, post=lambda E, s2, o: [('the connection is freed', not s2.blocks[p.base].alive), ('its socket is closed exactly once', trace(s2, lambda e: I(e[1]) == I(fd) if e[0] == 'shutdown' else False, lambda e: I(e[1]) == I(fd) if e[0] == 'close' else False))])]

"""C14: complete transmission under partial transfers (socket.cc, connection.cc, http_server.cc, http_client.cc, https_client.cc, ssl_connection.cc)"""
from ..srv import *
from .. import srv, sslm
from ..sslm import RC, SC, same_ptr

TUS = TR_TUS
EXTRA = CONN_EXTRA
SOCK = 'iqnet::Socket'
CLI, PRX, CC = 'iqxmlrpc::Http_client_connection', 'iqxmlrpc::Https_proxy_client_connection', 'iqxmlrpc::Client_connection'
STATES = {'reading': 3, 'writing': 4}


def engine(E):
    tr_engine(E)
    sslm.install(E)
    E.mexact[CC + '::read_response(std::string const&, bool)'] = m_response
    E._mcache = {}


# ---- the socket
def sock(c):
    st = c.st
    p = st.alloc(c.prog.size(SOCK), 'heap', 'socket', SOCK)
    fd = c.E.fresh_of(st, ('i', 32), 'descriptor')
    st.put(p.add(c.prog.off(SOCK, 'sock')), 4, fd)
    st.ghost['ev'] = ()
    return p


def setup_ss(c):
    p = sock(c)
    s = c.newstr(name='data')
    c.inp('data', c.str(s))
    c.st.assume(slen(c.str(s)) < netm.SMALL)
    return [p, models.data_ptr(s), slen(c.str(s))]


def cases_ss(c, a):
    data = c.str(a[1].base[1])
    fd = c.st.cell(a[0].add(c.prog.off(SOCK, 'sock')))

    def post(E, s2, o):
        if o.kind == 'throw':
            return [('raises only on failure', trace(s2, named('send_error'))), ('a network error', E.prog.derives(o.val.ti, E.prog.ti_of(netm.NETERR)))]
        ev = outcome(s2, 'sent')
        return [('one transfer of exactly these bytes', trace(s2, netm.sent(fd, data))), ('returns what was accepted', I(o.val) == ev[3] if ev else False)]
    return [Case(True, anyway=True, anyret=True, post=post, label='send')]


def setup_sr(c):
    p = sock(c)
    b = c.st.alloc(24, 'heap', 'buffer')
    s = fstr('buffer')
    c.st.assume(slen(s) > 0, slen(s) < netm.SMALL)
    c.st.put(b, 24, VecB(s))
    return [p, Ptr(('cd', b), 0, 0), slen(s)]


def cases_sr(c, a):
    b = a[1].base[1]
    old = c.st.cell(b).s

    def post(E, s2, o):
        if o.kind == 'throw':
            return [('raises only on failure', trace(s2, named('recv_error'))), ('a network error', E.prog.derives(o.val.ti, E.prog.ti_of(netm.NETERR)))]
        ev = outcome(s2, 'recv')
        if not ev:
            return [('returns only after a transfer', False)]
        d, now = ev[2], s2.cell(b).s
        return [('one transfer', trace(s2, named('recv'))), ('returns the number of bytes received', I(o.val) == slen(d)), ('they are at the start of the buffer', z3.And(sub(now, 0, slen(d)) == d, slen(now) == slen(old)))]
    return [Case(True, anyway=True, anyret=True, any_frame=True, post=post, label='receive')]


# ---- client connections
def m_response(E, st, a, rt, mod, dem):
    emit(st, 'read', models.S(E, st, a[1]), a[2])
    none, err = st.fork(), st.fork()
    p = st.alloc(E.prog.size(PKT), 'heap', 'answer', PKT)
    emit(st, 'message', p)
    return [models._out(none, 'ret', NULL), models._out(st, 'ret', p), models.throw(E, err, MAL)]


def client(c, cls):
    st = c.st
    p = st.alloc(c.prog.size(cls), 'heap', 'connection', cls)
    F = lambda n: p.add(c.prog.off(cls, n))
    st.blocks[p.base].exact = cls
    c.prog.put_vptrs(c.E, st, p, cls)
    fd = c.E.fresh_of(st, ('i', 32), 'descriptor')
    st.put(F('sock').add(c.prog.off(SOCK, 'sock')), 4, fd)
    st.put(F('reactor'), 8, netm.reactor(c))
    o = fstr('request')
    st.assume(slen(o) < netm.SMALL)
    c.inp('request', o)
    st.put(F('out_str'), 32, StrV(o))
    b = fstr('buffer')
    st.assume(slen(b) > 0, slen(b) < netm.SMALL)
    st.put(F('read_buf_'), 24, VecB(b))
    st.put(F('resp_packet'), 8, NULL)
    st.ghost['ev'] = ()
    t = st.alloc(1, 'heap', 'terminate')
    st.put(t, 1, z3.BoolVal(False))
    return [p, t]


def cases_co(cls):
    def cases(c, a):
        p, t = a
        F = lambda n: p.add(c.prog.off(cls, n))
        r = c.st.cell(F('out_str')).s
        fd = c.st.cell(F('sock').add(c.prog.off(SOCK, 'sock')))

        def post(E, s2, o):
            if o.kind == 'throw':
                return [('only a failed transfer raises', trace(s2, named('send_error'))), ('nothing is taken as sent', s2.cell(F('out_str')).s == r), ('error is a network error', E.prog.derives(o.val.ti, E.prog.ti_of(netm.NETERR)))]
            ev = outcome(s2, 'sent')
            if ev is None:
                return [('a failed transfer raises', False)]
            n, tr = ev[3], netm.sent(fd, r)
            return [('the rest and only the rest remains', s2.cell(F('out_str')).s == sub(r, n, slen(r) - n)),
                    ('some bytes left: goes on sending', z3.Implies(n < slen(r), trace(s2, tr))),
                    ('all sent: waits for the answer', z3.Implies(n == slen(r), trace(s2, tr, reg('unregister', p, netm.OUTPUT), reg('register', p, netm.INPUT)))), ('does not end', z3.Not(B(s2.cell(t))))]
        return [Case(True, any_frame=True, anyret=True, anyway=True, post=post, label='output')]
    return cases


def cases_ci(cls):
    def cases(c, a):
        p, t = a
        F = lambda n: p.add(c.prog.off(cls, n))

        def post(E, s2, o):
            ev, msg, read = outcome(s2, 'recv'), outcome(s2, 'message'), outcome(s2, 'read')
            rd = lambda e: e[0] == 'read' and e[1] == ev[2]
            if ev is None:
                return [('a failed transfer raises', z3.And(trace(s2, named('recv_error')), z3.BoolVal(o.kind == 'throw' and E.prog.derives(o.val.ti, E.prog.ti_of(netm.NETERR)))))]
            if o.kind == 'throw':
                net = E.prog.derives(o.val.ti, E.prog.ti_of(netm.NETERR))
                return [('raises only at the end of the stream or for a malformed answer', z3.Or(z3.And(slen(ev[2]) == 0, z3.BoolVal(bool(net)), trace(s2, named('recv'))), trace(s2, named('recv'), rd)))]
            out = [('the bytes received are read once', z3.And(slen(ev[2]) > 0, z3.BoolVal(len(events(s2, 'read', 'recv')) == 2), B(rd(read)) if read else z3.BoolVal(False)))]
            if msg is not None:
                out += [('answer complete: kept, and the connection is withdrawn', z3.And(trace(s2, named('recv'), rd, named('message'), lambda e: netm.is_reg(e, 'unregister_all', p)), same_ptr(E, s2, s2.cell(F('resp_packet')), msg[1])))]
            else:
                out += [('answer incomplete: goes on reading', z3.And(trace(s2, named('recv'), rd), same_ptr(E, s2, s2.cell(F('resp_packet')), NULL)))]
            return out
        return [Case(True, any_frame=True, anyret=True, anyway=True, post=post, label='input')]
    return cases


# ---- SSL
def setup_xs(c):
    p, F, s, so, sb, out, buf = sslm.ssl_conn(c, SC)
    c.st.ghost['ev'] = ()
    return [p, models.data_ptr(so), slen(out)] if c.variant == 'send' else [p, Ptr(('cd', sb), 0, 0), slen(buf)]


SSLX = lambda E, o: E.prog.derives(o.val.ti, E.prog.ti_of('iqnet::ssl::exception')) or E.prog.derives(o.val.ti, E.prog.ti_of(netm.NETERR))


def cases_xs(c, a):
    cell = c.st.cell(a[1].base[1]).s
    ssl = c.st.cell(a[0].add(c.prog.off(SC, 'ssl')))

    def post(E, s2, o):
        if o.kind == 'throw':
            return [('raises exactly when nothing was transferred', trace(s2, named('ssl_fail'), named('ssl_error'))), ('an SSL or network error', SSLX(E, o))]
        if c.variant == 'send':
            return [('everything was accepted', trace(s2, lambda e: z3.And(same_ptr(E, s2, e[1], ssl), e[2] == cell) if e[0] == 'ssl_sent' else False)), ('returns the length', I(o.val) == slen(cell))]
        ev = outcome(s2, 'ssl_recv')
        if not ev:
            return [('returns only after a transfer', False)]
        return [('one transfer', trace(s2, named('ssl_recv'))), ('returns the number of bytes received, never none', z3.And(I(o.val) == slen(ev[2]), slen(ev[2]) > 0)), ('they are at the start of the buffer', sub(s2.cell(a[1].base[1]).s, 0, slen(ev[2])) == ev[2])]
    return [Case(True, anyway=True, anyret=True, any_frame=True, post=post, label=c.variant)]


def setup_sw(c):
    p, F, s, so, sb, out, buf = sslm.ssl_conn(c)
    st = c.st
    st.put(F('state'), 4, STATES[c.variant])
    st.put(F('send_buf'), 8, models.data_ptr(so))
    st.put(F('recv_buf'), 8, Ptr(('cd', sb), 0, 0))
    st.put(F('buf_len'), 8, slen(out) if c.variant == 'writing' else slen(buf))
    st.ghost['ev'] = ()
    t = st.alloc(1, 'heap', 'terminate')
    st.put(t, 1, z3.BoolVal(False))
    return [p, t]


def cases_sw(kind):
    def cases(c, a):
        p, t = a
        F = lambda n: p.add(c.prog.off(RC, n))
        st = c.st
        wr = c.variant == 'writing'
        state = STATES[c.variant]
        out = st.cell(st.cell(F('send_buf')).base[1]).s
        want = 'send_succeed' if wr else 'recv_succeed'
        first = [reg('unregister', p, kind)]

        def kept(E, s2):
            """the pending transfer is as it was"""
            return z3.And(I(s2.cell(F('state'))) == state, same_ptr(E, s2, s2.cell(F('send_buf')), st.cell(F('send_buf'))), same_ptr(E, s2, s2.cell(F('recv_buf')), st.cell(F('recv_buf'))), I(s2.cell(F('buf_len'))) == I(st.cell(F('buf_len'))))

        def post(E, s2, o):
            err = outcome(s2, 'ssl_error')
            if o.kind == 'throw':
                return [('only a failed transfer raises', bool(events(s2, 'ssl_fail'))), ('and nothing was reported as transferred', not events(s2, want)), ('not for a transfer that can be continued', err is not None and err[1] not in (sslm.WREAD, sslm.WWRITE, sslm.ZERO))]
            if err is None:
                if wr:
                    tr = lambda e: e[2] == out if e[0] == 'ssl_sent' else False
                    done = named(want)
                else:
                    ev = outcome(s2, 'ssl_recv')
                    tr = named('ssl_recv')
                    done = lambda e: z3.And(I(e[4]) == slen(ev[2]), sub(s2.cell(st.cell(F('recv_buf')).base[1]).s, 0, slen(ev[2])) == ev[2]) if e[0] == want and ev else False
                return [('the whole transfer is done once, then reported once', trace(s2, *(first + [tr, done]))), ('nothing is pending', I(s2.cell(F('state'))) == 0)]
            if err[1] in (sslm.WREAD, sslm.WWRITE):
                m = netm.INPUT if err[1] == sslm.WREAD else netm.OUTPUT
                return [('the same transfer is tried again when the socket is ready', z3.And(kept(E, s2), trace(s2, *(first + [named('ssl_fail'), named('ssl_error'), reg('register', p, m)]))))]
            return [('peer closed: nothing was reported as transferred', not events(s2, want)), ('only the closing goes on', z3.Or(I(s2.cell(F('state'))) == 5, I(s2.cell(F('state'))) == 0))]
        return [Case(True, any_frame=True, anyret=True, anyway=True, post=post, label=c.variant)]
    return cases


def setup_rs(c):
    p, F, s, so, sb, out, buf = sslm.ssl_conn(c)
    c.st.ghost['ev'] = ()
    c.st.put(F('state'), 4, 0)
    c.st.put(F('send_buf'), 8, NULL)
    c.st.put(F('recv_buf'), 8, NULL)
    c.st.put(F('buf_len'), 8, 0)
    return [p, models.data_ptr(so), slen(out)] if c.variant == 'send' else [p, Ptr(('cd', sb), 0, 0), slen(buf)]


def cases_rs(which):
    def cases(c, a):
        p = a[0]
        F = lambda n: p.add(c.prog.off(RC, n))

        def post(E, s2, o):
            b = 'send_buf' if which == 'send' else 'recv_buf'
            ok = z3.And(same_ptr(E, s2, s2.cell(F(b)), a[1]), I(s2.cell(F('buf_len'))) == I(a[2]), I(s2.cell(F('state'))) == STATES['writing' if which == 'send' else 'reading'])
            tr = [reg('register', p, netm.OUTPUT if which == 'send' else netm.INPUT)]
            if which == 'recv' and s2.ghost.get('pending'):
                tr.append(reg('fake', p, netm.INPUT))
            return [('exactly this buffer is pending', ok), ('registered once', trace(s2, *tr))]
        return [Case(True, any_frame=True, post=post, label=which)]
    return cases


def setup_rsv(which):
    def f(c):
        c.variant = which
        return setup_rs(c)
    return f


def whole_lemma():
    """the invariant of a message in transit: what was accepted so far, followed by what remains, is the message"""
    m, done, rest = z3.Const('m', STR), z3.Const('done', STR), z3.Const('rest', STR)
    n = z3.Int('n')
    d2, r2 = cat(done, sub(rest, 0, n)), sub(rest, n, slen(rest) - n)
    return [('start', [], cat(EMPTY, m) == m),
            ('each transfer keeps it', [cat(done, rest) == m, n >= 0, n <= slen(rest)], cat(d2, r2) == m),
            ('nothing remains exactly when the whole message was accepted', [cat(done, rest) == m], (slen(rest) == 0) == (done == m))]


NOTE = ('Contracts on the socket calls, the input and output handlers of server and client connections and the SSL transfer state machine, discharged for all '
        'messages, transfer sizes and errors; the induction over transfers is a separate lemma. The battery runs the real handlers over a socket pair with small buffers.')
ASSUME = ['send and recv transfer a prefix of what they are given or fail with -1; messages are shorter than 2 GiB', 'SSL_write accepts everything or nothing (partial writes are not enabled), SSL_get_error is SSL_ERROR_NONE exactly for positive results',
          'the message reader is used through its contract (C07, C15)', 'memory allocation does not fail']


def replay(name, v):
    m = v.get('response') or v.get('request') or v.get('data') or ''
    k = '1' if str(v.get('keep', '')).lower() in ('true', '1') else '0'
    out = ['out %s %s' % (k, m or '-'), 'cli %s' % (m or '-')]
    for e in (32, 104, 110, 9):
        out += ['sock send %d' % e, 'sock recv %d' % e]
    return out


def contracts(P):
    return [
        Contract(SOCK + '::send(char const*, unsigned long)', setup_ss, cases_ss, level='property', use=False),
        Contract(SOCK + '::recv(char*, unsigned long)', setup_sr, cases_sr, level='property', use=False),
        Contract(HSC + '::handle_output(bool&)', setup_ho, cases_ho, level='property', use=False),
        Contract(HSC + '::handle_input(bool&)', setup_hi, cases_hi, level='property', use=False),
        Contract(CLI + '::handle_output(bool&)', lambda c: client(c, CLI), cases_co(CLI), level='property', use=False),
        Contract(CLI + '::handle_input(bool&)', lambda c: client(c, CLI), cases_ci(CLI), level='property', use=False),
        Contract(PRX + '::handle_output(bool&)', lambda c: client(c, PRX), cases_co(PRX), level='property', use=False),
        Contract(PRX + '::handle_input(bool&)', lambda c: client(c, PRX), cases_ci(PRX), level='property', use=False),
        Contract(SC + '::send(char const*, unsigned long)', setup_xs, cases_xs, level='property', use=False, variants=['send']),
        Contract(SC + '::recv(char*, unsigned long)', setup_xs, cases_xs, level='property', use=False, variants=['receive']),
        Contract(RC + '::handle_output(bool&)', setup_sw, cases_sw(netm.OUTPUT), level='property', use=False, variants=['writing', 'reading']),
        Contract(RC + '::handle_input(bool&)', setup_sw, cases_sw(netm.INPUT), level='property', use=False, variants=['writing', 'reading']),
        Contract(RC + '::reg_send(char const*, unsigned long)', setup_rsv('send'), cases_rs('send'), level='property', use=False),
        Contract(RC + '::reg_recv(char*, unsigned long)', setup_rsv('recv'), cases_rs('recv'), level='property', use=False),
        Lemma('the whole message, in order', whole_lemma),
    ]

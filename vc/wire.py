"""How a server's settings reach the message reader of a connection (C08, C09)."""
from .srv import *
from . import models
from .engine import Unsupported

ERR, TOO = N + '::Error_response', N + '::Request_too_large'


def m_rd(E, st, a, rt, mod, dem):
    """the reader's own contract: nothing yet, a message, a malformed one, or an HTTP error; recorded with the level and limit it has"""
    from .engine import Exc
    F = lambda n: a[0].add(E.prog.off(RDR, n))
    emit(st, 'reader', st.cell(F('ver_level_')), st.cell(F('pkt_max_sz')), models.S(E, st, a[1]))
    none, msg, bad, err = st.fork(), st.fork(), st.fork(), st
    emit(none, 'nothing')
    p = msg.alloc(E.prog.size(PKT), 'heap', 'request', PKT)
    hb = [i for i, b in msg.blocks.items() if b.name == 'request header'][0]
    msg.put(p.add(E.prog.off(PKT, 'header_')), 8, Ptr(hb, 0))
    emit(msg, 'message', p)
    m = bad.alloc(E.prog.size(MAL), 'heap', 'malformed', MAL)
    bad.blocks[m.base].exact = MAL
    emit(bad, 'malformed')
    e = err.alloc(E.prog.size(ERR), 'heap', 'http error', ERR)
    err.blocks[e.base].exact = TOO
    emit(err, 'refused', e)
    return [models._out(none, 'ret', NULL), models._out(msg, 'ret', p), models._out(bad, 'throw', Exc(m, E.prog.ti_of(MAL))), models._out(err, 'throw', Exc(e, E.prog.ti_of(TOO)))]


def wire_engine(E):
    conn_engine(E)
    E.mexact[RDR + '::read_request(std::string const&)'] = m_rd
    E._mcache = {}


def setup_wire(c):
    c.hcls = REQ
    s, i, lev, mx = server(c)
    p = connection(c, s)
    c.st.ghost['ev'] = ()
    r = p.add(c.prog.off(CONN, 'preader'))
    st = c.st
    for n, sz, v in (('header_cache', 32, StrV(EMPTY)), ('content_cache', 32, StrV(EMPTY)), ('header', 8, NULL), ('ver_level_', 4, c.E.fresh_of(st, ('i', 32), 'old_level')), ('constructed', 1, fbool('delivered')),
                     ('pkt_max_sz', 8, c.E.fresh_of(st, ('i', 64), 'old_limit')), ('total_sz', 8, c.E.fresh_of(st, ('i', 64), 'total')), ('continue_sent_', 1, fbool('continue_sent'))):
        st.put(r.add(c.prog.off(RDR, n)), sz, v)
    h = header(c, REQ, 'request header')
    c.st.assume(opts_of(c, h).has(sbytes('connection')))
    t = c.newstr(name='chunk')
    c.inp('limit', mx)
    c.inp('level', lev)
    return [p, t]


def cases_wire(c, a):
    """one read: the reader is asked once, with the server's level and limit as they are now and the whole chunk; what it says is passed on"""
    st = c.st
    i = st.cell(st.cell(a[0].add(c.prog.off(CONN, 'server'))).add(c.prog.off(SRV, 'impl')))
    lev, mx, t = I(st.cell(i.add(c.prog.off(IMPL, 'ver_level')))), I(st.cell(i.add(c.prog.off(IMPL, 'max_req_sz')))), c.str(a[1])

    def post(E, s2, o):
        rd = events(s2, 'reader')
        if not rd:
            raise Unsupported('the message reader is not asked through read_request')
        out = [('the reader is asked exactly once', len(rd) == 1)]
        if len(rd) != 1:
            return out
        out += [('with the verification level of the server', I(rd[0][1]) == lev), ('with the size limit of the server', I(rd[0][2]) == mx), ('about the whole chunk', rd[0][3] == t)]
        if events(s2, 'malformed'):
            out.append(('a malformed message is refused with status 400', o.kind == 'throw' and E.prog.derives(o.val.ti, E.prog.ti_of(N + '::Bad_request'))))
        elif events(s2, 'refused'):
            e = events(s2, 'refused')[0][1]
            out.append(('a refusal is passed on', o.kind == 'throw' and isinstance(o.val.ptr, Ptr) and o.val.ptr.base == e.base))
        elif events(s2, 'message'):
            out.append(('a message is passed on', o.kind == 'ret' and bool(isinstance(o.val, Ptr) and o.val.base == events(s2, 'message')[0][1].base)))
        else:
            out.append(('nothing is delivered', o.kind == 'ret' and bool(isinstance(o.val, Ptr) and o.val.isnull)))
        return out
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post, label='read')]


# ---- settings of the server and of the reader
def setup_srv(c):
    return [server(c)[0]]


def setup_srv_set(bits):
    def setup(c):
        s = server(c)[0]
        v = c.E.fresh_of(c.st, ('i', bits), 'value')
        c.inp('value', v)
        return [s, v]
    return setup


def impl_at(c, s, n):
    return c.st.cell(s.add(c.prog.off(SRV, 'impl'))).add(c.prog.off(IMPL, n))


def cases_get(n):
    return lambda c, a: [Case(True, ret=I(c.st.cell(impl_at(c, a[0], n))))]


def cases_set(n, sz):
    return lambda c, a: [Case(True, writes=[(impl_at(c, a[0], n), sz, I(a[1]))])]


def setup_rd_set(bits):
    def setup(c):
        p = c.st.alloc(c.prog.size(RDR), 'heap', 'reader', RDR)
        return [p, c.E.fresh_of(c.st, ('i', bits), 'value')]
    return setup


def cases_rd_set(n, sz):
    return lambda c, a: [Case(True, writes=[(a[0].add(c.prog.off(RDR, n)), sz, I(a[1]))])]


def wire_contracts(limit):
    """the read on a connection, what both transports do with a refusal, and the settings it takes from the server"""
    out = [Contract(CONN + '::read_request(std::string const&)', setup_wire, cases_wire, level='property', use=False, engine=wire_engine)]
    if limit:
        out += [Contract(SRV + '::set_max_request_sz(unsigned long)', setup_srv_set(64), cases_set('max_req_sz', 8), level='property', use=False, engine=conn_engine),
                Contract(SRV + '::get_max_request_sz() const', setup_srv, cases_get('max_req_sz'), level='property', use=False, engine=conn_engine),
                Contract(RDR + '::set_max_size(unsigned long)', setup_rd_set(64), cases_rd_set('pkt_max_sz', 8), level='property', use=False, engine=conn_engine)]
    else:
        out += [Contract(SRV + '::set_verification_level(%s::Verification_level)' % N, setup_srv_set(32), cases_set('ver_level', 4), level='property', use=False, engine=conn_engine),
                Contract(SRV + '::get_verification_level() const', setup_srv, cases_get('ver_level'), level='property', use=False, engine=conn_engine),
                Contract(RDR + '::set_verification_level(%s::Verification_level)' % N, setup_rd_set(32), cases_rd_set('ver_level_', 4), level='property', use=False, engine=conn_engine)]
    own = lambda f: lambda E: (f(E), E.mexact.pop(CONN + '::do_schedule_response()'))[0]
    return out + [Contract(HSC + '::handle_input(bool&)', setup_hi, cases_hi, level='property', use=False, engine=own(tr_engine)),
                  Contract(HSS + '::recv_succeed(bool&, unsigned long, unsigned long)', setup_xr, cases_xr, level='property', use=False, engine=own(ssl_engine))]

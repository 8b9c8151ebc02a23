"""C08: header parsing and validation (http.cc)"""
from ..httpm import *
from .. import httpm

TUS = ['http.cc', 'http_server.cc', 'https_server.cc', 'ssl_connection.cc', 'ssl_lib.cc', 'server_conn.cc', 'connection.cc', 'socket.cc', 'server.cc', 'http_client.cc', 'client_conn.cc']
EXTRA = """#include "libiqxmlrpc/server_conn.h"
"""
engine = httpm.engine
REFUSED = (MAL, N + '::Error_response')


# ---- validators
def setup_v(c):
    return [c.newstr(name='value')]


def cases_num(c, a):
    v = c.str(a[0])
    ok = z3.And(ALLDIG(v), ISU32(v))
    return [Case(ok, label='number'), Case(z3.Not(ok), throw=MAL, label='not a number')]


def cases_ct(c, a):
    ok = z3.Contains(lower(c.str(a[0])), sbytes('text/xml'))
    return [Case(ok, label='text/xml'), tnum(z3.Not(ok), 415)]


def cases_exp(c, a):
    ok = z3.PrefixOf(sbytes('100-continue'), lower(c.str(a[0])))
    return [Case(ok, label='100-continue'), tnum(z3.Not(ok), 417)]


# ---- options
def setup_soc(c):
    return [header(c), c.newstr(name='name'), c.newstr(name='value')]


def optp(c, p):
    return p.add(c.prog.off(HDR, 'options_'))


def cases_soc(c, a):
    n, v = c.str(a[1]), c.str(a[2])
    cl, ex, ct = valid(n, v, level(c, a[0]))
    m = opts_of(c, a[0])
    return [Case(z3.And(cl, ex, ct), writes=[(optp(c, a[0]), 48, m.put(n, v))], label='stored'),
            Case(z3.Not(cl), throw=MAL, label='bad length'), tnum(z3.Not(ex), 417), tnum(z3.Not(ct), 415)]


def cases_so(c, a):
    return [Case(True, writes=[(optp(c, a[0]), 48, opts_of(c, a[0]).put(c.str(a[1]), c.str(a[2])))])]


def cases_sod(c, a):
    m = opts_of(c, a[0])
    n = c.str(a[1])
    return [Case(m.has(n), label='kept'), Case(z3.Not(m.has(n)), writes=[(optp(c, a[0]), 48, m.put(n, c.str(a[2])))], label='default')]


def setup_h(c):
    return [header(c)]


def setup_hn(c):
    return [header(c), c.newstr(name='name')]


def cases_oe(c, a):
    return [Case(True, ret=opts_of(c, a[0]).has(c.str(a[1])))]


def cases_cl(c, a):
    m = opts_of(c, a[0])
    k = sbytes('content-length')
    v = m.get(k)
    boostm.numfacts(c.st, v, 'unsigned int')
    return [tnum(z3.Not(m.has(k)), 411), Case(z3.And(m.has(k), ISU32(v)), ret=U32(v), label='length'), Case(z3.And(m.has(k), z3.Not(ISU32(v))), throw=MAL, label='bad length')]


def cases_ka(c, a):
    m = opts_of(c, a[0])
    k = sbytes('connection')
    return [Case(m.has(k), ret=m.get(k) == sbytes('keep-alive'), label='flag'), Case(z3.Not(m.has(k)), throw=MAL, label='missing')]


def cases_ec(c, a):
    return [Case(True, ret=opts_of(c, a[0]).has(sbytes('expect')))]


def setup_ret(c):
    r = c.st.alloc(32, 'heap', 'result')
    return [r, header(c)]


def str_opt(key):
    def cases(c, a):
        m = opts_of(c, a[1])
        k = sbytes(key)
        return [Case(m.has(k), writes=[(a[0], 32, StrV(m.get(k)))], label='text'), Case(z3.Not(m.has(k)), throw=MAL, label='missing')]
    return cases


# ---- construction
def setup_ctor(c):
    p = c.st.alloc(c.prog.size(REQ), 'heap', 'header', HDR)
    lev = c.E.fresh_of(c.st, ('i', 32), 'level')
    c.st.assume(z3.Or(lev == 0, lev == 1))
    return [p, lev]


def cases_ctor(c, a):
    oo = c.prog.off(HDR, 'options_')
    want = containers.empty_map(OPT).put(sbytes('connection'), sbytes('close'))

    def post(E, st, o):
        m = st.blocks[a[0].base].cells.get(oo)
        return [('options are the defaults', want.eq(m[1]) if m else False)]
    return [Case(True, post=post, any_frame=True, label='defaults')]


# ---- parse: specification of the option list after i lines
LINES, LINE = tokens('of_0d0a_c')
POK = z3.Function('PARSE_OK', STR, INT, INT, BOOL)                     # text, level, number of option lines read
PP = z3.Function('PARSE_P', STR, INT, INT, z3.ArraySort(STR, BOOL), z3.ArraySort(STR, STR), z3.ArraySort(STR, BOOL))
PV = z3.Function('PARSE_V', STR, INT, INT, z3.ArraySort(STR, BOOL), z3.ArraySort(STR, STR), z3.ArraySort(STR, STR))


def line_parts(s, i):
    """name, value, has-colon of line i"""
    t = LINE(s, i)
    j = z3.IndexOf(t, sbytes(':'), z3.IntVal(0))
    return lower(trim(sub(t, 0, j))), trim(sub(t, j + 1, slen(t) - j - 1)), j >= 0


LOK = z3.Function('LINE_OK', STR, INT, INT, BOOL)


def line_ok(st, s, lev, i):
    """definition of LOK(s, lev, i)"""
    n, v, has = line_parts(s, i)
    st.assume(LOK(s, lev, i) == z3.And(has, *valid(n, v, lev)))


ALLOK = z3.Function('all_lines_ok', STR, INT, z3.BoolSort())


def all_ok(s, lev, st=None):
    """every option line is valid; named so that callers need no quantifier (the definition is assumed where a text is an input)"""
    if st is not None and z3.is_const(s):
        st.assume(ALLOK(s, lev) == all_ok_def(s, lev))
    return ALLOK(s, lev)


def all_ok_def(s, lev):
    k = z3.Int(fresh_name('k'))
    return z3.ForAll([k], z3.Implies(z3.And(k >= 1, k < LINES(s)), LOK(s, lev, k)), patterns=[LOK(s, lev, k)])


def unfold(st, s, lev, m, k):
    """definition of the option list after k+1 option lines from the one after k (lines 1..)"""
    n, v, has = line_parts(s, k + 1)
    P, V_ = m.pres, m.vals[0]
    line_ok(st, s, lev, k + 1)
    st.assume(PP(s, lev, 0, P, V_) == P, PV(s, lev, 0, P, V_) == V_)
    st.assume(PP(s, lev, k + 1, P, V_) == z3.Store(PP(s, lev, k, P, V_), n, z3.BoolVal(True)))
    st.assume(PV(s, lev, k + 1, P, V_) == z3.Store(PV(s, lev, k, P, V_), n, v))


def setup_parse(c):
    p = header(c)
    s = c.newstr(name='text')
    return [p, s]


def ndone(s):
    return LINES(s) - 1


def cases_parse(c, a):
    s, lev, m = c.str(a[1]), level(c, a[0]), opts_of(c, a[0])
    P, V_ = m.pres, m.vals[0]
    c.st.assume(LINES(s) >= 1)
    allok = all_ok(s, lev, c.st)
    hl = a[0].add(c.prog.off(HDR, 'head_line_'))

    cs = [Case(allok, writes=[(hl, 32, StrV(LINE(s, z3.IntVal(0)))), (optp(c, a[0]), 48, MapV(m.kkind, m.schema, PP(s, lev, ndone(s), P, V_), (PV(s, lev, ndone(s), P, V_),)))], label='accepted')]
    cs.append(Case(z3.Not(allok), throw=REFUSED, any_frame=True, label='refused'))
    return cs


def cand_parse(L):
    """loop over the lines"""
    out = []
    E0 = L.entry
    for bid, b in E0.blocks.items():
        if b.name != 'text':
            continue
        s = b.cells[0][1].s
        hb = [x for x in E0.blocks.values() if x.name == 'header'][0]
        prog = L.E.prog
        lev = I(hb.cells[prog.off(HDR, 'ver_level_')][1])
        oo = prog.off(HDR, 'options_')
        m0 = None
        for nm, loc, v in L.maps:
            m0, mloc = v, loc
        if m0 is None:
            continue
        P, V_ = m0.pres, m0.vals[0]
        for n2, g, x0 in L.ints:
            d = lambda st, g=g, x0=x0: g(st) - x0

            def inv(st, d=d):
                k = d(st)
                unfold(st, s, lev, m0, k)
                m = mloc.get(st)
                return z3.And(m.pres == PP(s, lev, k, P, V_), m.vals[0] == PV(s, lev, k, P, V_))

            def inv_prev(st, d=d):
                k = d(st)
                unfold(st, s, lev, m0, k - 1)
                m = mloc.get(st)
                return z3.And(m.pres == PP(s, lev, k, P, V_), m.vals[0] == PV(s, lev, k, P, V_))
            out.append(('options after the lines read', lambda st, d=d, inv=inv: (unfold(st, s, lev, m0, d(st) - 1), inv(st))[1]))
            j = z3.Int('j!p')
            out.append(('lines read were valid', lambda st, d=d: z3.ForAll([j], z3.Implies(z3.And(j >= 1, j <= d(st)), LOK(s, lev, j)), patterns=[LOK(s, lev, j)])))
    return out


CANDS = [cand_parse]


# ---- request header
WORDS, WORD = tokens('space_c')


def defaults(m, kv):
    """options not yet present get a default"""
    P, V_ = m.pres, m.vals[0]
    for k, v in kv:
        k, v = sbytes(k), sbytes(v)
        P, V_ = z3.Store(P, k, z3.BoolVal(True)), z3.Store(V_, k, z3.If(z3.Select(P, k), z3.Select(V_, k), v))
    return MapV(m.kkind, m.schema, P, (V_,))


def parsed(s, lev):
    m = containers.empty_map(OPT).put(sbytes('connection'), sbytes('close'))
    P, V_ = m.pres, m.vals[0]
    return MapV(m.kkind, m.schema, PP(s, lev, ndone(s), P, V_), (PV(s, lev, ndone(s), P, V_),))


def setup_rsp(c):
    p = c.st.alloc(c.prog.size(RSP), 'heap', 'header', RSP)
    lev = c.E.fresh_of(c.st, ('i', 32), 'level')
    c.st.assume(z3.Or(lev == 0, lev == 1))
    return [p, lev, c.newstr(name='text')]


def cases_rsp(c, a):
    lev, s = I(a[1]), c.str(a[2])
    c.st.assume(LINES(s) >= 1)
    allok = all_ok(s, lev, c.st)
    h = LINE(s, z3.IntVal(0))
    c.st.assume(WORDS(h) >= 1)
    w = WORD(h, z3.IntVal(1))
    boostm.numfacts(c.st, w, 'int')
    code = z3.If(ISI32(w), z3.If(I32(w) < 0, I32(w) + (1 << 32), I32(w)), z3.IntVal(0))
    fin = defaults(parsed(s, lev), [('server', 'unknown')])

    def effect(E, st):
        st.put(a[0], 8, E.prog.vptr_for(E, st, RSP))
        st.blocks[a[0].base].exact = RSP
        st.put(a[0].add(E.prog.off(HDR, 'ver_level_')), 4, lev)
        st.put(a[0].add(E.prog.off(HDR, 'head_line_')), 32, StrV(h))
        st.put(a[0].add(E.prog.off(HDR, 'validators_')), 48, ListV(()))
    wr = [(a[0].add(c.prog.off(HDR, 'options_')), 48, fin), (a[0].add(c.prog.off(RSP, 'code_')), 4, code),
          (a[0].add(c.prog.off(RSP, 'phrase_')), 32, StrV(z3.If(WORDS(h) > 2, WORD(h, z3.IntVal(2)), EMPTY)))]
    return [Case(z3.And(allok, WORDS(h) >= 2), writes=wr, effect=effect, any_frame=True, label='accepted'),
            Case(z3.And(allok, WORDS(h) < 2), throw=MAL, any_frame=True, label='no status'),
            Case(z3.Not(allok), throw=REFUSED, any_frame=True, label='refused')]


def setup_req(c):
    p = c.st.alloc(c.prog.size(REQ), 'heap', 'header', REQ)
    lev = c.E.fresh_of(c.st, ('i', 32), 'level')
    c.st.assume(z3.Or(lev == 0, lev == 1))
    return [p, lev, c.newstr(name='text')]


def cases_req(c, a):
    lev, s = I(a[1]), c.str(a[2])
    c.st.assume(LINES(s) >= 1)
    allok = all_ok(s, lev, c.st)
    h = LINE(s, z3.IntVal(0))
    c.st.assume(WORDS(h) >= 1)
    post_ = WORD(h, z3.IntVal(0)) == sbytes('POST')
    p2 = parsed(s, lev)
    fin = defaults(p2, [('host', ''), ('user-agent', 'unknown')])
    uri = z3.If(WORDS(h) > 1, WORD(h, z3.IntVal(1)), EMPTY)

    def effect(E, st):
        st.put(a[0], 8, E.prog.vptr_for(E, st, REQ))
        st.blocks[a[0].base].exact = REQ
        st.put(a[0].add(E.prog.off(HDR, 'ver_level_')), 4, lev)
        st.put(a[0].add(E.prog.off(HDR, 'head_line_')), 32, StrV(h))
        st.put(a[0].add(E.prog.off(HDR, 'validators_')), 48, ListV(()))
    wr = [(a[0].add(c.prog.off(HDR, 'options_')), 48, fin), (a[0].add(c.prog.off(REQ, 'uri_')), 32, StrV(uri))]
    return [Case(z3.And(allok, post_), writes=wr, effect=effect, any_frame=True, label='accepted'),
            tnum(z3.And(allok, z3.Not(post_)), 405),
            Case(z3.Not(allok), throw=REFUSED, any_frame=True, label='refused')]


NOTE = ('Contracts on header validation, option storage, header parsing and both header constructors, discharged for all header blocks; boost string '
        'algorithms are specification functions. The battery replays header blocks on the real code.')
# THEOREM: Header::parse stores exactly the trimmed, lower-cased options of the lines, last one winning, and refuses on the first bad line
# THEOREM: Request_header refuses with 405 unless the first word is POST, otherwise its URI and options are those of the text
ASSUME = ['Response_header::current_date (boost date_time formatting) returns some string', 'boost::split, trim, to_lower, all(is_digit) and lexical_cast are specification functions (their results are named, not computed)', 'memory allocation does not fail']


def replay(name, v):
    hx = lambda s: s.encode().hex()
    out = []
    for lev in '01':
        if 'text' in v:
            out += ['req %s %s' % (lev, v['text'] or '-'), 'rsp %s %s' % (lev, v['text'] or '-')]
        for opt in (('content-length', 'expect', 'content-type', 'x', 'connection', 'host', 'user-agent') if 'value' in v else ()):
            out.append('req %s %s%s' % (lev, hx('POST / HTTP/1.0\r\n%s: ' % opt), v['value']))
    return out


def contracts(P):
    from .. import wire
    H = HDR
    so = H + '::set_option(std::string const&, std::string const&)'
    sod = H + '::set_option_default(std::string const&, std::string const&)'
    return [
        Contract(N + '::validator::unsigned_number(std::string const&)', setup_v, cases_num, level='property', use=False),
        Contract(N + '::validator::content_type(std::string const&)', setup_v, cases_ct, level='property', use=False),
        Contract(N + '::validator::expect_continue(std::string const&)', setup_v, cases_exp, level='property', use=False),
        Contract(H + '::Header(%s::Verification_level)' % N, setup_ctor, cases_ctor, level='property', use=False),
        Contract(so, setup_soc, cases_so, level='property', use=False),
        Contract(sod, setup_soc, cases_sod, level='property', use=False),
        Contract(H + '::set_option_checked(std::string const&, std::string const&)', setup_soc, cases_soc, level='property'),
        Contract(H + '::option_exists(std::string const&) const', setup_hn, cases_oe, level='property', use=False),
        Contract(H + '::content_length() const', setup_h, cases_cl, level='property', use=False),
        Contract(H + '::conn_keep_alive() const', setup_h, cases_ka, level='property', use=False),
        Contract(H + '::expect_continue() const', setup_h, cases_ec, level='property', use=False),
        Contract(REQ + '::host() const', setup_ret, str_opt('host'), level='property', use=False),
        Contract(REQ + '::agent() const', setup_ret, str_opt('user-agent'), level='property', use=False),
        Contract(H + '::parse(std::string const&)', setup_parse, cases_parse, level='property', weight=5),
        Contract(REQ + '::Request_header(%s::Verification_level, std::string const&)' % N, setup_req, cases_req, level='property', weight=5),
        Contract(RSP + '::Response_header(%s::Verification_level, std::string const&)' % N, setup_rsp, cases_rsp, level='property', weight=5),
    ] + wire.wire_contracts(False)

"""C11: the authentication gate (server.cc, http.cc)"""
from ..sexec import *
from . import c01

TUS = SX_TUS + ['value_type.cc']
EXTRA = SX_EXTRA + c01.EXTRA
engine = sx_engine
CANDS = [cand_kept]
KEY = sbytes('authorization')
UNAUTH = N + '::Unauthorized'
# of an authorization text: is it 'Basic' and one token; is the token base64; the user; the password
BASIC, CLEAN = z3.Function('auth_basic', STR, BOOL), z3.Function('auth_base64', STR, BOOL)
USER, PASS = z3.Function('auth_user', STR, STR), z3.Function('auth_password', STR, STR)
NT, TK = tokens('of_2009')


def define(c, s):
    st = c.st
    ts = z3.Function('TOKS_of_2009', STR, z3.ArraySort(INT, STR))(s)
    t0, t1 = z3.Select(ts, 0), z3.Select(ts, 1)
    c.applying = True
    mal, o = c01.decoded(c, t1)
    i = z3.IndexOf(o, sbytes(':'), z3.IntVal(0))
    st.assume(slen(o) < MAXLEN, i < slen(o), i >= -1)
    st.assume(BASIC(s) == z3.And(NT(s) == 2, lower(t0) == sbytes('basic')), CLEAN(s) == z3.Not(mal),
              USER(s) == sub(o, 0, z3.If(i < 0, slen(o), i)), PASS(s) == z3.If(i < 0, EMPTY, sub(o, i + 1, slen(o) - i - 1)))


def setup_ga(c):
    h = header(c)
    u, p = c.newstr(name='user'), c.newstr(name='password')
    m = opts_of(c, h)
    c.inp('authorization', m.get(KEY))
    return [h, u, p]


def make_ga():
    def cases(c, a):
        m = opts_of(c, a[0])
        s = m.get(KEY)
        if k.under_proof:
            define(c, s)
        has = m.has(KEY)
        return [tnum(z3.Or(z3.Not(has), z3.Not(BASIC(s))), 401),
                Case(z3.And(has, BASIC(s), z3.Not(CLEAN(s))), throw=c01.BD + '::Malformed_base64', any_frame=True, label='not base64', build=built(c01.BD + '::Malformed_base64')),
                Case(z3.And(has, BASIC(s), CLEAN(s)), writes=[(a[1], 32, StrV(USER(s))), (a[2], 32, StrV(PASS(s)))], label='credentials')]
    k = Contract(REQ + '::get_authinfo(std::string&, std::string&) const', setup_ga, cases, level='property')
    return k


def setup_sa(c):
    h = header(c)
    u, p = c.newstr(name='user'), c.newstr(name='password')
    c.inp('user', c.str(u))
    c.inp('password', c.str(p))
    return [h, u, p]


def cases_sa(c, a):
    m = opts_of(c, a[0])
    d = z3.Concat(c.str(a[1]), sbytes(':'), c.str(a[2]))
    return [Case(True, writes=[(a[0].add(c.prog.off(HDR, 'options_')), 48, m.put(KEY, z3.Concat(sbytes('Basic '), c01.ENC(c.st, d, slen(d)))))], label='Basic and the base64 text of user:password')]


def setup_ap(c):
    st = c.st
    ap = st.alloc(8, 'heap', 'plugin', AUTH)
    st.blocks[ap.base].exact = None
    st.put(ap, 8, Ptr(('vt', AUTH), 0))
    st.ghost['ev'] = ()
    return [ap, c.newstr(name='user'), c.newstr(name='password')]


def cases_ap(c, a):
    u, p = c.str(a[1]), c.str(a[2])

    def post(E, s2, o):
        ev = events(s2)
        if o.kind == 'throw':
            return [('only the plugin raises', len(ev) == 1 and ev[0][0] == 'raise')]
        return [('asked once with these credentials', trace(s2, lambda e: z3.And(e[1] == u, e[2] == p) if e[0] == 'authenticate' else False)),
                ('its verdict is returned', B(o.val) == ev[0][3] if ev and ev[0][0] == 'authenticate' else False)]
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


def cases_aa(c, a):
    def post(E, s2, o):
        ev = events(s2)
        if o.kind == 'throw':
            return [('only the plugin raises', len(ev) == 1 and ev[0][0] == 'raise')]
        return [('asked once', trace(s2, named('anonymous'))), ('its verdict is returned', B(o.val) == ev[0][1] if ev and ev[0][0] == 'anonymous' else False)]
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


def answered_401(E, s2, p):
    """the only answer on this connection is a 401 message"""
    ev = events(s2, 'respond')
    if len(ev) != 1 or not isinstance(ev[0][2], Ptr):
        return False
    h = ev[0][2]
    c = s2.blocks[h.base].cells.get(h.off + E.prog.off(RSP, 'code_'))
    return z3.And(I(c[1]) == 401, same_ptr(E, s2, ev[0][1], p)) if c else False


def cases_ex(c, a):
    p = a[2]
    pk = srv_parts(c, a[1])
    m = opts_of(c, pk[1])
    s, has = m.get(KEY), m.has(KEY)
    gate = c.variant == 'plugin'

    def post(E, s2, o):
        ev = events(s2)
        names = [e[0] for e in ev]
        out = []
        asked = [e for e in ev if e[0] in ('authenticate', 'anonymous')]
        ran = 'execute' in names
        work = [e for e in names if e in ('parse', 'method', 'executor', 'execute')]
        if o.kind == 'throw':
            return [('nothing is raised to the caller', False)]
        if not gate:
            return [('no plugin: nobody is asked', not asked)] + ([('the method has no user name', e[5] == EMPTY) for e in ev if e[0] == 'execute'])
        refused = [e for e in ev if e[0] == 'raise' and e[1] == 'plugin']
        if refused:
            return [('nothing is parsed or run when the plugin fails', not work)]
        if not asked:
            return [('nobody asked: only for credentials that are not readable', z3.And(has, z3.Or(z3.Not(BASIC(s)), z3.Not(CLEAN(s))))), ('nothing is parsed or run', not work),
                    ('not Basic: answered 401', z3.Implies(z3.And(has, z3.Not(BASIC(s))), B_(answered_401(E, s2, p))))]
        e = asked[0]
        out.append(('asked exactly once, first', len(asked) == 1 and names[0] == e[0]))
        if e[0] == 'authenticate':
            out.append(('asked about the credentials of the request', z3.And(has, BASIC(s), CLEAN(s), e[1] == USER(s), e[2] == PASS(s))))
        else:
            out.append(('anonymous only without credentials', z3.Not(has)))
        v = B(e[-1])
        if work:
            out.append(('parsed and run only when accepted', v))
        out.append(('refused: answered 401 and nothing parsed or run', z3.Implies(z3.Not(v), z3.And(B_(answered_401(E, s2, p)), z3.BoolVal(not work)))))
        for x in ev:
            if x[0] == 'execute':
                out.append(('the method sees the accepted name', x[5] == (USER(s) if e[0] == 'authenticate' else EMPTY)))
        return out
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


def B_(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def srv_parts(c, p):
    from . import c10
    return c10.parts(c, p)


def contracts(P):
    return [
        make_ga(),
        Contract(REQ + '::set_authinfo(std::string const&, std::string const&)', setup_sa, cases_sa, level='property'),
        Contract(AUTH + '::authenticate(std::string const&, std::string const&) const', setup_ap, cases_ap, level='property', use=False),
        Contract(AUTH + '::authenticate_anonymous() const', setup_ap, cases_aa, level='property', use=False),
        Contract(SRV + '::schedule_execute(iqxmlrpc::http::Packet*, iqxmlrpc::Server_connection*)', setup_ex, cases_ex, level='property', use=False, variants=['plugin', 'no plugin']),
    ] + given('C20', (k for k in xcontracts() if 'get_xheaders' in k.name)) + given('C01', (k for k in c01.contracts(P) if not isinstance(k, Lemma)))


NOTE = ('Contracts on reading and writing the authorization option, the plugin entry points and the execution of a request with and without a plugin, discharged for all headers, '
        'verdicts and failures. The battery sends raw requests and real client calls to a real server with a plugin.')
# THEOREM: Server::schedule_execute parses and runs nothing unless the plugin accepted what the request carried
ASSUME = ['plugins, dispatchers, executors and methods are arbitrary: they return any value or raise any exception', 'a plugin keeps its hands off library objects', 'boost::split and to_lower are specification functions', 'memory allocation does not fail']


def replay(name, v):
    out = ['anon 000', 'anon 010', 'anon 100', 'mixed ara', 'early 0', 'early 1', 'noplugin -']
    if 'authorization' in v:
        h = v['authorization'] or '-'
        out += ['raw %s %s' % (k, h) for k in ('000', '100', '010', '110')]
    if 'user' in v and 'password' in v:
        out.append('codec %s %s' % (v['user'] or '-', v['password'] or '-'))
    return out

"""C19: TLS set-up and results of TLS operations (ssl_lib.cc, ssl_connection.cc, https_server.cc, https_client.cc)

What a user of the library does is written as small client functions below; the obligations are about what the library's code does when they run."""
from ..srv import *
from .. import srv, sslm, netm, iosm, models, sexec
from ..sslm import RC, SC, same_ptr
from ..netm import INPUT, OUTPUT, NETERR
from ..models import _out
from ..sexec import raised
from ..core import FnPtr

SX = 'iqnet::ssl'
CV, CTX = SX + '::ConnectionVerifier', SX + '::Ctx'
TUS = TR_TUS
EXTRA = sexec.SX_EXTRA + """
#include "libiqxmlrpc/ssl_connection.h"
extern "C" {
void vh_begun(void*); void vh_accepted(void*); void vh_connected(void*); void vh_received(void*, size_t, size_t); void vh_sent(void*);
}
namespace vh {
struct Verifier: iqnet::ssl::ConnectionVerifier { int do_verify(bool, X509_STORE_CTX*) const; };
int Verifier::do_verify(bool, X509_STORE_CTX*) const { return 0; }
void use() { Verifier v; }
iqnet::ssl::Ctx* make(int kind, const std::string& cert, const std::string& key)
{
  return kind == 0 ? iqnet::ssl::Ctx::client_only() : kind == 1 ? iqnet::ssl::Ctx::server_only(cert, key) : iqnet::ssl::Ctx::client_server(cert, key);
}
SSL_CTX* context(int kind, const std::string& cert, const std::string& key) { return make(kind, cert, key)->context(); }
void verification(int kind, const std::string& cert, const std::string& key, iqnet::ssl::ConnectionVerifier* sv, bool req, iqnet::ssl::ConnectionVerifier* cv, SSL* s, bool server)
{
  iqnet::ssl::Ctx* c = make(kind, cert, key);
  if (sv) c->verify_server(sv);
  if (cv || req) c->verify_client(req, cv);
  c->prepare_verify(s, server);
}
int verdict(int kind, const std::string& cert, const std::string& key, iqnet::ssl::ConnectionVerifier* v, bool req, SSL* s, bool server, int ok, X509_STORE_CTX* x)
{
  verification(kind, cert, key, server ? 0 : v, req, server ? v : 0, s, server);
  return SSL_get_verify_callback(s)(ok, x);
}
struct Conn: iqnet::ssl::Reaction_connection {
  typedef iqnet::ssl::Reaction_connection R;
  Conn(const iqnet::Socket& s): R(s) {}
  void accept_succeed() { vh_accepted(this); }
  void connect_succeed() { vh_connected(this); }
  void recv_succeed(bool&, size_t a, size_t b) { vh_received(this, a, b); }
  void send_succeed(bool&) { vh_sent(this); }
  bool begin(int what, const char* s, char* r, size_t n)
  {
    switch (what) {
      case 0: R::post_accept(); return false;
      case 1: R::post_connect(); return false;
      case 2: reg_send(s, n); return false;
      case 3: reg_recv(r, n); return false;
      default: return reg_shutdown();
    }
  }
};
void use2(const iqnet::Socket& s) { new Conn(s); }
bool step(Conn* c, int what, const char* s, char* r, size_t n, bool out, bool& terminate)
{
  if (c->begin(what, s, r, n)) return true;
  vh_begun(c);
  if (out) c->handle_output(terminate); else c->handle_input(terminate);
  return false;
}
}
"""
KINDS = ('client only', 'server only', 'client and server')
VARS = {'%s, %s' % (KINDS[k], ('no verifier', 'verifier of servers', 'verifier of clients', 'both verifiers')[s + 2 * v]): (k, s, v) for k, s, v in ((0, 0, 0), (0, 1, 0), (1, 0, 0), (1, 0, 1), (2, 1, 1), (2, 1, 0), (2, 0, 1))}
NO_SSL3 = 1 << 25
PEER, NEED = 1, 2
CODES = (sslm.NONE, sslm.SSLERR, sslm.WREAD, sslm.WWRITE, sslm.X509, sslm.SYSCALL, sslm.ZERO, 7)
CLOSE, NREAD, NWRITE, IOERR, SSLX, NOTINIT = [SX + '::' + x for x in ('connection_close', 'need_read', 'need_write', 'io_error', 'exception', 'not_initialized')]


# ---- OpenSSL
def m_ctxnew(E, st, a, rt, mod, dem):
    p = st.alloc(8, 'heap', 'ssl context')
    st.ghost['ctx'], st.ghost['kind'], st.ghost['opts'], st.ghost['minv'] = p, a[0], 0, 0
    return p


def m_method(kind):
    return lambda E, st, a, rt, mod, dem: Ptr(('vt', kind), 0)


def m_setopts(E, st, a, rt, mod, dem):
    E.prove(st, same_ptr(E, st, a[0], st.ghost['ctx']), 'options of this context', 'post')
    if not isinstance(a[1], int):
        raise Unsupported('context options')
    st.ghost['opts'] |= a[1]
    return st.ghost['opts']


def m_clropts(E, st, a, rt, mod, dem):
    if not isinstance(a[1], int):
        raise Unsupported('context options')
    st.ghost['opts'] &= ~a[1]
    return st.ghost['opts']


def m_ctrl(E, st, a, rt, mod, dem):
    if a[1] == 123 and isinstance(a[2], int):            # minimal protocol version
        st.ghost['minv'] = a[2]
        return 1
    raise Unsupported('SSL_CTX_ctrl %r' % (a[1],))


def m_load(name):
    """certificate, key, and whether they belong together"""
    def f(E, st, a, rt, mod, dem):
        bad = st.fork()
        arg = (models.cstr_of(E, st, a[1]),) if len(a) > 1 else ()
        emit(bad, name + '_bad', a[0], *arg)
        emit(st, name, a[0], *arg)
        return [_out(bad, 'ret', 0), _out(st, 'ret', 1)]
    return f


def m_setverify(E, st, a, rt, mod, dem):
    E.prove(st, same_ptr(E, st, a[0], st.ghost['ssl']), 'set up for this connection', 'post')
    st.ghost['verify'] = (a[1], a[2])


def m_setex(E, st, a, rt, mod, dem):
    E.prove(st, same_ptr(E, st, a[0], st.ghost['ssl']), 'set up for this connection', 'post')
    st.ghost['ex'] = (a[1], a[2])
    return 1


def m_getex(E, st, a, rt, mod, dem):
    i, v = st.ghost['ex']
    E.prove(st, z3.And(same_ptr(E, st, a[0], st.ghost['ssl']), I(a[1]) == I(i)), 'what was kept with this connection', 'post')
    return v


def m_getcb(E, st, a, rt, mod, dem):
    return st.ghost['verify'][1]


def m_storeidx(E, st, a, rt, mod, dem):
    return st.ghost['store_idx']


def m_storeex(E, st, a, rt, mod, dem):
    E.prove(st, z3.And(same_ptr(E, st, a[0], st.ghost['store']), I(a[1]) == I(st.ghost['store_idx'])), 'the connection being verified', 'post')
    return st.ghost['ssl']


def m_doverify(E, st, a, rt, mod, dem):
    emit(st, 'asked', *a)
    bad = st.fork()
    emit(bad, 'verifier raised')
    r = E.fresh_of(st, ('i', 32), 'verdict')
    emit(st, 'verdict', r)
    return [_out(st, 'ret', r)] + raised(E, bad, 'verifier')


DIG = z3.Function('digest', z3.IntSort(), STR)
HEXF = z3.Function('hex digits', STR, z3.IntSort(), STR)


def m_digest(E, st, a, rt, mod, dem):
    E.prove(st, same_ptr(E, st, a[0], st.ghost['cert']), 'of the certificate being verified', 'post')
    E.prove(st, st.ghost.get('md') is not None and same_ptr(E, st, a[1], st.ghost['md']), 'SHA-256', 'post')
    d = st.ghost['digest']                        # the digest, followed by anything
    n = 32
    if isinstance(a[2], Ptr) and isinstance(a[2].base, int) and isinstance(a[2].off, int):
        n = max([32] + [sz for o, (sz, v) in st.blocks[a[2].base].cells.items() if o == a[2].off])
    st.assume(slen(d) == n)
    models.put_bytes(E, st, a[2], d, n)
    if not (isinstance(a[3], Ptr) and a[3].isnull):
        st.put(a[3], 4, 32)
    return 1


def m_md(E, st, a, rt, mod, dem):
    if a:
        nm = z3.simplify(models.cstr_of(E, st, a[0]))
        if not z3.simplify(nm == sbytes(b'sha256')).eq(z3.BoolVal(True)) and not z3.simplify(nm == sbytes(b'SHA256')).eq(z3.BoolVal(True)):
            return st.alloc(8, 'heap', 'other digest')
    if 'md' not in st.ghost:
        st.ghost['md'] = st.alloc(8, 'heap', 'sha256')
    return st.ghost['md']


def m_shutget(E, st, a, rt, mod, dem):
    if 'shut' in st.ghost:
        return st.ghost['shut']
    return sslm.m_get_shutdown(E, st, a, rt, mod, dem)


def forget(f, val=None):
    """the operation may change what was sent and received of the closing"""
    def g(E, st, a, rt, mod, dem):
        st.ghost.pop('shut', None)
        outs = f(E, st, a, rt, mod, dem)
        return outs
    return g


def m_shutdown(E, st, a, rt, mod, dem):
    outs = sslm.m_shutdown(E, st, a, rt, mod, dem)
    for o, s in zip(outs, (3, 1, None)):
        o.st.ghost.pop('shut', None)
        if s:
            o.st.ghost['shut'] = s
    return outs


def m_error(E, st, a, rt, mod, dem):
    r = I(E.sgn(st, a[1], 32))
    outs = []
    for code in CODES:
        c = r > 0 if code == sslm.NONE else r <= 0
        if not E.feasible(st, c):
            continue
        s2 = st.fork()
        s2.assume(c)
        emit(s2, 'ssl_error', code, r)
        outs.append(_out(s2, 'ret', code))
    return outs


def m_geterr(E, st, a, rt, mod, dem):
    n = E.fresh_of(st, ('i', 64), 'error')
    st.ghost['queued'] = n
    return n


def m_reason(E, st, a, rt, mod, dem):
    none = st.fork()
    s = st.alloc(32, 'heap', 'reason')
    t = fstr('reason')
    st.assume(slen(t) < 200, z3.Not(z3.Contains(t, z3.Unit(z3.BitVecVal(0, 8)))))
    st.put(s, 32, StrV(t))
    st.ghost['reason'] = (a[0], t)
    none.ghost['reason'] = (a[0], None)
    return [_out(none, 'ret', NULL), _out(st, 'ret', models.data_ptr(s))]


def m_begun(E, st, a, rt, mod, dem):
    st.ghost['begun'] = {o: v for o, v in st.blocks[a[0].base].cells.items()}
    st.ghost['ev0'] = events(st)
    st.ghost['ev'] = ()


def m_cb(kind):
    def f(E, st, a, rt, mod, dem):
        emit(st, kind, *a)
    return f


def m_once(E, st, a, rt, mod, dem):
    """the library is set up by the first who asks for it"""
    return None


def lib_engine(E):
    X = E.mexact
    X['SSL_CTX_new'], X['SSL_CTX_set_options'], X['SSL_CTX_clear_options'], X['SSL_CTX_ctrl'] = m_ctxnew, m_setopts, m_clropts, m_ctrl
    for n, k in (('TLS_method', 'both'), ('TLS_client_method', 'client'), ('TLS_server_method', 'server')):
        X[n] = m_method(k)
    X['SSL_CTX_use_certificate_file'], X['SSL_CTX_use_PrivateKey_file'], X['SSL_CTX_check_private_key'] = m_load('cert'), m_load('key'), m_load('pair')
    X['SSL_CTX_use_certificate_chain_file'] = m_load('cert')
    X['SSL_set_verify'], X['SSL_set_ex_data'], X['SSL_get_ex_data'], X['SSL_get_verify_callback'] = m_setverify, m_setex, m_getex, m_getcb
    X['SSL_get_ex_data_X509_STORE_CTX_idx'], X['X509_STORE_CTX_get_ex_data'] = m_storeidx, m_storeex
    X[CV + '::do_verify(bool, x509_store_ctx_st*) const'] = m_doverify
    X['X509_STORE_CTX_get_current_cert'] = lambda E, st, a, rt, mod, dem: st.ghost['cert']
    X['X509_digest'], X['EVP_get_digestbyname'], X['EVP_sha256'] = m_digest, m_md, m_md
    X['ERR_get_error'], X['ERR_reason_error_string'], X['SSL_get_error'] = m_geterr, m_reason, m_error
    X['SSL_get_shutdown'] = m_shutget
    X[NETERR + '::network_error(std::string const&, bool, int)'] = netm.m_neterr
    X['void boost::call_once<void (&)()>(boost::once_flag&, void (&)())'] = m_once
    E._mcache = {}


def engine(E):
    tr_engine(E)
    sslm.install(E)
    X = E.mexact
    for s in ('exception()', 'exception(unsigned long)', 'exception(std::string const&)'):
        X.pop(SX + '::exception::' + s)
    for n in list(X):
        if n.startswith(RC + '::') and 'succeed' in n:
            del X[n]
    lib_engine(E)
    X['SSL_read'], X['SSL_write'] = forget(sslm.m_read), forget(sslm.m_write)
    X['SSL_accept'], X['SSL_connect'] = forget(X['SSL_accept']), forget(X['SSL_connect'])
    X['SSL_shutdown'] = m_shutdown
    X['vh_begun'] = m_begun
    for n in ('accepted', 'connected', 'received', 'sent'):
        X['vh_' + n] = m_cb(n)
    E._mcache = {}


def ctx_engine(E):
    lib_engine(E)


# ---- contexts
def files(c):
    return [c.newstr(sexec.text(c.st, n), n) for n in ('cert', 'key')]


def setup_ctx(c):
    c.st.ghost['ev'] = ()
    return [KINDS.index(c.variant)] + files(c)


def loaded(E, s2, a, o, kind):
    """a context for a server has certificate and key as given, and they belong together"""
    ev = events(s2)
    bad = [e for e in ev if e[0].endswith('_bad')]
    if o.kind == 'throw':
        return [('refused only when a certificate or key cannot be used', len(bad) == 1 and kind != 0 and E.prog.derives(o.val.ti, E.prog.ti_of(SSLX)))]
    if kind == 0:
        return [('nothing is refused', not bad)]
    get = lambda n: [e for e in ev if e[0] == n]
    ok = len(get('cert')) == 1 and len(get('key')) == 1 and bool(get('pair'))
    return [('a certificate or key that cannot be used is refused', not bad), ('certificate, key and their match are checked', ok)] + (
        [('the files given', z3.And(get('cert')[0][2] == s2.cell(a[1]).s, get('key')[0][2] == s2.cell(a[2]).s))] if ok else [])


def cases_ctx(c, a):
    k = KINDS.index(c.variant)

    def post(E, s2, o):
        out = loaded(E, s2, a, o, k)
        if o.kind == 'throw':
            return out
        g = s2.ghost
        if 'ctx' not in g:
            return out + [('there is a context', False)]
        old = g['opts'] & NO_SSL3 or g['minv'] >= 0x301
        role = g['kind'].base[1] if isinstance(g['kind'], Ptr) and not isinstance(g['kind'].base, int) else '?'
        return out + [('the context made', same_ptr(E, s2, o.val, g['ctx'])), ('SSLv2 and SSLv3 are disabled', bool(old)), ('serves its purpose', role in (('client', 'both'), ('server', 'both'), ('both',))[k])]
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


# ---- verification
def verifier(c, name):
    p = c.st.alloc(8, 'heap', name, CV)
    c.st.blocks[p.base].exact = None
    c.st.put(p, 8, Ptr(('vt', CV), 0))
    return p


def setup_ver(c):
    st = c.st
    st.ghost['ev'] = ()
    st.ghost['ssl'] = st.alloc(8, 'heap', 'ssl')
    kind, sv, cv = VARS[c.variant]
    req = c.inp('require', fbool('require'))
    return [kind] + files(c) + [verifier(c, 'server verifier') if sv else NULL, req, verifier(c, 'client verifier') if cv else NULL, st.ghost['ssl'], c.inp('server', fbool('server'))]


def cases_ver(c, a):
    kind, sv, cv = VARS[c.variant]
    req, server = B(a[4]), B(a[7])

    def post(E, s2, o):
        if o.kind == 'throw':
            return loaded(E, s2, a, o, kind)
        v = s2.ghost.get('verify')
        if v is None:
            return [('without any set-up nobody is verified', z3.And(z3.Not(z3.And(server, req)), z3.BoolVal(not sv) if not cv else z3.And(z3.Not(server), z3.BoolVal(not sv)) if not sv else z3.BoolVal(False)))]
        mode = I(v[0])
        none = isinstance(v[1], Ptr) and v[1].isnull
        ex = s2.ghost.get('ex')
        mine = lambda x: z3.BoolVal(ex is not None) if ex is None else same_ptr(E, s2, ex[1], x)
        peer, need = mode % 2 == 1, (mode / 2) % 2 == 1
        has = z3.If(server, z3.BoolVal(bool(cv)), z3.BoolVal(bool(sv)))
        return [('the peer is verified exactly when there is a verifier or its certificate is required', peer == z3.Or(has, z3.And(server, req))),
                ('a client certificate is required exactly when asked for', z3.Implies(server, need == req)),
                ('the verifier decides exactly when there is one', z3.BoolVal(not none) == has),
                ('the verifier for this side', z3.Implies(has, z3.If(server, mine(a[5]), mine(a[3]))))]
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


def setup_vd(c):
    st = c.st
    st.ghost['ev'] = ()
    st.ghost['ssl'], st.ghost['store'] = st.alloc(8, 'heap', 'ssl'), st.alloc(8, 'heap', 'store')
    st.ghost['store_idx'] = c.E.fresh_of(st, ('i', 32), 'index')
    ok = fint('ok')
    st.assume(ok >= 0, ok <= 1)
    return [KINDS.index(c.variant)] + files(c) + [verifier(c, 'verifier'), fbool('require'), st.ghost['ssl'], c.inp('server', fbool('server')), ok, st.ghost['store']]


def verdict_post(E, s2, o, v, ok, x):
    ask, vd = events(s2, 'asked'), events(s2, 'verdict')
    if o.kind == 'throw':
        return [('returns', False)]
    if len(ask) != 1:
        return [('the verifier is asked once', False)]
    out = [('this verifier is asked', same_ptr(E, s2, ask[0][1], v)), ('with the verdict so far', B(ask[0][2]) == ok), ('about this certificate', same_ptr(E, s2, ask[0][3], x))]
    if events(s2, 'verifier raised'):
        return out + [('an exception is a refusal', I(o.val) == 0)]
    return out + [("the verifier's verdict", (I(o.val) != 0) == (I(vd[0][1]) != 0))]


def cases_vd(c, a):
    def post(E, s2, o):
        if o.kind == 'throw':
            return loaded(E, s2, a, o, KINDS.index(c.variant))
        return verdict_post(E, s2, o, a[3], I(a[7]) != 0, a[8])
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


def setup_v(c):
    c.st.ghost['ev'] = ()
    return [verifier(c, 'verifier'), fbool('ok'), c.st.alloc(8, 'heap', 'store')]


def cases_v(c, a):
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=lambda E, s2, o: verdict_post(E, s2, o, a[0], B(a[1]), a[2]))]


# ---- fingerprints
def setup_fp(c):
    st = c.st
    v = verifier(c, 'verifier')
    d = c.inp('digest', fstr('digest'))
    st.assume(HEXF(d, 0) == EMPTY, *iosm.DIGITS)
    st.ghost['digest'], st.ghost['cert'] = d, st.alloc(8, 'heap', 'certificate')
    r = st.alloc(32, 'heap', 'result')
    return [r, v, st.alloc(8, 'heap', 'store')]


def unfold(d, i):
    b = z3.BV2Int(d[i])
    return z3.Implies(z3.And(i >= 0, i < 32), HEXF(d, i + 1) == z3.Concat(HEXF(d, i), iosm.hex2(b)))


def cases_fp(c, a):
    d = c.st.ghost['digest']
    return [Case(True, any_frame=True, anyway=True, post=lambda E, s2, o: [('returns', o.kind == 'ret'), ('two lower-case hexadecimal digits per byte of the SHA-256, all 32 of them', s2.cell(a[0]).s == HEXF(d, 32) if o.kind == 'ret' else False)])]


def cand(L):
    g = L.entry.ghost
    out = []
    if 'digest' in g:
        d = g['digest']
        for n, gi, e in L.ints:
            for n1, loc, v in L.strs:
                out.append(('%s holds the digits of the bytes before %s' % (n1, n), lambda st, gi=gi, loc=loc: (st.assume(unfold(d, gi(st))), loc.get(st).s == HEXF(d, gi(st)))[1]))
            out.append(('%s within the digest' % n, lambda st, gi=gi: z3.And(gi(st) >= 0, gi(st) <= 32)))
    return out


CANDS = [cand]


# ---- results
def classify(E, s2, o, err):
    """what a failed operation is reported as"""
    code, ret = err[1], err[2]
    if o.kind != 'throw':
        return [('a failure is reported', code == sslm.NONE)]
    is_ = lambda c: o.val.ti == E.prog.ti_of(c)
    clean = lambda: B(s2.cell(o.val.ptr.add(E.prog.off(CLOSE, 'clean'))))
    if code == sslm.NONE:
        return [('success is not reported as a failure', False)]
    if code == sslm.ZERO:
        return [('an orderly close', is_(CLOSE) and clean() == z3.BoolVal(bool(s2.ghost.get('shut', 0) & 2)))]
    if code in (sslm.WREAD, sslm.WWRITE):
        return [('would block', is_(NREAD if code == sslm.WREAD else NWRITE))]
    if code == sslm.SYSCALL:
        return [('a broken connection', z3.If(ret == 0, z3.And(z3.BoolVal(is_(CLOSE)), z3.Not(clean()) if is_(CLOSE) else z3.BoolVal(False)), z3.BoolVal(E.prog.derives(o.val.ti, E.prog.ti_of(NETERR)))))]
    not_ = [E.prog.derives(o.val.ti, E.prog.ti_of(c)) for c in (CLOSE, NREAD, NWRITE, NOTINIT)]
    return [('a protocol error' if code == sslm.SSLERR else 'any other failure', E.prog.derives(o.val.ti, E.prog.ti_of(SSLX)) and not any(not_))]


def setup_th(c):
    st = c.st
    st.ghost['ev'] = ()
    r = fint('ret')
    st.assume(r > -(1 << 31), r < (1 << 31))
    return [st.alloc(8, 'heap', 'ssl'), sslm.sint(c.inp('ret', r))]


def cases_th(c, a):
    def post(E, s2, o):
        err = events(s2, 'ssl_error')
        return classify(E, s2, o, err[-1]) if err else [('the result is looked at', False)]
    return [Case(True, any_frame=True, anyway=True, post=post)]


def setup_ex(c):
    st = c.st
    p = st.alloc(c.prog.size(SSLX), 'heap', 'exception', SSLX)
    if c.variant == 'given':
        return [p, c.E.fresh_of(st, ('i', 64), 'code')]
    return [p]


def cases_ex(c, a):
    def post(E, s2, o):
        want = I(a[1]) if len(a) > 1 else I(s2.ghost['queued'])
        m = s2.cell(a[0].add(E.prog.off(SSLX, 'msg'))).s
        r = s2.ghost.get('reason')
        pre = sbytes(b'SSL: ')
        return [('returns', o.kind == 'ret'), ('the error code', I(s2.cell(a[0].add(E.prog.off(SSLX, 'ssl_err')))) == want), ('its own message', z3.PrefixOf(pre, m)),
                ('the reason', z3.And(I(r[0]) == want, m == z3.Concat(pre, r[1]) if r[1] is not None else slen(m) > 5) if r else False)]
    return [Case(True, any_frame=True, anyway=True, post=post)]


# ---- handshakes of a blocking connection
def setup_hk(c):
    p, F, s, so, sb, out, buf = sslm.ssl_conn(c, SC, abstract=False)
    c.st.ghost['ev'] = ()
    return [p]


def cases_hk(server):
    def cases(c, a):
        ssl, ctx = c.st.cell(a[0].add(c.prog.off(SC, 'ssl'))), c.st.cell(a[0].add(c.prog.off(SC, 'ssl_ctx')))

        def post(E, s2, o):
            ev = events(s2)
            ver = [i for i, e in enumerate(ev) if e[0] == 'prepare_verify']
            hs = [i for i, e in enumerate(ev) if e[0] in ('ssl_accepted', 'ssl_connected', 'ssl_fail')]
            if len(hs) != 1 or not ver:
                return [('verification is set up, then one handshake', False)]
            v, h = ev[ver[-1]], ev[hs[0]]
            out = [('verification is set up before the handshake', max(ver) < hs[0]), ('for this connection and its side', z3.And(same_ptr(E, s2, v[1], ctx), same_ptr(E, s2, v[2], ssl), B(v[3]) == z3.BoolVal(server))), ('handshake of this connection', same_ptr(E, s2, h[1], ssl))]
            if h[0] == 'ssl_fail':
                err = events(s2, 'ssl_error')
                return out + (classify(E, s2, o, err[-1]) if err else [('a failure is looked at', False)])
            return out + [('the right side of the handshake', h[0] == ('ssl_accepted' if server else 'ssl_connected')), ('success returns', o.kind == 'ret')]
        return [Case(True, any_frame=True, anyway=True, post=post)]
    return cases


# ---- operations of a connection in the event loop
OPS = ('accept', 'connect', 'send', 'receive', 'close')
CONN_ = 'vh::Conn'


def setup_st(c):
    op, out_ = c.variant.split(', ')
    p, F, s, so, sb, out, buf = sslm.ssl_conn(c, CONN_, abstract=False)
    st = c.st
    c.prog.put_vptrs(c.E, st, p, CONN_)
    st.ghost['ev'] = ()
    t = st.alloc(1, 'heap', 'terminate')
    st.put(t, 1, z3.BoolVal(False))
    k = OPS.index(op)
    return [p, k, models.data_ptr(so), Ptr(('cd', sb), 0, 0), slen(out) if op == 'send' else slen(buf), z3.BoolVal(out_ == 'output'), t]


def same_obj(E, s2, p, cells):
    """the connection is as it was when the operation was begun"""
    now = s2.blocks[p.base].cells
    return z3.And(z3.BoolVal(set(now) == set(cells)), *[val_eq(now[o][1], cells[o][1]) for o in cells if o in now])


def cases_st(c, a):
    p, k, so, sb, n, out_, t = a
    op = OPS[k]
    st = c.st
    ssl = st.cell(p.add(c.prog.off(CONN_, 'ssl')))
    msg = st.cell(so.base[1]).s

    def post(E, s2, o):
        if 'begun' not in s2.ghost:
            return [('only a close can be over at once', op == 'close' and o.kind == 'ret' and s2.ghost.get('shut') == 3 and not events(s2))]
        ev0, ev = s2.ghost['ev0'], events(s2)
        regs0 = [e for e in ev0 if e[0] == 'register']
        out = [('the beginning waits for the socket', len(regs0) >= 1 and all(netm.is_reg(e, 'register', p) for e in regs0))]
        done = [e for e in ev if e[0] in ('accepted', 'connected', 'received', 'sent')]
        term = B(s2.cell(t))
        err = events(s2, 'ssl_error')
        un = [e for e in ev if e[0] in ('unregister', 'unregister_all')]
        regs = [e for e in ev if e[0] == 'register']
        if op == 'close':
            tried = [e for e in ev if e[0] == 'ssl_shutdown']
            right = all(e[0] not in ('ssl_sent', 'ssl_recv', 'ssl_accepted', 'ssl_connected') for e in ev)
        else:
            good = {'accept': 'ssl_accepted', 'connect': 'ssl_connected', 'send': 'ssl_sent', 'receive': 'ssl_recv'}[op]
            tried = [e for e in ev if e[0] in ('ssl_fail', 'ssl_sent', 'ssl_recv', 'ssl_accepted', 'ssl_connected')]
            right = len(tried) == 1 and tried[0][0] in (good, 'ssl_fail')
            out.append(('the operation begun is tried', right))
        out.append(('of this connection', z3.And(*[same_ptr(E, s2, e[1], ssl) for e in tried])))
        if not right:
            return out + [('the operation begun is tried', False)]
        if err:
            code, ret = err[-1][1], err[-1][2]
            out.append(('a failed operation is never reported as done', not done))
            if code in (sslm.WREAD, sslm.WWRITE):
                m = INPUT if code == sslm.WREAD else OUTPUT
                return out + [('would block: goes on later', o.kind == 'ret' and z3.Not(term)), ('waits for exactly the direction asked for', z3.And(z3.BoolVal(len(regs) == 1), netm.is_reg(regs[0], 'register', p, m)) if regs else False),
                              ('waits for nothing else', z3.And(z3.BoolVal(bool(un)), *[e[0] == 'unregister_all' or I(e[2]) == z3.If(out_, OUTPUT, INPUT) for e in un[:1]])),
                              ('the same operation is tried again', same_obj(E, s2, p, s2.ghost['begun']))]
            if o.kind == 'throw':
                return out + [('not an orderly close', z3.Not(z3.Or(z3.BoolVal(code == sslm.ZERO), z3.And(z3.BoolVal(code == sslm.SYSCALL), ret == 0))))] + classify(E, s2, o, err[-1])
            return out + [('only a close by the peer ends quietly', z3.Or(z3.BoolVal(code == sslm.ZERO), z3.And(z3.BoolVal(code == sslm.SYSCALL), ret == 0))),
                          ('then the connection is closed', z3.Or(term, z3.BoolVal(s2.ghost.get('shut') == 3), z3.And(z3.BoolVal(len(regs) == 1), netm.is_reg(regs[0], 'register', p, OUTPUT if not s2.ghost.get('shut', 0) & 1 else INPUT) if regs else z3.BoolVal(False))))]
        if o.kind == 'throw':
            return out + [('success is not reported as a failure', False)]
        if op == 'close':
            return out + [('the connection is over', term), ('the closing was sent', bool(tried) or s2.ghost.get('shut') == 3), ('nothing is waited for', not regs)]
        out += [('reported once', len(done) == 1 and done[0][0] == {'accept': 'accepted', 'connect': 'connected', 'send': 'sent', 'receive': 'received'}[op]), ('nothing is waited for', not regs), ('the connection goes on', z3.Not(term))]
        if op == 'send':
            out.append(('all of the message', tried[0][2] == msg))
        if op == 'receive' and len(done) == 1:
            d = tried[0][2]
            out.append(('what was received, at the start of the buffer', z3.And(I(done[0][3]) == slen(d), slen(d) > 0, sub(s2.cell(sb.base[1]).s, 0, slen(d)) == d)))
        return out
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


# ---- closing a connection
def cases_sd(c, a):
    ssl = c.st.cell(a[0].add(c.prog.off(SC, 'ssl')))

    def post(E, s2, o):
        tries = events(s2, 'ssl_shutdown')
        err = events(s2, 'ssl_error')
        out = [('of this connection', z3.And(*[same_ptr(E, s2, e[1], ssl) for e in tries]))]
        if not tries:
            return [('left out only when both sides closed', s2.ghost.get('shut') == 3), ('returns', o.kind == 'ret')]
        if tries[0][2] == -1:
            return out + (classify(E, s2, o, err[-1]) if err else [('a failure is looked at', False)])
        return out + [('returns', o.kind == 'ret')]
    return [Case(True, any_frame=True, anyway=True, post=post)]


# ---- what the server and the client do when an operation is over
XCC, CC, PKT_ = 'iqxmlrpc::Https_client_connection', 'iqxmlrpc::Client_connection', 'iqxmlrpc::http::Packet'


def setup_sacc(c):
    p, t, F = ssl_transport(c)
    return [p]


def cases_sacc(c, a):
    p, st = a[0], c.st
    F = lambda x: p.add(c.prog.off(HSS, x))
    return [Case(True, any_frame=True, anyway=True, post=lambda E, s2, o: [('returns', o.kind == 'ret'), ('after the handshake the request is received', z3.And(listening(s2, p), pending(E, s2, F, st, 'receive')))])]


def m_response(E, st, a, rt, mod, dem):
    emit(st, 'read', models.S(E, st, a[1]), a[2])
    none, err = st.fork(), st.fork()
    p = st.alloc(E.prog.size(PKT_), 'heap', 'answer', PKT_)
    emit(st, 'message', p)
    emit(err, 'malformed')
    return [_out(none, 'ret', NULL), _out(st, 'ret', p), models.throw(E, err, MAL)]


def tls_client(c):
    st, prog = c.st, c.prog
    p = st.alloc(prog.size(XCC), 'heap', 'connection', XCC)
    rc = prog.off(XCC, 'ssl') - prog.off(RC, 'ssl')
    F = lambda n: p.add(rc + prog.off(RC, n))
    G = lambda n: p.add(prog.off(XCC, n))
    st.blocks[p.base].exact = XCC
    prog.put_vptrs(c.E, st, p, XCC)
    st.put(F('sock').add(prog.off('iqnet::Socket', 'sock')), 4, c.E.fresh_of(st, ('i', 32), 'descriptor'))
    st.put(F('ssl'), 8, st.alloc(8, 'heap', 'ssl'))
    st.put(F('ssl_ctx'), 8, st.alloc(64, 'heap', 'ctx'))
    r = netm.reactor(c)
    st.put(F('reactor'), 8, r)
    st.put(G('reactor'), 8, r)
    st.put(F('state'), 4, c.E.fresh_of(st, ('i', 32), 'state'))
    for n in ('recv_buf', 'send_buf'):
        st.put(F(n), 8, NULL)
    st.put(F('buf_len'), 8, 0)
    out, buf = fstr('request'), fstr('buffer')
    st.assume(slen(out) > 0, slen(out) < netm.SMALL, slen(buf) > 0, slen(buf) < netm.SMALL)
    st.put(G('out_str'), 32, StrV(out))
    st.put(G('read_buf_'), 24, VecB(buf))
    st.put(G('resp_packet'), 8, NULL)
    st.put(G('established'), 1, fbool('established'))
    st.ghost['ev'] = ()
    t = st.alloc(1, 'heap', 'terminate')
    st.put(t, 1, z3.BoolVal(False))
    return p, t, F, G


def setup_cc(what):
    def f(c):
        p, t, F, G = tls_client(c)
        if what == 'connected':
            return [p]
        if what == 'sent':
            return [p, t]
        n = c.E.fresh_of(c.st, ('i', 64), 'received')
        b = c.st.cell(G('read_buf_')).s
        c.st.assume(n > 0, n <= slen(b))
        return [p, t, slen(b), n]
    return f


def cases_cc(what):
    def cases(c, a):
        p, st = a[0], c.st
        rc = c.prog.off(XCC, 'ssl') - c.prog.off(RC, 'ssl')
        F = lambda n: p.add(rc + c.prog.off(RC, n))
        G = lambda n: p.add(c.prog.off(XCC, n))
        obj = p.add(rc)
        own = lambda x, cell: isinstance(x, Ptr) and not isinstance(x.base, int) and x.base[0] == 'cd' and isinstance(x.base[1], Ptr) and x.base[1].base == cell.base and x.base[1].off == cell.off and same(x.idx, 0)
        buf = st.cell(G('read_buf_')).s

        def receiving(s2, before=()):
            return z3.And(listening(s2, obj, before), z3.BoolVal(own(s2.cell(F('recv_buf')), G('read_buf_'))), I(s2.cell(F('buf_len'))) == slen(buf))

        def post(E, s2, o):
            if what == 'connected':
                return [('returns', o.kind == 'ret'), ('the request is sent after the handshake', z3.And(trace(s2, reg('register', obj, OUTPUT)), z3.BoolVal(own(s2.cell(F('send_buf')), G('out_str'))), I(s2.cell(F('buf_len'))) == slen(st.cell(G('out_str')).s))),
                        ('the handshake is over', B(s2.cell(G('established'))))]
            if what == 'sent':
                return [('returns', o.kind == 'ret'), ('the answer is received', receiving(s2))]
            d = sub(buf, 0, I(a[3]))
            rd = lambda e: e[0] == 'read' and e[1] == d
            if o.kind == 'throw':
                return [('raises only for a malformed answer', trace(s2, rd, named('malformed')))]
            msg = outcome(s2, 'message')
            if msg is not None:
                return [('answer complete: kept', z3.And(trace(s2, rd, named('message')), same_ptr(E, s2, s2.cell(G('resp_packet')), msg[1])))]
            return [('answer incomplete: goes on receiving', z3.And(receiving(s2, [rd]), same_ptr(E, s2, s2.cell(G('resp_packet')), NULL)))]
        return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]
    return cases


def peer_engine(E):
    engine(E)
    E.mexact[CC + '::read_response(std::string const&, bool)'] = m_response
    E._mcache = {}


# ---- set-up of a connection
def m_sslnew(E, st, a, rt, mod, dem):
    bad = st.fork()
    emit(bad, 'new_failed')
    p = st.alloc(8, 'heap', 'ssl')
    emit(st, 'new', a[0], p)
    return [_out(bad, 'ret', NULL), _out(st, 'ret', p)]


def m_setfd(E, st, a, rt, mod, dem):
    bad = st.fork()
    emit(bad, 'fd_failed')
    emit(st, 'fd', *a)
    return [_out(bad, 'ret', 0), _out(st, 'ret', 1)]


def setup_cn(c):
    st, prog = c.st, c.prog
    st.ghost['ev'] = ()
    p = st.alloc(prog.size(SC), 'heap', 'connection', SC)
    q = st.alloc(prog.size('iqnet::Socket'), 'heap', 'socket', 'iqnet::Socket')
    st.put(q.add(prog.off('iqnet::Socket', 'sock')), 4, c.E.fresh_of(st, ('i', 32), 'descriptor'))
    g = st.alloc(prog.size(CTX), 'heap', 'ctx', CTX) if c.variant == 'set up' else NULL
    st.put(c.E.gptr(st, prog.mods[0], '_ZN5iqnet3ssl3ctxE'), 8, g)
    st.ghost['given'] = g
    return [p, q]


def cases_cn(c, a):
    fd = c.st.cell(a[1].add(c.prog.off('iqnet::Socket', 'sock')))

    def post(E, s2, o):
        if c.variant != 'set up':
            return [('without a context there is no connection', o.kind == 'throw' and o.val.ti == E.prog.ti_of(NOTINIT))]
        if events(s2, 'new_failed', 'fd_failed'):
            return [('a failure is reported', o.kind == 'throw' and E.prog.derives(o.val.ti, E.prog.ti_of(SSLX)))]
        n, f = events(s2, 'new'), events(s2, 'fd')
        if o.kind != 'ret' or len(n) != 1 or len(f) != 1:
            return [('one TLS session on the socket', False)]
        ssl = s2.cell(a[0].add(E.prog.off(SC, 'ssl')))
        return [('a session of the context given', same_ptr(E, s2, n[0][1], s2.ghost['native'])), ('on this socket', z3.And(same_ptr(E, s2, f[0][1], n[0][2]), same_ptr(E, s2, ssl, n[0][2]), I(f[0][2]) == I(fd))),
                ('the context is kept for verification', same_ptr(E, s2, s2.cell(a[0].add(E.prog.off(SC, 'ssl_ctx'))), s2.ghost['given']))]
    return [Case(True, any_frame=True, anyway=True, post=post)]


def m_native(E, st, a, rt, mod, dem):
    E.prove(st, same_ptr(E, st, a[0], st.ghost['given']), 'the context given', 'post')
    st.ghost['native'] = st.alloc(8, 'heap', 'native context')
    return st.ghost['native']


def m_basector(E, st, a, rt, mod, dem):
    o = E.prog.off(SC, 'sock') + E.prog.off('iqnet::Socket', 'sock')
    st.put(a[0].add(o), 4, st.cell(a[1].add(E.prog.off('iqnet::Socket', 'sock'))))


def conn_engine(E):
    engine(E)
    X = E.mexact
    X['SSL_new'], X['SSL_set_fd'], X[CTX + '::context()'] = m_sslnew, m_setfd, m_native
    X['iqnet::Connection::Connection(iqnet::Socket const&)'] = m_basector
    X['iqnet::Connection::~Connection()'] = lambda E, st, a, rt, mod, dem: None
    E._mcache = {}


def contracts(P):
    K = lambda n, s, c, **k: Contract(n, s, c, level='property', use=False, **k)
    S3 = 'std::string const&, std::string const&'
    return [
        K('vh::context(int, %s)' % S3, setup_ctx, cases_ctx, variants=list(KINDS), engine=ctx_engine),
        K('vh::verification(int, %s, %s*, bool, %s*, ssl_st*, bool)' % (S3, CV, CV), setup_ver, cases_ver, variants=list(VARS), engine=ctx_engine),
        K('vh::verdict(int, %s, %s*, bool, ssl_st*, bool, int, x509_store_ctx_st*)' % (S3, CV), setup_vd, cases_vd, variants=[KINDS[0], KINDS[2]], engine=ctx_engine),
        K(CV + '::verify(bool, x509_store_ctx_st*) const', setup_v, cases_v, engine=ctx_engine),
        K(CV + '::cert_finger_sha256(x509_store_ctx_st*) const', setup_fp, cases_fp, engine=ctx_engine),
        K(SX + '::throw_io_exception(ssl_st*, int)', setup_th, cases_th, engine=ctx_engine),
        K(SSLX + '::exception()', setup_ex, cases_ex, variants=['queued'], engine=ctx_engine),
        K(SSLX + '::exception(unsigned long)', setup_ex, cases_ex, variants=['given'], engine=ctx_engine),
        K(SC + '::post_accept()', setup_hk, cases_hk(True)),
        K(SC + '::post_connect()', setup_hk, cases_hk(False)),
        K(SC + '::shutdown()', setup_hk, cases_sd),
        K('vh::step(vh::Conn*, int, char const*, char*, unsigned long, bool, bool&)', setup_st, cases_st, variants=['%s, %s' % (o, d) for o in OPS for d in ('input', 'output')]),
        K(SC + '::Connection(iqnet::Socket const&)', setup_cn, cases_cn, variants=['set up', 'not set up'], engine=conn_engine),
        K(HSS + '::accept_succeed()', setup_sacc, cases_sacc),
        K(XCC + '::connect_succeed()', setup_cc('connected'), cases_cc('connected'), engine=peer_engine),
        K(XCC + '::send_succeed(bool&)', setup_cc('sent'), cases_cc('sent'), engine=peer_engine),
        K(XCC + '::recv_succeed(bool&, unsigned long, unsigned long)', setup_cc('received'), cases_cc('received'), engine=peer_engine),
    ]


NOTE = ('Contracts on the classification of TLS results, on verdicts, fingerprints, error objects, blocking handshakes, closing, and on what server and client do after an operation. '
        'Contexts, verification set-up and the operations of a connection in the event loop are verified through client functions that only use the public or protected interface '
        '(make a context, configure it, prepare a connection, ask the installed callback; begin an operation, let the socket become ready), with the bodies of the library inlined. '
        'The battery does real handshakes with every configuration and runs real connections against scripted results of the TLS library.')
# THEOREM: after a would-block result the connection object is exactly what it was when the operation was begun, so the next readiness tries the same operation again, however often that happens
ASSUME = ['OpenSSL behaves as documented: the installed callback decides with the installed mode, SSL_get_error is SSL_ERROR_NONE exactly for positive results, partial writes are not enabled',
          'the one-time set-up of the TLS library is done by the first context made', 'the event loop withdraws and closes a connection whose handler raises (C17)', 'paths contain no NUL; memory allocation does not fail']


def replay(name, v):
    ops = ['op %s 0 %s%s' % (w, t, r) for w in OPS for t in ('', 'R,', 'W,') for r in ('ok', 'R', 'W', 'Z', 'S0', 'S-', 'E', 'X')]
    if 'step' in name:
        return ops
    if 'finger' in name:
        return ['finger %d' % i for i in range(2, 40)]
    if 'context' in name:
        return ['ctx client', 'ctx server', 'ctx both', 'badctx server nocert', 'badctx both nokey', 'badctx server otherkey']
    if 'verif' in name or 'verdict' in name:
        return ['server %s %d %d %s' % (k, q, h, o) for k in ('none', 'yes', 'no', 'throw', 'throwint') for q in (0, 1) for h in (0, 1) for o in ('none', 'no')] + ['client %s %s' % (k, o) for k in ('none', 'yes', 'no', 'throw') for o in ('none', 'no')] + ['verify throw 0', 'verify throwint 1', 'verify 0 1', 'verify 1 0']
    return ['class %s %d' % (r, f) for r in ('ok', 'R', 'W', 'Z', 'S0', 'S-', 'E', 'X') for f in range(4)] + ['plain %s %s' % (w, r) for w in OPS for r in ('ok', 'R', 'W', 'S-', 'E')] + ['none', 'big 300000 2']

"""C10: emitted HTTP messages (http.cc, http.h)"""
from ..httpm import *
from .. import httpm
from ..boostm import dec

TUS = ['http.cc']
EXTRA = '''#include "libiqxmlrpc/http.h"
std::string emit_dump(const iqxmlrpc::http::Packet& p) { return p.dump(); }
'''
engine = httpm.engine
AB, AV = z3.ArraySort(STR, BOOL), z3.ArraySort(STR, STR)
CRLF = sbytes('\r\n')
# the option names in the order in which they are listed, their number, and the text of the first i option lines
KEYS, NKEYS = z3.Function('option_order', AB, z3.ArraySort(INT, STR)), z3.Function('option_count', AB, INT)
OLINES = z3.Function('option_lines', AB, AV, INT, STR)


def unfold(st, m, k):
    """definition of the option lines at k and k + 1"""
    P, V_ = m.pres, m.vals[0]
    key = z3.Select(KEYS(P), k)
    st.assume(KEYS(P) == m.en.keys, NKEYS(P) == m.en.n, OLINES(P, V_, z3.IntVal(0)) == EMPTY,
              z3.Implies(k >= 0, OLINES(P, V_, k + 1) == z3.Concat(OLINES(P, V_, k), key, sbytes(': '), z3.Select(V_, key), CRLF)))


def lines_of(c, m):
    containers.enum(c.st, m)
    unfold(c.st, m, z3.IntVal(0))
    return OLINES(m.pres, m.vals[0], NKEYS(m.pres))


def cand_lines(L):
    out = []
    prog = L.E.prog
    oo = prog.off(HDR, 'options_')
    for bid, b in L.entry.blocks.items():
        if b.name != 'header' or oo not in b.cells:
            continue
        m = b.cells[oo][1]
        if not isinstance(m, MapV) or m.en is None or ('cell', bid, oo) in L.mod:
            continue
        for n2, g, x0 in L.ints:
            out.append(('%s within' % n2, lambda st, g=g, en=m.en: z3.And(g(st) >= 0, g(st) <= en.n)))
            for n1, loc, s0 in L.strs:
                def inv(st, g=g, loc=loc, s0=s0, m=m):
                    k = g(st)
                    unfold(st, m, k)
                    unfold(st, m, k - 1)
                    return loc.get(st).s == z3.Concat(getattr(s0, 's', s0), OLINES(m.pres, m.vals[0], k))
                out.append(('lines written so far', inv))
    return out


CANDS = [cand_lines]


def head(c, h, cls):
    F = lambda n: c.st.cell(h.add(c.prog.off(cls, n)))
    if cls == REQ:
        return z3.Concat(sbytes('POST '), F('uri_').s, sbytes(' HTTP/1.0\r\n'))
    code = I(F('code_'))
    code = z3.If(code >= 1 << 31, code - (1 << 32), code)
    return z3.Concat(sbytes('HTTP/1.1 '), dec(code), sbytes(' '), F('phrase_').s, CRLF)


def inputs(c, h, cls):
    F = lambda n: c.st.cell(h.add(c.prog.off(cls, n)))
    if cls == REQ:
        c.inp('uri', F('uri_').s)
    else:
        c.inp('code', F('code_'))
        c.inp('phrase', F('phrase_').s)


def setup_dump(c):
    cls = REQ if c.variant == 'request' else RSP
    r = c.st.alloc(32, 'heap', 'result')
    h = header(c, cls)
    inputs(c, h, cls)
    return [r, h]


def cases_dump(c, a):
    cls = REQ if c.variant == 'request' else RSP
    t = z3.Concat(head(c, a[1], cls), lines_of(c, opts_of(c, a[1])), CRLF)
    return [Case(True, writes=[(a[0], 32, StrV(t))], label='start line, option lines, empty line')]


def cases_head(cls):
    def cases(c, a):
        return [Case(True, writes=[(a[0], 32, StrV(head(c, a[1], cls)))], label='start line')]
    return cases


def setup_head(cls):
    def setup(c):
        r = c.st.alloc(32, 'heap', 'result')
        h = header(c, cls)
        inputs(c, h, cls)
        return [r, h]
    return setup


def packet(c, cls, name='packet'):
    """a message: a header with arbitrary options and an arbitrary body"""
    st = c.st
    h = header(c, cls)
    st = c.st
    inputs(c, h, cls)
    p = st.alloc(c.prog.size(PKT), 'heap', name, PKT)
    st.blocks[p.base].exact = PKT
    st.put(p, 8, c.prog.vptr_for(c.E, st, PKT))
    b = fstr('body')
    st.assume(slen(b) < MAXLEN)
    c.inp('body', b)
    F = lambda n: p.add(c.prog.off(PKT, n))
    st.put(F('header_'), 8, h)
    st.put(F('content_'), 32, StrV(b))
    return p, h, b


def parts(c, p):
    F = lambda n: c.st.cell(p.add(c.prog.off(PKT, n)))
    return p, F('header_'), F('content_').s


def setup_pd(c):
    cls = REQ if c.variant == 'request' else RSP
    r = c.st.alloc(32, 'heap', 'result')
    pk = packet(c, cls)
    return [r, pk[0]]


def cases_pd(c, a):
    cls = REQ if c.variant == 'request' else RSP
    p, h, b = parts(c, a[1])
    t = z3.Concat(head(c, h, cls), lines_of(c, opts_of(c, h)), CRLF, b)
    return [Case(True, writes=[(a[0], 32, StrV(t))], label='header, then exactly the body')]


def optp(c, p):
    return p.add(c.prog.off(HDR, 'options_'))


def sized(m, n):
    """the options once the body has n bytes"""
    m = m.put(sbytes('content-length'), dec(n))
    k = sbytes('content-type')
    return MapV(m.kkind, m.schema, z3.Store(m.pres, k, z3.Or(m.has(k), n != 0)), (z3.If(n != 0, z3.Store(m.vals[0], k, sbytes('text/xml')), m.vals[0]),))


def setup_scl(c):
    h = header(c)
    n = c.E.fresh_of(c.st, ('i', 64), 'length')
    c.inp('length', n)
    return [h, n]


def cases_scl(c, a):
    m, n = opts_of(c, a[0]), I(a[1])
    ct = sbytes('content-type')
    m1 = m.put(sbytes('content-length'), dec(n))
    return [Case(n != 0, writes=[(optp(c, a[0]), 48, m1.put(ct, sbytes('text/xml')))], label='some body'),
            Case(n == 0, writes=[(optp(c, a[0]), 48, m1)], label='no body')]


def setup_ska(c):
    h = header(c)
    return [h, c.E.fresh_of(c.st, ('i', 1), 'keep')]


def kv(c, k):
    return sbytes('connection'), z3.If(k if z3.is_bool(k) else I(k) != 0, sbytes('keep-alive'), sbytes('close'))


def cases_ska(c, a):
    return [Case(True, writes=[(optp(c, a[0]), 48, opts_of(c, a[0]).put(*kv(c, a[1])))])]


def setup_pka(c):
    pk = packet(c, REQ if c.variant == 'request' else RSP)
    return [pk[0], c.E.fresh_of(c.st, ('i', 1), 'keep')]


def cases_pka(c, a):
    p, h, b = parts(c, a[0])
    return [Case(True, writes=[(optp(c, h), 48, opts_of(c, h).put(*kv(c, a[1])))])]


def setup_pctor(c):
    cls = REQ if c.variant == 'request' else RSP
    h = header(c, cls)
    inputs(c, h, cls)
    p = c.st.alloc(c.prog.size(PKT), 'heap', 'packet', PKT)
    s = c.newstr(name='body')
    return [p, h, s]


def cases_pctor(c, a):
    b = c.str(a[2])
    F = lambda n: a[0].add(c.prog.off(PKT, n))
    m = opts_of(c, a[1])
    n = slen(b)
    m1 = m.put(sbytes('content-length'), dec(n))
    out = []
    for cond, mm, lab in ((n != 0, m1.put(sbytes('content-type'), sbytes('text/xml')), 'some body'), (n == 0, m1, 'no body')):
        def post(E, st, o, mm=mm):
            cell = st.blocks[a[1].base].cells.get(a[1].off + E.prog.off(HDR, 'options_'))
            hp = st.blocks[a[0].base].cells.get(a[0].off + E.prog.off(PKT, 'header_'))
            co = st.blocks[a[0].base].cells.get(a[0].off + E.prog.off(PKT, 'content_'))
            return [('options: length and type of the body, the others as they were', mm.eq(cell[1]) if cell else False),
                    ('holds the header', bool(hp and isinstance(hp[1], Ptr) and hp[1].base == a[1].base)),
                    ('holds the body', val_eq(co[1], StrV(b)) if co else False)]
        out.append(Case(cond, post=post, any_frame=True, label=lab))
    return out


def setup_rqc(c):
    p = c.st.alloc(c.prog.size(REQ), 'heap', 'header', REQ)
    port = c.E.fresh_of(c.st, ('i', 32), 'port')
    c.inp('port', port)
    return [p, c.newstr(name='uri'), c.newstr(name='vhost'), port]


def newhdr(c, a, cls, want, extra):
    """a new header object: exactly the options named, the connection closing by default"""
    oo = c.prog.off(HDR, 'options_')

    def post(E, st, o):
        b = st.blocks[a[0].base].cells
        m = b.get(a[0].off + oo)
        if not m:
            return [('has options', False)]
        m = m[1]
        k = z3.Const('k!h', STR)
        names = [sbytes('connection')] + [sbytes(x) for x in want]
        out = [('exactly these options', z3.ForAll([k], m.has(k) == z3.Or(*[k == n for n in names]))), ('closes by default', m.get(sbytes('connection')) == sbytes('close'))]
        for n, v in want.items():
            g = m.get(sbytes(n))
            out.append(('option ' + n, (g == v) if v is not None else slen(g) > 0))
        for f, v in extra:
            cell = b.get(a[0].off + c.prog.off(cls, f))
            out.append((f.rstrip('_'), val_eq(cell[1], v) if cell else False))
        return out
    return [Case(True, post=post, any_frame=True)]


def cases_rqc(c, a):
    port = I(a[3])
    port = z3.If(port >= 1 << 31, port - (1 << 32), port)
    return newhdr(c, a, REQ, {'host': z3.Concat(c.str(a[2]), sbytes(':'), dec(port)), 'user-agent': None}, [('uri_', StrV(c.str(a[1])))])


def setup_rsc(c):
    p = c.st.alloc(c.prog.size(RSP), 'heap', 'header', RSP)
    code = c.E.fresh_of(c.st, ('i', 32), 'code')
    c.inp('code', code)
    return [p, code, c.newstr(name='phrase')]


def cases_rsc(c, a):
    return newhdr(c, a, RSP, {'date': None, 'server': None}, [('code_', I(a[1])), ('phrase_', StrV(c.str(a[2])))])


NOTE = ('Contracts on both message constructors, the option setters and the printing of headers and messages, discharged for all option sets, bodies and codes. '
        'The battery prints messages with the real code and reads the bytes with an independent reader.')
# THEOREM: Packet::dump is start line, the option lines in order, an empty line and the body
# THEOREM: Packet::Packet makes content-length the number of body bytes
ASSUME = ['Response_header::current_date (boost date_time formatting) returns some non-empty string without line breaks', 'std::ostringstream collects the text of what is written to it, numbers in decimal', 'a map is always traversed in the same order', 'memory allocation does not fail']


def replay(name, v):
    out = []
    i = lambda k, d: str(v.get(k, d))
    body = v.get('body', '') or '-'
    code = int(v.get('code', 200))
    code = code - (1 << 32) if code >= 1 << 31 else code
    port = int(v.get('port', 80))
    port = port - (1 << 32) if port >= 1 << 31 else port
    out.append('rsp %d %s %s' % (code, v.get('phrase', '4f4b') or '-', body))
    out.append('req %s %s %d %s' % (v.get('uri', '2f') or '-', v.get('vhost', '68') or '-', port, body))
    for o in ('content-type=text/plain', 'content-length=7', 'connection=upgrade'):
        for k in '01':
            out.append('rsp 200 4f4b %s %s %s' % (body, k, o.encode().hex()))
            out.append('req 2f 68 80 %s %s %s' % (body, k, o.encode().hex()))
    return out


def contracts(P):
    VR = ['request', 'response']
    return [
        Contract(REQ + '::dump_head() const', setup_head(REQ), cases_head(REQ), level='property', use=False),
        Contract(RSP + '::dump_head() const', setup_head(RSP), cases_head(RSP), level='property', use=False),
        Contract(HDR + '::dump() const', setup_dump, cases_dump, level='property', use=False, variants=VR, weight=2),
        Contract(PKT + '::dump() const', setup_pd, cases_pd, level='property', use=False, variants=VR, weight=2),
        Contract(HDR + '::set_content_length(unsigned long)', setup_scl, cases_scl, level='property', use=False),
        Contract(HDR + '::set_conn_keep_alive(bool)', setup_ska, cases_ska, level='property', use=False),
        Contract(PKT + '::set_keep_alive(bool)', setup_pka, cases_pka, level='property', use=False, variants=VR),
        Contract(PKT + '::Packet(%s*, std::string const&)' % HDR, setup_pctor, cases_pctor, level='property', use=False, variants=VR),
        Contract(REQ + '::Request_header(std::string const&, std::string const&, int)', setup_rqc, cases_rqc, level='property', use=False),
        Contract(RSP + '::Response_header(int, std::string const&)', setup_rsc, cases_rsc, level='property', use=False),
    ]

"""The HTTP message reader: representation invariant over the bytes received since the last message, and the contract of
read_request / read_response over it (C07, C09, C15)."""
import z3
from .httpm import *
from .props import c08
from .boostm import LOWER

CRLF2, LF2 = sbytes('\r\n\r\n'), sbytes('\n\n')


HTEXT = z3.Function('header_text', STR, STR)


def term(b):
    """(present, position, length) of the first blank line"""
    i4, i2 = z3.IndexOf(b, CRLF2, 0), z3.IndexOf(b, LF2, 0)
    two = z3.And(i2 >= 0, z3.Or(i4 < 0, i2 < i4))
    return z3.Or(i2 >= 0, i4 >= 0), z3.If(two, i2, i4), z3.If(two, z3.IntVal(2), z3.IntVal(4))


def rdr(c, limit, place=None, own=None):
    """a reader in the state named by the variant: fresh (no header yet), header (header read), done (message delivered)"""
    st = c.st
    F = lambda n: c.prog.off(RDR, n)
    p = place or st.alloc(c.prog.size(RDR), 'heap', 'reader', RDR)
    lev = c.E.fresh_of(st, ('i', 32), 'level')
    st.assume(z3.Or(lev == 0, lev == 1))
    mx = c.E.fresh_of(st, ('i', 64), 'limit') if limit else z3.IntVal(0)
    if own:
        lev, mx = own
    if limit:
        c.inp('limit', mx)
        st.assume(mx < (1 << 62))
    cont = fbool('continue_sent')
    tot = z3.IntVal(0)
    v = c.variant.split()[0]
    hp = NULL
    hc, cc = fstr('received'), EMPTY
    st.assume(slen(hc) < MAXLEN)
    if v == 'fresh':
        c.inp('received', hc)
        st.assume(z3.Not(term(hc)[0]))
        tot = slen(hc)
    elif v == 'header':
        hp = header(c, c.hcls, 'header', lev)
        st = c.st
        cc = fstr('body')
        m = opts_of(c, hp)
        k = sbytes('content-length')
        n = U32(mval(m, k))
        st.assume(m.has(sbytes('connection')), m.has(k), ISU32(mval(m, k)), n >= 0, n < (1 << 32), slen(cc) < n, z3.Not(term(hc)[0]))
        c.inp('headtext', hc)
        c.inp('body', cc)
        c.inp('length', n)
        tl = fint('tlen')
        st.assume(z3.Or(tl == 2, tl == 4))
        tot = slen(hc) + tl + slen(cc)
    else:
        hp = st.alloc(c.prog.size(c.hcls), 'heap', 'delivered header', c.hcls)
        st.wb(hp.base).alive = False
        cc = fstr('stale')
        st.assume(slen(cc) < MAXLEN)
        tot = c.E.fresh_of(st, ('i', 64), 'total')
    if v != 'done':
        if limit:
            st.assume(z3.Or(mx == 0, tot < mx))
            tot = z3.If(mx == 0, z3.IntVal(0), tot)
        else:
            tot = z3.IntVal(0)
        if v == 'fresh':
            st.assume(z3.Not(cont))
    if own:
        # the connection hands level and limit over on every read: whatever the reader held before does not matter
        lev, mx = c.E.fresh_of(st, ('i', 32), 'old_level'), c.E.fresh_of(st, ('i', 64), 'old_limit')
    for n, sz, val in (('header_cache', 32, StrV(hc)), ('content_cache', 32, StrV(cc)), ('header', 8, hp), ('ver_level_', 4, lev),
                       ('constructed', 1, z3.BoolVal(v == 'done')), ('pkt_max_sz', 8, mx), ('total_sz', 8, tot), ('continue_sent_', 1, cont)):
        st.put(p.add(F(n)), sz, val)
    return p


def mval(m, k):
    return z3.Select(m.vals[0], k)


def fld(c, p, n):
    return c.st.cell(p.add(c.prog.off(RDR, n)))


def numok(st, m):
    k = sbytes('content-length')
    v = mval(m, k)
    boostm.numfacts(st, v, 'unsigned int')
    return m.has(k), ISU32(v), U32(v)


def packet_post(c, p, body, hbase=None, hcls=REQ):
    """the message delivered: its body, its header, and the reader ready for the next one"""
    def post(E, st, o):
        q = o.val
        ok = isinstance(q, Ptr) and isinstance(q.base, int) and not q.isnull and st.blocks[q.base].alive
        out = [('a message is delivered', bool(ok))]
        if not ok:
            return out
        b = st.blocks[q.base].cells
        co = b.get(q.off + E.prog.off(PKT, 'content_'))
        out.append(('its body is exactly the declared bytes', val_eq(co[1], StrV(body)) if co else False))
        h = b.get(q.off + E.prog.off(PKT, 'header_'))
        h = h[1] if h else None
        hok = isinstance(h, Ptr) and isinstance(h.base, int) and not h.isnull and st.blocks[h.base].alive
        if hok and hbase is not None:
            hok = h.base == hbase
        out.append(('its header is the one read', bool(hok)))
        cons = st.blocks[p.base].cells[p.off + E.prog.off(RDR, 'constructed')][1]
        out.append(('the reader is ready for the next message', B(cons)))
        if hok:
            m = st.blocks[h.base].cells[h.off + E.prog.off(HDR, 'options_')][1]
            k = sbytes('content-length')
            out.append(('content-length is the length of the body', z3.And(m.has(k), mval(m, k) == boostm.dec(slen(body)))))
        return out
    return post


def B(x):
    if isinstance(x, bool):
        return x
    return x if z3.is_bool(x) else I(x) != 0


def null_post(p, hdr):
    """no message yet; hdr: None = header still incomplete, else the header's expected options"""
    def post(E, st, o):
        q = o.val
        out = [('no message is delivered', bool(isinstance(q, Ptr) and q.isnull))]
        cells = st.blocks[p.base].cells
        h = cells[p.off + E.prog.off(RDR, 'header')][1]
        if hdr is None:
            out.append(('the header is still open', bool(isinstance(h, Ptr) and h.isnull)))
        else:
            ok = isinstance(h, Ptr) and isinstance(h.base, int) and not h.isnull and st.blocks[h.base].alive
            out.append(('the header is kept', bool(ok)))
            if ok:
                m = st.blocks[h.base].cells[h.off + E.prog.off(HDR, 'options_')][1]
                out.append(('with its options', val_eq(m, hdr)))
        return out
    return post


def cases_read(c, a, hcls, hdr_only=None, lev=None, mx=None, aux=None):
    p, s = a[0], c.str(a[1])
    st = c.st
    v = c.variant.split()[0]
    W = lambda n: p.add(c.prog.off(RDR, n))
    if mx is None:
        mx, lev = I(fld(c, p, 'pkt_max_sz')), I(fld(c, p, 'ver_level_'))
    ho = z3.BoolVal(False) if hdr_only is None else B(hdr_only)
    lim = mx != 0
    upd = lambda full: z3.If(lim, full, I(0) if v == 'done' else I(fld(c, p, 'total_sz')))
    cs = []
    if v in ('fresh', 'done'):
        b = c.str(W('header_cache')) if v == 'fresh' else EMPTY
        b2 = cat(b, s)
        over = z3.And(lim, slen(b2) >= mx)
        t, pos, tl = term(b2)
        text = HTEXT(b2)
        st.assume(text == z3.SubSeq(b2, 0, pos))
        rest = z3.SubSeq(b2, pos + tl, slen(b2) - pos - tl)
        live = z3.And(z3.Not(over), slen(s) > 0)
        cs.append(Case(over, throw=N + '::Request_too_large', post=status(413), any_frame=True, label='too large'))
        cs.append(Case(z3.And(z3.Not(over), slen(s) == 0), throw=MAL, any_frame=True, label='empty read'))
        cs.append(Case(z3.And(live, z3.Not(t)), anyret=True, writes=[(W('header_cache'), 32, StrV(b2)), (W('content_cache'), 32, StrV(EMPTY)), (W('total_sz'), 8, upd(slen(b2))), (W('constructed'), 1, z3.BoolVal(False)),
                                                                     (W('continue_sent_'), 1, z3.BoolVal(False)), (W('header'), 8, NULL)],
                       post=null_post(p, None), label='header incomplete'))
        ok, hdr_throw, fin = hcases(c, text, lev, hcls)
        full = z3.And(live, t)
        for g, thr in hdr_throw:
            cs.append(Case(z3.And(full, g), throw=thr, any_frame=True, label='header refused'))
        has, isn, cl = numok(st, fin)
        good = z3.And(full, ok)
        cs.append(Case(z3.And(good, ho), anyret=True, any_frame=True, post=packet_post(c, p, EMPTY), label='header only'))
        body = z3.And(good, z3.Not(ho))
        cs.append(Case(z3.And(body, z3.Not(has)), throw=N + '::Length_required', post=status(411), any_frame=True, label='no length'))
        cs.append(Case(z3.And(body, has, z3.Not(isn)), throw=MAL, any_frame=True, label='bad length'))
        body = z3.And(body, has, isn)
        cs.append(Case(z3.And(body, slen(rest) >= cl), anyret=True, any_frame=True, post=packet_post(c, p, z3.SubSeq(rest, 0, cl)), label='complete at once'))
        cs.append(Case(z3.And(body, slen(rest) < cl), anyret=True, post=null_post(p, fin), label='body incomplete',
                       writes=[(W('header_cache'), 32, StrV(text)), (W('content_cache'), 32, StrV(rest)), (W('total_sz'), 8, upd(slen(b2))), (W('constructed'), 1, z3.BoolVal(False)), (W('continue_sent_'), 1, z3.BoolVal(False)),
                               (W('header'), 8, lambda E, s2, got: [])]))
    else:
        h, r = c.str(W('header_cache')), c.str(W('content_cache'))
        hp = fld(c, p, 'header')
        m = opts_of(c, hp)
        has, isn, cl = numok(st, m)
        tot = I(fld(c, p, 'total_sz'))
        over = z3.And(lim, z3.Or(cl + slen(h) >= mx, tot + slen(s) >= mx))
        r2 = cat(r, s)
        cs.append(Case(over, throw=N + '::Request_too_large', post=status(413), any_frame=True, label='too large'))
        g = z3.Not(over)
        cs.append(Case(z3.And(g, ho), anyret=True, any_frame=True, post=packet_post(c, p, EMPTY, hp.base), label='header only'))
        g = z3.And(g, z3.Not(ho))
        cs.append(Case(z3.And(g, slen(r2) >= cl), anyret=True, any_frame=True, post=packet_post(c, p, z3.SubSeq(r2, 0, cl), hp.base), label='complete'))
        cs.append(Case(z3.And(g, slen(r2) < cl), anyret=True, post=null_post(p, m), label='body incomplete',
                       writes=[(W('content_cache'), 32, StrV(r2)), (W('total_sz'), 8, upd(tot + slen(s)))]))
    if aux is not None:
        aux['opts'] = fin if v != 'header' else m
    return cs


def hcases(c, text, lev, hcls):
    """(accepted, [(refusal guard, exception)], options) of the header constructor on a text — the contract proved for C08"""
    WORDS, WORD, LINES, LINE = c08.WORDS, c08.WORD, c08.LINES, c08.LINE
    allok = c08.all_ok(text, lev)
    h = LINE(text, z3.IntVal(0))
    c.st.assume(LINES(text) >= 1, WORDS(h) >= 1)
    if hcls == REQ:
        post = WORD(h, z3.IntVal(0)) == sbytes('POST')
        fin = c08.defaults(c08.parsed(text, lev), [('host', ''), ('user-agent', 'unknown')])
        th = [(z3.And(allok, z3.Not(post)), N + '::Method_not_allowed')]
    else:
        post = WORDS(h) >= 2
        fin = c08.defaults(c08.parsed(text, lev), [('server', 'unknown')])
        th = [(z3.And(allok, z3.Not(post)), MAL)]
    k = sbytes('connection')
    c.st.assume(fin.has(k))      # lemma 'options persist'
    return z3.And(allok, post), th + [(z3.Not(allok), c08.REFUSED)], fin


def setup_rq(limit):
    def f(c):
        c.hcls = REQ
        p = rdr(c, limit)
        s = c.newstr(name='chunk')
        c.inp('chunk', c.str(s))
        return [p, s]
    return f


def setup_rs(limit):
    def f(c):
        c.hcls = RSP
        p = rdr(c, limit)
        s = c.newstr(name='chunk')
        c.inp('chunk', c.str(s))
        return [p, s, fbool('header_only')]
    return f


VARS = ['fresh', 'header', 'done']


def read_contracts(limit, which=('request', 'response')):
    out = []
    if 'request' in which:
        out.append(Contract(RDR + '::read_request(std::string const&)', setup_rq(limit), lambda c, a: cases_read(c, a, REQ), level='property', use=False, variants=VARS, weight=6))
    if 'response' in which:
        out.append(Contract(RDR + '::read_response(std::string const&, bool)', setup_rs(limit), lambda c, a: cases_read(c, a, RSP, a[2]), level='property', use=False, variants=VARS, weight=6))
    return out


def helpers(P):
    """contracts of C08 that the reader's proof relies on, proved again as helpers"""
    out = []
    for k in c08.contracts(P):
        if k.use:
            k.level = 'lemma'
            out.append(k)
    return out


def persist_lemma():
    s, lev, k, key, n, v = z3.Const('s', STR), z3.Int('lev'), z3.Int('k'), z3.Const('key', STR), z3.Const('n', STR), z3.Const('v', STR)
    m = containers.empty_map(OPT).put(sbytes('connection'), sbytes('close'))
    P, V_ = m.pres, m.vals[0]
    pp = lambda i: c08.PP(s, lev, i, P, V_)
    step = [k >= 0, pp(k + 1) == z3.Store(pp(k), n, z3.BoolVal(True))]
    return [('base', [pp(z3.IntVal(0)) == P, z3.Select(P, key)], z3.Select(pp(z3.IntVal(0)), key)),
            ('step', step + [z3.Implies(z3.Select(P, key), z3.Select(pp(k), key)), z3.Select(P, key)], z3.Select(pp(k + 1), key)),
            ('the connection option is there from the start', [], z3.Select(P, sbytes('connection')))]


def frag_lemma():
    b, s = z3.Const('b', STR), z3.Const('s', STR)
    t, pos, tl = term(b)
    t2, pos2, tl2 = term(cat(b, s))
    rest = lambda x, p_, l: z3.SubSeq(x, p_ + l, slen(x) - p_ - l)
    return [('a blank line found stays the first one when more bytes arrive', [t], z3.And(t2, pos2 == pos, tl2 == tl)),
            ('the bytes after it only grow', [t, pos2 == pos, tl2 == tl], rest(cat(b, s), pos2, tl2) == cat(rest(b, pos, tl), s)),
            ('a text cut at its first blank line contains none', [t], z3.Not(term(z3.SubSeq(b, 0, pos))[0]))]

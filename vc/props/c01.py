"""C01 base64 codec (libiqxmlrpc/value_type.cc)"""
import z3
from ..core import *
from ..contract import *
from .. import models

BD = 'iqxmlrpc::Binary_data'
TUS = ['value_type.cc']
EXTRA = '''#include "libiqxmlrpc/value_type.h"
const std::string& emit_1(iqxmlrpc::Binary_data& b) { return b.get_data(); }
'''
ALPHA = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
BV8 = lambda x: z3.BitVecVal(x, 8)


# ---- specification functions -------------------------------------------------------------------------------------
def ch(x6):
    """6-bit value (as BV8) -> alphabet character"""
    return z3.If(z3.ULT(x6, 26), x6 + 65, z3.If(z3.ULT(x6, 52), x6 + 71, z3.If(z3.ULT(x6, 62), x6 - 4, z3.If(x6 == 62, BV8(43), BV8(47)))))


def in_alpha(c):
    return z3.Or(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), z3.And(z3.UGE(c, 97), z3.ULE(c, 122)), z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), c == 43, c == 47)


def idx(c):
    return z3.If(z3.And(z3.UGE(c, 65), z3.ULE(c, 90)), c - 65, z3.If(z3.And(z3.UGE(c, 97), z3.ULE(c, 122)), c - 71,
           z3.If(z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), c + 4, z3.If(c == 43, BV8(62), BV8(63)))))


def U(b):
    return z3.Unit(b)


EQ = U(BV8(61))


def quad3(a, b, c):
    return cat(U(ch(z3.LShR(a, 2))), U(ch(((a & 3) << 4) | z3.LShR(b, 4))), U(ch(((b & 15) << 2) | z3.LShR(c, 6))), U(ch(c & 63)))


def quad2(a, b):
    return cat(U(ch(z3.LShR(a, 2))), U(ch(((a & 3) << 4) | z3.LShR(b, 4))), U(ch((b & 15) << 2)), EQ)


def quad1(a):
    return cat(U(ch(z3.LShR(a, 2))), U(ch((a & 3) << 4)), EQ, EQ)


ENCF = z3.Function('ENC', STR, INT, STR)


def ENC(st, d, k):
    """RFC 4648 encoding of the first k bytes of d; unfolded once at k"""
    t = ENCF(d, I(k))
    k = I(k)
    n3 = k - 3
    st.assume(z3.If(k <= 0, t == EMPTY,
              z3.If(k % 3 == 0, t == cat(ENCF(d, n3), quad3(d[n3], d[n3 + 1], d[n3 + 2])),
              z3.If(k % 3 == 1, t == cat(ENCF(d, k - 1), quad1(d[k - 1])),
                    t == cat(ENCF(d, k - 2), quad2(d[k - 2], d[k - 1]))))))
    return t


# decoding: state after reading the first k characters of s
#   GRP(s,k): the pending characters (fewer than 4);  OUT(s,k): bytes produced;  BAD(s,k): a quartet was malformed
GRPF = z3.Function('GRP', STR, INT, STR)
OUTF = z3.Function('OUT', STR, INT, STR)
BADF = z3.Function('BAD', STR, INT, BOOL)


def is_sp(c):
    return models.is_space8(c)


def dec4(f):
    """(bad, bytes) of one quartet"""
    c1, c2, c3, c4 = f[0], f[1], f[2], f[3]
    b1 = U((idx(c1) << 2) | z3.LShR(idx(c2), 4))
    b2 = U((idx(c2) << 4) | z3.LShR(idx(c3), 2))
    b3 = U((idx(c3) << 6) | idx(c4))
    bad12 = z3.Or(z3.Not(in_alpha(c1)), z3.Not(in_alpha(c2)))
    bad3 = z3.And(c3 != 61, z3.Not(in_alpha(c3)))
    bad4 = z3.And(c3 != 61, c4 != 61, z3.Not(in_alpha(c4)))
    bad = z3.Or(bad12, bad3, bad4)
    out = z3.If(c3 == 61, b1, z3.If(c4 == 61, cat(b1, b2), cat(b1, b2, b3)))
    return bad, out


def DEC(st, s, k):
    """one-step unfolding of the decoder state at k"""
    k = I(k)
    g, o, b = GRPF(s, k), OUTF(s, k), BADF(s, k)
    g1, o1, b1 = GRPF(s, k - 1), OUTF(s, k - 1), BADF(s, k - 1)
    c = s[k - 1]
    f = cat(g1, U(c))
    full = slen(g1) == 3
    bad4, out4 = dec4(f)
    st.assume(z3.If(k <= 0, z3.And(g == EMPTY, o == EMPTY, z3.Not(b)),
              z3.If(is_sp(c), z3.And(g == g1, o == o1, b == b1),
              z3.If(full, z3.And(g == EMPTY, b == z3.Or(b1, bad4), z3.Implies(z3.Not(bad4), o == cat(o1, out4))),
                    z3.And(g == f, o == o1, b == b1)))))
    st.assume(slen(g) <= 3)
    return g, o, b


def BAD_mono(st, s, n):
    """lemma bad_is_final, instantiated for the whole text: a malformed quartet anywhere makes the text malformed"""
    k = z3.Int('k!mono')
    bad4, _ = dec4(cat(GRPF(s, k), U(s[k])))
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < I(n), z3.Not(is_sp(s[k])), slen(GRPF(s, k)) == 3, bad4), BADF(s, I(n))), patterns=[GRPF(s, k)]))


class Defs:
    def __init__(self):
        self.h = []

    def assume(self, *cs):
        self.h += list(cs)


def lemmas():
    s, t, d = z3.Consts('s t d', STR)
    k = z3.Int('k')
    out = []
    # the decoder never holds more than three pending characters
    D = Defs()
    g, o, b = DEC(D, s, k + 1)
    out.append(('pending_le_3 step', [k >= 0, k < slen(s), slen(GRPF(s, k)) <= 3] + D.h[:1], slen(g) <= 3))
    # once malformed, always malformed (step of the induction on the number of characters read)
    out.append(('bad_is_final step', [k >= 0, k < slen(s), BADF(s, k)] + D.h, b))
    bad4, _ = dec4(cat(GRPF(s, k), U(s[k])))
    out.append(('bad_is_final base', [k >= 0, k < slen(s), z3.Not(is_sp(s[k])), slen(GRPF(s, k)) == 3, bad4] + D.h, b))
    # decoder state after k characters depends on those characters only
    D = Defs()
    st_ = z3.Concat(s, t)
    g1, o1, b1 = DEC(D, s, k + 1)
    g2, o2, b2 = DEC(D, st_, k + 1)
    same = z3.And(GRPF(s, k) == GRPF(st_, k), OUTF(s, k) == OUTF(st_, k), BADF(s, k) == BADF(st_, k), z3.Not(BADF(s, k)))
    out.append(('prefix step', [k >= 0, k < slen(s), same, z3.Not(b1), z3.Not(b2)] + D.h, z3.And(g1 == g2, o1 == o2)))
    out.append(('prefix step, malformedness', [k >= 0, k < slen(s), same] + D.h, b1 == b2))
    D = Defs()
    DEC(D, s, 0)
    DEC(D, st_, 0)
    out.append(('prefix base', D.h, z3.And(GRPF(s, 0) == GRPF(st_, 0), OUTF(s, 0) == OUTF(st_, 0), BADF(s, 0) == BADF(st_, 0), z3.Not(BADF(s, 0)))))
    # one quartet
    a, b_, c = z3.BitVecs('a b c', 8)
    for nm, q, w in (('3', quad3(a, b_, c), cat(U(a), U(b_), U(c))), ('2', quad2(a, b_), cat(U(a), U(b_))), ('1', quad1(a), U(a))):
        bad, o4 = dec4(q)
        out.append(('quartet of %s byte(s) decodes to them' % nm, [], z3.And(z3.Not(bad), o4 == w)))
        out.append(('quartet of %s byte(s) has no white space' % nm, [], z3.And(*[z3.Not(is_sp(q[i])) for i in range(4)])))
    # round trip: induction on whole triples, then the tail
    for nm, m in (('triple', 3), ('tail of 2', 2), ('tail of 1', 1)):
        D = Defs()
        e = ENCF(d, k)
        e2 = z3.Const('e2', STR)
        n = z3.Int('n')
        x, y, z_ = z3.BitVecs('x y z', 8)
        q = {3: quad3(x, y, z_), 2: quad2(x, y), 1: quad1(x)}[m]
        qs = [z3.BitVec('q%d' % i, 8) for i in range(4)]
        w = {3: cat(U(x), U(y), U(z_)), 2: cat(U(x), U(y)), 1: U(x)}[m]
        hy = [n == slen(e), e2 == z3.Concat(e, cat(*[U(v) for v in qs])), GRPF(e2, n) == EMPTY, z3.Not(BADF(e2, n)), OUTF(e2, n) == sub(d, 0, k)]
        hy += [z3.Not(is_sp(v)) for v in qs]                      # lemma quartet ... has no white space
        bad, o4 = dec4(cat(*[U(v) for v in qs]))
        hy += [z3.Not(bad), o4 == w]                              # lemma quartet ... decodes to them
        hy += [k >= 0, k + m <= slen(d), sub(d, k, m) == w]
        out.append(('round trip, %s: appended characters' % nm, hy[:2], z3.And(*[e2[n + i] == qs[i] for i in range(4)])))
        hy = [n >= 0] + hy[5:] + [e2[n + i] == qs[i] for i in range(4)]
        for i in range(1, 5):                                     # one character at a time
            D = Defs()
            DEC(D, e2, n + i)
            pre = [GRPF(e2, n + i - 1) == cat(*[U(v) for v in qs[:i - 1]]), OUTF(e2, n + i - 1) == sub(d, 0, k), z3.Not(BADF(e2, n + i - 1))]
            post = [GRPF(e2, n + i) == cat(*[U(v) for v in qs[:i]]), OUTF(e2, n + i) == sub(d, 0, k)] if i < 4 else [GRPF(e2, n + 4) == EMPTY, OUTF(e2, n + 4) == cat(sub(d, 0, k), w)]
            out.append(('round trip, %s, character %d' % (nm, i), hy + pre + D.h, z3.And(z3.Not(BADF(e2, n + i)), *post)))
        out.append(('round trip, %s: bytes' % nm, [k >= 0, k + m <= slen(d), sub(d, k, m) == w], cat(sub(d, 0, k), w) == sub(d, 0, k + m)))
    return out


# ---- set-ups -----------------------------------------------------------------------------------------------------
def bd(c, **kw):
    p = c.obj(BD, **kw)
    return p


def setup_idx(c):
    p = bd(c)
    return [p, fresh(BYTE, 'c')]


def cases_idx(c, a):
    x = BV(a[1], 8)
    return [Case(x == 61, throw=BD + '::End_of_data', label="'='"),
            Case(z3.And(x != 61, in_alpha(x)), ret=idx(x), label='alphabet'),
            Case(z3.And(x != 61, z3.Not(in_alpha(x))), throw=BD + '::Malformed_base64', label='outside alphabet')]


def setup_addch(c):
    p = bd(c)
    i = fint('idx')
    c.st.assume(i >= 0, i < (1 << 32))
    return [p, i]


def req_addch(c, a):
    i = a[1]
    return [('0 <= idx < 64', z3.And(I(i) >= 0, I(i) < 64))]


def cases_addch(c, a):
    p = c.fp(a[0], BD, 'base64')
    i = a[1]
    x = z3.Extract(7, 0, BV(i, 32)) if not isinstance(i, int) else BV8(i)
    if is_sint(i):
        x = z3.Int2BV(i, 8)
    return [Case(True, writes=[(p, 32, StrV(cat(c.str(p), U(ch(x)))))])]


def setup_four(c):
    p = bd(c)
    f = c.newstr(name='four')
    return [p, f]


def req_four(c, a):
    return [('quartet has 4 characters', slen(c.str(a[1])) == 4)]


def cases_four(c, a):
    f = c.str(a[1])
    p = c.fp(a[0], BD, 'data')
    d = c.str(p)
    bad, out = dec4(f)
    any_ = lambda E, s, got: []
    return [Case(bad, throw=BD + '::Malformed_base64', writes=[(p, 32, StrV(fstr('partial')))] if False else [], any_frame=True, label='malformed'),
            Case(z3.Not(bad), writes=[(p, 32, StrV(cat(d, out)))], label='decoded')]


def setup_this(c):
    p = bd(c)
    c.inp('data', c.s(p, BD, 'data'))
    c.inp('base64', c.s(p, BD, 'base64'))
    return [p]


def cases_encode(c, a):
    p = c.fp(a[0], BD, 'base64')
    d = c.s(a[0], BD, 'data')
    return [Case(True, writes=[(p, 32, StrV(cat(c.str(p), ENC(c.st, d, slen(d)))))])]


def decoded(c, s):
    """(malformed, bytes) of a text"""
    n = slen(s)
    if c.applying:
        return z3.Or(BADF(s, n), slen(GRPF(s, n)) > 0), OUTF(s, n)      # callers need the names only
    g, o, b = DEC(c.st, s, n)
    BAD_mono(c.st, s, n)
    return z3.Or(b, slen(g) > 0), o


def cases_decode(c, a):
    s = c.s(a[0], BD, 'base64')
    p = c.fp(a[0], BD, 'data')
    d = c.str(p)
    mal, o = decoded(c, s)
    return [Case(mal, throw=BD + '::Malformed_base64', any_frame=True, label='malformed'),
            Case(z3.Not(mal), writes=[(p, 32, StrV(cat(d, o)))], label='decoded')]


# ---- public interface
def setup_text(c):
    p = c.newstr(name='text')
    c.inp('text', c.str(p))
    return [p]


def cases_from_base64(c, a):
    s = c.str(a[0])
    mal, o = decoded(c, s)
    return [Case(mal, throw=BD + '::Malformed_base64', label='malformed'),
            Case(z3.Not(mal), ret=New(BD, {'data': StrV(o), 'base64': StrV(s)}), label='decoded')]


def setup_bytes(c):
    p = c.newstr(name='bytes')
    c.inp('data', c.str(p))
    return [p]


def cases_from_data(c, a):
    return [Case(True, ret=New(BD, {'data': StrV(c.str(a[0])), 'base64': StrV(EMPTY)}))]


def setup_buf(c):
    p = c.newstr(name='buf')
    s = c.str(p)
    c.inp('data', s)
    return [models.data_ptr(p), slen(s)]


def cases_from_buf(c, a):
    s = c.str(a[0].base[1])
    return [Case(True, ret=New(BD, {'data': StrV(s), 'base64': StrV(EMPTY)}))]


def cases_get_data(c, a):
    return [Case(True, ret=c.fp(a[0], BD, 'data'))]


def setup_get_base64(c):
    # object invariant established by every constructor: the text is empty (made from bytes; not asked yet) or non-empty
    p = bd(c)
    c.inp('data', c.s(p, BD, 'data'))
    return [p]


def cases_get_base64(c, a):
    p = c.fp(a[0], BD, 'base64')
    d, t = c.s(a[0], BD, 'data'), c.str(p)
    lazy = slen(t) == 0
    return [Case(z3.Not(lazy), ret=p, label='text already known'),
            Case(lazy, ret=p, writes=[(p, 32, StrV(ENC(c.st, d, slen(d))))], label='text made on demand')]


def upto(E, st, k, n):
    """the smaller of the two, decided if the path determines it"""
    return k if E.must(st, k <= n, 300) else n if E.must(st, k >= n, 300) else z3.If(k <= n, k, n)


def cand_codec(L):
    out = []
    consts = [t for t in L.all_strs()]
    for (nm, loc, v) in L.strs:
        for n2, g, x0 in L.ints:
            for src in consts:
                out.append(('%s = entry ++ ENC(%s)' % (nm, n2), lambda st, loc=loc, v=v, g=g, src=src: loc.get(st).s == cat(v.s, ENC(st, src, g(st)))))
                tail = lambda st, loc=loc, v=v, g=g, src=src: loc.get(st).s == cat(v.s, ENC(st, src, upto(L.E, st, g(st), slen(src))))
                tail.patience = 9000
                out.append(('%s = entry ++ ENC(%s or all)' % (nm, n2), tail))
                out.append(('%s = entry ++ OUT(%s)' % (nm, n2), lambda st, loc=loc, v=v, g=g, src=src: loc.get(st).s == cat(v.s, DEC(st, src, g(st))[1])))
                out.append(('%s = GRP(%s)' % (nm, n2), lambda st, loc=loc, v=v, g=g, src=src: loc.get(st).s == DEC(st, src, g(st))[0]))
                out.append(('%s : not BAD(%s)' % (nm, n2), lambda st, g=g, src=src: z3.Not(DEC(st, src, g(st))[2])))
    return out


CANDS = [cand_codec]
ASSUME = ['memory allocation does not fail', 'strings are shorter than 2^60 bytes', 'isspace in the "C" locale']


def contracts(P):
    return [
        Contract(BD + '::get_idx(char)', setup_idx, cases_idx),
        Contract(BD + '::add_base64_char(int) const', setup_addch, cases_addch, req_addch),
        Contract(BD + '::decode_four(std::string const&)', setup_four, cases_four, req_four),
        Contract(BD + '::encode() const', setup_this, cases_encode, weight=9),
        Contract(BD + '::decode()', setup_this, cases_decode, weight=8),
        Contract(BD + '::from_base64(std::string const&)', setup_text, cases_from_base64, level='property'),
        Contract(BD + '::from_data(std::string const&)', setup_bytes, cases_from_data, level='property'),
        Contract(BD + '::from_data(char const*, unsigned long)', setup_buf, cases_from_buf, level='property'),
        Contract(BD + '::get_data() const', setup_this, cases_get_data, level='property'),
        Contract([BD + '::get_base64() const', BD + '::get_base64[abi:cxx11]() const'], setup_get_base64, cases_get_base64, level='property'),
        Lemma('base64 specification', lemmas),
    ]


def replay(name, v):
    out = []
    if 'text' in v:
        out.append('dec ' + (v['text'] or '-'))
    if 'base64' in v:
        out.append('dec ' + (v['base64'] or '-'))
    if 'data' in v:
        out.append('enc ' + (v['data'] or '-'))
    return out

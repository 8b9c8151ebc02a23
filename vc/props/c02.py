"""C02: dateTime.iso8601 values (value_type.cc, Date_time)

Specification.  A text t is a date-time iff |t| = 17, its characters have the form ddddddddTdd:dd:dd and the fields
    Y = t[0..4)  M = t[4..6)  D = t[6..8)  h = t[9..11)  m = t[12..14)  s = t[15..17)
are in range.  The broken-down time has exactly these fields; the text of a broken-down time with fields in range is
the fields written with 4,2,2,2,2,2 decimal digits in that form.  Lemma 'round trip': formatting what was parsed gives
the text back."""
import z3
from ..core import *
from ..contract import *
from .. import models

TUS = ['value_type.cc']
DT = 'iqxmlrpc::Date_time'
TM = 'tm_'
NAMES = ['tm_sec', 'tm_min', 'tm_hour', 'tm_mday', 'tm_mon', 'tm_year', 'tm_wday', 'tm_yday', 'tm_isdst']
FORM = b'ddddddddTdd:dd:dd'
POS = {'tm_year': (0, 4), 'tm_mon': (4, 2), 'tm_mday': (6, 2), 'tm_hour': (9, 2), 'tm_min': (12, 2), 'tm_sec': (15, 2)}
BIAS = {'tm_year': 1900, 'tm_mon': 1}
LO = {'tm_year': 0, 'tm_mon': 0, 'tm_mday': 1, 'tm_hour': 0, 'tm_min': 0, 'tm_sec': 0}
HI = {'tm_year': 8099, 'tm_mon': 11, 'tm_mday': 31, 'tm_hour': 23, 'tm_min': 59, 'tm_sec': 61}
OPTS = {'concrete_limit': 40}


def dig(c):
    return z3.And(z3.UGE(c, 48), z3.ULE(c, 57))


def val(t, n):
    o, k = POS[n]
    v = z3.IntVal(0)
    for i in range(k):
        v = v * 10 + z3.BV2Int(t[o + i]) - 48
    return v - BIAS.get(n, 0)


def form(t):
    cs = [slen(t) == 17]
    for i, c in enumerate(FORM):
        cs.append(dig(t[i]) if c == 100 else t[i] == c)
    return z3.And(*cs)


def inrange(f):
    return z3.And(*[z3.And(I(f[n]) >= LO[n], I(f[n]) <= HI[n]) for n in POS])


def accepted(t):
    return z3.And(form(t), inrange({n: val(t, n) for n in POS}))


def text(f):
    """formatted fields (each in range)"""
    d = lambda x, p: models.U8(48 + (x / p) % 10)
    out = []
    for i, c in enumerate(FORM):
        hit = [(n, o, k) for n, (o, k) in POS.items() if o <= i < o + k]
        if hit:
            n, o, k = hit[0]
            out.append(d(I(f[n]) + BIAS.get(n, 0), 10 ** (k - 1 - (i - o))))
        else:
            out.append(sbytes(bytes([c])))
    return cat(*out)


def tmoff(c, n=None):
    o = c.prog.off(DT, TM)
    return o if n is None else o + 4 * NAMES.index(n)


def s32(c, v):
    return models.sint32(v)


def fields(c, p, base=0):
    """signed values of the broken-down time at p"""
    return {n: models.sint32(c.E.load(c.st, c.prog.mods[0], p.add(base + 4 * NAMES.index(n)), ("i", 32))) for n in POS}


def tm_block(c, st, p, base):
    for n in NAMES:
        st.put(p.add(base + 4 * NAMES.index(n)), 4, c.E.fresh_of(st, ('i', 32), n))
    st.put(p.add(base + 40), 8, c.E.fresh_of(st, ('i', 64), 'gmtoff'))
    st.put(p.add(base + 48), 8, NULL)


def raw(c, cls=DT):
    p = c.st.alloc(c.prog.size(cls), 'heap', 'Date_time', cls)
    c.st.blocks[p.base].exact = cls
    return p


# ---- parsing
def setup_parse(c):
    p = raw(c)
    t = c.newstr(name='text')
    c.inp('text', c.str(t))
    return [p, t]


def w32(v):
    return z3.simplify(z3.If(v < 0, v + (1 << 32), v))


def cases_parse(c, a):
    p, t = a[0], c.str(a[1])
    acc = accepted(t)
    wr = [(p.add(tmoff(c, n)), 4, (lambda n: lambda E, s, got: [('%s is the written field' % n, models.sint32(got) == val(t, n) if got is not None else False)])(n)) for n in POS]
    wr.append((p.add(c.prog.off(DT, 'cache')), 32, StrV(EMPTY)))
    return [Case(z3.Not(acc), throw=DT + '::Malformed_iso8601', label='rejected', any_frame=True),
            Case(acc, writes=wr, label='accepted', any_frame=True)]


# ---- from a broken-down time
def setup_tm(c):
    p = raw(c)
    t = c.st.alloc(56, 'heap', 'tm')
    tm_block(c, c.st, t, 0)
    return [p, t]


def cases_tm(c, a):
    p, t = a
    f = fields(c, t)
    wr = [(p.add(tmoff(c, n)), 4, (lambda n: lambda E, s, got: [('%s copied' % n, models.sint32(got) == f[n] if got is not None else False)])(n)) for n in POS]
    wr.append((p.add(c.prog.off(DT, 'cache')), 32, StrV(EMPTY)))
    return [Case(True, writes=wr, any_frame=True)]


# ---- formatting
def dt(c):
    """any Date_time object whose remembered text, if any, is the text of its fields (object invariant)"""
    p = raw(c)
    try:
        c.st.put(p, 8, c.prog.vptr_for(c.E, c.st, DT))
    except Unsupported:
        c.st.put(p, 8, Ptr(('vt', DT), 0))
    tm_block(c, c.st, p, tmoff(c))
    s = fstr('cache')
    c.st.assume(slen(s) < MAXLEN)
    c.st.put(p.add(c.prog.off(DT, 'cache')), 32, StrV(s))
    f = fields(c, p, tmoff(c))
    for n in POS:
        c.inp(n, f[n])
    c.inp('cached', slen(s) != 0)
    return p


def inv(c, p):
    s = c.str(p.add(c.prog.off(DT, 'cache')))
    f = fields(c, p, tmoff(c))
    return [('fields in range', inrange(f)), ('remembered text is empty or the text of the fields', z3.Or(slen(s) == 0, s == text(f)))]


def setup_fmt(c):
    return [dt(c)]


def cases_fmt(c, a):
    p = a[0].add(c.prog.off(DT, 'cache'))
    f = fields(c, a[0], tmoff(c))
    return [Case(True, ret=p, writes=[(p, 32, StrV(text(f)))])]


def cases_clone(c, a):
    f = fields(c, a[0], tmoff(c))
    s = c.str(a[0].add(c.prog.off(DT, 'cache')))

    def post(E, st, o):
        p = o.val
        b = st.blocks[p.base]
        out = [('a new live object', bool(b.kind == 'heap' and b.alive and p.base != a[0].base))]
        for n in POS:
            cell = b.cells.get(tmoff(c, n))
            out.append((n + ' equal', models.sint32(cell[1]) == f[n] if cell else False))
        cell = b.cells.get(c.prog.off(DT, 'cache'))
        out.append(('remembered text is empty or the text of the fields', z3.Or(slen(cell[1].s) == 0, cell[1].s == text(f)) if cell else False))
        return out
    return [Case(True, anyret=True, post=post)]


def lemmas():
    out = []
    # digit by digit: a digit is 48 + d with 0 <= d <= 9
    x = z3.BitVec('x', 8)
    out.append(('a digit character is 48 + its value', [dig(x)], z3.And(z3.Int2BV(48 + (z3.BV2Int(x) - 48), 8) == x, z3.BV2Int(x) - 48 >= 0, z3.BV2Int(x) - 48 <= 9)))
    a, b, c, d = z3.Ints('a b c d')
    ds = [z3.And(v >= 0, v <= 9) for v in (a, b, c, d)]
    two = a * 10 + b
    four = ((a * 10 + b) * 10 + c) * 10 + d
    back = lambda x, p: (x / p) % 10
    out.append(('two digits survive', ds[:2], z3.And(back(two, 10) == a, back(two, 1) == b)))
    out.append(('four digits survive', ds, z3.And(back(four, 1000) == a, back(four, 100) == b, back(four, 10) == c, back(four, 1) == d)))
    out.append(('a field of two digits is at most 99, of four at most 9999', ds, z3.And(two >= 0, two <= 99, four >= 0, four <= 9999)))
    return out


ASSUME = ['memory allocation does not fail', 'strings are shorter than 2^60 bytes', 'the "C" locale (strftime digits)',
          'atoi of at most four decimal digits is their decimal value; strftime %Y %m %d %H %M %S write a field in range as 4,2,2,2,2,2 decimal digits']


def contracts(P):
    return [
        Contract(DT + '::Date_time(std::string const&)', setup_parse, cases_parse, level='property', weight=9),
        Contract(DT + '::Date_time(tm const*)', setup_tm, cases_tm, level='property'),
        Contract(DT + '::to_string() const', setup_fmt, cases_fmt, lambda c, a: inv(c, a[0]), level='property'),
        Contract(DT + '::clone() const', setup_fmt, cases_clone, lambda c, a: inv(c, a[0]), level='property'),
        Lemma('date-time specification', lemmas),
    ]


def replay(name, v):
    if 'text' in v:
        return ['parse ' + (v['text'] or '-')]
    if 'tm_year' in v:
        return ['fmt %s' % ' '.join(str(v[n]) for n in ('tm_year', 'tm_mon', 'tm_mday', 'tm_hour', 'tm_min', 'tm_sec'))]
    return []

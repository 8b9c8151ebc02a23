"""Custom headers (xheaders.cc) and their way in and out of message headers (http.cc)."""
import z3
from .httpm import *

XH = 'iqxmlrpc::XHeaders'
XERR = 'iqxmlrpc::Error_xheader'
AB, AV = z3.ArraySort(STR, BOOL), z3.ArraySort(STR, STR)
KEYS, NKEYS = z3.Function('option_order', AB, z3.ArraySort(INT, STR)), z3.Function('option_count', AB, INT)
# what is kept of the first i entries of a map
XP, XV = z3.Function('kept_names', AB, AV, INT, AB), z3.Function('kept_values', AB, AV, INT, AV)
# a map overridden by another
MP, MV = z3.Function('merged_names', AB, AB, AB), z3.Function('merged_values', AB, AV, AB, AV, AV)
NONE = z3.K(STR, z3.BoolVal(False))
ANYV = z3.Const('mv0_str_str_0', AV)


def okname(s):
    return z3.Or(z3.PrefixOf(sbytes('X-'), s), z3.PrefixOf(sbytes('x-'), s))


def unfold(st, m, i, v0=None):
    """definition of what is kept of the first i + 1 entries from that of the first i"""
    P, V = m.pres, m.vals[0]
    k = z3.Select(KEYS(P), i)
    st.assume(KEYS(P) == m.en.keys, NKEYS(P) == m.en.n, XP(P, V, z3.IntVal(0)) == NONE,
              z3.Implies(i >= 0, z3.And(XP(P, V, i + 1) == z3.If(okname(k), z3.Store(XP(P, V, i), lower(k), z3.BoolVal(True)), XP(P, V, i)),
                                        XV(P, V, i + 1) == z3.If(okname(k), z3.Store(XV(P, V, i), lower(k), z3.Select(V, k)), XV(P, V, i)))))


def kept(st, m):
    containers.enum(st, m)
    unfold(st, m, z3.IntVal(0))
    P, V = m.pres, m.vals[0]
    return MapV(m.kkind, m.schema, XP(P, V, NKEYS(P)), (XV(P, V, NKEYS(P)),))


def merged(st, m, x):
    k = z3.Const(fresh_name('k'), STR)
    P, V = z3.Const(fresh_name('merged_p'), AB), z3.Const(fresh_name('merged_v'), AV)
    st.assume(P == MP(m.pres, x.pres), V == MV(m.pres, m.vals[0], x.pres, x.vals[0]))
    st.assume(z3.ForAll([k], z3.Select(P, k) == z3.Or(m.has(k), x.has(k)), patterns=[z3.Select(P, k)]))
    st.assume(z3.ForAll([k], z3.Select(V, k) == z3.If(x.has(k), x.get(k), m.get(k)), patterns=[z3.Select(V, k)]))
    return MapV(m.kkind, m.schema, P, (V,))


def xheaders(c, name='xheaders'):
    p = c.st.alloc(c.prog.size(XH), 'heap', name, XH)
    c.st.blocks[p.base].exact = XH
    fill(c, p)
    return p


def fill(c, p, m=None):
    c.st.put(p, 8, c.prog.vptr_for(c.E, c.st, XH))
    c.st.put(xmap_at(c, p), 48, m if m is not None else containers.fresh_map(OPT, 'xheaders'))


def xmap_at(c, p):
    return p.add(c.prog.off(XH, 'xheaders_'))


def xmap(c, p):
    return c.st.cell(xmap_at(c, p))


# ---- the class itself
def setup_val(c):
    return [c.newstr(name='name')]


def cases_val(c, a):
    return [Case(True, ret=okname(c.str(a[0])))]


def setup_ix(c):
    n = c.newstr(name='name')
    c.inp('name', c.str(n))
    return [xheaders(c), n]


def cases_ix(c, a):
    n, m = c.str(a[1]), xmap(c, a[0])
    k = lower(n)

    def post(E, st, o):
        v = o.val
        ok = isinstance(v, Ptr) and isinstance(v.base, tuple) and v.base[0] == 'node' and v.base[1].base == a[0].base
        return [('refers to the entry of the lower-case name', v.base[2].t == k if ok else False)]
    return [Case(z3.And(okname(n), m.has(k)), anyret=True, post=post, label='known'),
            Case(z3.And(okname(n), z3.Not(m.has(k))), anyret=True, writes=[(xmap_at(c, a[0]), 48, m.put(k, EMPTY))], post=post, label='new'),
            Case(z3.Not(okname(n)), throw=XERR, label='not an X- name')]


def cases_find(c, a):
    n, m = c.str(a[1]), xmap(c, a[0])
    k = lower(n)

    def post(E, st, o):
        v = o.val
        if not (isinstance(v, Ptr) and isinstance(v.base, tuple) and v.base[1].base == a[0].base):
            return [('an iterator of this map', False)]
        if v.base[0] == 'end':
            return [('nothing found only when absent', z3.Not(m.has(k)))]
        return [('found the entry of the lower-case name', z3.And(m.has(k), v.base[2].t == k))]
    return [Case(True, anyret=True, post=post)]


def setup_as(c):
    src = c.st.alloc(48, 'heap', 'source')
    c.st.put(src, 48, containers.fresh_map(OPT, 'source'))
    return [xheaders(c), src]


def cases_as(c, a):
    m = c.st.cell(a[1])
    return [Case(True, ret=a[0], writes=[(xmap_at(c, a[0]), 48, kept(c.st, m))], label='kept entries')]


def cand_kept(L):
    out = []
    for bid, b in L.entry.blocks.items():
        m = None
        for o, cell in b.cells.items():
            if isinstance(cell[1], MapV) and cell[1].en is not None and ('cell', bid, o) not in L.mod:
                m = cell[1]
                for n2, g, x0 in L.ints:
                    out.append(('%s within' % n2, lambda st, g=g, en=m.en: z3.And(g(st) >= 0, g(st) <= en.n)))
                    for n1, loc, v in L.maps:
                        if v.kkind != 'str':
                            continue

                        def inv(st, g=g, loc=loc, m=m, v=v):
                            i = g(st)
                            unfold(st, m, i)
                            unfold(st, m, i - 1)
                            x = loc.get(st)
                            P, V = m.pres, m.vals[0]
                            k = z3.Const('k!x', STR)
                            return z3.And(x.pres == XP(P, V, i), z3.ForAll([k], z3.Implies(z3.Select(XP(P, V, i), k), x.get(k) == z3.Select(XV(P, V, i), k)), patterns=[z3.Select(XP(P, V, i), k)]))
                        out.append(('kept so far', inv))

                        def mrg(st, g=g, loc=loc, m=m, v=v):
                            i = g(st)
                            x = loc.get(st)
                            m.en.touch(st, i)
                            m.en.touch(st, i - 1)
                            k = z3.Const('k!m', STR)
                            mine = z3.And(m.has(k), m.en.pos(k) < i)
                            return z3.ForAll([k], z3.And(x.has(k) == z3.Or(v.has(k), mine), x.get(k) == z3.If(mine, m.get(k), v.get(k))), patterns=[m.en.pos(k), x.has(k), x.get(k)])
                        out.append(('overridden so far', mrg))
    return out


# ---- message headers
def setup_gx(c):
    h = header(c)
    return [h, xheaders(c)]


def cases_gx(c, a):
    return [Case(True, writes=[(xmap_at(c, a[1]), 48, kept(c.st, opts_of(c, a[0])))])]


def cases_sx(c, a):
    m, x = opts_of(c, a[0]), xmap(c, a[1])
    containers.enum(c.st, x)
    return [Case(True, writes=[(a[0].add(c.prog.off(HDR, 'options_')), 48, merged(c.st, m, x))], label='overriding')]


def lower_lemma():
    """for a map whose names are lower-case, what is kept are exactly the entries whose name starts with x-"""
    P, V = z3.Const('P', AB), z3.Const('V', AV)
    i, n = z3.Ints('i n')
    k = z3.Const('k', STR)
    pos = z3.Function('pos', STR, INT)
    key = z3.Select(KEYS(P), i)
    claim = lambda i, k: z3.And(z3.Select(XP(P, V, i), k) == z3.And(z3.Select(P, k), z3.PrefixOf(sbytes('x-'), k), pos(k) < i),
                             z3.Implies(z3.Select(XP(P, V, i), k), z3.Select(XV(P, V, i), k) == z3.Select(V, k)))
    step = z3.And(XP(P, V, i + 1) == z3.If(okname(key), z3.Store(XP(P, V, i), lower(key), z3.BoolVal(True)), XP(P, V, i)),
                  XV(P, V, i + 1) == z3.If(okname(key), z3.Store(XV(P, V, i), lower(key), z3.Select(V, key)), XV(P, V, i)))
    # the traversal order lists each present name once; the lower-case form of a name has no capital X
    order = [z3.Select(P, key), pos(key) == i, z3.Implies(z3.And(z3.Select(P, k), pos(k) == i), k == key), z3.Implies(z3.Select(P, k), z3.And(pos(k) >= 0, pos(k) < n))]
    low = [lower(key) == key, z3.Implies(lower(key) == key, z3.Not(z3.PrefixOf(sbytes('X-'), key)))]
    return [('start', [XP(P, V, z3.IntVal(0)) == NONE, z3.Implies(z3.Select(P, k), pos(k) >= 0)], claim(z3.IntVal(0), k)),
            ('each entry', [i >= 0, i < n, claim(i, k), step] + order + low, claim(i + 1, k)),
            ('all entries', [claim(n, k)] + order[3:], z3.Select(XP(P, V, n), k) == z3.And(z3.Select(P, k), z3.PrefixOf(sbytes('x-'), k)))]


def xcontracts():
    return [
        Contract(XH + '::validate(std::string const&)', setup_val, cases_val, level='property', use=False),
        Contract(XH + '::operator[](std::string const&)', setup_ix, cases_ix, level='property', use=False),
        Contract(XH + '::find(std::string const&) const', setup_ix, cases_find, level='property', use=False),
        Contract(XH + '::operator=(%s const&)' % OPTD, setup_as, cases_as, level='property', weight=2),
        Contract(HDR + '::get_xheaders(iqxmlrpc::XHeaders&) const', setup_gx, cases_gx, level='property'),
        Contract(HDR + '::set_xheaders(iqxmlrpc::XHeaders const&)', setup_gx, cases_sx, level='property', weight=2),
        Lemma('lower-case names', lower_lemma),
    ]


OPTD = 'std::map<std::string, std::string, std::less<std::string>, std::allocator<std::pair<std::string const, std::string>>>'

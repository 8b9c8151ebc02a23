"""Assumed contracts of boost string algorithms, lexical_cast, smart pointers, boost::function, and std::multimap with literal keys.
LOWER, TRIM, token lists and number syntax are specification functions; they are evaluated where the text is a constant."""
import re
import z3
from .core import *
from .irparse import *
from .models import M, R, S, setS, cstr_of, data_ptr, concrete_bytes, throw, split_cond, iter_range, app, bytes_at

PTRT = PTR
LOWER = z3.Function('LOWER', STR, STR)
TRIM = z3.Function('TRIM', STR, STR)
ALLDIG = z3.Function('ALLDIG', STR, BOOL)
ISU32 = z3.Function('ISU32', STR, BOOL)
U32 = z3.Function('U32', STR, INT)
ISI32 = z3.Function('ISI32', STR, BOOL)
I32 = z3.Function('I32', STR, INT)
ISI64 = z3.Function('ISI64', STR, BOOL)
I64 = z3.Function('I64', STR, INT)
ISDBL = z3.Function('ISDBL', STR, BOOL)
DBL = z3.Function('DBL', STR, F64)
DEC = z3.Function('DEC', INT, STR)
SPACES = b' \t\n\v\f\r'
_tok = {}


def tokens(kind):
    """(count, i-th token) specification functions of splitting by a character class"""
    if kind not in _tok:
        _tok[kind] = (z3.Function('NTOK_' + kind, STR, INT), z3.Function('TOK_' + kind, STR, INT, STR))
    return _tok[kind]


def lower(s):
    b = concrete_bytes(s)
    return sbytes(bytes(b).lower()) if b is not None else LOWER(s)


def trim(s):
    b = concrete_bytes(s)
    return sbytes(b.strip(SPACES)) if b is not None else TRIM(s)


def dec(n):
    if isinstance(n, int):
        return sbytes(str(n).encode())
    n = z3.simplify(n)
    return sbytes(str(n.as_long()).encode()) if z3.is_int_value(n) else DEC(n)


def lit(E, st, p):
    return cstr_of(E, st, p)


@R(r'^boost::iterator_range<.*> boost::algorithm::find_first<std::string, char \[\d+\]>\(std::string( const)?&')
def find_first(E, st, a, rt, mod, dem):
    s, t = S(E, st, a[0]), lit(E, st, a[1])
    i = z3.IndexOf(s, t, z3.IntVal(0))
    n = concrete_bytes(t)
    L = slen(s)
    if not n:
        raise Unsupported('find_first with an empty pattern')
    st.assume(z3.Implies(i >= 0, i + len(n) <= L), i >= -1)
    b = z3.simplify(z3.If(i < 0, L, i))
    e = z3.simplify(z3.If(i < 0, L, i + len(n)))
    return (data_ptr(a[0], b), data_ptr(a[0], e))


@R(r'^bool boost::algorithm::(i?)starts_with<std::string, char \[\d+\]>\(')
def starts_with(E, st, a, rt, mod, dem):
    s, t = S(E, st, a[0]), lit(E, st, a[1])
    if 'istarts_with<' in dem:
        s, t = lower(s), lower(t)
    return z3.PrefixOf(t, s)


@R(r'^bool boost::algorithm::i?(contains|ends_with)<std::string, char \[\d+\]>\(')
def contains(E, st, a, rt, mod, dem):
    s, t = S(E, st, a[0]), lit(E, st, a[1])
    if '::icontains<' in dem or '::iends_with<' in dem:
        s, t = lower(s), lower(t)
    return z3.Contains(s, t) if 'contains<' in dem else z3.SuffixOf(t, s)


@R(r'^bool boost::algorithm::i?equals<std::string, (char \[\d+\]|std::string)>\(')
def equals(E, st, a, rt, mod, dem):
    s, t = S(E, st, a[0]), (lit(E, st, a[1]) if 'char [' in dem else S(E, st, a[1]))
    if '::iequals<' in dem:
        s, t = lower(s), lower(t)
    return s == t


@M('boost::algorithm::is_digit(std::locale const&)', 'boost::algorithm::is_space(std::locale const&)', 'boost::algorithm::is_alnum(std::locale const&)', 'boost::algorithm::is_upper(std::locale const&)')
def classify(E, st, a, rt, mod, dem):
    st.put(a[0], 16, Opq('class', z3.StringVal(re.search(r'is_(\w+)', dem).group(1))))


@R(r'^boost::algorithm::detail::is_any_ofF<.*> boost::algorithm::is_any_of<char \[\d+\]>\(')
def any_of(E, st, a, rt, mod, dem):
    b = concrete_bytes(lit(E, st, a[1]))
    st.put(a[0], 24, Opq('class', z3.StringVal('of:' + b.hex())))


@R(r'^boost::algorithm::detail::(is_any_ofF<char>|is_classifiedF)::is_(any_ofF|classifiedF)\(boost::algorithm::detail::is_.*\)$')
def pred_copy(E, st, a, rt, mod, dem):
    st.put(a[0], 24 if 'any_of' in dem else 16, E.aget(st, a[1], Opq))


@R(r'^boost::algorithm::detail::(is_any_ofF<char>::~is_any_ofF|is_classifiedF::~is_classifiedF)\(\)$')
def pred_dtor(E, st, a, rt, mod, dem):
    return None


def pred_name(E, st, p):
    return E.aget(st, p, Opq).t.as_string()


@R(r'^bool boost::algorithm::all<std::string, boost::algorithm::detail::is_classifiedF>\(')
def all_(E, st, a, rt, mod, dem):
    k = pred_name(E, st, a[1])
    s = S(E, st, a[0])
    if k != 'digit':
        return z3.Function('ALL_' + k, STR, BOOL)(s)
    b = concrete_bytes(s)
    return z3.BoolVal(all(48 <= c <= 57 for c in b)) if b is not None else ALLDIG(s)


@R(r'^void boost::algorithm::to_lower<std::string>\(std::string&')
def to_lower(E, st, a, rt, mod, dem):
    s = S(E, st, a[0])
    t = lower(s)
    st.assume(slen(t) == slen(s))
    setS(E, st, a[0], t)


@R(r'^std::string boost::algorithm::to_lower_copy<std::string>\(std::string const&')
def to_lower_copy(E, st, a, rt, mod, dem):
    s = S(E, st, a[1])
    t = lower(s)
    st.assume(slen(t) == slen(s))
    setS(E, st, a[0], t)


@R(r'^void boost::algorithm::trim<std::string>\(std::string&')
def trim_(E, st, a, rt, mod, dem):
    s = S(E, st, a[0])
    t = trim(s)
    st.assume(slen(t) <= slen(s))
    setS(E, st, a[0], t)


@R(r'^std::(deque|vector)<std::string, .*>& boost::algorithm::split<std::(deque|vector)<std::string, .*boost::algorithm::detail::is_')
def split(E, st, a, rt, mod, dem):
    k = pred_name(E, st, a[2])
    comp = a[3]
    if not isinstance(comp, int):
        raise Unsupported('token compression mode not constant')
    kind = k.replace(':', '_') + ('_c' if comp == 0 else '')
    N, T = tokens(kind)
    s = S(E, st, a[1])
    q = E.aget(st, a[0], SeqV)
    arr = z3.Function('TOKS_' + kind, STR, z3.ArraySort(INT, STR))(s)
    i = z3.Int(fresh_name('i'))
    st.assume(z3.ForAll([i], z3.Select(arr, i) == T(s, i), patterns=[z3.Select(arr, i)]))
    st.assume(N(s) >= 1, N(s) <= slen(s) + 1)
    E.aset(st, a[0], None, SeqV(q.schema, q.elsize, (arr,), 0, N(s)))
    return a[0]


# ---- lexical_cast
BADCAST = 'boost::wrapexcept<boost::bad_lexical_cast>'
NUMS = {'unsigned int': (ISU32, U32, 32, False), 'int': (ISI32, I32, 32, True), 'long': (ISI64, I64, 64, True)}


def numfacts(st, s, ty):
    ok, f, w, sg = NUMS[ty]
    st.assume(z3.Implies(ok(s), z3.And(f(s) >= (-(1 << (w - 1)) if sg else 0), f(s) < (1 << (w - 1 if sg else w)), slen(s) >= 1)))


def lexconst(b, ty):
    """value of a constant text, or None"""
    m = re.match(rb'^[+-]?\d+$', b)
    if not m:
        return None
    v = int(b)
    if ty == 'unsigned int':
        return v % (1 << 32) if -(1 << 32) < v < (1 << 32) else None
    w = 31 if ty == 'int' else 63
    return v if -(1 << w) <= v < (1 << w) else None


@R(r'^(unsigned int|int|long) boost::lexical_cast<(unsigned int|int|long), std::string>\(std::string const&\)$')
def lex_num(E, st, a, rt, mod, dem):
    ty = re.match(r'^(unsigned int|int|long)', dem).group(1)
    ok, f, w, sg = NUMS[ty]
    s = S(E, st, a[0])
    b = concrete_bytes(s)
    if b is not None:
        v = lexconst(b, ty)
        return [throw(E, st, BADCAST)] if v is None else v % (1 << w)
    numfacts(st, s, ty)
    g, bad = split_cond(E, st, ok(s))
    out = []
    from .engine import Outcome
    if g is not None:
        v = f(s)
        if sg:
            v = z3.If(v < 0, v + (1 << w), v)
        out.append(Outcome(g, 'ret', v))
    if bad is not None:
        out.append(throw(E, bad, BADCAST))
    return out


@R(r'^double boost::lexical_cast<double, std::string>\(std::string const&\)$')
def lex_dbl(E, st, a, rt, mod, dem):
    s = S(E, st, a[0])
    g, bad = split_cond(E, st, ISDBL(s))
    from .engine import Outcome
    return ([Outcome(g, 'ret', Flt(DBL(s)))] if g is not None else []) + ([throw(E, bad, BADCAST)] if bad is not None else [])


@R(r'^std::string boost::lexical_cast<std::string, (unsigned long|int|long|unsigned int)>\(')
def lex_str(E, st, a, rt, mod, dem):
    ty = re.search(r'<std::string, ([\w ]+)>', dem).group(1)
    w = 64 if 'long' in ty else 32
    v = E.load(st, E.prog.mods[0], a[1], ('i', w))
    if not ty.startswith('unsigned'):
        v = E.sgn(st, v, w)
    t = dec(v if isinstance(v, int) else I(v))
    decfacts(st, v, t)
    setS(E, st, a[0], t)


@R(r'^std::to_string\((int|long|long long|unsigned int|unsigned long|unsigned long long)\)$')
def to_str(E, st, a, rt, mod, dem):
    ty = re.search(r'\(([\w ]+)\)', dem).group(1)
    v = a[1] if ty.startswith('unsigned') else E.sgn(st, a[1], 64 if 'long' in ty else 32)
    t = dec(v if isinstance(v, int) else I(v))
    decfacts(st, v, t)
    setS(E, st, a[0], t)


def decfacts(st, v, t):
    v = I(v)
    st.assume(slen(t) >= 1, slen(t) <= 20)
    st.assume(z3.Implies(z3.And(v >= 0, v < 1 << 32), z3.And(ISU32(t), U32(t) == v, ALLDIG(t))))
    st.assume(z3.Implies(z3.And(v >= -(1 << 31), v < 1 << 31), z3.And(ISI32(t), I32(t) == v)))
    st.assume(z3.Implies(z3.And(v >= -(1 << 63), v < 1 << 63), z3.And(ISI64(t), I64(t) == v)))


@R(r'^std::string boost::lexical_cast<std::string, std::string>\(std::string const&\)$')
def lex_same(E, st, a, rt, mod, dem):
    setS(E, st, a[0], S(E, st, a[1]))


# ---- scoped_ptr / shared_ptr / auto_ptr as plain holders (ownership of concrete objects)
@R(r'^boost::(scoped_ptr|shared_ptr)<.*>::(scoped_ptr|shared_ptr)\(\)$')
def sp_ctor0(E, st, a, rt, mod, dem):
    st.put(a[0], 8, NULL)
    if 'shared_ptr<' in dem:
        st.put(a[0].add(8), 8, NULL)


@R(r'^boost::scoped_ptr<.*>::scoped_ptr\([^()]*\*\)$')
def scp_ctor(E, st, a, rt, mod, dem):
    st.put(a[0], 8, a[1])


@R(r'^boost::shared_ptr<.*>::shared_ptr<.*>\([^()]*\*\)$')
def shp_ctor(E, st, a, rt, mod, dem):
    st.put(a[0], 8, a[1])
    cnt = st.alloc(8, 'heap', 'use count')
    st.put(cnt, 8, 1)
    st.put(a[0].add(8), 8, cnt)


@R(r'^boost::shared_ptr<.*>::shared_ptr\(boost::shared_ptr<.*> const&\)$')
def shp_copy(E, st, a, rt, mod, dem):
    p = E.load(st, E.prog.mods[0], a[1], PTR)
    c = E.load(st, E.prog.mods[0], a[1].add(8), PTR)
    st.put(a[0], 8, p)
    st.put(a[0].add(8), 8, c)
    if isinstance(c, Ptr) and not c.isnull:
        st.put(c, 8, st.cell(c) + 1)


@R(r'^boost::(scoped_ptr|shared_ptr)<.*>::(operator->|operator\*|get)\(\) const$')
def sp_get(E, st, a, rt, mod, dem):
    p = E.load(st, E.prog.mods[0], a[0], PTR)
    if '::get' not in dem and isinstance(p, Ptr) and p.isnull:
        E.prove(st, False, 'smart pointer is not empty', 'safety')
        raise Infeasible()
    return p


@R(r'^boost::(scoped_ptr|shared_ptr)<.*>::operator bool\(\) const$', r'^boost::(scoped_ptr|shared_ptr)<.*>::operator!\(\) const$')
def sp_bool(E, st, a, rt, mod, dem):
    p = E.load(st, E.prog.mods[0], a[0], PTR)
    t = z3.Not(E.ptr_equal(st, p, NULL))
    return z3.simplify(z3.Not(t) if 'operator!' in dem else t)


def delete_obj(E, st, p, cls):
    """delete p (static class cls) -> outcomes"""
    from .engine import Outcome
    if isinstance(p, Ptr) and p.isnull:
        return [Outcome(st, 'ret', None)]
    if isinstance(p, Ptr) and isinstance(p.base, int):
        E.deref_check(st, p, 'delete')
        b = st.blocks[p.base]
        cls = getattr(b, 'exact', None) or cls
        d = '%s::~%s()' % (cls, re.sub(r'<.*', '', cls).split('::')[-1])
        outs = [Outcome(st, 'ret', None)]
        nm = E.prog.by_dem.get(d)
        if nm or E.find_model(d) or E.find_contract(d):
            nm = [n for m, n in nm or [] if not re.search(r'D0E[vb]$', n)]      # not the deleting variant
            outs = E.call(st, E.prog.mods[0], FnPtr(nm[0] if nm else d), [p], ('void',))
        for o in outs:
            if o.kind == 'ret':
                o.st.wb(p.base).alive = False
        return outs
    raise Unsupported('delete of %r' % (p,))


@R(r'^boost::(scoped_ptr|shared_ptr)<.*>::~(scoped_ptr|shared_ptr)\(\)$')
def sp_dtor(E, st, a, rt, mod, dem):
    p = E.load(st, E.prog.mods[0], a[0], PTR)
    cls = targ(dem)
    if isinstance(p, Ptr) and p.isnull:
        return None
    if 'shared_ptr' in dem.split('<')[0]:
        c = E.load(st, E.prog.mods[0], a[0].add(8), PTR)
        if isinstance(c, Ptr) and not c.isnull:
            n = st.cell(c)
            if isinstance(n, int) and n > 1:
                st.put(c, 8, n - 1)
                return None
            st.put(c, 8, 0)
        else:
            return None
    return delete_obj(E, st, p, cls)


def targ(dem):
    """first template argument of the class in dem"""
    i = dem.index('<')
    d, j = 0, i
    while True:
        if dem[j] == '<':
            d += 1
        elif dem[j] == '>':
            d -= 1
            if d == 0:
                break
        elif dem[j] == ',' and d == 1:
            break
        j += 1
    return dem[i + 1:j].strip()


# ---- boost::function
@R(r'^boost::function<.*>::function<.*>\(')
def fn_ctor(E, st, a, rt, mod, dem):
    v = a[1]
    if isinstance(v, FnPtr):
        st.put(a[0], 8, v)
        return None
    raise Unsupported('boost::function from %r' % (v,))


@R(r'^boost::function\d<.*>::function\d\(boost::function\d<.*> const&\)$', r'^boost::function<.*>::function\(boost::function<.*> (const)?&\)$', r'^boost::function\d<.*>::function\d\(boost::function\d<.*>&&\)$', r'^boost::function<.*>::function\(boost::function<.*>&&\)$')
def fn_copy(E, st, a, rt, mod, dem):
    st.put(a[0], 8, E.load(st, E.prog.mods[0], a[1], PTR))


@R(r'^boost::function\d?<.*>::~function\d?\(\)$')
def fn_dtor(E, st, a, rt, mod, dem):
    return None


@R(r'^boost::function\d<.*>::operator\(\)\(.*\) const$')
def fn_call(E, st, a, rt, mod, dem):
    f = E.load(st, E.prog.mods[0], a[0], PTR)
    return E.call(st, mod, f, list(a[1:]), rt)


# ---- std::multimap whose keys are literals
@R(r'^std::multimap<.*>::multimap\(\)$')
def mm_ctor(E, st, a, rt, mod, dem):
    st.put(a[0], 48, ListV(()))


@R(r'^std::multimap<.*>::~multimap\(\)$')
def mm_dtor(E, st, a, rt, mod, dem):
    return None


@R(r'^(std::enable_if<.*>::type|.*_Rb_tree_iterator<.*>) std::multimap<std::string, .*>::insert<.*>\(', r'^std::multimap<std::string, .*>::insert\(')
def mm_insert(E, st, a, rt, mod, dem):
    m = E.aget(st, a[0], ListV)
    p = a[1]
    b = st.blocks[p.base]
    key = S(E, st, p)
    cells = tuple(sorted((o - p.off, sz, v) for o, (sz, v) in b.cells.items() if o - p.off >= 32))
    E.aset(st, a[0], None, ListV(m.items + ((key, cells),)))
    return Ptr(('mmit', a[0], (len(m.items),)), 0, 0)


@R(r'^std::multimap<std::string, .*>::equal_range\(std::string const&\)')
def mm_eqr(E, st, a, rt, mod, dem):
    from .engine import Outcome
    m = E.aget(st, a[0], ListV)
    s = S(E, st, a[1])
    groups = {}
    for i, (k, cells) in enumerate(m.items):
        b = concrete_bytes(k)
        if b is None:
            raise Unsupported('multimap key not constant')
        groups.setdefault(b, []).append(i)
    outs = []
    rest = st
    for b, ix in groups.items():
        if rest is None:
            break
        y, rest = split_cond(E, rest, s == sbytes(b))
        if y is not None:
            base = ('mmit', a[0], tuple(ix))
            outs.append(Outcome(y, 'ret', (Ptr(base, 0, 0), Ptr(base, 0, len(ix)))))
    if rest is not None:
        base = ('mmit', a[0], ())
        outs.append(Outcome(rest, 'ret', (Ptr(base, 0, 0), Ptr(base, 0, 0))))
    return outs


def mm_load(E, st, p):
    m = E.aget(st, p.base[1], ListV)
    if not isinstance(p.idx, int) or p.idx >= len(p.base[2]):
        E.prove(st, False, 'iterator dereferenced inside the container', 'safety')
        raise Infeasible()
    key, cells = m.items[p.base[2][p.idx]]
    if p.off == 0:
        return StrV(key)
    for o, sz, v in cells:
        if o == p.off:
            return v
    raise Unsupported('multimap element field %s' % p.off)

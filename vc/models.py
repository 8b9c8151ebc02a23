"""Assumed contracts of library functions (libstdc++, boost, libc, C++ ABI), keyed by demangled name.
Every model used by a proof is listed in that proof's evidence as an unchecked assumption."""
import re
import z3
from .core import *
from .irparse import *

EXACT = {}
REGEX = []
STRSZ = 32


def M(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


def R(*rx):
    def d(f):
        for r in rx:
            REGEX.append((re.compile(r), f))
        return f
    return d


def install(E):
    from . import containers, boostm, iosm
    E.mexact = dict(EXACT)
    E.mregex = list(REGEX)
    E._mcache = {}


def _out(st, kind, v=None):
    from .engine import Outcome
    return Outcome(st, kind, v)


# ------------------------------------------------------------------ helpers
def S(E, st, p):
    v = E.aget(st, p, None, 'string')
    if isinstance(v, StrV):
        return v.s
    raise Unsupported('not a string: %r' % (v,))


def setS(E, st, p, s):
    E.aset(st, p, STRSZ, StrV(s))


def data_ptr(p, idx=0):
    return Ptr(('cd', p), 0, idx)


NUL = sbytes(b'\0')


def cstr_of(E, st, p):
    """the C string at p as a sequence term (up to, excluding, the first NUL)"""
    E.deref_check(st, p, 'C string')
    if isinstance(p, Ptr):
        if isinstance(p.base, int):
            b = st.blocks[p.base]
            if b.bytes is not None and isinstance(p.off, int):
                z = b.bytes.find(b'\0', p.off)
                return sbytes(b.bytes[p.off:z if z >= 0 else len(b.bytes)])
            if isinstance(p.off, int):
                c = b.cells.get(p.off)
                if c and isinstance(c[1], BytesV):
                    return cut_nul(st, c[1].s)
                for o, (sz, v) in b.cells.items():
                    if isinstance(v, BytesV) and o <= p.off < o + sz:
                        return cut_nul(st, sub(v.s, p.off - o, sz - (p.off - o)))
        elif p.base[0] == 'cd':
            v = E.aget(st, p.base[1])
            if isinstance(v, (StrV, VecB)):
                i = I(p.idx)
                n = slen(v.s)
                E.prove(st, z3.And(i >= 0, i <= n), 'C string pointer within string', 'safety')
                s = v.s if z3.is_int_value(z3.simplify(i)) and z3.simplify(i).as_long() == 0 else sub(v.s, i, n - i)
                return cut_nul(st, s)
    if isinstance(p, SymPtr):
        f = z3.Function('cstr_at', INT, STR)
        s = f(p.ref)
        st.assume(slen(s) < MAXLEN)
        return s
    raise Unsupported('C string at %r' % (p,))


def cut_nul(st, s):
    s = z3.simplify(s)
    r = fstr('cstr')
    has = z3.Contains(s, NUL)
    st.assume(z3.If(has, z3.And(z3.PrefixOf(cat(r, NUL), s), z3.Not(z3.Contains(r, NUL))), r == s))
    return r


def bytes_at(E, st, p, n):
    """n raw bytes at p as a sequence"""
    if isinstance(n, int) and n == 0:
        return EMPTY
    E.deref_check(st, p, 'buffer')
    if isinstance(p, Ptr):
        if isinstance(p.base, int):
            b = st.blocks[p.base]
            if b.bytes is not None and isinstance(p.off, int):
                N = len(b.bytes) - p.off
                E.prove(st, z3.And(I(n) >= 0, I(n) <= N), 'read of n bytes within %s' % b.name, 'safety')
                if isinstance(n, int):
                    return sbytes(b.bytes[p.off:p.off + n])
                return sub(sbytes(b.bytes[p.off:]), 0, n)
            if isinstance(p.off, int):
                for o, (sz, v) in b.cells.items():
                    if isinstance(v, BytesV) and o <= p.off < o + sz:
                        E.prove(st, z3.And(I(n) >= 0, I(n) <= v.n - (p.off - o)), 'read of n bytes within %s' % b.name, 'safety')
                        return sub(v.s, p.off - o, n)
        elif p.base[0] == 'cd':
            v = E.aget(st, p.base[1])
            if isinstance(v, (StrV, VecB)):
                i = I(p.idx)
                L = slen(v.s)
                E.prove(st, z3.And(i >= 0, I(n) >= 0, i + I(n) <= L), 'read of n bytes within string', 'safety')
                return z3.simplify(sub(v.s, i, n)) if not (same(p.idx, 0) and E.must(st, I(n) == L)) else v.s
    if isinstance(p, SymPtr):
        f = z3.Function('bytes_at', INT, INT, STR)
        s = f(p.ref, I(n))
        st.assume(slen(s) == I(n), slen(s) < MAXLEN)
        return s
    raise Unsupported('buffer at %r' % (p,))


NPOS = (1 << 64) - 1


def throw(E, st, cls, fields=None, what=None):
    p = st.alloc(64, 'heap', 'exc:' + cls, cls)
    st.blocks[p.base].exact = cls
    st.blocks[p.base].cells[8] = (8, Opq('what', what if what is not None else fstr('what')))
    from .engine import Exc
    e = Exc(p, E.prog.ti_of(cls) if cls in E.prog._cls_ti else '_ZTI?' + cls)
    return _out(st, 'throw', e)


def split_cond(E, st, c):
    """-> (state where c, state where not c), either may be None"""
    if isinstance(c, bool):
        return (st, None) if c else (None, st)
    c = z3.simplify(c)
    if z3.is_true(c):
        return st, None
    if z3.is_false(c):
        return None, st
    f1 = E.feasible(st, c)
    f2 = E.feasible(st, z3.Not(c)) if f1 else True
    if f1 and f2:
        s2 = st.fork()
        st.assume(c)
        s2.assume(z3.Not(c))
        return st, s2
    if f1:
        st.assume(c)
        return st, None
    st.assume(z3.Not(c))
    return None, st


# ------------------------------------------------------------------ allocation, C++ ABI
@M('operator new(unsigned long)', 'operator new[](unsigned long)', 'malloc')
def m_new(E, st, a, rt, mod, dem):
    n = a[0]
    p = st.alloc(n if isinstance(n, int) else None, 'heap', 'new@%s' % E.line)
    st.ghost['allocs'] = st.ghost.get('allocs', ()) + (p.base,)
    return p


@M('operator delete(void*)', 'operator delete(void*, unsigned long)', 'operator delete[](void*)', 'free', 'operator delete[](void*, unsigned long)')
def m_delete(E, st, a, rt, mod, dem):
    p = a[0]
    if isinstance(p, Ptr) and p.isnull:
        return None
    if isinstance(p, SymPtr):
        if E.on_delete is not None:
            return E.on_delete(E, st, p)
        raise Unsupported('delete of symbolic object')
    if isinstance(p, Undef):
        E.prove(st, False, 'delete of an initialised pointer', 'safety')
        raise Infeasible()
    b = st.blocks.get(p.base)
    E.prove(st, bool(b is not None and b.alive), 'no double delete (%s)' % (b.name if b else '?'), 'safety')
    if b is None or not b.alive:
        raise Infeasible()
    if b.kind != 'heap' or p.off != 0:
        E.prove(st, False, 'delete of a heap object', 'safety')
    st.wb(p.base).alive = False
    return None


@M('__cxa_allocate_exception')
def m_aex(E, st, a, rt, mod, dem):
    return st.alloc(a[0], 'heap', 'exception')


@M('__cxa_free_exception')
def m_fex(E, st, a, rt, mod, dem):
    return None


@M('__cxa_throw')
def m_throw(E, st, a, rt, mod, dem):
    from .engine import Exc
    ti = E.ti_name(st, a[1])
    return [_out(st, 'throw', Exc(a[0], ti))]


@M('__cxa_begin_catch')
def m_bc(E, st, a, rt, mod, dem):
    e = a[0]
    st.caught.append(e)
    m = st.ghost.get('match')
    p = e.ptr
    if m:
        o = E.prog.base_off(e.ti, m)
        if o:
            p = p.add(o)
    return p


@M('__cxa_get_exception_ptr')
def m_gep(E, st, a, rt, mod, dem):
    e = a[0]
    m = st.ghost.get('match')
    p = e.ptr
    if m:
        o = E.prog.base_off(e.ti, m)
        if o:
            p = p.add(o)
    return p


@M('__cxa_end_catch')
def m_ec(E, st, a, rt, mod, dem):
    if st.caught:
        st.caught.pop()
    return None


@M('__cxa_rethrow')
def m_rt(E, st, a, rt, mod, dem):
    if not st.caught:
        raise Unsupported('rethrow without exception')
    e = st.caught[-1]
    return [_out(st, 'throw', e)]


@M('__clang_call_terminate', 'std::terminate()', 'abort', '__cxa_call_unexpected', '__cxa_pure_virtual')
def m_term(E, st, a, rt, mod, dem):
    return [_out(st, 'abort', dem)]


@M('__cxa_guard_acquire')
def m_ga(E, st, a, rt, mod, dem):
    return 1


@M('__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit')
def m_gr(E, st, a, rt, mod, dem):
    return 0 if rt != VOID else None


@R(r'^std::allocator<.*>::~?allocator\(', r'^std::__new_allocator<.*>::~?__new_allocator\(', r'^std::locale::~?locale\(\)$',
   r'^std::locale::locale\(std::locale const&\)', r'^boost::algorithm::detail::is_classifiedF::~')
def m_nop(E, st, a, rt, mod, dem):
    return None


@M('__errno_location')
def m_errno(E, st, a, rt, mod, dem):
    b = st.ghost.get('errno_blk')
    if b is None:
        p = st.alloc(4, 'gvar', 'errno')
        b = p.base
        st.ghost['errno_blk'] = b
    return Ptr(b, 0)


# ------------------------------------------------------------------ std::string
@M('std::string::basic_string()')
def s_ctor0(E, st, a, rt, mod, dem):
    setS(E, st, a[0], EMPTY)


@M('std::string::basic_string(std::string const&)', 'std::string::basic_string(std::string const&, std::allocator<char> const&)')
def s_copy(E, st, a, rt, mod, dem):
    setS(E, st, a[0], S(E, st, a[1]))


@M('std::string::basic_string(std::string&&)')
def s_move(E, st, a, rt, mod, dem):
    s = S(E, st, a[1])
    setS(E, st, a[0], s)
    setS(E, st, a[1], EMPTY)


@R(r'^std::string::basic_string(<.*>)?\(char const\*, std::allocator<char> const&\)$')
def s_cstr(E, st, a, rt, mod, dem):
    if isinstance(a[1], Ptr) and a[1].isnull:
        E.prove(st, False, 'std::string constructed from a non-null pointer', 'safety')
        raise Infeasible()
    setS(E, st, a[0], cstr_of(E, st, a[1]))


@M('std::string::basic_string(char const*, unsigned long, std::allocator<char> const&)', 'std::string::basic_string(char const*, unsigned long)')
def s_ptrlen(E, st, a, rt, mod, dem):
    setS(E, st, a[0], bytes_at(E, st, a[1], a[2]))


@M('std::string::basic_string(unsigned long, char, std::allocator<char> const&)')
def s_fill(E, st, a, rt, mod, dem):
    if isinstance(a[1], int) and a[1] < 64:
        setS(E, st, a[0], cat(*[z3.Unit(BV(a[2], 8))] * a[1]))
        return
    r = fstr('fill')
    j = z3.Int(fresh_name('j'))
    st.assume(slen(r) == I(a[1]), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < slen(r)), r[j] == BV(a[2], 8))))
    setS(E, st, a[0], r)


@M('std::string::basic_string(std::string const&, unsigned long, unsigned long)')
def s_subctor(E, st, a, rt, mod, dem):
    return substr(E, st, a[0], S(E, st, a[1]), a[2], a[3])


@M('std::string::basic_string(std::string const&, unsigned long)')
def s_subctor2(E, st, a, rt, mod, dem):
    return substr(E, st, a[0], S(E, st, a[1]), a[2], NPOS)


def iter_range(E, st, b, e):
    """contents between two char iterators"""
    if isinstance(b, Ptr) and isinstance(e, Ptr) and b.base == e.base:
        if isinstance(b.base, tuple):
            n = z3.simplify(I(e.idx) - I(b.idx))
        else:
            n = z3.simplify(I(e.off) - I(b.off))
        E.prove(st, n >= 0, 'iterator range is valid', 'safety')
        return bytes_at(E, st, b, n.as_long() if z3.is_int_value(n) else n)
    raise Unsupported('iterator range %r %r' % (b, e))


@R(r'^std::string::basic_string<__gnu_cxx::__normal_iterator<char( const)?\*, (std::string|std::vector<char.*>)>, void>\(',
   r'^std::string::basic_string<char( const)?\*, void>\(')
def s_range(E, st, a, rt, mod, dem):
    setS(E, st, a[0], iter_range(E, st, a[1], a[2]))


@M('std::string::~basic_string()')
def s_dtor(E, st, a, rt, mod, dem):
    p = a[0]
    if isinstance(p, Ptr) and isinstance(p.base, int) and isinstance(p.off, int):
        E.deref_check(st, p, 'string destructor')
        b = st.wb(p.base)
        if b.kind == 'alloca':
            b.cells.pop(p.off, None)


@M('std::string::operator=(std::string const&)', 'std::string::assign(std::string const&)')
def s_asg(E, st, a, rt, mod, dem):
    setS(E, st, a[0], S(E, st, a[1]))
    return a[0]


@M('std::string::operator=(std::string&&)', 'std::string::assign(std::string&&)')
def s_asgm(E, st, a, rt, mod, dem):
    s = S(E, st, a[1])
    setS(E, st, a[0], s)
    if not (a[0] == a[1]):
        setS(E, st, a[1], EMPTY)
    return a[0]


@M('std::string::operator=(char const*)', 'std::string::assign(char const*)')
def s_asgc(E, st, a, rt, mod, dem):
    setS(E, st, a[0], cstr_of(E, st, a[1]))
    return a[0]


@M('std::string::operator=(char)')
def s_asgch(E, st, a, rt, mod, dem):
    setS(E, st, a[0], z3.Unit(BV(a[1], 8)))
    return a[0]


@M('std::string::assign(char const*, unsigned long)')
def s_asgn(E, st, a, rt, mod, dem):
    setS(E, st, a[0], bytes_at(E, st, a[1], a[2]))
    return a[0]


@M('std::string::assign(std::string const&, unsigned long, unsigned long)')
def s_asgsub(E, st, a, rt, mod, dem):
    res = substr(E, st, a[0], S(E, st, a[1]), a[2], a[3])
    for o in res:
        if o.kind == 'ret':
            o.val = a[0]
    return res


@R(r'^std::string& std::string::assign<__gnu_cxx::__normal_iterator<char( const)?\*, std::string>, void>\(')
def s_asgit(E, st, a, rt, mod, dem):
    setS(E, st, a[0], iter_range(E, st, a[1], a[2]))
    return a[0]


@R(r'^std::string& std::string::append<__gnu_cxx::__normal_iterator<char( const)?\*, std::string>, void>\(',
   r'^std::string& std::string::append<char( const)?\*, void>\(')
def s_appit(E, st, a, rt, mod, dem):
    app(E, st, a[0], iter_range(E, st, a[1], a[2]))
    return a[0]


def app(E, st, p, t):
    s = S(E, st, p)
    r = cat(s, t)
    setS(E, st, p, r)
    st.assume(slen(r) < MAXLEN)


@M('std::string::operator+=(std::string const&)', 'std::string::append(std::string const&)')
def s_app(E, st, a, rt, mod, dem):
    app(E, st, a[0], S(E, st, a[1]))
    return a[0]


@M('std::string::operator+=(char const*)', 'std::string::append(char const*)')
def s_appc(E, st, a, rt, mod, dem):
    app(E, st, a[0], cstr_of(E, st, a[1]))
    return a[0]


@M('std::string::append(char const*, unsigned long)')
def s_appn(E, st, a, rt, mod, dem):
    app(E, st, a[0], bytes_at(E, st, a[1], a[2]))
    return a[0]


@M('std::string::insert(unsigned long, char const*)', 'std::string::insert(unsigned long, std::string const&)')
def s_insert(E, st, a, rt, mod, dem):
    s, t, i = S(E, st, a[0]), S(E, st, a[2]) if 'string const&)' in dem else cstr_of(E, st, a[2]), I(a[1])
    E.prove(st, i <= slen(s), 'insert within the string', 'safety')
    setS(E, st, a[0], cat(t, s) if same(a[1], 0) else cat(sub(s, 0, i), t, sub(s, i, slen(s) - i)))
    return a[0]


@M('std::string::append(unsigned long, char)')
def s_appfill(E, st, a, rt, mod, dem):
    if isinstance(a[1], int) and a[1] < 64:
        app(E, st, a[0], cat(*[z3.Unit(BV(a[2], 8))] * a[1]))
        return a[0]
    raise Unsupported('append fill')


@M('std::string::append(std::string const&, unsigned long, unsigned long)')
def s_appsub(E, st, a, rt, mod, dem):
    outs = substr_raw(E, st, S(E, st, a[1]), a[2], a[3])
    res = []
    for s2, v in outs:
        if v is None:
            res.append(throw(E, s2, 'std::out_of_range'))
        else:
            app(E, s2, a[0], v)
            res.append(_out(s2, 'ret', a[0]))
    return res


@M('std::string::operator+=(char)', 'std::string::push_back(char)')
def s_push(E, st, a, rt, mod, dem):
    app(E, st, a[0], z3.Unit(BV(a[1], 8)))
    return a[0] if rt == PTR else None


@M('std::string::length() const', 'std::string::size() const')
def s_len(E, st, a, rt, mod, dem):
    s = S(E, st, a[0])
    n = z3.simplify(slen(s))
    return n.as_long() if z3.is_int_value(n) else n


@M('std::string::empty() const')
def s_empty(E, st, a, rt, mod, dem):
    return z3.simplify(slen(S(E, st, a[0])) == 0)


@M('std::string::clear()')
def s_clear(E, st, a, rt, mod, dem):
    setS(E, st, a[0], EMPTY)


@M('std::string::reserve(unsigned long)', 'std::string::reserve()', 'std::string::shrink_to_fit()')
def s_reserve(E, st, a, rt, mod, dem):
    return None


@M('std::string::max_size() const')
def s_maxsize(E, st, a, rt, mod, dem):
    return (1 << 62) - 1


@M('std::string::c_str() const', 'std::string::data() const', 'std::string::data()')
def s_cs(E, st, a, rt, mod, dem):
    S(E, st, a[0])
    return data_ptr(a[0], 0)


@M('std::string::begin()', 'std::string::begin() const', 'std::string::cbegin() const')
def s_begin(E, st, a, rt, mod, dem):
    S(E, st, a[0])
    return data_ptr(a[0], 0)


@M('std::string::end()', 'std::string::end() const', 'std::string::cend() const')
def s_end(E, st, a, rt, mod, dem):
    n = z3.simplify(slen(S(E, st, a[0])))
    return data_ptr(a[0], n.as_long() if z3.is_int_value(n) else n)


@M('std::string::operator[](unsigned long) const', 'std::string::operator[](unsigned long)')
def s_idx(E, st, a, rt, mod, dem):
    s = S(E, st, a[0])
    E.prove(st, z3.And(I(a[1]) >= 0, I(a[1]) <= slen(s)), 'string index within bounds', 'safety')
    return data_ptr(a[0], a[1])


@M('std::string::at(unsigned long) const', 'std::string::at(unsigned long)')
def s_at(E, st, a, rt, mod, dem):
    s = S(E, st, a[0])
    ok, bad = split_cond(E, st, I(a[1]) < slen(s))
    r = []
    if ok is not None:
        r.append(_out(ok, 'ret', data_ptr(a[0], a[1])))
    if bad is not None:
        r.append(throw(E, bad, 'std::out_of_range'))
    return r


@M('std::string::front()', 'std::string::front() const')
def s_front(E, st, a, rt, mod, dem):
    E.prove(st, slen(S(E, st, a[0])) > 0, 'front() of non-empty string', 'safety')
    return data_ptr(a[0], 0)


@M('std::string::back()', 'std::string::back() const')
def s_back(E, st, a, rt, mod, dem):
    s = S(E, st, a[0])
    E.prove(st, slen(s) > 0, 'back() of non-empty string', 'safety')
    return data_ptr(a[0], z3.simplify(slen(s) - 1))


@M('std::string::pop_back()')
def s_popb(E, st, a, rt, mod, dem):
    s = S(E, st, a[0])
    E.prove(st, slen(s) > 0, 'pop_back() of non-empty string', 'safety')
    setS(E, st, a[0], sub(s, 0, slen(s) - 1))


def substr_raw(E, st, s, pos, n):
    """-> [(state, seq or None when out of range)]"""
    L = slen(s)
    ok, bad = split_cond(E, st, I(pos) <= L)
    out = []
    if ok is not None:
        if isinstance(n, int) and n >= MAXLEN:
            v = s if isinstance(pos, int) and pos == 0 else sub(s, pos, L - I(pos))
        else:
            r1, r2 = None, None
            if E.must(ok, I(pos) + I(n) <= L):
                v = sub(s, pos, n)
            else:
                ln = z3.If(I(n) <= L - I(pos), I(n), L - I(pos))
                v = sub(s, pos, ln)
        out.append((ok, z3.simplify(v)))
    if bad is not None:
        out.append((bad, None))
    return out


def substr(E, st, dst, s, pos, n):
    r = []
    for s2, v in substr_raw(E, st, s, pos, n):
        if v is None:
            r.append(throw(E, s2, 'std::out_of_range'))
        else:
            setS(E, s2, dst, v)
            r.append(_out(s2, 'ret', None))
    return r


@M('std::string::substr(unsigned long, unsigned long) const')
def s_substr(E, st, a, rt, mod, dem):
    return substr(E, st, a[0], S(E, st, a[1]), a[2], a[3])


@M('std::string::erase(unsigned long, unsigned long)')
def s_erase(E, st, a, rt, mod, dem):
    s = S(E, st, a[0])
    L = slen(s)
    pos, n = a[1], a[2]
    ok, bad = split_cond(E, st, I(pos) <= L)
    r = []
    if ok is not None:
        if isinstance(n, int) and n >= MAXLEN:
            v = EMPTY if isinstance(pos, int) and pos == 0 else sub(s, 0, pos)
        else:
            ln = z3.If(I(n) <= L - I(pos), I(n), L - I(pos))
            v = cat(sub(s, 0, pos), sub(s, I(pos) + ln, L - I(pos) - ln))
        setS(E, ok, a[0], z3.simplify(v))
        r.append(_out(ok, 'ret', a[0]))
    if bad is not None:
        r.append(throw(E, bad, 'std::out_of_range'))
    return r


@R(r'^std::string::erase\(__gnu_cxx::__normal_iterator<char( const)?\*, std::string>, __gnu_cxx::__normal_iterator')
def s_eraseit(E, st, a, rt, mod, dem):
    s = S(E, st, a[0])
    b, e = I(a[1].idx), I(a[2].idx)
    E.prove(st, z3.And(b >= 0, b <= e, e <= slen(s)), 'erase range valid', 'safety')
    setS(E, st, a[0], z3.simplify(cat(sub(s, 0, b), sub(s, e, slen(s) - e))))
    return data_ptr(a[0], a[1].idx)


@M('std::string::resize(unsigned long)', 'std::string::resize(unsigned long, char)')
def s_resize(E, st, a, rt, mod, dem):
    s = S(E, st, a[0])
    sm, bg = split_cond(E, st, I(a[1]) <= slen(s))
    r = []
    if sm is not None:
        setS(E, sm, a[0], z3.simplify(sub(s, 0, a[1])))
        r.append(_out(sm, 'ret'))
    if bg is not None:
        t = fstr('pad')
        j = z3.Int(fresh_name('j'))
        ch = BV(a[2], 8) if len(a) > 2 else z3.BitVecVal(0, 8)
        bg.assume(slen(t) == I(a[1]) - slen(s), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < slen(t)), t[j] == ch)))
        setS(E, bg, a[0], cat(s, t))
        r.append(_out(bg, 'ret'))
    return r


@M('std::string::swap(std::string&)')
def s_swap(E, st, a, rt, mod, dem):
    x, y = S(E, st, a[0]), S(E, st, a[1])
    setS(E, st, a[0], y)
    setS(E, st, a[1], x)


@R(r'^void std::swap<char, std::char_traits<char>, std::allocator<char>>\(std::string&')
def s_swap2(E, st, a, rt, mod, dem):
    return s_swap(E, st, a, rt, mod, dem)


def find_idx(E, st, s, t, pos):
    """first occurrence at or after pos as size_t term"""
    if isinstance(pos, int) and pos == 0:
        i = z3.IndexOf(s, t, z3.IntVal(0))
    else:
        i = z3.If(I(pos) > slen(s), z3.IntVal(-1), z3.IndexOf(s, t, I(pos)))
    st.assume(i >= -1, i <= slen(s), slen(s) < MAXLEN)
    ok, no = split_cond(E, st, i >= 0)
    if ok is not None:
        ok.assume(i + slen(t) <= slen(s))
    return ([_out(ok, 'ret', z3.simplify(i))] if ok is not None else []) + ([_out(no, 'ret', NPOS)] if no is not None else [])


@M('std::string::find(std::string const&, unsigned long) const')
def s_find(E, st, a, rt, mod, dem):
    return find_idx(E, st, S(E, st, a[0]), S(E, st, a[1]), a[2])


@M('std::string::find(char const*, unsigned long) const')
def s_findc(E, st, a, rt, mod, dem):
    return find_idx(E, st, S(E, st, a[0]), cstr_of(E, st, a[1]), a[2])


@M('std::string::find(char, unsigned long) const')
def s_findch(E, st, a, rt, mod, dem):
    return find_idx(E, st, S(E, st, a[0]), z3.Unit(BV(a[1], 8)), a[2])


def concrete_bytes(t):
    """python bytes of a constant sequence term or None"""
    t = z3.simplify(t)
    if t.eq(EMPTY) or (z3.is_app(t) and t.decl().name() == 'seq.empty'):
        return b''
    if z3.is_app(t):
        n = t.decl().name()
        if n == 'seq.unit':
            v = z3.simplify(t.arg(0))
            return bytes([v.as_long()]) if z3.is_bv_value(v) else None
        if n == 'seq.++':
            out = b''
            for i in range(t.num_args()):
                x = concrete_bytes(t.arg(i))
                if x is None:
                    return None
                out += x
            return out
    return None


def in_set(ch, bs):
    return z3.Or(*[ch == z3.BitVecVal(c, 8) for c in sorted(set(bs))]) if bs else z3.BoolVal(False)


def all_at(j, where, what, s):
    try:
        return z3.ForAll([j], z3.Implies(where, what), patterns=[s[j]])
    except z3.Z3Exception:
        # not every term may serve as a pattern
        return z3.ForAll([j], z3.Implies(where, what))


def find_set(E, st, s, bs, pos, want):
    """find_first_(not_)of: returns size_t; want(ch)->Bool"""
    r = fint('ffo')
    L = slen(s)
    if bs is not None and len(bs) == 1 and want is None:
        return find_idx(E, st, s, sbytes(bs), pos)
    j = z3.Int(fresh_name('j'))
    p0 = I(pos)
    st.assume(z3.Or(
        z3.And(r == NPOS, all_at(j, z3.And(j >= p0, j < L), z3.Not(want(s[j])), s)),
        z3.And(r >= p0, r < L, want(s[r]), all_at(j, z3.And(j >= p0, j < r), z3.Not(want(s[j])), s))))
    # small fixed length strings: instantiate
    n = z3.simplify(L)
    k = None
    for c in range(0, 40):
        if E.must(st, L == c, 300):
            k = c
            break
        if c == 0 and not E.opts.get('small_strings', True):
            break
        if c == 2 and not E.must(st, L <= 40, 300):
            break
    if k is not None:
        for c in range(k):
            cc = z3.IntVal(c)
            st.assume(z3.Implies(z3.And(cc >= p0, z3.Or(r == NPOS, cc < r)), z3.Not(want(s[cc]))))
    return r


def _setarg(E, st, p):
    if True:
        return concrete_bytes(cstr_of(E, st, p))


@R(r'^std::string::find_first_(not_)?of\((std::string const&|char const\*|char), unsigned long\) const$')
def s_ffo(E, st, a, rt, mod, dem):
    s = S(E, st, a[0])
    if 'char const*' in dem:
        bs = concrete_bytes(cstr_of(E, st, a[1]))
    elif 'std::string const&' in dem.split('(')[1]:
        bs = concrete_bytes(S(E, st, a[1]))
    else:
        bs = bytes([a[1]]) if isinstance(a[1], int) else None
    if bs is None:
        raise Unsupported('find_first_of with symbolic set')
    if 'not_of' in dem:
        if isinstance(a[2], int) and a[2] == 0 and sorted(set(bs)) == list(b'0123456789'):
            from .boostm import ALLDIG
            r = find_set(E, st, s, bs, a[2], lambda c: z3.Not(in_set(c, bs)))
            st.assume((r == NPOS) == ALLDIG(s))
            return r
        return find_set(E, st, s, bs, a[2], lambda c: z3.Not(in_set(c, bs)))
    if len(bs) == 1:
        return find_idx(E, st, s, sbytes(bs), a[2])
    return find_set(E, st, s, bs, a[2], lambda c: in_set(c, bs))


@R(r'^bool std::operator(==|!=)<char, std::char_traits<char>, std::allocator<char>>\((std::string const&|char const\*), (std::string const&|char const\*)\)$')
def s_eq(E, st, a, rt, mod, dem):
    m = re.search(r'\(([^,]*), (.*)\)$', dem)
    x = S(E, st, a[0]) if 'string' in m[1] else cstr_of(E, st, a[0])
    y = S(E, st, a[1]) if 'string' in m[2] else cstr_of(E, st, a[1])
    e = z3.simplify(x == y)
    return z3.Not(e) if 'operator!=' in dem else e


STR_LT = z3.Function('str_lt', STR, STR, BOOL)


@R(r'^bool std::operator<<char, std::char_traits<char>, std::allocator<char>>\(std::string const&, std::string const&\)$')
def s_lt(E, st, a, rt, mod, dem):
    return STR_LT(S(E, st, a[0]), S(E, st, a[1]))


@M('std::string::compare(std::string const&) const', 'std::string::compare(char const*) const')
def s_cmp(E, st, a, rt, mod, dem):
    x = S(E, st, a[0])
    y = S(E, st, a[1]) if 'string const&' in dem else cstr_of(E, st, a[1])
    r = fint('cmp')
    st.assume(r >= 0, r < (1 << 32), (r == 0) == (x == y))
    return r


@M('std::string::compare(unsigned long, unsigned long, char const*) const', 'std::string::compare(unsigned long, unsigned long, std::string const&) const')
def s_cmp3(E, st, a, rt, mod, dem):
    y = S(E, st, a[3]) if 'std::string const&' in dem else cstr_of(E, st, a[3])
    res = []
    for s2, v in substr_raw(E, st, S(E, st, a[0]), a[1], a[2]):
        if v is None:
            res.append(throw(E, s2, 'std::out_of_range'))
        else:
            r = fint('cmp')
            s2.assume(r >= 0, r < (1 << 32), (r == 0) == (v == y))
            res.append(_out(s2, 'ret', r))
    return res


@R(r'^std::string std::operator\+<char, std::char_traits<char>, std::allocator<char>>\(')
def s_plus(E, st, a, rt, mod, dem):
    m = re.search(r'>\(([^,]*), ([^,]*)\)$', dem)

    def val(p, t):
        if 'string' in t:
            return S(E, st, p)
        if t == 'char':
            return z3.Unit(BV(p, 8))
        return cstr_of(E, st, p)
    r = cat(val(a[1], m[1]), val(a[2], m[2]))
    st.assume(slen(r) < MAXLEN)
    setS(E, st, a[0], r)


# algorithms over characters ---------------------------------------------------
@R(r'^std::back_insert_iterator<std::string> std::copy<(__gnu_cxx::__normal_iterator<char( const)?\*, std::string>|char( const)?\*), std::back_insert_iterator<std::string>>\(')
def a_copy(E, st, a, rt, mod, dem):
    app(E, st, a[2], iter_range(E, st, a[0], a[1]))
    return a[2]


def ctype(name, st, r):
    """locale C classification of an int argument (value -1..255 as i32)"""
    pass


SPACES = b' \t\n\v\f\r'


def is_space8(c):
    return in_set(c, SPACES)


@M('isspace')
def c_isspace(E, st, a, rt, mod, dem):
    # argument is an int; negative values other than EOF are outside the C contract, but glibc answers 0 for
    # sign-extended bytes in the C locale; that is the assumption recorded here
    v = a[0]
    b = BV(v, 32)
    t = z3.Or(*[b == z3.BitVecVal(c, 32) for c in SPACES])
    r = z3.simplify(t)
    n = fint('isspace')
    st.assume(n >= 0, n < (1 << 31), (n != 0) == r)
    return n


@M('isdigit')
def c_isdigit(E, st, a, rt, mod, dem):
    b = BV(a[0], 32)
    n = fint('isdigit')
    st.assume(n >= 0, n < (1 << 31), (n != 0) == z3.And(z3.UGE(b, 48), z3.ULE(b, 57)))
    return n


ATOI = z3.Function('atoi', STR, INT)


def atoi_facts(st, s):
    """facts about atoi on digit strings of length <= 4 (decimal value)"""
    r = ATOI(s)
    dig = lambda c: z3.And(z3.UGE(c, 48), z3.ULE(c, 57))
    val = lambda c: z3.BV2Int(c) - 48
    for n in (1, 2, 3, 4):
        cs = [s[k] for k in range(n)]
        v = z3.IntVal(0)
        for c in cs:
            v = v * 10 + val(c)
        st.assume(z3.Implies(z3.And(slen(s) == n, *[dig(c) for c in cs]), r == v))
    return r


@M('atoi')
def c_atoi(E, st, a, rt, mod, dem):
    s = cstr_of(E, st, a[0])
    r = atoi_facts(st, s)
    st.assume(r >= -(1 << 31), r < (1 << 31))
    return E.wrap(st, r, 32)


@M('strlen')
def c_strlen(E, st, a, rt, mod, dem):
    return z3.simplify(slen(cstr_of(E, st, a[0])))


# std::runtime_error -----------------------------------------------------------
@M('std::runtime_error::runtime_error(std::string const&)', 'std::logic_error::logic_error(std::string const&)', 'std::invalid_argument::invalid_argument(std::string const&)')
def x_rt(E, st, a, rt, mod, dem):
    st.put(a[0], 8, Opq('vptr-std'))
    st.put(a[0].add(8), 8, Opq('what', S(E, st, a[1])))


@M('std::runtime_error::runtime_error(char const*)', 'std::logic_error::logic_error(char const*)', 'std::invalid_argument::invalid_argument(char const*)')
def x_rtc(E, st, a, rt, mod, dem):
    st.put(a[0], 8, Opq('vptr-std'))
    st.put(a[0].add(8), 8, Opq('what', cstr_of(E, st, a[1])))


@M('std::runtime_error::runtime_error(std::runtime_error const&)')
def x_rtcp(E, st, a, rt, mod, dem):
    st.put(a[0], 8, Opq('vptr-std'))
    st.put(a[0].add(8), 8, E.aget(st, a[1].add(8)))


@M('std::runtime_error::~runtime_error()', 'std::logic_error::~logic_error()', 'std::invalid_argument::~invalid_argument()', 'std::exception::~exception()', 'std::exception::exception()')
def x_dtor(E, st, a, rt, mod, dem):
    return None


# time ------------------------------------------------------------------------
def sint32(v):
    """signed value of an i32 given as an unsigned integer / bit-vector"""
    if isinstance(v, int):
        return z3.IntVal(v - (1 << 32) if v >= (1 << 31) else v)
    if z3.is_bv(v):
        return z3.BV2Int(v, True)
    return z3.If(v >= (1 << 31), v - (1 << 32), v)


def U8(x):
    return z3.Unit(z3.Int2BV(x, 8))


TMOFF = {'S': 0, 'M': 4, 'H': 8, 'd': 12, 'm': 16, 'Y': 20}
TMRANGE = {'S': (0, 61), 'M': (0, 59), 'H': (0, 23), 'd': (1, 31), 'm': (0, 11), 'Y': (-900, 8099)}


@M('strftime')
def c_strftime(E, st, a, rt, mod, dem):
    buf, mx, fmt, tm = a[:4]
    fb = concrete_bytes(z3.simplify(cstr_of(E, st, fmt)))
    if fb is None or not isinstance(mx, int):
        raise Unsupported('strftime with a format or size that is not constant')
    parts, i, ok = [], 0, z3.BoolVal(True)
    fb = fb.decode('latin1')
    while i < len(fb):
        ch = fb[i]
        if ch != '%':
            parts.append(sbytes(ch.encode('latin1')))
            i += 1
            continue
        k = fb[i + 1]
        i += 2
        if k not in TMOFF:
            raise Unsupported('strftime %%%s' % k)
        v = sint32(E.load(st, E.prog.mods[0], tm.add(TMOFF[k]), ('i', 32)))
        lo, hi = TMRANGE[k]
        ok = z3.And(ok, v >= lo, v <= hi)
        v = v + {'Y': 1900, 'm': 1}.get(k, 0)
        for p in ((1000, 100, 10, 1) if k == 'Y' else (10, 1)):
            parts.append(U8(48 + (v / p) % 10))
    t = cat(*parts)
    n = len(fb.replace('%Y', '....').replace('%', ''))
    n = sum(4 if c == 'Y' else 2 for c in re.findall(r'%(.)', fb)) + len(re.sub(r'%.', '', fb))
    outs = []
    if n < mx and E.feasible(st, ok):
        s2 = st.fork()
        s2.assume(ok)
        put_bytes(E, s2, buf, cat(t, NUL), n + 1)
        outs.append(_out(s2, 'ret', n))
    bad = z3.BoolVal(True) if n >= mx else z3.Not(ok)
    if E.feasible(st, bad):
        s2 = st.fork()
        s2.assume(bad)
        s2.taint.append('strftime with a field out of range or a buffer too short: contents unspecified')
        h = fstr('strftime')
        s2.assume(slen(h) == mx)
        put_bytes(E, s2, buf, h, mx)
        r = fint('len')
        s2.assume(r >= 0, r < mx)
        outs.append(_out(s2, 'ret', r))
    return outs


def put_bytes(E, st, p, s, n):
    """overwrite n (a constant) raw bytes at p"""
    E.deref_check(st, p, 'buffer')
    if isinstance(p, Ptr) and isinstance(p.base, int) and isinstance(p.off, int):
        b = st.blocks[p.base]
        if isinstance(b.size, int) and p.off + n > b.size:
            E.prove(st, False, 'write of %d bytes within %s' % (n, b.name), 'safety')
            raise Infeasible()
        for o, (sz, v) in list(b.cells.items()):
            if isinstance(v, BytesV) and o <= p.off and p.off + n <= o + sz and (o, sz) != (p.off, n):
                st.put(Ptr(p.base, o), sz, BytesV(cat(sub(v.s, 0, p.off - o), s, sub(v.s, p.off - o + n, sz - (p.off - o) - n)), sz))
                return
        st.put(p, n, BytesV(s, n))
        return
    raise Unsupported('write of bytes at %r' % (p,))

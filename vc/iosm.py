"""std::ostringstream as the text written so far (kept in the stream object); any other stream swallows what it is given."""
from .core import *
from .models import R, S, setS, cstr_of


def concat(x, y):
    return z3.simplify(z3.Concat(x, y))
from .boostm import dec

TXT = 16


def text(st, p):
    if isinstance(p, Ptr) and isinstance(p.base, int) and isinstance(p.off, int):
        c = st.blocks[p.base].cells.get(p.off + TXT)
        if c and isinstance(c[1], StrV):
            return c[1].s
    return None


def app(E, st, p, s):
    E.deref_check(st, p, 'stream')
    t = text(st, p)
    if t is not None:
        st.put(p.add(TXT), 32, StrV(concat(t, s)))
    return p


OS = r'std::(?:basic_)?o?(?:string)?stream(?:<char, std::char_traits<char>(?:, std::allocator<char>)?>)?'


@R(r'^std::basic_ostringstream<.*>::basic_ostringstream\(\)$', r'^std::basic_stringstream<.*>::basic_stringstream\(\)$')
def s_ctor(E, st, a, rt, mod, dem):
    st.put(a[0].add(TXT), 32, StrV(EMPTY))


@R(r'^std::basic_o?stringstream<.*>::str\(\) const$')
def s_str(E, st, a, rt, mod, dem):
    t = text(st, a[1])
    if t is None:
        raise Unsupported('str() of an unknown stream')
    setS(E, st, a[0], t)


@R(r'^std::basic_o?stringstream<.*>::~basic_o?stringstream\(\)$')
def s_dtor(E, st, a, rt, mod, dem):
    return None


@R(r'^std::basic_ostream<.*>& std::operator<<\s?<.*>\(std::basic_ostream<.*>&, char const\*\)$')
def s_cstr(E, st, a, rt, mod, dem):
    return app(E, st, a[0], cstr_of(E, st, a[1]))


@R(r'^std::basic_ostream<.*>& std::operator<<\s?<.*>\(std::basic_ostream<.*>&, std::string const&\)$')
def s_string(E, st, a, rt, mod, dem):
    return app(E, st, a[0], S(E, st, a[1]))


@R(r'^std::basic_ostream<.*>& std::operator<<\s?<.*>\(std::basic_ostream<.*>&, char\)$')
def s_char(E, st, a, rt, mod, dem):
    return app(E, st, a[0], z3.Unit(BV(a[1], 8)))


# formatting state: base, width of the next item, fill character
BASE, WIDTH, FILL = 64, 72, 80


def fmt(st, p, what, dflt):
    c = st.blocks[p.base].cells.get(p.off + what) if isinstance(p, Ptr) and isinstance(p.base, int) and isinstance(p.off, int) else None
    return c[1] if c else dflt


@R(r'^std::(?:basic_)?ostream(?:<.*>)?::operator<<\(std::ios_base& \(\*\)\(std::ios_base&\)\)$')
def s_manip(E, st, a, rt, mod, dem):
    n = E.prog.dem(a[1].name) if isinstance(a[1], FnPtr) else ''
    b = {'std::hex(std::ios_base&)': 16, 'std::dec(std::ios_base&)': 10, 'std::nouppercase(std::ios_base&)': 0, 'std::noshowbase(std::ios_base&)': 0}.get(n)
    if b is None:
        raise Unsupported('manipulator %s' % n)
    if text(st, a[0]) is not None and b:
        st.put(a[0].add(BASE), 8, b)
    return a[0]


@R(r'^std::basic_ostream<.*>& std::operator<<\s?<.*>\(std::basic_ostream<.*>&, std::_Set(w|fill<char>)\)$')
def s_set(E, st, a, rt, mod, dem):
    v = z3.simplify(I(a[1])) if not isinstance(a[1], int) else a[1]
    if text(st, a[0]) is not None:
        st.put(a[0].add(WIDTH if '_Setw' in dem else FILL), 8, v)
    return a[0]


@R(r'^std::setw\(int\)$', r'^std::_Setfill<char> std::setfill<char>\(char\)$')
def s_mk(E, st, a, rt, mod, dem):
    return a[0]


digit = z3.Function('hexdigit', z3.IntSort(), z3.BitVecSort(8))
DIGITS = [digit(k) == ord('0123456789abcdef'[k]) for k in range(16)]


def hex2(n):
    """two hexadecimal digits of a byte"""
    return z3.Concat(z3.Unit(digit(n / 16)), z3.Unit(digit(n % 16)))


def s_hex(E, st, p, n):
    w, f = fmt(st, p, WIDTH, 0), fmt(st, p, FILL, 32)
    if not isinstance(w, int):
        raise Unsupported('field width')
    from .models import _out
    outs = []
    for lo, hi, k in ((0, 16, 1), (16, 256, 2)):
        c = z3.And(n >= lo, n < hi)
        if E.feasible(st, c):
            s2 = st.fork()
            s2.assume(c, digit(0) == 48)
            t = z3.Unit(digit(n)) if k == 1 else hex2(n)
            for _ in range(w - k):
                t = z3.Concat(z3.Unit(BV(f, 8)), t)
            app(E, s2, p, t)
            s2.put(p.add(WIDTH), 8, 0)
            outs.append(_out(s2, 'ret', p))
    c = z3.Or(n < 0, n >= 256)
    if E.feasible(st, c):
        s2 = st.fork()
        s2.assume(c)
        t = fstr('number')
        s2.assume(slen(t) > 2)
        app(E, s2, p, t)
        s2.put(p.add(WIDTH), 8, 0)
        outs.append(_out(s2, 'ret', p))
    return outs


@R(r'^std::(?:basic_)?ostream(?:<.*>)?::operator<<\((int|long|unsigned int|unsigned long|short|unsigned short|long long|unsigned long long)\)$')
def s_num(E, st, a, rt, mod, dem):
    ty = dem[dem.rindex('(') + 1:-1]
    w = {'int': 32, 'short': 16}.get(ty.replace('unsigned ', ''), 64)
    n = I(a[1]) if ty.startswith('unsigned') else I(E.sgn(st, a[1], w))
    if fmt(st, a[0], BASE, 10) == 16:
        return s_hex(E, st, a[0], n)
    return app(E, st, a[0], dec(n))

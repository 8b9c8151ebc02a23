"""C03: kinds of values and access by kind (value.cc, value_type.cc)

Each accessor is verified once per kind (variants): the object is any object of that kind with arbitrary contents.
Specification: predicate p is true iff p is the kind's own; the reader of kind k returns the stored contents on kind k
and throws Bad_cast on the nine others, with nothing changed (frame)."""
import z3
from ..core import *
from ..contract import *
from ..values import *
from .. import models

TUS = ['value.cc', 'value_type.cc']
OPTS = {'init_globals': r'type_names::'}
BC = V + '::Bad_cast'
ALL = list(KINDS)


def setup_k(c):
    return [value_of(c, c.variant)]


def pred(k):
    return Contract('%s::is_%s() const' % (V, k), setup_k, lambda c, a: [Case(True, ret=int(c.variant == k), label='is_' + k)], level='property', variants=ALL, use=False)


def cases_tn(c, a):
    want = KINDS[c.variant][2]

    def post(E, st, o):
        return [('type name is %r' % want.decode(), models.S(E, st, o.val) == sbytes(want))]
    return [Case(True, anyret=True, post=post, label='type name')]


def wrong(c):
    return Case(True, throw=BC, label='wrong kind raises bad-cast')


def scalar(name, k):
    def cases(c, a):
        if c.variant != k:
            return [wrong(c)]
        v = val_(c, pay(c, a[0]), KINDS[k][0])
        return [Case(True, ret=v, label='stored value')]
    return Contract(name, setup_k, cases, level='property', variants=ALL, use=False)


def setup_sret(c):
    return [c.st.alloc(getattr(c, 'ressize', 32), 'heap', 'result'), value_of(c, c.variant)]


def getstr(name):
    def cases(c, a):
        if c.variant != 'string':
            return [Case(True, throw=BC, label='wrong kind raises bad-cast')]
        v = val_(c, pay(c, a[1]), KINDS['string'][0])
        return [Case(True, writes=[(a[0], 32, v)], label='stored string')]
    return Contract(name, setup_sret, cases, level='property', variants=ALL, use=False)


def big(name, k, fields):
    rec = KINDS[k][0]

    def setup(c):
        return [c.st.alloc(c.prog.size(rec), 'heap', 'result'), value_of(c, c.variant)]

    def cases(c, a):
        if c.variant != k:
            return [Case(True, throw=BC, label='wrong kind raises bad-cast')]
        q = pay(c, a[1])
        wr = []
        for o, (sz, v) in c.st.blocks[q.base].cells.items():
            if o != 0:
                wr.append((a[0].add(o), sz, v))
        return [Case(True, writes=wr, label='copy of the stored contents', any_frame=False)]
    return Contract(name, setup, cases, level='property', variants=ALL, use=False)


def the(name, k):
    def cases(c, a):
        if c.variant != k:
            return [wrong(c)]
        return [Case(True, ret=pay(c, a[0]), label='the stored container')]
    return Contract(name, setup_k, cases, level='property', variants=ALL, use=False)


def refuse(name, k, mkargs, sret=False):
    """container operations on every other kind (their effect on the right kind is property C04)"""
    def setup(c):
        p = value_of(c, c.variant)
        return ([c.st.alloc(8, 'heap', 'result')] if sret else []) + [p] + mkargs(c)
    return Contract(name, setup, lambda c, a: [wrong(c)], level='property', variants=[x for x in ALL if x != k], use=False)


def a_int(c):
    i = c.E.fresh_of(c.st, ('i', 32), 'i')
    return [i]


def a_str(c):
    return [c.newstr(name='name')]


def a_cstr(c):
    p = c.newstr(name='name')
    return [models.data_ptr(p)]


def a_val(c):
    return [value_of(c, 'int')]


# ---- construction
def ctor(sig, k, mk, chk):
    def setup(c):
        p = c.st.alloc(c.prog.size(V), 'heap', 'Value', V)
        return [p] + mk(c)

    def cases(c, a):
        vo = c.prog.off(V, 'value')
        src = chk(c, a)

        def post(E, st, o):
            cell = st.blocks[a[0].base].cells.get(vo)
            q = cell[1] if cell else None
            ok = isinstance(q, Ptr) and isinstance(q.base, int) and not q.isnull and st.blocks[q.base].alive and st.blocks[q.base].kind == 'heap'
            out = [('holds a live new object', bool(ok))]
            if ok:
                vp = st.blocks[q.base].cells.get(0)
                want = E.prog.vptr_for(E, st, KINDS[k][1])
                out.append(('of kind ' + k, bool(vp and isinstance(vp[1], Ptr) and vp[1] == want)))
                if src is not None:
                    w = st.blocks[q.base].cells.get(E.prog.off(KINDS[k][0], 'value_'))
                    out.append(('with the given contents', val_eq(w[1], src) if w else False))
            return out
        return [Case(True, anyret=True, post=post, any_frame=True, label='value of kind ' + k)]
    return Contract('%s::Value(%s)' % (V, sig), setup, cases, level='property', use=False)


def mk_i32(c):
    return [c.E.fresh_of(c.st, ('i', 32), 'i')]


def mk_i64(c):
    return [c.E.fresh_of(c.st, ('i', 64), 'i')]


def contracts(P):
    cs = [pred(k) for k in ALL]
    cs.append(Contract(V + '::type_name() const', setup_k, cases_tn, level='property', variants=ALL, use=False))
    cs += [scalar(V + '::get_int() const', 'int'), scalar(V + '::get_int64() const', 'int64'), scalar(V + '::get_bool() const', 'bool'), scalar(V + '::get_double() const', 'double'),
           scalar(V + '::operator int() const', 'int'), scalar(V + '::operator long() const', 'int64'), scalar(V + '::operator bool() const', 'bool'), scalar(V + '::operator double() const', 'double'),
           getstr(V + '::get_string() const'), getstr('_ZNK8iqxmlrpc5ValuecvNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEEv'),
           big(V + '::get_binary() const', 'binary', None), big(V + '::get_datetime() const', 'datetime', None), big(V + '::operator iqxmlrpc::Binary_data() const', 'binary', None),
           the(V + '::the_array()', 'array'), the(V + '::the_array() const', 'array'), the(V + '::the_struct()', 'struct'), the(V + '::the_struct() const', 'struct'),
           refuse(V + '::size() const', 'array', lambda c: []), refuse(V + '::push_back(iqxmlrpc::Value const&)', 'array', a_val),
           refuse(V + '::operator[](int)', 'array', a_int), refuse(V + '::operator[](int) const', 'array', a_int),
           refuse(V + '::arr_begin() const', 'array', lambda c: [], True), refuse(V + '::arr_end() const', 'array', lambda c: [], True),
           refuse(V + '::has_field(std::string const&) const', 'struct', a_str),
           refuse(V + '::operator[](std::string const&)', 'struct', a_str), refuse(V + '::operator[](std::string const&) const', 'struct', a_str),
           refuse(V + '::operator[](char const*)', 'struct', a_cstr), refuse(V + '::operator[](char const*) const', 'struct', a_cstr),
           refuse(V + '::insert(std::string const&, iqxmlrpc::Value const&)', 'struct', lambda c: a_str(c) + a_val(c)),
           ctor('int', 'int', mk_i32, lambda c, a: a[1]), ctor('long', 'int64', mk_i64, lambda c, a: a[1]),
           ctor('bool', 'bool', lambda c: [fbool('b')], lambda c, a: a[1]), ctor('double', 'double', lambda c: [Flt(fresh(F64, 'd'))], lambda c, a: a[1]),
           ctor('std::string', 'string', lambda c: [c.newstr(name='s')], lambda c, a: StrV(c.str(a[1]))),
           ctor('iqxmlrpc::Nil', 'nil', lambda c: [payload(c, 'nil')], lambda c, a: None),
           ctor('iqxmlrpc::Binary_data const&', 'binary', lambda c: [payload(c, 'binary')], lambda c, a: None),
           ctor('iqxmlrpc::Date_time const&', 'datetime', lambda c: [payload(c, 'datetime')], lambda c, a: None),
           ctor('char const*', 'string', a_cstr, lambda c, a: None),
           ]
    return cs


ASSUME = ['memory allocation does not fail', 'double values are copied as opaque 64-bit data']
BOUNDED = ['operator std::string, operator struct tm and the constructors taking containers, binary data and date-times (cross-checked by the driver)']

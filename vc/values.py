"""Concrete Value objects of each kind, shared by the value properties."""
import z3
from .core import *
from .contract import *
from . import containers

V = 'iqxmlrpc::Value'
# kind -> (class in layouts, class in RTTI, type name)
KINDS = {
    'nil': ('iqxmlrpc::Nil', 'iqxmlrpc::Nil', b'nil'),
    'int': ('iqxmlrpc::Scalar<int>', 'iqxmlrpc::Scalar<int>', b'i4'),
    'int64': ('iqxmlrpc::Scalar<long>', 'iqxmlrpc::Scalar<long>', b'i8'),
    'bool': ('iqxmlrpc::Scalar<_Bool>', 'iqxmlrpc::Scalar<bool>', b'boolean'),
    'double': ('iqxmlrpc::Scalar<double>', 'iqxmlrpc::Scalar<double>', b'double'),
    'string': ('iqxmlrpc::Scalar<class std::basic_string<char> >', 'iqxmlrpc::Scalar<std::string>', b'string'),
    'binary': ('iqxmlrpc::Binary_data', 'iqxmlrpc::Binary_data', b'base64'),
    'datetime': ('iqxmlrpc::Date_time', 'iqxmlrpc::Date_time', b'dateTime.iso8601'),
    'array': ('iqxmlrpc::Array', 'iqxmlrpc::Array', b'array'),
    'struct': ('iqxmlrpc::Struct', 'iqxmlrpc::Struct', b'struct'),
}
VECT = 'std::vector<iqxmlrpc::Value*, std::allocator<iqxmlrpc::Value*>>'
MAPT = 'std::map<std::string, iqxmlrpc::Value*, std::less<std::string>>'


def payload(c, kind):
    """fresh object of the class implementing this kind; its contents are arbitrary"""
    rec, cls, _ = KINDS[kind]
    st = c.st
    p = st.alloc(c.prog.size(rec), 'heap', kind, rec)
    b = st.blocks[p.base]
    b.exact = cls
    st.put(p, 8, c.prog.vptr_for(c.E, st, cls))
    if kind == 'nil':
        return p
    if kind == 'array':
        st.put(p.add(c.prog.off(rec, 'values')), 24, containers.fresh_seq(st, 'iqxmlrpc::Value*', 'elems'))
    elif kind == 'struct':
        st.put(p.add(c.prog.off(rec, 'values')), 48, containers.fresh_map(MAPT, 'members'))
    elif kind == 'binary':
        for f in ('data', 'base64'):
            v = fstr(f)
            st.assume(slen(v) < MAXLEN)
            st.put(p.add(c.prog.off(rec, f)), 32, StrV(v))
    elif kind == 'datetime':
        o = c.prog.off(rec, 'tm_')
        for i in range(9):
            st.put(p.add(o + 4 * i), 4, c.E.fresh_of(st, ('i', 32), 'tm%d' % i))
        st.put(p.add(o + 40), 8, c.E.fresh_of(st, ('i', 64), 'gmtoff'))
        st.put(p.add(o + 48), 8, NULL)
        v = fstr('cache')
        st.assume(slen(v) < MAXLEN)
        st.put(p.add(c.prog.off(rec, 'cache')), 32, StrV(v))
    else:
        o = c.prog.off(rec, 'value_')
        if kind == 'string':
            v = fstr('value')
            st.assume(slen(v) < MAXLEN)
            st.put(p.add(o), 32, StrV(v))
        elif kind == 'double':
            st.put(p.add(o), 8, Flt(fresh(F64, 'value')))
        elif kind == 'bool':
            st.put(p.add(o), 1, fbool('value'))
        else:
            st.put(p.add(o), 4 if kind == 'int' else 8, c.E.fresh_of(st, ('i', 32 if kind == 'int' else 64), 'value'))
    return p


def value_of(c, kind):
    """a Value holding a payload of this kind"""
    st = c.st
    q = payload(c, kind)
    p = st.alloc(c.prog.size(V), 'heap', 'Value', V)
    st.blocks[p.base].exact = V
    st.put(p, 8, c.prog.vptr_for(c.E, st, V))
    st.put(p.add(c.prog.off(V, 'value')), 8, q)
    return p


def pay(c, p):
    """payload pointer of a Value"""
    return c.st.cell(p.add(c.prog.off(V, 'value')))


def val_(c, q, rec):
    return c.st.cell(q.add(c.prog.off(rec, 'value_')))

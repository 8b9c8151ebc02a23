"""Shared parts of the HTTP checks: header objects as the real constructor builds them, with arbitrary options."""
import z3
from .core import *
from .contract import *
from .contract import make_exc
from . import models, containers, boostm
from .boostm import LOWER, TRIM, ALLDIG, ISU32, U32, ISI32, I32, tokens, lower, trim
from .irparse import PTR

N = 'iqxmlrpc::http'
HDR, REQ, RSP, PKT, RDR = N + '::Header', N + '::Request_header', N + '::Response_header', N + '::Packet', N + '::Packet_reader'
OPT = 'std::map<std::string, std::string>'
MAL = N + '::Malformed_packet'


def date_model(E, st, a, rt, mod, dem):
    s = fstr('date')
    st.assume(slen(s) > 0, slen(s) < 64)
    models.setS(E, st, a[0], s)


def engine(E):
    E.mexact[RSP + '::current_date() const'] = date_model
    E._mcache = {}


def opts_of(c, p):
    return c.st.cell(p.add(c.prog.off(HDR, 'options_')))


def header(c, cls=REQ, name='header', level=None, fresh=True):
    """a header object: real base constructor, then arbitrary options and derived members"""
    st = c.st
    p = st.alloc(c.prog.size(cls), 'heap', name, cls)
    st.blocks[p.base].exact = cls
    lev = level if level is not None else c.E.fresh_of(st, ('i', 32), 'level')
    if level is None:
        st.assume(z3.Or(lev == 0, lev == 1))
    c.run(HDR + '::Header(%s::Verification_level)' % N, [p, lev])
    st = c.st
    st.put(p, 8, c.prog.vptr_for(c.E, st, cls))
    if fresh:
        st.put(p.add(c.prog.off(HDR, 'options_')), 48, containers.fresh_map(OPT, 'options'))
    base = {nm for off, ty, nm in c.prog.fields(HDR)}
    for off, ty, nm in c.prog.fields(cls):
        if nm not in base:
            ff = fresh_field(c.E, st, ty, nm)
            if ff:
                st.put(p.add(off), ff[0], ff[1])
    return p


def level(c, p):
    return I(c.st.cell(p.add(c.prog.off(HDR, 'ver_level_'))))


def status(want):
    """post-condition on a thrown HTTP error: the status code it carries"""
    def post(E, st, o):
        p = o.val.ptr if hasattr(o.val, 'ptr') else o.val.obj
        try:
            h = st.blocks[p.base].cells[p.off + E.prog.off(PKT, 'header_')][1]
            code = st.blocks[h.base].cells[E.prog.off(RSP, 'code_')][1]
        except (KeyError, AttributeError):
            return [('carries a response header', False)]
        return [('status is %d' % want, I(code) == want)]
    return post


def valid(name, value, lev):
    """the documented validity of one option"""
    ct = z3.Implies(z3.And(name == sbytes('content-type'), lev >= 1), z3.Contains(lower(value), sbytes('text/xml')))
    ex = z3.Implies(name == sbytes('expect'), z3.PrefixOf(sbytes('100-continue'), lower(value)))
    cl = z3.Implies(name == sbytes('content-length'), z3.And(ALLDIG(value), ISU32(value)))
    return cl, ex, ct


def err_exc(c, n):
    return {405: 'Method_not_allowed', 411: 'Length_required', 413: 'Request_too_large', 415: 'Unsupported_content_type', 417: 'Expectation_failed', 401: 'Unauthorized', 400: 'Bad_request'}[n]


def built(cls):
    """the exception object as its default constructor makes it"""
    def f(E, st):
        d = '%s::%s()' % (cls, cls.split('::')[-1])
        fn = E.prog.fn_by_dem(d)
        if fn is None:
            return st, make_exc(E, st, cls)
        from .engine import Exc
        c = Ctx(E, st)
        p = st.alloc(E.prog.size(cls), 'heap', 'exc:' + cls, cls)
        st.blocks[p.base].exact = cls
        c.run(d, [p])
        return c.st, Exc(p, E.prog.ti_of(cls))
    return f


def tnum(lo, n):
    cls = '%s::%s' % (N, err_exc(None, n))
    return Case(lo, throw=cls, post=status(n), label='status %d' % n, any_frame=True, build=built(cls) if n == 401 else None)

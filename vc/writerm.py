"""Writing of XML-RPC documents: the libxml2 text writer as a document under construction.
The document is a term over OPEN (start tag), TEXT and CLOSE (end tag); a nested value is VAL, which the contract of each kind defines."""
import re
import z3
from .core import *
from .contract import *
from .values import *
from .events import emit, events
from .engine import PTR
from . import models, containers, boostm
from .models import cstr_of
from .xmlm import X, nothing, v_copy, v_assign, s_copy

DOC = z3.DeclareSort('Document')
OPEN, TEXT, CLOSE = z3.Function('open', DOC, STR, DOC), z3.Function('text', DOC, STR, DOC), z3.Function('close', DOC, DOC)
VAL = z3.Function('value', DOC, INT, BOOL, DOC)                     # document, payload, strings without tag
PAY = z3.Function('payload', INT, INT)
XML = z3.Function('as text', DOC, STR)
B64, DATE, DTEXT = z3.Function('base64 of', STR, STR), z3.Function('date text', INT, STR), z3.Function('double text', F64, STR)
VIS, XB = X + 'Value_type_to_xml', X + 'XmlBuilder'
WTUS = ['value_type_xml.cc', 'xml_builder.cc', 'request.cc', 'response.cc', 'value.cc', 'value_type.cc']
WEXTRA = """
#include "libiqxmlrpc/value_type_xml.h"
#include "libiqxmlrpc/xml_builder.h"
#include "libiqxmlrpc/request.h"
#include "libiqxmlrpc/response.h"
namespace vh {
using namespace iqxmlrpc;
void put(XmlBuilder& b, bool server, bool omit, const Value& v) { Value::omit_string_tag_in_responses(omit); Value_type_to_xml x(b, server); v.apply_visitor(x); }
std::string answer(bool omit, const Response& r) { Value::omit_string_tag_in_responses(omit); return dump_response(r); }
std::string document(const char* tag, const std::string& text)
{
  XmlBuilder b;
  { XmlBuilder::Node n(b, tag); n.set_textdata(text); }
  b.stop();
  return b.content();
}
}
"""


def lits(s):
    return sbytes(s.encode())


def node(d, tag, text=None):
    """an element with text, ready for use in specifications"""
    o = OPEN(d, lits(tag))
    return CLOSE(o if text is None else TEXT(o, text))


def doc(st):
    return st.ghost['doc']


def w_start(E, st, a, rt, mod, dem):
    st.ghost['doc'] = OPEN(doc(st), cstr_of(E, st, a[1]))
    st.ghost['depth'] = st.ghost['depth'] + 1
    return 1


def w_end(E, st, a, rt, mod, dem):
    d = st.ghost['depth']
    if isinstance(d, int) and d == 0:
        return 0                                    # everything is closed already
    E.prove(st, I(d) > 0, 'an element is open', 'safety')
    st.ghost['doc'] = CLOSE(doc(st))
    st.ghost['depth'] = d - 1
    return 1


def w_text(E, st, a, rt, mod, dem):
    st.ghost['doc'] = TEXT(doc(st), cstr_of(E, st, a[1]))
    return 1


def w_begin(E, st, a, rt, mod, dem):
    return 1


def w_finish(E, st, a, rt, mod, dem):
    d = st.ghost['depth']
    if not isinstance(d, int):
        d = z3.simplify(d)
        if not z3.is_int_value(d):
            raise Unsupported('end of a document of unknown depth')
        d = d.as_long()
    for _ in range(d):
        st.ghost['doc'] = CLOSE(doc(st))
    st.ghost['depth'] = 0
    emit(st, 'finished', doc(st))
    return w_flush(E, st, a, rt, mod, dem)


def w_flush(E, st, a, rt, mod, dem):
    w = st.ghost['buffer']
    t = XML(doc(st))
    st.assume(slen(t) < MAXLEN)
    st.put(w[0].add(8), 4, slen(t))
    p = st.alloc(8, 'heap', 'document text')
    st.put(p, 8, BytesV(t, slen(t)))
    st.put(w[0], 8, p)
    return 1


def b_create(E, st, a, rt, mod, dem):
    b = st.alloc(32, 'heap', 'xmlBuffer')
    st.put(b, 8, NULL)
    st.put(b.add(8), 4, 0)
    return b


def w_new(E, st, a, rt, mod, dem):
    w = st.alloc(16, 'heap', 'xmlTextWriter')
    st.ghost['buffer'] = (a[0], w)
    return w


def b_content(E, st, a, rt, mod, dem):
    return E.load(st, mod, a[0], PTR)


def w_err(E, st, a, rt, mod, dem):
    return NULL


def payload_ptr(E, st, p, mod):
    if isinstance(p, SymPtr):
        return SymPtr(PAY(p.ref), X + 'Value_type')
    return E.load(st, mod, p.add(8), PTR)


def mode_of(E, st, vis):
    if st.cell(vis) != E.prog.vptr_for(E, st, VIS):
        raise Unsupported('another visitor')
    return z3.And(B(st.cell(vis.add(E.prog.off(VIS, 'server_mode_')))), st.ghost['omit'])


def m_visit(E, st, a, rt, mod, dem):
    q = payload_ptr(E, st, a[0], mod)
    if isinstance(q, SymPtr):
        st.ghost['doc'] = VAL(doc(st), q.ref, mode_of(E, st, a[1]))
        return None
    return E.run(st, E.prog.fn_by_dem(V + '::apply_visitor(iqxmlrpc::Value_type_visitor&) const'), a)


def m_whole(E, st, a, rt, mod, dem):
    """a value as a whole, whatever it is"""
    q = payload_ptr(E, st, a[0], mod)
    if not isinstance(q, SymPtr):
        emit(st, 'visited', q)
    st.ghost['doc'] = VAL(doc(st), E.val_to_leaf(st, q, 'ptr:'), mode_of(E, st, a[1]))


def lex_double(E, st, a, rt, mod, dem):
    v = E.load(st, mod, a[1], ('double',))
    t = DTEXT(v.t)
    st.assume(slen(t) >= 1, slen(t) < 64, z3.Not(z3.Contains(t, sbytes(b'\0'))))
    models.setS(E, st, a[0], t)


def lex_int(E, st, a, rt, mod, dem):
    r = (boostm.to_str if dem.startswith('std::to_string') else boostm.lex_str)(E, st, a, rt, mod, dem)
    st.assume(z3.Not(z3.Contains(models.S(E, st, a[0]), sbytes(b'\0'))))
    return r


def give(E, st, a, t):
    """a string returned by value or by reference"""
    st.assume(z3.Not(z3.Contains(t, sbytes(b'\0'))), slen(t) < MAXLEN)
    if len(a) > 1:
        return models.setS(E, st, a[0], t)
    q = st.alloc(32, 'heap', 'text')
    st.put(q, 32, StrV(t))
    return q


def m_b64(E, st, a, rt, mod, dem):
    return give(E, st, a, B64(st.cell(a[-1].add(E.prog.off(X + 'Binary_data', 'data'))).s))


def m_date(E, st, a, rt, mod, dem):
    return give(E, st, a, DATE(block_ref(a[-1].base)))


def wengine(E):
    for n, f in (('xmlTextWriterStartElement', w_start), ('xmlTextWriterEndElement', w_end), ('xmlTextWriterFullEndElement', w_end), ('xmlTextWriterWriteString', w_text), ('xmlTextWriterStartDocument', w_begin),
                 ('xmlTextWriterEndDocument', w_finish), ('xmlTextWriterFlush', w_flush), ('xmlBufferCreate', b_create), ('xmlNewTextWriterMemory', w_new), ('xmlBufferContent', b_content),
                 ('xmlGetLastError', w_err), ('xmlFreeTextWriter', nothing), ('xmlBufferFree', nothing)):
        E.mexact[n] = f
    E.mexact[V + '::apply_visitor(iqxmlrpc::Value_type_visitor&) const'] = m_visit
    E.mexact[X + 'Binary_data::get_base64() const'] = m_b64
    E.mexact[X + 'Date_time::to_string() const'] = m_date
    E.mregex.insert(0, (re.compile(r'^std::string boost::lexical_cast<std::string, double>\('), lex_double))
    E.mregex.insert(0, (re.compile(r'^std::string boost::lexical_cast<std::string, (int|long)>\(|^std::to_string\((int|long)\)$'), lex_int))
    containers.CUSTOM[V] = (16, ((8, 8, 'ptr:'),))
    E._mcache = {}


def aengine(E):
    wengine(E)
    E.mexact[V + '::apply_visitor(iqxmlrpc::Value_type_visitor&) const'] = m_whole
    E.mexact[V + '::Value(iqxmlrpc::Value const&)'] = v_copy
    E.mexact[V + '::operator=(iqxmlrpc::Value const&)'] = v_assign
    E.mexact[V + '::~Value()'] = nothing
    E.mexact[X + 'Struct::Struct(iqxmlrpc::Struct const&)'] = s_copy
    E.mexact[X + 'Struct::~Struct()'] = nothing
    E._mcache = {}


def writer(c, depth=None):
    """a writer somewhere inside a document"""
    st = c.st
    st.ghost['ev'] = ()
    st.ghost['doc'] = z3.Const(fresh_name('doc'), DOC)
    st.ghost['omit'] = z3.BoolVal(False)
    st.ghost['buffer'] = None
    st.ghost['depth'] = 0
    b = st.alloc(c.prog.size(XB), 'heap', 'builder', XB)
    c.run(XB + '::XmlBuilder()', [b])
    st.ghost['depth'] = fint('depth')
    st.assume(st.ghost['depth'] >= 0)
    return b

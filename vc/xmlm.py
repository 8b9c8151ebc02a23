"""Reading of XML-RPC documents: what a user of the builders does is written as client functions (namespace vh), the obligations are about
what the library's code does when they run.  Running a nested builder over the document (Parser::parse) is a hook here: it calls the client
function named by the proof, which plays the document.  Parser itself has contracts of its own over the libxml2 reader."""
import z3
from .core import *
from .contract import *
from .values import *
from .events import emit, events
from .engine import Outcome, Exc, PTR
from .models import _out
from . import models, containers

X = 'iqxmlrpc::'
PARSER, BB, VIOL, PERR = X + 'Parser', X + 'BuilderBase', X + 'XML_RPC_violation', X + 'Parse_error'
XTUS = ['parser2.cc', 'value_parser.cc', 'request_parser.cc', 'response_parser.cc', 'request.cc', 'response.cc', 'value.cc', 'value_type.cc']
VIOL_CODE, PERR_CODE = -32600, -32700
XEXTRA = """
#include <stdexcept>
#include "libiqxmlrpc/parser2.h"
#include "libiqxmlrpc/value_parser.h"
#include "libiqxmlrpc/request_parser.h"
#include "libiqxmlrpc/response_parser.h"
#include "libiqxmlrpc/except.h"
extern "C" {
iqxmlrpc::Value_type* vh_value(); void vh_same(const void*, const void*);
void vh_call(const std::string&, const iqxmlrpc::Param_list&); void vh_ok(const iqxmlrpc::Value&); void vh_fault(int, const std::string&);
void vh_got_nil(); void vh_got_int(int); void vh_got_int64(int64_t); void vh_got_bool(bool); void vh_got_double(double); void vh_got_string(const std::string&);
void vh_got_binary(const iqxmlrpc::Binary_data&); void vh_got_time(const iqxmlrpc::Date_time&); void vh_got_struct(const iqxmlrpc::Struct&); void vh_got_array(const iqxmlrpc::Array&);
void vh_mark(const void*, int); void vh_before(const void*);
int vh_element(const std::string&, int); bool vh_end(const std::string&, int); bool vh_text(const std::string&, int); void vh_space(const std::string&, int); void vh_data(const std::string&);
void vh_begin(bool, bool, const void*); void vh_done(bool, int, const void*);
}
namespace vh {
using namespace iqxmlrpc;
struct Peek: ValueBuilderBase { static void set(ValueBuilderBase& b, Value_type* v) { (b.*(&Peek::retval)).reset(v); } };
// a nested builder that finds some value
void fill(BuilderBase& b) { Peek::set(static_cast<ValueBuilderBase&>(b), vh_value()); }

// the first k elements of a call
void call_script(BuilderBase& b, int k)
{
  if (k > 0) b.visit_element("methodCall");
  if (k > 1) { b.visit_element("methodName"); b.visit_element_end("methodName"); }
  if (k > 2) b.visit_element("params");
  if (k > 3) b.visit_element("param");
  if (k > 4) { b.visit_element("value"); b.visit_element_end("param"); }
}
// the builder of calls after them
RequestBuilder* call_after(Parser& p, int k)
{
  RequestBuilder* b = new RequestBuilder(p);
  call_script(*b, k);
  return b;
}
void call_read(const std::string& doc) { Request* r = parse_request(doc); vh_call(r->get_name(), r->get_params()); }
void call_step(Parser& p, int k, int k2, const std::string& tag)
{
  RequestBuilder* b = call_after(p, k);
  b->visit_element(tag);
  vh_same(b, call_after(p, k2));
}
void call_get(Parser& p, int k) { Request* r = call_after(p, k)->get(); vh_call(r->get_name(), r->get_params()); }
void call_more(RequestBuilder& b) { b.visit_element("value"); b.visit_element_end("param"); Request* r = b.get(); vh_call(r->get_name(), r->get_params()); }

void answer_script(BuilderBase& b, int k)
{
  if (k > 0) b.visit_element("methodResponse");
  if (k > 1 && k < 5) b.visit_element("params");
  if (k > 2 && k < 5) b.visit_element("param");
  if (k > 3 && k < 5) b.visit_element("value");
  if (k > 4) b.visit_element("fault");
  if (k > 5) b.visit_element("value");
}
ResponseBuilder* answer_after(Parser& p, int k)
{
  ResponseBuilder* b = new ResponseBuilder(p);
  answer_script(*b, k);
  return b;
}
void answer_read(const std::string& doc)
{
  Response r = parse_response(doc);
  if (r.is_fault()) vh_fault(r.fault_code(), r.fault_string()); else vh_ok(r.value());
}
void answer_step(Parser& p, int k, int k2, const std::string& tag)
{
  ResponseBuilder* b = answer_after(p, k);
  b->visit_element(tag);
  vh_same(b, answer_after(p, k2));
}
void answer_get(Parser& p, int k)
{
  Response r = answer_after(p, k)->get();
  if (r.is_fault()) vh_fault(r.fault_code(), r.fault_string()); else vh_ok(r.value());
}

void answer_fault(Parser& p, const char* tag)
{
  ResponseBuilder* b = answer_after(p, 5);
  b->visit_element("value");
  if (tag) b->visit_element(tag);
  Response r = b->get();
  if (r.is_fault()) vh_fault(r.fault_code(), r.fault_string()); else vh_ok(r.value());
}

// values
void tell(Value_type* t)
{
  Value v(t);
  if (v.is_nil()) vh_got_nil();
  else if (v.is_int()) vh_got_int(v.get_int());
  else if (v.is_int64()) vh_got_int64(v.get_int64());
  else if (v.is_bool()) vh_got_bool(v.get_bool());
  else if (v.is_double()) vh_got_double(v.get_double());
  else if (v.is_string()) vh_got_string(v.get_string());
  else if (v.is_binary()) vh_got_binary(v.get_binary());
  else if (v.is_datetime()) vh_got_time(v.get_datetime());
  else if (v.is_struct()) vh_got_struct(v.the_struct());
  else if (v.is_array()) vh_got_array(v.the_array());
}
void value_step(Parser& p, const char* first, const std::string& tag)
{
  ValueBuilder b(p);
  if (first) b.visit_element(first);
  b.visit_element(tag);
}
void value_text(Parser& p, const char* tag, const std::string& text)
{
  ValueBuilder b(p);
  if (tag) b.visit_element(tag);
  b.visit_text(text);
  if (tag) b.visit_element_end(tag);
  tell(b.result());
}
void value_blank(Parser& p, const char* tag, const std::string& text)
{
  ValueBuilder b(p);
  b.visit_element(tag);
  b.visit_space(text);
  b.visit_element_end(tag);
  tell(b.result());
}
void value_empty(Parser& p, const char* tag, bool dflt, int d, int64_t d8)
{
  if (dflt) { Value::set_default_int(d); Value::set_default_int64(d8); } else { Value::drop_default_int(); Value::drop_default_int64(); }
  ValueBuilder b(p);
  if (tag) b.visit_element(tag);
  b.visit_element_end(tag ? tag : "value");
  tell(b.result());
}
// a builder of values that meets a container twice; what happens inside is played by the proof
void twice(Parser& p, const char* tag)
{
  for (int i = 0; i < 2; ++i) { ValueBuilder b(p); b.visit_element(tag); b.result(); }
}
void members(Parser& p) { twice(p, "struct"); }
void elements(Parser& p) { twice(p, "array"); }
void once(Parser& p, const char* tag) { ValueBuilder b(p); b.visit_element(tag); tell(b.result()); }
void member(BuilderBase& b)
{
  vh_mark(&b, 0); b.visit_element("member"); vh_mark(&b, 1); b.visit_element("name"); b.visit_element_end("name"); vh_mark(&b, 2);
  b.visit_element("value"); b.visit_element_end("value"); vh_mark(&b, 3); b.visit_element_end("member"); vh_mark(&b, 0);
}
void member_step(BuilderBase& b, int k, const std::string& tag, bool end)
{
  if (k > 0) b.visit_element("member");
  if (k > 1) { b.visit_element("name"); b.visit_element_end("name"); }
  if (k > 2) { b.visit_element("value"); b.visit_element_end("value"); }
  if (end) b.visit_element_end("member"); else { b.visit_element(tag); vh_mark(&b, k + 1); }
}
void element(BuilderBase& b)
{
  vh_mark(&b, 0); b.visit_element("data"); vh_mark(&b, 1); b.visit_element("value"); b.visit_element_end("value"); vh_mark(&b, 2);
  b.visit_element("value"); b.visit_element_end("value"); vh_mark(&b, 2);
}
void element_step(BuilderBase& b, int k, const std::string& tag)
{
  if (k > 0) b.visit_element("data");
  if (k > 1) { b.visit_element("value"); b.visit_element_end("value"); }
  b.visit_element(tag);
  vh_mark(&b, k == 0 ? 1 : 2);
}
// one more item in a container that holds anything
void one_member(BuilderBase& b)
{
  vh_before(&b);
  b.visit_element("member"); b.visit_element("name"); b.visit_element_end("name"); b.visit_element("value"); b.visit_element_end("value"); b.visit_element_end("member");
}
void first_element(BuilderBase& b) { b.visit_element("data"); vh_before(&b); b.visit_element("value"); b.visit_element_end("value"); }
void one_element(BuilderBase& b) { b.visit_element("data"); b.visit_element("value"); b.visit_element_end("value"); vh_before(&b); b.visit_element("value"); b.visit_element_end("value"); }
void no_items(BuilderBase&) {}
// a builder that records what the parser passes on; when it stops and whether it asks for text is up to the proof
struct Probe: BuilderBase {
  Probe(Parser& p, bool text): BuilderBase(p, text) {}
  void do_visit_element(const std::string& t) { int w = vh_element(t, depth()); if (w & 1) vh_data(parser_.get_data()); if (w & 2) want_exit(); }
  void do_visit_element_end(const std::string& t) { if (vh_end(t, depth())) want_exit(); }
  void do_visit_text(const std::string& t) { if (vh_text(t, depth())) want_exit(); }
  void do_visit_space(const std::string& t) { vh_space(t, depth()); }
};
void drive(Parser& p, bool text, bool flat)
{
  Probe b(p, text);
  vh_begin(text, flat, &p);
  b.build(flat);
  vh_done(b.wants_exit(), b.depth(), &p);
}
void read_first(const std::string& doc, bool text, bool flat) { Parser p(doc); drive(p, text, flat); }
void read_next(Parser& p, bool text, bool flat) { drive(p, text, flat); }
}
"""
STEPS = 'play'


def m_get_data(E, st, a, rt, mod, dem):
    n = st.ghost['reads'] = st.ghost.get('reads', 0) + 1
    s = fstr('text%d' % n)
    st.assume(slen(s) < MAXLEN)
    emit(st, 'data', s)
    models.setS(E, st, a[0], s)


def m_context(E, st, a, rt, mod, dem):
    s = fstr('context')
    st.assume(slen(s) < MAXLEN)
    models.setS(E, st, a[0], s)


def m_play(E, st, a, rt, mod, dem):
    todo = st.ghost.get(STEPS, ())
    if st.cell(a[1]) == E.prog.vptr_for(E, st, X + 'ValueBuilder'):
        todo = ()
    else:
        st.ghost[STEPS] = todo[1:]
    fn, args = (todo[0] if todo else ('vh::fill(iqxmlrpc::BuilderBase&)', []))
    f = E.prog.fn_by_dem(fn)
    if f is None:
        raise Unsupported('client function ' + fn)
    return E.run(st, f, [a[1]] + list(args))


def m_open(E, st, a, rt, mod, dem):
    emit(st, 'document', models.S(E, st, a[1]), E.val_to_leaf(st, a[0], 'ptr:'))


def m_played(E, st, a, rt, mod, dem):
    if st.ghost.get(STEPS, ()):
        emit(st, 'played', E.val_to_leaf(st, a[0], 'ptr:'))
    return m_play(E, st, a, rt, mod, dem)


def dengine(E):
    """a document as a whole: the parser it is given to, the builder run over it"""
    xengine(E)
    E.mexact[PARSER + '::Parser(std::string const&)'] = m_open
    E.mexact[PARSER + '::~Parser()'] = nothing
    E.mexact[PARSER + '::parse(iqxmlrpc::BuilderBase&)'] = m_played
    E._mcache = {}


def m_value(E, st, a, rt, mod, dem):
    q = st.ghost.get('values', ())
    if q:
        st.ghost['values'] = q[1:]
        v = q[0]
    else:
        r = fint('value')
        st.assume(r > 0)
        v = SymPtr(r, X + 'Value_type')
    emit(st, 'value', v)
    return v


def m_call(E, st, a, rt, mod, dem):
    emit(st, 'call', models.S(E, st, a[0]), E.aget(st, a[1], SeqV))


def m_ok(E, st, a, rt, mod, dem):
    emit(st, 'ok', E.load(st, mod, a[0].add(8), PTR))


def m_fault(E, st, a, rt, mod, dem):
    emit(st, 'fault', a[0], models.S(E, st, a[1]))


def scalars(st, p, lo):
    b = st.blocks[p.base]
    return {o: v for o, (sz, v) in b.cells.items() if o >= lo and sz <= 8 and (isinstance(v, (int, bool)) or is_sym(v))}


def m_same(E, st, a, rt, mod, dem):
    lo = E.prog.size(BB)
    x, y = scalars(st, a[0], lo), scalars(st, a[1], lo)
    drop = E.__dict__.get('vary', ())
    for o in set(x) | set(y):
        if o in drop:
            continue
        if o not in x or o not in y or E.feasible(st, z3.Not(B(val_eq(x[o], y[o])))):
            raise Unsupported('states of the builders are not comparable (offset %d)' % o)


def m_mark(E, st, a, rt, mod, dem):
    now = scalars(st, a[0], E.prog.size(BB))
    marks = st.ghost['marks']
    if a[1] not in marks:
        st.ghost['marks'] = dict(marks)
        st.ghost['marks'][a[1]] = now
        return None
    old = marks[a[1]]
    for o in set(old) | set(now):
        if o not in old or o not in now or E.feasible(st, z3.Not(B(val_eq(old[o], now[o])))):
            raise Unsupported('states of the builder are not comparable (offset %s)' % (o,))


def m_before(E, st, a, rt, mod, dem):
    """the container under construction holds anything"""
    found = {}
    for o, (sz, v) in st.blocks[a[0].base].cells.items():
        if isinstance(v, Ptr) and isinstance(v.base, int) and not v.isnull:
            for o2, (sz2, w) in st.blocks[v.base].cells.items():
                if isinstance(w, (SeqV, MapV)):
                    found[v.base, o2] = (Ptr(v.base, o2), sz2, w)
    if len(found) != 1:
        raise Unsupported('%d containers under construction' % len(found))
    p, sz, w = list(found.values())[0]
    w = containers.fresh_map(MAPT, 'members') if isinstance(w, MapV) else containers.fresh_seq(st, 'iqxmlrpc::Value*', 'elems')
    st.put(p, sz, w)
    st.ghost['old'] = w
    st.ghost['ev'] = tuple(e for e in st.ghost['ev'] if e[0] != 'value')


def m_got(name):
    def f(E, st, a, rt, mod, dem):
        emit(st, 'got', name, *a)
    return f


def m_gotstr(E, st, a, rt, mod, dem):
    emit(st, 'got', 'string', models.S(E, st, a[0]))


def m_gotbin(E, st, a, rt, mod, dem):
    emit(st, 'got', 'binary', E.aget(st, a[0].add(E.prog.off(X + 'Binary_data', 'data')), StrV).s)


def m_gottime(E, st, a, rt, mod, dem):
    emit(st, 'got', 'time')


def m_gotstruct(E, st, a, rt, mod, dem):
    emit(st, 'got', 'struct', E.aget(st, a[0].add(E.prog.off(X + 'Struct', 'values')), MapV))


def m_gotarray(E, st, a, rt, mod, dem):
    emit(st, 'got', 'array', E.aget(st, a[0].add(E.prog.off(X + 'Array', 'values')), SeqV))


def v_copy(E, st, a, rt, mod, dem):
    """a copy of a value is an equal value (C04); equal values are one reference here"""
    st.put(a[0], 8, Ptr(('vt', V), 0))
    st.put(a[0].add(8), 8, E.load(st, E.prog.mods[0], a[1].add(8) if isinstance(a[1], Ptr) else a[1], PTR) if isinstance(a[1], Ptr) else payload_of(st, a[1]))


ISINT, ISSTR = z3.Function('is int', INT, BOOL), z3.Function('is string', INT, BOOL)
INTV, STRV = z3.Function('int of', INT, INT), z3.Function('string of', INT, STR)


def m_get(kind):
    """typed access to a member value (C03)"""
    def f(E, st, a, rt, mod, dem):
        p = a[-1]
        if not isinstance(p, SymPtr):
            raise Unsupported('typed access to a concrete value')
        ok = st.fork()
        ok.assume((ISINT if kind == 'int' else ISSTR)(p.ref))
        st.assume(z3.Not((ISINT if kind == 'int' else ISSTR)(p.ref)))
        bad = _out(st, 'throw', make_exc(E, st, X + 'Value::Bad_cast'))
        if kind == 'int':
            t = INTV(p.ref)
            ok.assume(t >= 0, t < 1 << 32)
            r = _out(ok, 'ret', t)
        elif len(a) > 1:
            models.setS(E, ok, a[0], STRV(p.ref))
            ok.assume(slen(STRV(p.ref)) < MAXLEN)
            r = _out(ok, 'ret', None)
        else:
            q = ok.alloc(32, 'heap', 'string of the value')
            ok.put(q, 32, StrV(STRV(p.ref)))
            ok.assume(slen(STRV(p.ref)) < MAXLEN)
            r = _out(ok, 'ret', q)
        return [o for o in (r, bad) if E.feasible(o.st)]
    return f


def s_copy(E, st, a, rt, mod, dem):
    """a copy of a struct has equal members (C04)"""
    o = E.prog.off(X + 'Struct', 'values')
    st.put(a[0], 8, E.prog.vptr_for(E, st, X + 'Struct'))
    st.put(a[0].add(o), 48, E.aget(st, a[1].add(o), MapV))


def payload_of(st, p):
    return SymPtr(z3.Function('payload', INT, INT)(p.ref), X + 'Value_type')


def v_assign(E, st, a, rt, mod, dem):
    E.aset(st, a[0].add(8), 8, E.load(st, E.prog.mods[0], a[1].add(8), PTR))
    return a[0]


def nothing(E, st, a, rt, mod, dem):
    return None


def m_only(E, name, model):
    """the model for abstract values, the body for concrete ones"""
    def f(E, st, a, rt, mod, dem):
        if isinstance(a[-1], SymPtr):
            return model(E, st, a, rt, mod, dem)
        return E.run(st, E.prog.fn_by_dem(name), a)
    return f


def xengine(E):
    E.mexact[PARSER + '::get_data()'] = m_get_data
    E.mexact[PARSER + '::context() const'] = m_context
    E.mexact[PARSER + '::parse(iqxmlrpc::BuilderBase&)'] = m_play
    E.mexact['vh_value'] = m_value
    E.mexact['vh_same'] = m_same
    E.mexact['vh_mark'] = m_mark
    E.mexact['vh_before'] = m_before
    for k in ('nil', 'int', 'int64', 'bool', 'double'):
        E.mexact['vh_got_' + k] = m_got(k)
    E.mexact['vh_got_string'], E.mexact['vh_got_binary'], E.mexact['vh_got_time'] = m_gotstr, m_gotbin, m_gottime
    E.mexact['vh_got_struct'], E.mexact['vh_got_array'] = m_gotstruct, m_gotarray
    E.mexact['vh_call'], E.mexact['vh_ok'], E.mexact['vh_fault'] = m_call, m_ok, m_fault
    E.mexact[V + '::Value(iqxmlrpc::Value const&)'] = v_copy
    E.mexact[V + '::operator=(iqxmlrpc::Value const&)'] = v_assign
    E.mexact[V + '::~Value()'] = nothing
    E.mexact[X + 'Value_type::~Value_type()'] = nothing
    E.mexact[X + 'Struct::Struct(iqxmlrpc::Struct const&)'] = s_copy
    E.mexact[X + 'Struct::~Struct()'] = nothing
    E.mexact[X + 'Array::~Array()'] = nothing
    E.mexact[V + '::get_int() const'] = m_only(E, V + '::get_int() const', m_get('int'))
    E.mexact[V + '::get_string() const'] = m_only(E, V + '::get_string() const', m_get('string'))
    containers.CUSTOM[V] = (16, ((8, 8, 'ptr:'),))
    E._mcache = {}


def parser(c):
    c.st.ghost['ev'] = ()
    c.st.ghost[STEPS] = ()
    c.st.ghost['marks'] = {}
    p = c.st.alloc(c.prog.size(PARSER), 'heap', 'parser', PARSER)
    return p


def lit(c, s):
    """C string literal"""
    if s is None:
        return NULL
    p = c.st.alloc(len(s) + 1, 'heap', 'tag')
    c.st.put(p, len(s) + 1, BytesV(sbytes(s.encode() + b'\0'), len(s) + 1))
    return p


def tagstr(c, name='tag'):
    p = c.newstr(name=name)
    s = c.str(p)
    c.st.assume(z3.Not(z3.Contains(s, sbytes(b'\0'))))
    c.inp(name, s)
    return p

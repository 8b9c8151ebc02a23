"""C05: values written as XML-RPC and read back (value_type_xml.cc, xml_builder.cc, value_parser.cc, request.cc, response.cc)"""
import re
from ..xmlm import *
from ..writerm import *
from ..boostm import decfacts, dec, ISDBL, DBL
from .. import xmlm, writerm

TUS = sorted(set(XTUS + WTUS))
EXTRA = XEXTRA + WEXTRA
BUDGET = 300
OPTS = {'concrete_limit': 16, 'concrete_exits': True, 'concrete_width': 24}


def engine(E):
    xengine(E)


# ---- writing
def no_nul(st, s):
    st.assume(z3.Not(z3.Contains(s, sbytes(b'\0'))))


def setup_put(c):
    b = writer(c)
    v = value_of(c, c.variant)
    st = c.st
    q = pay(c, v)
    srv, omit = fbool('server'), fbool('omit')
    st.ghost['omit'] = omit
    rec = KINDS[c.variant][0]
    if c.variant == 'string':
        no_nul(st, val_(c, q, rec).s)
        c.inp('text', val_(c, q, rec).s)
    if c.variant in ('array', 'struct'):
        unfold(c, st.cell(q.add(c.prog.off(rec, 'values'))), z3.And(srv, omit))
    return [b, srv, omit, v]


ITEMS = z3.Function('items', DOC, INT, DOC)     # the document after the first i members, elements or parameters


def unfold(c, v, mode):
    """what is written for one item after another"""
    st = c.st
    st.ghost['count'] = containers.enum(st, v).n if isinstance(v, MapV) else I(v.size())
    d, i = z3.Const('d!i', DOC), z3.Int('i!i')
    st.assume(z3.ForAll([d], ITEMS(d, 0) == d, patterns=[ITEMS(d, 0)]))
    if isinstance(v, MapV):
        en = containers.enum(st, v)
        k = en.keys[i]
        x = CLOSE(VAL(node(OPEN(ITEMS(d, i), lits('member')), 'name', k), PAY(v.get(k)), mode))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < en.n), z3.Not(z3.Contains(k, sbytes(b'\0')))), patterns=[k]))
        st.assume(z3.ForAll([d, i], z3.Implies(z3.And(i >= 0, i < en.n), ITEMS(d, i + 1) == x), patterns=[z3.MultiPattern(ITEMS(d, i), k)]))
    else:
        x = VAL(ITEMS(d, i), PAY(v.get(i)), mode)
        st.assume(z3.ForAll([d, i], z3.Implies(z3.And(i >= 0, i < I(v.size())), ITEMS(d, i + 1) == x), patterns=[z3.MultiPattern(ITEMS(d, i), v.get(i))]))


def items_cands(L):
    out = []
    if 'doc' in L.ghosts:
        d0 = L.entry.ghost['doc']
        for nm, get, entry in L.ints:
            out.append(('%s in range' % nm, lambda st, get=get: get(st) <= L.entry.ghost['count']))
            out.append(('document after %s items' % nm, lambda st, get=get: st.ghost['doc'] == ITEMS(d0, get(st))))
        if 'depth' in L.ghosts:
            out.append(('depth', lambda st: st.ghost['depth'] == L.entry.ghost['depth']))
    return out


TAG = {'int': 'i4', 'int64': 'i8', 'double': 'double', 'bool': 'boolean', 'string': 'string', 'binary': 'base64', 'datetime': 'dateTime.iso8601'}


def cases_put(c, a):
    k = c.variant
    rec = KINDS[k][0]
    q = pay(c, a[3])
    o = OPEN(c.st.ghost['doc'], lits('value'))
    if k == 'nil':
        body = node(o, 'nil')
    elif k in ('array', 'struct'):
        v = c.st.cell(q.add(c.prog.off(rec, 'values')))
        n = containers.enum(c.st, v).n if k == 'struct' else I(v.size())
        inner = OPEN(OPEN(o, lits('array')), lits('data')) if k == 'array' else OPEN(o, lits('struct'))
        body = CLOSE(ITEMS(inner, n))
        if k == 'array':
            body = CLOSE(body)
    else:
        if k in ('int', 'int64'):
            v = val_(c, q, rec)
            w = 32 if k == 'int' else 64
            t = dec(z3.If(I(v) >= 1 << (w - 1), I(v) - (1 << w), I(v)))
        elif k == 'double':
            t = DTEXT(val_(c, q, rec).t)
        elif k == 'bool':
            t = z3.If(B(val_(c, q, rec)), lits('1'), lits('0'))
        elif k == 'string':
            t = val_(c, q, rec).s
        elif k == 'binary':
            t = B64(c.st.cell(q.add(c.prog.off(rec, 'data'))).s)
        else:
            t = DATE(block_ref(q.base))
        body = node(o, TAG[k], t)
        if k == 'string':
            body = z3.If(z3.And(a[1], a[2]), TEXT(o, t), body)
    want = CLOSE(body)
    d0 = c.st.ghost['depth']

    def post(E, st, o):
        return [('element <value> with this kind and text', st.ghost['doc'] == want), ('every element is closed', I(st.ghost['depth']) == d0)]
    return [Case(True, any_frame=True, post=post, label='written')]


def setup_req(c):
    st = c.st
    st.ghost['ev'] = ()
    st.ghost['doc'] = z3.Const('nothing', DOC)
    st.ghost['depth'] = 0
    st.ghost['omit'] = fbool('omit')
    st.ghost['buffer'] = None
    r = st.alloc(c.prog.size(X + 'Request'), 'heap', 'request', X + 'Request')
    s = fstr('name')
    st.assume(slen(s) < MAXLEN)
    no_nul(st, s)
    c.inp('name', s)
    st.put(r.add(c.prog.off(X + 'Request', 'name')), 32, StrV(s))
    ps = containers.fresh_seq(st, V, 'params')
    st.ghost['count'] = I(ps.size())
    st.put(r.add(c.prog.off(X + 'Request', 'params')), 24, ps)
    d, i = z3.Const('d!i', DOC), z3.Int('i!i')
    st.assume(z3.ForAll([d], ITEMS(d, 0) == d, patterns=[ITEMS(d, 0)]))
    x = CLOSE(VAL(OPEN(ITEMS(d, i), lits('param')), ps.get(i), z3.BoolVal(False)))
    st.assume(z3.ForAll([d, i], z3.Implies(z3.And(i >= 0, i < I(ps.size())), ITEMS(d, i + 1) == x), patterns=[z3.MultiPattern(ITEMS(d, i), ps.get(i))]))
    out = st.alloc(32, 'stack', 'result')
    return [out, r]


def written(st, out, want):
    ev = events(st, 'finished')
    return [('the document is finished once', len(ev) == 1), ('it is this document', bool(ev) and ev[0][1] == want), ('its text is returned', out == XML(want))]


def cases_req(c, a):
    r = a[1]
    name = c.st.cell(r.add(c.prog.off(X + 'Request', 'name'))).s
    ps = c.st.cell(r.add(c.prog.off(X + 'Request', 'params')))
    root = OPEN(c.st.ghost['doc'], lits('methodCall'))
    want = CLOSE(CLOSE(ITEMS(OPEN(node(root, 'methodName', name), lits('params')), I(ps.size()))))

    def post(E, st, o):
        return written(st, st.cell(a[0]).s, want)
    return [Case(True, any_frame=True, post=post, label='call')]


def setup_ans(c):
    st = c.st
    st.ghost['ev'] = ()
    st.ghost['doc'] = z3.Const('nothing', DOC)
    st.ghost['depth'] = 0
    omit = st.ghost['omit'] = fbool('omit')
    st.ghost['buffer'] = None
    r = st.alloc(c.prog.size(X + 'Response'), 'heap', 'response', X + 'Response')
    if c.variant == 'value':
        v = st.alloc(16, 'heap', 'Value', V)
        st.put(v, 8, Ptr(('vt', V), 0))
        x = fint('payload')
        st.assume(x > 0)
        st.put(v.add(8), 8, SymPtr(x, X + 'Value_type'))
        st.ghost['val'] = x
        c.run(X + 'Response::Response(iqxmlrpc::Value*)', [r, v])
    else:
        s = fstr('fault')
        st.assume(slen(s) < MAXLEN)
        no_nul(st, s)
        p = c.newstr(name='text')
        st.put(p, 32, StrV(s))
        code = c.E.fresh_of(st, ('i', 32), 'code')
        st.ghost['val'] = (code, s)
        c.run(X + 'Response::Response(int, std::string const&)', [r, code, p])
    out = st.alloc(32, 'stack', 'result')
    return [out, omit, r]


def cases_ans(c, a):
    val = c.st.ghost['val']
    mode = a[1]
    root = OPEN(c.st.ghost['doc'], lits('methodResponse'))
    if c.variant == 'value':
        want = CLOSE(CLOSE(CLOSE(VAL(OPEN(OPEN(root, lits('params')), lits('param')), val, mode))))
        return [Case(True, any_frame=True, post=lambda E, st, o: written(st, st.cell(a[0]).s, want), label='value')]

    def post(E, st, o):
        ev = events(st, 'visited')
        if len(ev) != 1 or not isinstance(ev[0][1], Ptr) or st.cell(ev[0][1]) != E.prog.vptr_for(E, st, X + 'Struct'):
            return [('one struct is written', False)]
        q = ev[0][1]
        m = st.cell(q.add(E.prog.off(X + 'Struct', 'values')))
        want = CLOSE(CLOSE(VAL(OPEN(root, lits('fault')), block_ref(q.base), mode)))
        k = z3.Const('k!m', STR)
        code, s = val
        return written(st, st.cell(a[0]).s, want) + [
            ('two members', z3.And(m.has(FC), m.has(FS), z3.ForAll([k], z3.Implies(m.has(k), z3.Or(k == FC, k == FS))))),
            ('the code', holds(E, st, m.get(FC), 'int', code)), ('the string', holds(E, st, m.get(FS), 'string', s))]
    return [Case(True, any_frame=True, post=post, label='fault')]


FC, FS = sbytes(b'faultCode'), sbytes(b'faultString')


def holds(E, st, ref, kind, x):
    """the value behind ref is a <kind> equal to x"""
    rec, cls, _ = KINDS[kind]
    out = []
    for bid, b in st.blocks.items():
        p = b.cells.get(8)
        if b.size != 16 or not p or not isinstance(p[1], Ptr) or not isinstance(p[1].base, int):
            continue
        if st.cell(p[1]) != E.prog.vptr_for(E, st, cls):
            continue
        v = st.cell(p[1].add(E.prog.off(rec, 'value_')))
        out.append(z3.And(ref == block_ref(bid), B(val_eq(v.s if kind == 'string' else v, x))))
    return z3.Or(*out) if out else False


def setup_doc(c):
    st = c.st
    st.ghost['ev'] = ()
    st.ghost['doc'] = z3.Const('nothing', DOC)
    st.ghost['depth'] = 0
    st.ghost['omit'] = z3.BoolVal(False)
    st.ghost['buffer'] = None
    t = tagstr_(c, 'text')
    out = st.alloc(32, 'stack', 'result')
    return [out, lit(c, 'tag'), t]


def tagstr_(c, name):
    p = c.newstr(name=name)
    no_nul(c.st, c.str(p))
    c.inp(name, c.str(p))
    return p


def cases_docu(c, a):
    want = node(c.st.ghost['doc'], 'tag', c.str(a[2]))
    return [Case(True, any_frame=True, post=lambda E, st, o: written(st, st.cell(a[0]).s, want), label='element')]


# ---- reading
D64 = z3.Function('bytes of base64', STR, STR)


def m_from64(E, st, a, rt, mod, dem):
    c = Ctx(E, st)
    p = payload(c, 'binary')
    st.put(p.add(E.prog.off(X + 'Binary_data', 'data')), 32, StrV(D64(models.S(E, st, a[0]))))
    return p


def m_time(E, st, a, rt, mod, dem):
    emit(st, 'date', models.S(E, st, a[1]))
    c = Ctx(E, st)
    p = payload(c, 'datetime')
    for o, (sz, v) in list(st.blocks[p.base].cells.items()):
        st.put(a[0].add(o), sz, v)


def tengine(E):
    xengine(E)
    E.mexact[X + 'Binary_data::from_base64(std::string const&)'] = m_from64
    E.mexact[X + 'Date_time::Date_time(std::string const&)'] = m_time
    E._mcache = {}


def setup_text(c):
    st = c.st
    p = parser(c)
    t = c.variant
    s = c.newstr(name='text')
    tag = t.split()[0]
    if tag in ('i4', 'int', 'i8'):
        w = 64 if tag == 'i8' else 32
        v = c.E.fresh_of(st, ('i', w), 'value')
        n = z3.If(v >= 1 << (w - 1), v - (1 << w), v)
        x = dec(n)
        decfacts(st, n, x)
    elif tag == 'boolean':
        v = z3.BoolVal(t == 'boolean 1')
        x = lits(t.split()[1])
    elif tag == 'double':
        v = fresh(F64, 'value')
        x = DTEXT(v)
        st.assume(ISDBL(x), DBL(x) == v, slen(x) > 0, slen(x) < 64)
    elif tag == 'base64':
        v = fstr('data')
        x = B64(v)
        st.assume(D64(x) == v, slen(v) < MAXLEN, slen(x) < MAXLEN)
    else:
        x = v = c.str(s)
        c.inp('text', x)
    st.put(s, 32, StrV(x))
    st.ghost['want'] = v
    return [p, lit(c, None if tag == 'bare' else tag), s]


GOT = {'i4': 'int', 'int': 'int', 'i8': 'int64', 'boolean': 'bool', 'double': 'double', 'string': 'string', 'bare': 'string', 'base64': 'binary', 'dateTime.iso8601': 'time'}


def cases_text(c, a):
    tag = c.variant.split()[0]
    v = c.st.ghost['want']

    def post(E, st, o):
        e = [x for x in events(st, 'got')]
        if len(e) != 1 or e[0][1] != GOT[tag]:
            return [('a value of this kind', False)]
        if tag == 'dateTime.iso8601':
            d = events(st, 'date')
            return [('the date is read from this text', len(d) == 1 and d[0][1] == v)]
        x = e[0][2]
        return [('with this content', B(val_eq(x.t if tag == 'double' else x, v)))]
    return [Case(True, any_frame=True, post=post, label='read')]


def setup_blank(c):
    return [parser(c), lit(c, 'string'), tagstr_(c, 'text')]


def cases_blank(c, a):
    s = c.str(a[2])

    def post(E, st, o):
        e = events(st, 'got')
        return [('a string', len(e) == 1 and e[0][1] == 'string'), ('white space is kept', len(e) == 1 and e[0][1] == 'string' and e[0][2] == s)]
    return [Case(True, any_frame=True, post=post, label='read')]


def setup_items(c):
    p = parser(c)
    kind, what = c.variant.split(', ')
    fn = {'none': 'no_items', 'one member': 'one_member', 'first element': 'first_element', 'one more element': 'one_element'}[what]
    c.st.ghost[STEPS] = (('vh::%s(iqxmlrpc::BuilderBase&)' % fn, []),)
    c.st.ghost['old'] = None
    return [p, lit(c, kind)]


def is_value(E, st, ref, pay):
    out = []
    for bid, b in st.blocks.items():
        p = b.cells.get(8)
        if b.size == 16 and p and isinstance(p[1], (Ptr, SymPtr)) and not (isinstance(p[1], Ptr) and not isinstance(p[1].base, int)):
            out.append(z3.And(ref == block_ref(bid), E.val_to_leaf(st, p[1], 'ptr:') == pay))
    return z3.Or(*out) if out else False


def cases_items(c, a):
    kind, what = c.variant.split(', ')

    def post(E, st, o):
        e = events(st, 'got')
        if len(e) != 1 or e[0][1] != kind:
            return [('a %s is read' % kind, False)]
        x, old = e[0][2], st.ghost['old']
        k, j = z3.Const('k!m', STR), z3.Int('j!m')
        if what == 'none':
            return [('it is empty', z3.ForAll([k], z3.Not(x.has(k))) if kind == 'struct' else I(x.size()) == 0)]
        vs, ds = events(st, 'value'), events(st, 'data')
        if len(vs) != 1:
            return [('one value is read', False)]
        v = E.val_to_leaf(st, vs[0][1], 'ptr:')
        if kind == 'struct':
            if len(ds) != 1:
                return [('one name is read', False)]
            n = ds[0][1]
            return [('the member is there', x.has(n)), ('with its value', is_value(E, st, x.get(n), v)),
                    ('the others stay', z3.ForAll([k], z3.Implies(k != n, z3.And(x.has(k) == old.has(k), z3.Implies(old.has(k), x.get(k) == old.get(k))))))]
        m = I(old.size())
        return [('one element more', I(x.size()) == m + 1), ('it is the last', is_value(E, st, x.get(m), v)), ('the others stay in order', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), x.get(j) == old.get(j))))]
    return [Case(True, any_frame=True, post=post, label='read')]


def replay(name, v):
    out = []
    for k, t in v.items():
        t = t if isinstance(t, str) else ''
        if not re.match(r'([0-9a-f]{2})*$', t) or any(b < 32 and b not in (9, 10, 13) or b > 126 for b in bytes.fromhex(t)):
            continue
        h = t or '-'
        out += ['answer s' + h, 'call 6d s' + h, 'answer {%s=s%s,}' % (h, h), 'call %s i1' % h, 'fault 5 ' + h]
    return out


NOTE = ('Writing: contracts on the visitor for every kind of value (element, text, order; members and elements by loop invariants), on the document builder over the libxml2 text writer, on dump_request and dump_response. '
        'Reading: contracts on the value builder for the text of every kind, for white space, for one more member of any struct and one more element of any array. Order of elements and what the parser passes on are contracts of C06. '
        'The battery writes values, reads the text with a small XML reader of its own and with the library, and compares.')
# THEOREM: the text written for a value, read by the builders, gives a value of the same kind and content: by induction over nesting, one kind at a time (contracts of put and of value_text/value_blank/once/value_empty)
# THEOREM: a call or response reads back with the same name and parameters in order, or the same value, or the same fault (dump_request, answer; call_get, call_more, answer_get, answer_fault of C06)
ASSUME = ['libxml2: the text writer produces a document whose elements and texts are those written, with text escaped, and the reader reports them unchanged; writing fails only when memory is exhausted',
          'lexical_cast of a number to text and back gives the number (17 significant digits for double)', 'base64 text (C01) and date text (C02) read back as what was written', 'copies of values are equal values (C04)',
          'a white-space text node is reported as white space, any other text as text', 'memory allocation does not fail']


def contracts(P):
    cs = []
    cs.append(Contract('vh::once(iqxmlrpc::Parser&, char const*)', setup_items, cases_items, level='property', use=False, variants=['struct, none', 'struct, one member', 'array, none', 'array, first element', 'array, one more element']))
    cs.append(Contract('vh::value_text(iqxmlrpc::Parser&, char const*, std::string const&)', setup_text, cases_text, level='property', use=False, engine=tengine,
                       variants=['i4', 'int', 'i8', 'boolean 0', 'boolean 1', 'double', 'string', 'bare', 'base64', 'dateTime.iso8601']))
    cs.append(Contract('vh::value_blank(iqxmlrpc::Parser&, char const*, std::string const&)', setup_blank, cases_blank, level='property', use=False))
    cs.append(Contract('vh::put(iqxmlrpc::XmlBuilder&, bool, bool, iqxmlrpc::Value const&)', setup_put, cases_put, level='property', use=False, engine=wengine, variants=sorted(KINDS), cands=[items_cands]))
    cs.append(Contract(X + 'dump_request(iqxmlrpc::Request const&)', setup_req, cases_req, level='property', use=False, engine=aengine, cands=[items_cands]))
    cs.append(Contract('vh::answer(bool, iqxmlrpc::Response const&)', setup_ans, cases_ans, level='property', use=False, engine=aengine, variants=['value', 'fault']))
    cs.append(Contract('vh::document(char const*, std::string const&)', setup_doc, cases_docu, level='property', use=False, engine=wengine))
    return cs

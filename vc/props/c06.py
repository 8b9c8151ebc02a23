"""C06: which documents are accepted as calls and responses, and the errors for others (parser2.cc, request_parser.cc, response_parser.cc, value_parser.cc)"""
import re
from ..xmlm import *
from ..readerm import *
from .. import xmlm, readerm

TUS = XTUS
EXTRA = XEXTRA
BUDGET = 300
OPTS = {'concrete_limit': 16, 'concrete_exits': True, 'concrete_width': 24}


def engine(E):
    xengine(E)


def viol(g, label):
    return Case(g, throw=VIOL, exc_code=VIOL_CODE, any_frame=True, label=label)


# ---- calls: after k elements exactly one element may follow
CALL = {0: ('methodCall', 1), 1: ('methodName', 2), 2: ('params', 3), 3: ('param', 4), 4: ('value', 5), 5: ('param', 4)}
ANSWER = {0: {'methodResponse': 1}, 1: {'params': 2, 'fault': 5}, 2: {'param': 3}, 3: {'value': 4}, 4: {}, 5: {'value': 6}, 6: {}}


def setup_call(c):
    k = int(c.variant.split()[0])
    return [parser(c), k, CALL[k][1], tagstr(c)]


def cases_call(c, a):
    k = int(c.variant.split()[0])
    t = c.str(a[3])
    ok = t == sbytes(CALL[k][0].encode())
    return [Case(ok, any_frame=True, label='<%s> is expected here' % CALL[k][0]), viol(z3.Not(ok), 'any other element')]


def num(c):
    return int(c.variant.split()[0])


def setup_get(c):
    return [parser(c), num(c)]


def the(st, kind):
    ev = events(st, kind)
    return ev[0] if len(ev) == 1 else None


def cases_get(c, a):
    k = num(c)
    if k < 2:
        return [viol(True, 'no method name')]

    def post(E, st, o):
        e, d = the(st, 'call'), the(st, 'data')
        vs = events(st, 'value')
        if not e or not d:
            return [('the call is built', False)]
        out = [('method name is the text of <methodName>', e[1] == d[1]), ('as many parameters as values', I(e[2].size()) == (1 if k > 4 else 0))]
        if k > 4:
            out.append(('the parameter is the value', e[2].get(0) == E.val_to_leaf(st, vs[0][1], 'ptr:')))
        return out
    return [Case(True, any_frame=True, post=post, label='call')]


def setup_more(c):
    p = parser(c)
    b = c.run('vh::call_after(iqxmlrpc::Parser&, int)', [p, 4])
    blk = c.st.blocks[b.base]
    seqs = [o for o, (sz, v) in blk.cells.items() if isinstance(v, SeqV)]
    if len(seqs) != 1:
        raise Unsupported('%d sequences in the builder of calls' % len(seqs))
    c.st.put(b.add(seqs[0]), 24, containers.fresh_seq(c.st, V, 'params'))
    c.st.ghost['params'] = seqs[0]
    return [b]


def cases_more(c, a):
    old = c.st.cell(a[0].add(c.st.ghost['params']))

    def post(E, st, o):
        e, d = the(st, 'call'), the(st, 'data')
        vs = events(st, 'value')
        if not e or not d or len(vs) != 1:
            return [('the call is built', False)]
        j = z3.Int('j!p')
        n = I(old.size())
        return [('method name stays', e[1] == d[1]), ('one parameter more', I(e[2].size()) == n + 1),
                ('it is the value', e[2].get(n) == E.val_to_leaf(st, vs[0][1], 'ptr:')),
                ('earlier parameters stay in order', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), e[2].get(j) == old.get(j))))]
    return [Case(True, any_frame=True, post=post, label='one more parameter')]


# ---- responses
def setup_answer(c):
    k, n, t = c.variant.split()[:3]
    p, q = parser(c), tagstr(c)
    for x in ANSWER[int(k)]:            # the other elements that may follow have variants of their own
        if x != t:
            c.st.assume(c.str(q) != sbytes(x.encode()))
    return [p, int(k), int(n), q]


def cases_answer(c, a):
    k, n, t = c.variant.split()[:3]
    s = c.str(a[3])
    ok = [s == sbytes(x.encode()) for x in ANSWER[int(k)]]
    bad = z3.Not(z3.Or(*ok)) if ok else z3.BoolVal(True)
    out = [viol(bad, 'any other element')]
    if t != '-':
        out.append(Case(s == sbytes(t.encode()), any_frame=True, label='<%s> is expected here' % t))
    return out


def cases_aget(c, a):
    k = num(c)
    if k != 4:
        return [viol(True, 'nothing was answered')]

    def post(E, st, o):
        e, v = the(st, 'ok'), the(st, 'value')
        return [('a plain response with this value', bool(e and v) and same_val(E, st, e[1], v[1]))]
    return [Case(True, any_frame=True, post=post, label='response')]


def same_val(E, st, x, y):
    return E.val_to_leaf(st, x, 'ptr:') == E.val_to_leaf(st, y, 'ptr:')


# ---- values
TAGS = ['string', 'int', 'i4', 'i8', 'boolean', 'double', 'base64', 'dateTime.iso8601', 'struct', 'array', 'nil']
SCALARS = [t for t in TAGS if t not in ('struct', 'array')]


def setup_value(c):
    t = c.variant
    return [parser(c), lit(c, None if t == 'first' else t), tagstr(c)]


def cases_value(c, a):
    s = c.str(a[2])
    if c.variant != 'first':
        return [viol(True, 'an element inside <%s>' % c.variant)]
    ok = z3.Or(*[s == sbytes(t.encode()) for t in TAGS])
    return [Case(ok, any_frame=True, label='a kind of value'), viol(z3.Not(ok), 'any other element')]


MEMBER = {0: 'member', 1: 'name', 2: 'value', 3: None}
ELEMENT = {0: 'data', 1: 'value', 2: 'value'}


def setup_member(c):
    k, end = num(c), 'end' in c.variant
    p = parser(c)
    t = tagstr(c)
    c.st.ghost[STEPS] = (('vh::member(iqxmlrpc::BuilderBase&)', []), ('vh::member_step(iqxmlrpc::BuilderBase&, int, std::string const&, bool)', [k, t, z3.BoolVal(end)]))
    c.st.ghost['tag'] = t
    return [p]


def cases_member(c, a):
    k = num(c)
    if 'end' in c.variant:
        return [viol(True, 'a member without name or value') if k < 3 else Case(True, any_frame=True, label='end of the member')]
    s = c.str(c.st.ghost['tag'])
    ok = s == sbytes(MEMBER[k].encode()) if MEMBER[k] else z3.BoolVal(False)
    return [Case(ok, any_frame=True, label='<%s> is expected here' % MEMBER[k]), viol(z3.Not(ok), 'any other element')]


def setup_element(c):
    p = parser(c)
    t = tagstr(c)
    c.st.ghost[STEPS] = (('vh::element(iqxmlrpc::BuilderBase&)', []), ('vh::element_step(iqxmlrpc::BuilderBase&, int, std::string const&)', [num(c), t]))
    c.st.ghost['tag'] = t
    return [p]


def cases_element(c, a):
    s = c.str(c.st.ghost['tag'])
    ok = s == sbytes(ELEMENT[num(c)].encode())
    return [Case(ok, any_frame=True, label='<%s> is expected here' % ELEMENT[num(c)]), viol(z3.Not(ok), 'any other element')]


def setup_empty(c):
    t, d = c.variant.split(', ')
    i = c.E.fresh_of(c.st, ('i', 32), 'default')
    j = c.E.fresh_of(c.st, ('i', 64), 'default64')
    c.st.ghost['dflt'] = (i, j)
    return [parser(c), lit(c, None if t == 'value' else t), z3.BoolVal(d == 'default'), i, j]


def cases_empty(c, a):
    t, d = c.variant.split(', ')
    i, j = c.st.ghost['dflt']
    want = {'value': ('string', EMPTY), 'string': ('string', EMPTY), 'base64': ('binary', EMPTY), 'nil': ('nil',)}
    if d == 'default':
        want.update({'int': ('int', i), 'i4': ('int', i), 'i8': ('int64', j)})
    if t not in want:
        return [viol(True, 'no text')]

    def post(E, st, o):
        e = the(st, 'got')
        w = want[t]
        return [('a value of the kind', bool(e and e[1] == w[0]))] + ([('which is empty or the default', val_eq(e[2], w[1]))] if e and e[1] == w[0] and len(w) > 1 else [])
    return [Case(True, any_frame=True, post=post, label='no text')]


def setup_niltext(c):
    return [parser(c), lit(c, 'nil'), tagstr(c, 'text')]


def cases_niltext(c, a):
    return [viol(True, 'text inside <nil>')]


FC, FS = sbytes(b'faultCode'), sbytes(b'faultString')


def setup_fault(c):
    kind, _, tag = c.variant.partition(', then ')
    p = parser(c)
    c.st.ghost['values'] = (payload(c, kind),)
    c.st.ghost['fault'] = c.st.ghost['values'][0]
    return [p, lit(c, tag or None)]


def cases_fault(c, a):
    kind, _, tag = c.variant.partition(', then ')
    if kind != 'struct':
        return [viol(True, 'a fault that is no struct')]
    m = c.st.cell(c.st.ghost['fault'].add(c.prog.off(X + 'Struct', 'values')))
    n = containers.enum(c.st, m).n
    two = z3.And(n == 2, m.has(FC), m.has(FS))
    kinds = z3.And(ISINT(m.get(FC)), ISSTR(m.get(FS)))

    def post(E, st, o):
        e = the(st, 'fault')
        if not e:
            return [('a fault', False)]
        return [('code of the fault', I(e[1]) == INTV(m.get(FC))), ('string of the fault', e[2] == STRV(m.get(FS)))]
    out = [viol(z3.Not(two), 'other members'), Case(z3.And(two, z3.Not(kinds)), throw=X + 'Exception', any_frame=True, label='members of other kinds')]
    if tag:
        return out + [viol(z3.And(two, kinds), 'an element after the fault')]
    return out + [Case(z3.And(two, kinds), any_frame=True, post=post, label='fault')]


# ---- documents as a whole
def setup_doc(fn):
    def setup(c):
        parser(c)
        c.st.ghost[STEPS] = ((fn, [num(c)]),)
        return [tagstr(c, 'document')]
    return setup


def cases_doc(cases):
    def f(c, a):
        doc = c.str(a[0])
        out = []
        for k in cases(c, a):
            def post(E, st, o, old=k.post):
                d, p = the(st, 'document'), the(st, 'played')
                return [('the document is read once by one builder', bool(d and p)), ('it is this document', bool(d) and d[1] == doc),
                        ('the builder reads it', bool(d and p) and d[2] == p[1])] + (old(E, st, o) if old else [])
            k.post = post
            out.append(k)
        return out
    return f


NAME = re.compile(rb'[A-Za-z_][A-Za-z0-9_.-]*$')


def replay(name, v):
    """documents with the element of the counterexample at every place; the driver's own rules say what is expected"""
    t = bytes.fromhex(v.get('tag') or '')
    if not NAME.match(t):
        return []
    t = t.decode()
    out = []

    def doc(kind, text, verdict):
        out.append('%s %s %s' % (kind, text.encode().hex(), verdict))
    el = '<%s></%s>' % (t, t)
    call, ans = '<methodCall>', '<methodResponse>'
    if t != 'methodCall':
        doc('call', el, 'violation')
    if t != 'methodResponse':
        doc('answer', el, 'violation')
    if t != 'methodName':
        doc('call', call + el + '</methodCall>', 'violation')
    if t not in ('params', 'fault'):
        doc('answer', ans + el + '</methodResponse>', 'violation')
    if t != 'params':
        doc('call', call + '<methodName>m</methodName>' + el + '</methodCall>', 'violation')
    if t != 'param':
        doc('call', call + '<methodName>m</methodName><params>' + el + '</params></methodCall>', 'violation')
        doc('answer', ans + '<params>' + el + '</params></methodResponse>', 'violation')
        doc('call', call + '<methodName>m</methodName><params><param><value><i4>1</i4></value></param>' + el + '</params></methodCall>', 'violation')
    if t != 'value':
        doc('call', call + '<methodName>m</methodName><params><param>' + el + '</param></params></methodCall>', 'violation')
        doc('answer', ans + '<params><param>' + el + '</param></params></methodResponse>', 'violation')
        doc('answer', ans + '<fault>' + el + '</fault></methodResponse>', 'violation')
    doc('answer', ans + '<params><param><value><i4>1</i4></value>' + el + '</param></params></methodResponse>', 'violation')
    ins = []
    if t not in TAGS:
        ins.append(el)
    ins += ['<%s>%s</%s>' % (k, el, k) for k in SCALARS]
    if t != 'data':
        ins.append('<array>' + el + '</array>')
    if t != 'value':
        ins += ['<array><data>' + el + '</data></array>', '<array><data><value><i4>1</i4></value>' + el + '</data></array>', '<struct><member><name>n</name>' + el + '</member></struct>']
    if t != 'member':
        ins.append('<struct>' + el + '</struct>')
    if t != 'name':
        ins.append('<struct><member>' + el + '</member></struct>')
    ins.append('<struct><member><name>n</name><value><i4>1</i4></value>' + el + '</member></struct>')
    for i in ins:
        doc('call', call + '<methodName>m</methodName><params><param><value>' + i + '</value></param></params></methodCall>', 'violation')
        doc('answer', ans + '<params><param><value>' + i + '</value></param></params></methodResponse>', 'violation')
    return out


NOTE = ('Contracts on the builders of calls, responses, values, structs and arrays (which element may follow, for every tag and in every state of the document), on the text and end of every kind, on what makes a fault, '
        'on parse_request and parse_response, and on the parser over the libxml2 reader (what a builder is shown, for any document, any number of nodes, any builder). The battery changes valid documents and compares the verdict with a grammar of its own.')
# THEOREM: a call is returned only after methodCall, methodName and then either nothing or params and param/value pairs were opened in this order; its name is the text of methodName, its parameters the values in order
# THEOREM: a response is returned only after methodResponse, params, param, value or after methodResponse, fault, value with a struct of exactly faultCode and faultString; every other element raises the violation
# THEOREM: (parser) every start tag, end tag and text of the document is shown to the builder in order, once, until it asks to stop or the element it was started in ends; the error of the reader is the parse error, whatever comes first
# THEOREM: by induction over the nesting of values the builders see the whole of the outermost element unless an error is raised
ASSUME = ['libxml2: the reader reports a text as an error exactly when it is not well-formed up to the point read, and otherwise its nodes in document order (an element with its name and whether it is empty, text, white space, end of element)',
          'values are abstracted by identity in the builders: copying keeps contents (C04) and typed access checks the kind (C03)', 'text of numbers, dates and base64 is judged by lexical_cast, C02 and C01', 'memory allocation does not fail']


def contracts(P):
    cs = []
    cs.append(Contract('vh::call_read(std::string const&)', setup_doc('vh::call_script(iqxmlrpc::BuilderBase&, int)'), cases_doc(cases_get), level='property', use=False, engine=dengine, variants=['%d elements read' % k for k in range(6)]))
    cs.append(Contract('vh::answer_read(std::string const&)', setup_doc('vh::answer_script(iqxmlrpc::BuilderBase&, int)'), cases_doc(cases_aget), level='property', use=False, engine=dengine, variants=['%d elements read' % k for k in range(6)]))
    cs.append(Contract('vh::read_next(iqxmlrpc::Parser&, bool, bool)', setup_next, cases_read, level='property', use=False, engine=rengine, cands=[step_cands]))
    cs.append(Contract('vh::read_first(std::string const&, bool, bool)', setup_read, cases_read, level='property', use=False, engine=rengine, cands=[step_cands]))
    cs.append(Contract('vh::answer_fault(iqxmlrpc::Parser&, char const*)', setup_fault, cases_fault, level='property', use=False, variants=sorted(KINDS) + ['struct, then value', 'struct, then params', 'struct, then fault']))
    cs.append(Contract('vh::members(iqxmlrpc::Parser&)', setup_member, cases_member, level='property', use=False,
                       variants=['%d parts of a member read%s' % (k, e) for k in MEMBER for e in ('', ', end')]))
    cs.append(Contract('vh::elements(iqxmlrpc::Parser&)', setup_element, cases_element, level='property', use=False, variants=['%d parts of an array read' % k for k in ELEMENT]))
    cs.append(Contract('vh::value_empty(iqxmlrpc::Parser&, char const*, bool, int, long)', setup_empty, cases_empty, level='property', use=False,
                       variants=['%s, %s' % (t, d) for t in ['value'] + SCALARS for d in ('no default', 'default')]))
    cs.append(Contract('vh::value_text(iqxmlrpc::Parser&, char const*, std::string const&)', setup_niltext, cases_niltext, level='property', use=False))
    cs.append(Contract('vh::call_get(iqxmlrpc::Parser&, int)', setup_get, cases_get, level='property', use=False, variants=['%d elements read' % k for k in range(6)]))
    cs.append(Contract('vh::call_more(iqxmlrpc::RequestBuilder&)', setup_more, cases_more, level='property', use=False))
    cs.append(Contract('vh::answer_step(iqxmlrpc::Parser&, int, int, std::string const&)', setup_answer, cases_answer, level='property', use=False,
                       variants=['%d %d %s' % (k, n, t) for k in ANSWER if k != 6 for t, n in (ANSWER[k] if k not in (4, 5) else {'-': 0}).items()]))
    cs.append(Contract('vh::answer_get(iqxmlrpc::Parser&, int)', setup_get, cases_aget, level='property', use=False, variants=['%d elements read' % k for k in range(6)]))
    cs.append(Contract('vh::value_step(iqxmlrpc::Parser&, char const*, std::string const&)', setup_value, cases_value, level='property', use=False, variants=['first'] + SCALARS))
    cs.append(Contract('vh::call_step(iqxmlrpc::Parser&, int, int, std::string const&)', setup_call, cases_call, level='property', use=False, variants=['%d elements read' % k for k in CALL]))
    return cs

"""The libxml2 text reader as an abstract sequence of nodes, and what the parser owes its builder.

Ghost state of one run over a document:
    node, empty   type of the current node, whether it is an empty element       rname, rvalue   its name and value
    owed          how many calls the builder is still to get for the current node (start and end of an empty element: two)
    rd            1 while the document goes on, 0 at its end
    open          how many elements of the document are open (the reader reports its end only when there are none)
    dep, stop     depth of the builder, whether it asked to stop"""
from .xmlm import *
from . import xmlm
from .models import _out

EL, TXT, CDATA, WS, SWS, END = 1, 3, 4, 13, 14, 15
G = ('open', 'node', 'empty', 'owed', 'rd', 'dep', 'stop', 'text', 'flat')
IMPL = PARSER + '::Impl'
NAMEF, VALF = z3.Function('node name', INT, STR), z3.Function('node value', INT, STR)


def g(st, k):
    return I(st.ghost[k])


def m_new(E, st, a, rt, mod, dem):
    E.prove(st, z3.And(I(a[1]) == slen(st.ghost['doc']), models.bytes_at(E, st, a[0], a[1]) == st.ghost['doc']), 'the reader gets the whole document', 'post')
    return st.alloc(8, 'heap', 'reader')


def m_read(E, st, a, rt, mod, dem):
    E.prove(st, g(st, 'owed') == 0, 'everything read so far was passed on', 'post')
    E.prove(st, g(st, 'stop') == 0, 'a builder that stopped gets nothing more', 'post')
    E.prove(st, g(st, 'rd') == 1, 'nothing is read after the end of the document', 'post')
    bad, end = st.fork(), st.fork()
    bad.ghost['rd'] = z3.IntVal(2)
    end.ghost['rd'] = z3.IntVal(0)
    end.assume(g(end, 'open') == 0)
    outs = [_out(bad, 'ret', 2**32 - 1)] + ([_out(end, 'ret', 0)] if E.feasible(end) else [])
    n, e, i = fint('node'), fint('empty'), fint('pos')
    st.assume(n >= 0, n <= 17, e >= 0, e <= 1, z3.Implies(n != EL, e == 0))
    st.assume(slen(NAMEF(i)) < MAXLEN, slen(VALF(i)) < MAXLEN)
    st.ghost['node'], st.ghost['empty'], st.ghost['pos'] = n, e, i
    st.assume(z3.Implies(n == END, g(st, 'open') > 0), g(st, 'open') < 1 << 30)
    st.ghost['open'] = z3.simplify(g(st, 'open') + z3.If(z3.And(n == EL, e == 0), z3.IntVal(1), z3.If(n == END, z3.IntVal(-1), z3.IntVal(0))))
    st.ghost['rd'] = z3.IntVal(1)
    st.ghost['owed'] = z3.If(n == EL, 1 + e, z3.If(n == END, z3.IntVal(1), z3.If(z3.Or(n == TXT, n == SWS), g(st, 'text'), z3.IntVal(0))))
    return outs + [_out(st, 'ret', 1)]


def m_type(E, st, a, rt, mod, dem):
    return st.ghost['node']


def m_isempty(E, st, a, rt, mod, dem):
    return st.ghost['empty']


def cstring(st, s):
    r = fint('cstr')
    st.assume(r > 0, z3.Function('cstr_at', INT, STR)(r) == s)
    return SymPtr(r, 'char')


def m_name(E, st, a, rt, mod, dem):
    return cstring(st, NAMEF(g(st, 'pos')))


def hastext(n):
    return z3.Or(n == TXT, n == CDATA, n == WS, n == SWS)


def m_val(E, st, a, rt, mod, dem):
    """elements and their ends have no value"""
    n = g(st, 'node')
    outs = []
    for c, v in ((z3.Or(n == EL, n == END), None), (z3.Not(z3.Or(n == EL, n == END)), 1)):
        if E.feasible(st, c):
            s = st.fork()
            s.assume(c)
            outs.append(_out(s, 'ret', NULL if v is None else cstring(s, VALF(g(s, 'pos')))))
    return outs


def m_lasterr(E, st, a, rt, mod, dem):
    s = st.fork()
    p = s.alloc(88, 'heap', 'xml error')
    t = fstr('message')
    s.assume(slen(t) < MAXLEN)
    s.put(p.add(8), 8, cstring(s, t))
    return [_out(st, 'ret', NULL), _out(s, 'ret', p)]


def m_path(E, st, a, rt, mod, dem):
    t = fstr('path')
    st.assume(slen(t) < MAXLEN)
    return cstring(st, t)


LOCALF = z3.Function('local name', STR, STR)


def local(st, s):
    """the part after the first colon"""
    t = LOCALF(s)
    i = z3.IndexOf(s, sbytes(b':'), 0)
    st.assume(t == z3.If(i >= 0, sub(s, i + 1, slen(s) - i - 1), s))
    return t


def is_end(st):
    return z3.Or(g(st, 'node') == END, z3.And(g(st, 'node') == EL, g(st, 'empty') == 1))


def p_element(E, st, a, rt, mod, dem):
    E.prove(st, z3.And(g(st, 'node') == EL, g(st, 'owed') == 1 + g(st, 'empty')), 'start of an element is passed on once', 'post')
    E.prove(st, models.S(E, st, a[0]) == local(st, NAMEF(g(st, 'pos'))), 'its name without prefix', 'post')
    st.ghost['owed'] = z3.simplify(g(st, 'owed') - 1)
    st.ghost['dep'] = z3.simplify(g(st, 'dep') + 1)
    st.assume(g(st, 'dep') < 1 << 30)
    depth(E, st, a[1])
    outs = []
    for w in range(4):
        s = st.fork()
        s.ghost['asked'] = z3.IntVal(w & 1)
        s.ghost['ask_stop'] = z3.IntVal(w >> 1)
        if w >> 1 and not w & 1:
            s.ghost['stop'] = z3.IntVal(1)
        outs.append(_out(s, 'ret', w))
    return outs


def depth(E, st, d):
    E.prove(st, I(d) == g(st, 'dep'), 'depth of the builder', 'post')


def p_data(E, st, a, rt, mod, dem):
    n, t = g(st, 'node'), models.S(E, st, a[0])
    E.prove(st, z3.If(is_end(st), z3.And(t == EMPTY, g(st, 'owed') == 1), z3.And(hastext(n), t == VALF(g(st, 'pos')))), 'the text of the element, or none when the element is empty', 'post')
    st.ghost['owed'] = z3.simplify(z3.If(is_end(st), g(st, 'owed'), z3.IntVal(0)))
    st.ghost['stop'] = st.ghost['ask_stop']
    st.ghost['asked'] = z3.IntVal(0)


def p_end(E, st, a, rt, mod, dem):
    E.prove(st, z3.And(is_end(st), g(st, 'owed') == 1), 'end of an element is passed on once', 'post')
    E.prove(st, models.S(E, st, a[0]) == local(st, NAMEF(g(st, 'pos'))), 'its name without prefix', 'post')
    E.prove(st, g(st, 'dep') > 0, 'only ends of elements the builder began', 'post')
    st.ghost['owed'] = z3.IntVal(0)
    st.ghost['dep'] = z3.simplify(g(st, 'dep') - 1)
    depth(E, st, a[1])
    s = st.fork()
    s.ghost['stop'] = z3.IntVal(1)
    st.ghost['stop'] = z3.simplify(z3.If(g(st, 'dep') == 0, z3.IntVal(1), z3.IntVal(0)))
    return [_out(s, 'ret', True), _out(st, 'ret', False)]


def p_text(E, st, a, rt, mod, dem):
    n = g(st, 'node')
    E.prove(st, z3.And(z3.Or(z3.And(n == TXT, g(st, 'owed') == 1), n == CDATA), models.S(E, st, a[0]) == VALF(g(st, 'pos'))), 'text is passed on once and unchanged', 'post')
    st.ghost['owed'] = z3.IntVal(0)
    s = st.fork()
    s.ghost['stop'] = z3.IntVal(1)
    return [_out(s, 'ret', True), _out(st, 'ret', False)]


def p_space(E, st, a, rt, mod, dem):
    n = g(st, 'node')
    E.prove(st, z3.And(z3.Or(z3.And(n == SWS, g(st, 'owed') == 1), n == WS), models.S(E, st, a[0]) == VALF(g(st, 'pos'))), 'white space is passed on once and unchanged', 'post')
    st.ghost['owed'] = z3.IntVal(0)


def p_begin(E, st, a, rt, mod, dem):
    st.ghost['text'] = z3.If(B(a[0]), z3.IntVal(1), z3.IntVal(0))
    st.ghost['dep'] = z3.If(B(a[1]), z3.IntVal(1), z3.IntVal(0))
    st.ghost['stop'] = z3.IntVal(0)
    # flags the constructor left alone hold anything
    im = impl(E, st, a[2])
    for f in FLAGS if im is not None else ():
        p = flag(E, im, f)
        if st.cell(p) is None:
            st.put(p, 1, fbool(f))


def p_done(E, st, a, rt, mod, dem):
    E.prove(st, z3.Or(g(st, 'stop') == 1, g(st, 'rd') == 0, z3.And(is_end(st), g(st, 'owed') == 1, g(st, 'dep') == 0)), 'stops only when asked to, at the end of the document or of the enclosing element', 'post')
    E.prove(st, z3.Implies(g(st, 'stop') == 1, B(a[0])), 'the builder knows it is done', 'post')
    depth(E, st, a[1])
    im = impl(E, st, a[2])
    if im is not None:
        # how the parser remembers what is due is its own business: a failure here leaves the next builder unproved, it refutes nothing
        old = st.taint
        st.taint = list(old) + ['state of the parser between builders']
        for nm, t in between(E, st, im):
            E.prove(st, z3.Implies(g(st, 'rd') == 1, t), 'between builders: ' + nm, 'post')
        st.taint = old


def impl(E, st, p):
    c = st.cell(p)
    try:
        for f in FLAGS:
            flag(E, c, f)
    except (Unsupported, KeyError):
        return None
    return c if isinstance(c, Ptr) and isinstance(c.base, int) else None


def impl_of(E, st):
    """the parser's state, wherever it is"""
    n = E.prog.size(IMPL)
    for bid, b in st.blocks.items():
        if b.size == n and not isinstance(b.size, bool):
            try:
                if all(st.cell(flag(E, Ptr(bid, 0), f)) is not None or f != 'pushed_back' for f in FLAGS):
                    return Ptr(bid, 0)
            except (Unsupported, KeyError):
                return None
    return None


FLAGS = ('curr.done', 'curr.element_begin', 'curr.element_end', 'curr.is_empty', 'curr.is_text', 'curr.is_space', 'pushed_back')


def flag(E, im, f):
    o = E.prog.off(IMPL, f.split('.')[0])
    if '.' in f:
        o += E.prog.off(IMPL + '::ParseStep', f.split('.')[1])
    return im.add(o)


def known(v, f):
    v = B(v)
    return fbool(f) if v is None else z3.Extract(0, 0, v) == 1 if z3.is_bv(v) else v


def between(E, st, im):
    """what the parser keeps between two builders (rd = 1)"""
    done, b, e, m, tx, sp, pb = [known(st.cell(flag(E, im, f)), f) for f in FLAGS]
    n, o = g(st, 'node'), g(st, 'owed')
    return [('the document goes on', z3.Not(done)), ('an end given back is passed on again', z3.Implies(pb, z3.And(e, z3.Not(b), z3.Not(m), is_end(st), o == 1))),
            ('the end of an empty element is due', z3.Implies(z3.And(z3.Not(pb), m), z3.And(n == EL, g(st, 'empty') == 1, o == 1, b))),
            ('nothing else is due', z3.Implies(z3.And(z3.Not(pb), z3.Not(m)), o == 0)), ('kind of text', z3.Implies(n != 0, z3.And(tx == (n == TXT), sp == (n == SWS)))),
            ('state', z3.And(n >= 0, n <= 17, g(st, 'empty') >= 0, g(st, 'empty') <= 1, z3.Implies(n != EL, g(st, 'empty') == 0), g(st, 'open') >= 0, z3.Implies(z3.And(n == EL, g(st, 'empty') == 0), g(st, 'open') > 0)))]


def setup_next(c):
    a = setup_read(c)
    p = c.st.alloc(c.prog.size(PARSER), 'heap', 'parser', PARSER)
    c.run(PARSER + '::Parser(std::string const&)', [p, a[0]])
    st = c.st
    im = impl(c.E, st, p)
    if im is None:
        raise Unsupported('state of the parser')
    for f in FLAGS:
        st.put(flag(c.E, im, f), 1, fbool(f))
    for k in ('node', 'empty', 'owed', 'open', 'pos'):
        st.ghost[k] = fint(k)
    st.assume(slen(NAMEF(st.ghost['pos'])) < MAXLEN, slen(VALF(st.ghost['pos'])) < MAXLEN)
    for nm, t in between(c.E, st, im):
        st.assume(t)
    return [p] + a[1:]


def rengine(E):
    for k, v in (('xmlReaderForMemory', m_new), ('xmlTextReaderRead', m_read), ('xmlTextReaderNodeType', m_type), ('xmlTextReaderIsEmptyElement', m_isempty), ('xmlTextReaderName', m_name),
                 ('xmlTextReaderValue', m_val), ('xmlGetLastError', m_lasterr), ('xmlGetNodePath', m_path), ('vh_xmlfree', nothing), ('xmlFreeTextReader', nothing),
                 ('vh_element', p_element), ('vh_data', p_data), ('vh_end', p_end), ('vh_text', p_text), ('vh_space', p_space), ('vh_begin', p_begin), ('vh_done', p_done)):
        E.mexact[k] = v
    E.mexact['xmlTextReaderSetParserProp'] = lambda E, st, a, rt, mod, dem: 0
    E.mexact['xmlTextReaderCurrentNode'] = lambda E, st, a, rt, mod, dem: NULL
    E._mcache = {}


def setup_read(c):
    st = c.st
    for k in G:
        st.ghost[k] = z3.IntVal(0)
    st.ghost['rd'] = z3.IntVal(1)
    st.ghost['pos'] = z3.IntVal(0)
    st.ghost['asked'] = st.ghost['ask_stop'] = z3.IntVal(0)
    d = c.newstr(name='doc')
    st.assume(slen(c.str(d)) < 1 << 31)
    st.ghost['doc'] = c.str(d)
    mods = [m for m in c.prog.mods if 'xmlFree' in m.globals]
    st.put(c.E.gptr(st, mods[0], 'xmlFree'), 8, FnPtr('vh_xmlfree'))
    return [d, fbool('text'), fbool('flat')]


def cases_read(c, a):
    def post(E, st, o):
        if o.kind == 'ret':
            return [('not after an error of the reader', g(st, 'rd') != 2)]
        cls = E.prog.ti_cls(o.val.ti)
        if cls == PERR:
            check_code(E, st, o.val, PERR_CODE, 'not well-formed')
            return [('the reader found an error', g(st, 'rd') == 2)]
        if cls == VIOL:
            check_code(E, st, o.val, VIOL_CODE, 'no text')
            n = g(st, 'node')
            return [('text was asked for and something else is there', z3.And(g(st, 'asked') == 1, g(st, 'rd') == 1, n != TXT, n != SWS, n != END))]
        return [('no other error', False)]
    return [Case(True, anyway=True, any_frame=True, post=post, label='reading')]


def step_cands(L):
    """flags of the parser against the ghost state"""
    def f(st):
        n, e, o, r = g(st, 'node'), g(st, 'empty'), g(st, 'owed'), g(st, 'rd')
        return [z3.And(n == EL, o == 1 + e), z3.And(is_end(st), o == 1), z3.And(n == EL, o == 2), n == TXT, n == SWS, r != 1, r == 0, z3.BoolVal(False), z3.BoolVal(True)]
    out = []
    cells = [(loc.name, loc) for k, (how, loc, v, v1) in L.mod.items() if how != 'gone' and loc.kind == 'cell' and loc.size == 1]
    for nm, loc in cells:
        for i in range(9):
            out.append(('%s is condition %d' % (nm, i), lambda st, loc=loc, i=i: z3.Or(g(st, 'rd') != 1, B(loc.get(st)) == f(st)[i]) if i < 5 else B(loc.get(st)) == f(st)[i]))
    for x in range(len(cells)):
        for y in range(x):
            out.append(('%s = %s' % (cells[x][0], cells[y][0]), lambda st, p=cells[x][1], q=cells[y][1]: B(p.get(st)) == B(q.get(st))))
    if 'node' in L.ghosts:
        for nm, h in (('node known', lambda st: z3.And(g(st, 'node') >= 0, g(st, 'node') <= 17, g(st, 'empty') >= 0, g(st, 'empty') <= 1, z3.Implies(g(st, 'node') != EL, g(st, 'empty') == 0))),
                      ('owed known', lambda st: z3.And(g(st, 'owed') >= 0, g(st, 'owed') <= z3.If(g(st, 'node') == EL, 1 + g(st, 'empty'), z3.IntVal(1)))),
                      ('not stopped', lambda st: g(st, 'stop') == 0), ('open', lambda st: z3.And(g(st, 'open') >= 0, z3.Implies(z3.And(g(st, 'rd') == 1, g(st, 'node') == EL, g(st, 'empty') == 0), g(st, 'open') > 0))), ('depth', lambda st: g(st, 'dep') >= 0),
                      ('text due', lambda st: z3.Implies(z3.And(g(st, 'rd') == 1, z3.Or(g(st, 'node') == TXT, g(st, 'node') == SWS)), g(st, 'owed') == g(st, 'text'))),
                      ('nothing else due', lambda st: z3.Implies(z3.Not(z3.Or(g(st, 'node') == EL, g(st, 'node') == END, g(st, 'node') == TXT, g(st, 'node') == SWS)), g(st, 'owed') == 0)),
                      ('owed', lambda st: z3.Implies(z3.And(g(st, 'rd') == 1, z3.Or(g(st, 'node') == EL, g(st, 'node') == END)), g(st, 'owed') > 0)),
                      ('nothing asked', lambda st: g(st, 'asked') == 0), ('no error', lambda st: g(st, 'rd') < 2), ('rd', lambda st: g(st, 'rd') >= 0), ('owed at end', lambda st: z3.Implies(g(st, 'rd') == 0, g(st, 'owed') == 0))):
            out.append((nm, h))
    im = impl_of(L.E, L.entry)
    if im is not None:
        for i, (nm, t) in enumerate(between(L.E, L.entry, im)):
            out.append(('between: ' + nm, lambda st, i=i: z3.Or(g(st, 'rd') != 1, between(L.E, st, im)[i][1])))
    for nm, get, entry in L.ints:
        out.append(('%s is the depth' % nm, lambda st, get=get: get(st) == g(st, 'dep')))
    return out

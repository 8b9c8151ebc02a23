"""Assumed contracts of the standard containers: vector / deque-like sequences (SeqV) and map / set (MapV)."""
import re
import z3
from .core import *
from .models import M, R, _out, throw, S, setS


def targs(t):
    """template arguments of 'x<a, b<c, d>, e>' (first template-id in t)"""
    i = t.index('<')
    d, cur, out = 0, '', []
    for ch in t[i:]:
        if ch == '<':
            d += 1
            if d == 1:
                continue
        elif ch == '>':
            d -= 1
            if d == 0:
                out.append(cur.strip())
                break
        if ch == ',' and d == 1:
            out.append(cur.strip())
            cur = ''
            continue
        cur += ch
    return out


INTS = {'int': (4, 'int32'), 'unsigned int': (4, 'int32'), 'unsigned short': (2, 'int16'), 'short': (2, 'int16'), 'long': (8, 'int64'), 'unsigned long': (8, 'int64'), 'bool': (1, 'bool'),
        'char': (1, 'bv8'), 'unsigned char': (1, 'bv8')}
CUSTOM = {}       # element type -> (elsize, schema), set by property modules


def schema_of(t):
    t = t.strip()
    if t.endswith(' const'):
        t = t[:-6]
    if t in CUSTOM:
        return CUSTOM[t]
    if t == 'std::string':
        return 32, ((0, 32, 'str'),)
    if t.endswith('*'):
        return 8, ((0, 8, 'ptr:' + re.sub(r' const$', '', t[:-1].strip())),)
    if t in INTS:
        n, k = INTS[t]
        return n, ((0, n, k),)
    m = re.match(r'^(?:boost|std)::shared_ptr<(.*)>$', t)
    if m:
        return 16, ((0, 8, 'ptr:' + m.group(1)),)
    raise Unsupported('element type ' + t)


def leaf_sort(k):
    if k == 'str':
        return STR
    if k == 'bool':
        return BOOL
    if k == 'f64':
        return F64
    if k.startswith('bv'):
        return z3.BitVecSort(int(k[2:]))
    return INT


def empty_seq(t):
    n, sc = schema_of(t)
    return SeqV(sc, n, tuple(fresh(z3.ArraySort(INT, leaf_sort(k)), 'arr') for o, sz, k in sc), 0, 0)


def fresh_seq(st, t, name='seq'):
    n, sc = schema_of(t)
    ln = fint(name + '_n')
    st.assume(ln >= 0, ln < MAXLEN)
    return SeqV(sc, n, tuple(fresh(z3.ArraySort(INT, leaf_sort(k)), name) for o, sz, k in sc), 0, ln)


def kkind(t):
    t = re.sub(r' const$', '', t)
    if t == 'std::string':
        return 'str'
    if t in INTS:
        return INTS[t][1]
    if t.endswith('*'):
        return 'int'
    raise Unsupported('key type ' + t)


def map_parts(t):
    a = targs(t)
    if re.search(r'\bset<', t.split('<')[0] + '<'):
        return kkind(a[0]), ()
    n, sc = schema_of(a[1])
    return kkind(a[0]), sc


def empty_map(t):
    k, sc = map_parts(t)
    ks = STR if k == 'str' else INT
    return MapV(k, sc, z3.K(ks, z3.BoolVal(False)), tuple(z3.Const('mv0_%s_%s_%d' % (k, x, o), z3.ArraySort(ks, leaf_sort(x))) for o, sz, x in sc))


def fresh_map(t, name='map'):
    k, sc = map_parts(t)
    ks = STR if k == 'str' else INT
    return MapV(k, sc, fresh(z3.ArraySort(ks, BOOL), name), tuple(fresh(z3.ArraySort(ks, leaf_sort(x)), name + 'v') for o, sz, x in sc))


def leaves_at(E, st, p, schema):
    """leaf terms of the element object stored at p"""
    out = []
    for o, sz, k in schema:
        q = p.add(o) if isinstance(p, (Ptr, SymPtr)) else p
        if k == 'str':
            out.append(S(E, st, q))
            continue
        if k.startswith('opq:'):
            out.append(E.aget(st, q).t)
            continue
        t = ('ptr',) if k.startswith('ptr:') else ('i', 8 * sz)
        v = E.load(st, E.prog.mods[0], q, PTRT if k.startswith('ptr:') else t)
        out.append(E.val_to_leaf(st, v, k))
    return out


from .irparse import PTR as PTRT

VEC = r'std::(?:vector|deque|list)<'


def elt(dem):
    i = re.search(VEC, dem).start()
    return targs(dem[i:])[0]


def seq(E, st, p):
    v = E.aget(st, p, None, 'vector')
    if not isinstance(v, SeqV):
        raise Unsupported('not a sequence: %r' % (v,))
    return v


SZ = {'vector': 24, 'deque': 80, 'list': 24, 'map': 48, 'multimap': 48, 'set': 48}


def csize(dem):
    return SZ[re.search(r'std::(vector|deque|list|map|multimap|set)<', dem).group(1)]


@R(r'^std::vector<.*>::vector\(\)$', r'^std::deque<.*>::deque\(\)$', r'^std::list<.*>::list\(\)$')
def v_ctor(E, st, a, rt, mod, dem):
    if elt(dem) == 'char':
        st.put(a[0], 24, VecB(EMPTY))
        return None
    st.put(a[0], csize(dem), empty_seq(elt(dem)))


@R(r'^std::(vector|deque)<.*>::~(vector|deque)\(\)$', r'^std::list<.*>::~list\(\)$')
def v_dtor(E, st, a, rt, mod, dem):
    E.deref_check(st, a[0], 'vector')
    return None


@R(r'^std::(vector|deque|list)<(.*)>::(vector|deque|list)\(std::(vector|deque|list)<\2> const&\)$')
def v_copy(E, st, a, rt, mod, dem):
    v = E.aget(st, a[1])
    st.put(a[0], csize(dem), v)


@R(r'^std::(vector|deque|list)<(.*)>::operator=\(std::(vector|deque|list)<\2>( const&|&&)\)$')
def v_assign(E, st, a, rt, mod, dem):
    v = E.aget(st, a[1])
    E.aset(st, a[0], csize(dem), v)
    return a[0]


@R(r'^std::vector<.*>::push_back\(', r'^std::deque<.*>::push_back\(', r'^std::list<.*>::push_back\(',
   r'^(void|.*&) std::(vector|deque)<.*>::emplace_back<[^(]*>\([^(]*\)$')
def v_push(E, st, a, rt, mod, dem):
    v = seq(E, st, a[0])
    E.aset(st, a[0], None, v.push_back(leaves_at(E, st, a[1], v.schema)))


@R(r'^std::deque<.*>::push_front\(', r'^std::list<.*>::push_front\(', r'^(void|.*&) std::deque<.*>::emplace_front<[^(]*>\([^(]*\)$')
def v_pushf(E, st, a, rt, mod, dem):
    v = seq(E, st, a[0])
    E.aset(st, a[0], None, v.push_front(leaves_at(E, st, a[1], v.schema)))


@R(r'^std::(vector|deque)<.*>::size\(\) const$', r'^std::list<.*>::size\(\) const$')
def v_size(E, st, a, rt, mod, dem):
    v = E.aget(st, a[0])
    return z3.simplify(slen(v.s)) if isinstance(v, VecB) else v.size()


@R(r'^std::(vector|deque)<.*>::empty\(\) const$', r'^std::list<.*>::empty\(\) const$')
def v_empty(E, st, a, rt, mod, dem):
    v = E.aget(st, a[0])
    return z3.simplify((slen(v.s) if isinstance(v, VecB) else I(v.size())) == 0)


def el(p, i):
    return Ptr(('cd', p), 0, i)


@R(r'^std::vector<.*>::(c?begin|data)\(\)( const)?$')
def v_begin(E, st, a, rt, mod, dem):
    E.aget(st, a[0])
    return el(a[0], 0)


@R(r'^std::vector<.*>::c?end\(\)( const)?$')
def v_end(E, st, a, rt, mod, dem):
    v = E.aget(st, a[0])
    return el(a[0], z3.simplify(slen(v.s)) if isinstance(v, VecB) else v.size())


# ---- iterators of a deque: one cell holding the element's position
DIT = r'std::_Deque_iterator<.*>'


@R(r'^std::deque<.*>::c?(begin|end)\(\)( const)?$')
def d_begin(E, st, a, rt, mod, dem):
    v = seq(E, st, a[1])
    st.put(a[0], 32, el(a[1], 0 if dem.split('::')[-1].lstrip('c').startswith('begin') else v.size()))


@R(r'^' + DIT + r'::_Deque_iterator(<.*>)?\((std::_Deque_iterator<.*> const&)?\)$', r'^' + DIT + r'::operator=\(' + DIT + r' const&\)$')
def d_copy(E, st, a, rt, mod, dem):
    st.put(a[0], 32, st.cell(a[1]) if len(a) > 1 else NULL)
    return a[0]


def d_step(E, st, a, by):
    p = st.cell(a)
    v = seq(E, st, p.base[1])
    n = z3.simplify(I(p.idx) + by)
    E.prove(st, z3.And(n >= 0, n <= I(v.size())), 'iterator stays within the container', 'safety')
    st.put(a, 32, Ptr(p.base, 0, n))


@R(r'^' + DIT + r'::operator(\+\+|--)\((int)?\)$')
def d_inc(E, st, a, rt, mod, dem):
    by = 1 if 'operator++' in dem else -1
    if dem.endswith('(int)'):
        st.put(a[0], 32, st.cell(a[1]))
        d_step(E, st, a[1], by)
        return None
    d_step(E, st, a[0], by)
    return a[0]


@R(r'^' + DIT + r'::operator(\*|->)\(\) const$')
def d_deref(E, st, a, rt, mod, dem):
    p = st.cell(a[0])
    v = seq(E, st, p.base[1])
    E.prove(st, z3.And(I(p.idx) >= 0, I(p.idx) < I(v.size())), 'iterator refers to an element', 'safety')
    return p


@R(r'^(bool )?std::operator(==|!=)(<.*>)?\(std::_Deque_iterator<')
def d_eq(E, st, a, rt, mod, dem):
    x, y = st.cell(a[0]), st.cell(a[1])
    E.prove(st, x.base == y.base, 'iterators of one container are compared', 'safety')
    r = I(x.idx) == I(y.idx)
    return z3.simplify(r if 'operator==' in dem else z3.Not(r))


@R(r'^std::(vector|deque)<.*>::operator\[\]\(unsigned long\)( const)?$')
def v_idx(E, st, a, rt, mod, dem):
    v = E.aget(st, a[0])
    n = slen(v.s) if isinstance(v, VecB) else I(v.size())
    E.prove(st, z3.And(I(a[1]) >= 0, I(a[1]) < n), 'vector index in range', 'safety')
    return el(a[0], a[1])


@R(r'^std::(vector|deque)<.*>::at\(unsigned long\)( const)?$')
def v_at(E, st, a, rt, mod, dem):
    v = E.aget(st, a[0])
    n = slen(v.s) if isinstance(v, VecB) else I(v.size())
    ok = z3.And(I(a[1]) >= 0, I(a[1]) < n)
    outs = []
    if E.feasible(st, ok):
        s2 = st.fork()
        s2.assume(ok)
        outs.append(_out(s2, 'ret', el(a[0], a[1])))
    if E.feasible(st, z3.Not(ok)):
        s2 = st.fork()
        s2.assume(z3.Not(ok))
        t = throw(E, s2, 'std::out_of_range')
        outs += t if isinstance(t, list) else [t]
    return outs


@R(r'^std::(vector|deque|list)<.*>::front\(\)( const)?$')
def v_front(E, st, a, rt, mod, dem):
    v = seq(E, st, a[0])
    E.prove(st, I(v.size()) > 0, 'front() of a non-empty container', 'safety')
    return el(a[0], 0)


@R(r'^std::(vector|deque|list)<.*>::back\(\)( const)?$')
def v_back(E, st, a, rt, mod, dem):
    v = seq(E, st, a[0])
    E.prove(st, I(v.size()) > 0, 'back() of a non-empty container', 'safety')
    return el(a[0], z3.simplify(I(v.size()) - 1))


@R(r'^std::deque<.*>::pop_front\(\)$', r'^std::list<.*>::pop_front\(\)$')
def v_popf(E, st, a, rt, mod, dem):
    v = seq(E, st, a[0])
    E.prove(st, I(v.size()) > 0, 'pop_front() of a non-empty container', 'safety')
    E.aset(st, a[0], None, v.with_(lo=v.lo + 1 if isinstance(v.lo, int) else z3.simplify(v.lo + 1)))


@R(r'^std::(vector|deque|list)<.*>::pop_back\(\)$')
def v_popb(E, st, a, rt, mod, dem):
    v = seq(E, st, a[0])
    E.prove(st, I(v.size()) > 0, 'pop_back() of a non-empty container', 'safety')
    E.aset(st, a[0], None, v.with_(hi=v.hi - 1 if isinstance(v.hi, int) else z3.simplify(v.hi - 1)))


@R(r'^std::(vector|deque)<.*>::clear\(\)$', r'^std::list<.*>::clear\(\)$')
def v_clear(E, st, a, rt, mod, dem):
    v = E.aget(st, a[0])
    E.aset(st, a[0], None, VecB(EMPTY) if isinstance(v, VecB) else v.with_(lo=0, hi=0))


@R(r'^std::(vector|deque)<.*>::reserve\(unsigned long\)$', r'^std::(vector|deque)<.*>::shrink_to_fit\(\)$')
def v_reserve(E, st, a, rt, mod, dem):
    E.aget(st, a[0])
    return None


@R(r'^std::(vector|deque|map|set|multimap)<.*>::swap\(', r'^std::list<.*>::swap\(', r'^void std::swap<.*>\(std::(vector|deque|map|set)<')
def v_swap(E, st, a, rt, mod, dem):
    x, y = E.aget(st, a[0]), E.aget(st, a[1])
    E.aset(st, a[0], None, y)
    E.aset(st, a[1], None, x)


# ------------------------------------------------------------------ map / set
def mp(E, st, p):
    v = E.aget(st, p, None, 'map')
    if not isinstance(v, MapV):
        raise Unsupported('not a map: %r' % (v,))
    return v


def key_at(E, st, p, k):
    if k == 'str':
        return S(E, st, p)
    if k == 'int':
        return E.val_to_leaf(st, E.load(st, E.prog.mods[0], p, PTRT), 'ptr:')
    return I(E.load(st, E.prog.mods[0], p, ('i', {'int32': 32, 'int64': 64, 'int16': 16}[k])))


def enum(st, m):
    en = m.en
    if en is None:
        tmp = State()
        en = Enum(m, tmp)
        en.facts = list(tmp.pc)
        m.en = en
    if not any(c is en.facts[-1] for c in st.pc):
        st.assume(*en.facts)
    return en


@R(r'^std::(map|set)<.*>::(map|set)\(\)$')
def m_ctor(E, st, a, rt, mod, dem):
    st.put(a[0], 48, empty_map(dem))


@R(r'^std::(map|set)<.*>::~(map|set)\(\)$')
def m_dtor(E, st, a, rt, mod, dem):
    E.deref_check(st, a[0], 'map')
    return None


@R(r'^std::(map|set)<(.*)>::(map|set)\(std::(map|set)<\2>( const&|&&)\)$')
def m_copy(E, st, a, rt, mod, dem):
    st.put(a[0], 48, mp(E, st, a[1]))


@R(r'^std::(map|set)<(.*)>::operator=\(std::(map|set)<\2>( const&|&&)\)$')
def m_assign(E, st, a, rt, mod, dem):
    E.aset(st, a[0], 48, mp(E, st, a[1]))
    return a[0]


@R(r'^std::(map|set)<.*>::c?begin\(\)( const)?$')
def m_begin(E, st, a, rt, mod, dem):
    m = mp(E, st, a[0])
    en = enum(st, m)
    return Ptr(('it', a[0], en), 0, 0)


@R(r'^std::(map|set)<.*>::c?end\(\)( const)?$')
def m_end(E, st, a, rt, mod, dem):
    mp(E, st, a[0])
    return Ptr(('end', a[0]), 0)


@R(r'^std::(map|set)<.*>::find\([^()]*\)( const)?$')
def m_find(E, st, a, rt, mod, dem):
    m = mp(E, st, a[0])
    k = key_at(E, st, a[1], m.kkind)
    h = m.has(k)
    outs = []
    for g, v in ((h, Ptr(('node', a[0], Key(k)), 0)), (z3.Not(h), Ptr(('end', a[0]), 0))):
        g = z3.simplify(g)
        if E.feasible(st, g):
            s2 = st.fork()
            s2.assume(g)
            outs.append(_out(s2, 'ret', v))
    return outs


@R(r'^std::(map|set)<.*>::count\([^()]*\) const$')
def m_count(E, st, a, rt, mod, dem):
    m = mp(E, st, a[0])
    return z3.simplify(I(m.has(key_at(E, st, a[1], m.kkind))))


@R(r'^std::(map|set)<.*>::size\(\) const$')
def m_size(E, st, a, rt, mod, dem):
    return enum(st, mp(E, st, a[0])).n


@R(r'^std::(map|set)<.*>::empty\(\) const$')
def m_empty(E, st, a, rt, mod, dem):
    en = enum(st, mp(E, st, a[0]))
    en.touch(st, z3.IntVal(0))
    return en.n == 0


@R(r'^std::(map|set)<.*>::clear\(\)$')
def m_clear(E, st, a, rt, mod, dem):
    m = mp(E, st, a[0])
    E.aset(st, a[0], None, MapV(m.kkind, m.schema, z3.K(m.pres.sort().domain(), z3.BoolVal(False)), m.vals))


def dflt(k):
    if k == 'str':
        return EMPTY
    if k == 'bool':
        return z3.BoolVal(False)
    if k.startswith('bv'):
        return z3.BitVecVal(0, int(k[2:]))
    if k == 'f64':
        raise Unsupported('double in map')
    return z3.IntVal(0)


@R(r'^std::map<.*>::operator\[\]\([^()]*\)$')
def m_index(E, st, a, rt, mod, dem):
    m = mp(E, st, a[0])
    k = key_at(E, st, a[1], m.kkind)
    h = m.has(k)
    outs = []
    for g, new in ((h, False), (z3.Not(h), True)):
        g = z3.simplify(g)
        if E.feasible(st, g):
            s2 = st.fork()
            s2.assume(g)
            if new:
                E.aset(s2, a[0], None, m.put(k, [dflt(x) for o, sz, x in m.schema]))
            outs.append(_out(s2, 'ret', Ptr(('node', a[0], Key(k)), Engine_ksz(m.kkind))))
    return outs


def Engine_ksz(k):
    return {'str': 32, 'int': 8, 'int32': 8, 'int64': 8, 'int16': 8}[k]


@R(r'^std::map<.*>::at\([^()]*\)( const)?$')
def m_at(E, st, a, rt, mod, dem):
    m = mp(E, st, a[0])
    k = key_at(E, st, a[1], m.kkind)
    h = m.has(k)
    outs = []
    if E.feasible(st, h):
        s2 = st.fork()
        s2.assume(h)
        outs.append(_out(s2, 'ret', Ptr(('node', a[0], Key(k)), Engine_ksz(m.kkind))))
    if E.feasible(st, z3.Not(h)):
        s2 = st.fork()
        s2.assume(z3.Not(h))
        t = throw(E, s2, 'std::out_of_range')
        outs += t if isinstance(t, list) else [t]
    return outs


@R(r'std::map<.*>::(insert|emplace)(<[^(]*>)?\((std::pair<[^()]*>( const)?&&?)\)$')
def m_insert(E, st, a, rt, mod, dem):
    m = mp(E, st, a[0])
    k = key_at(E, st, a[1], m.kkind)
    pair = re.search(r'\((std::pair<.*>)( const)?&&?\)$', dem).group(1)
    ksz = Engine_ksz(m.kkind)
    # the argument pair may have a key of another type (char const*): only identical keys are modelled
    ka = targs(pair)[0]
    if kkind(ka) != m.kkind:
        raise Unsupported('map insert of %s' % pair)
    lv = leaves_at(E, st, a[1].add(ksz), m.schema)
    h = m.has(k)
    outs = []
    for g, new in ((h, 0), (z3.Not(h), 1)):
        g = z3.simplify(g)
        if E.feasible(st, g):
            s2 = st.fork()
            s2.assume(g)
            if new:
                E.aset(s2, a[0], None, m.put(k, lv))
            outs.append(_out(s2, 'ret', (Ptr(('node', a[0], Key(k)), 0), new)))
    return outs


@R(r'^std::set<.*>::insert\([^()]*\)$')
def s_insert(E, st, a, rt, mod, dem):
    m = mp(E, st, a[0])
    k = key_at(E, st, a[1], m.kkind)
    new = z3.Not(m.has(k))
    E.aset(st, a[0], None, m.put(k, []))
    return (Ptr(('node', a[0], Key(k)), 0), BV(z3.simplify(new), 8))


@R(r'^std::(map|set)<.*>::erase\((std::string const&|[\w: ]+( const)?(\*| const)?&)\)$')
def m_erase_key(E, st, a, rt, mod, dem):
    m = mp(E, st, a[0])
    k = key_at(E, st, a[1], m.kkind)
    E.aset(st, a[0], None, m.erase(k))
    return z3.simplify(I(m.has(k)))


@R(r'std::(map|set)<.*>::erase(\[abi:\w+\])?\(std::_Rb_tree_(const_)?iterator<.*>\)$')
def m_erase_it(E, st, a, rt, mod, dem):
    m = mp(E, st, a[0])
    p = a[1]
    if isinstance(p, Ptr) and isinstance(p.base, tuple) and p.base[0] == 'node':
        k = p.base[2].t
    elif isinstance(p, Ptr) and isinstance(p.base, tuple) and p.base[0] == 'it':
        k = z3.Select(p.base[2].keys, I(p.idx))
        p.base[2].touch(st, I(p.idx))
    else:
        E.prove(st, False, 'erase of an end iterator', 'safety')
        raise Infeasible()
    E.prove(st, m.has(k), 'erased element is in the container', 'safety')
    E.aset(st, a[0], None, m.erase(k))
    if p.base[0] == 'it':
        return Ptr(p.base, 0, z3.simplify(I(p.idx) + 1))
    return Ptr(('after', a[0], p.base[2]), 0)


@R(r'^std::_Rb_tree_(const_)?iterator<.*>::operator(\*|->)\(\) const$')
def it_deref(E, st, a, rt, mod, dem):
    p = E.load(st, E.prog.mods[0], a[0], PTRT)
    if isinstance(p, Ptr) and isinstance(p.base, tuple) and p.base[0] == 'end':
        E.prove(st, False, 'dereference of an end iterator', 'safety')
        raise Infeasible()
    return p


@M('std::_Rb_tree_increment(std::_Rb_tree_node_base*)', 'std::_Rb_tree_increment(std::_Rb_tree_node_base const*)')
def rb_inc(E, st, a, rt, mod, dem):
    p = a[0]
    if isinstance(p, Ptr) and isinstance(p.base, tuple) and p.base[0] == 'it':
        E.prove(st, I(p.idx) < p.base[2].n, 'increment of an iterator inside the container', 'safety')
        return Ptr(p.base, 0, z3.simplify(I(p.idx) + 1))
    if isinstance(p, Ptr) and isinstance(p.base, tuple) and p.base[0] == 'mmit':
        return Ptr(p.base, 0, p.idx + 1)
    raise Unsupported('iterator increment %r' % (p,))


# ------------------------------------------------------------------ RTTI
@M('__dynamic_cast')
def dyn_cast(E, st, a, rt, mod, dem):
    p = a[0]
    if isinstance(p, Ptr) and p.isnull:
        return NULL
    E.deref_check(st, p, 'dynamic_cast')
    if isinstance(p, Ptr) and isinstance(p.base, int):
        b = st.blocks[p.base]
        ex = getattr(b, 'exact', None)
        me = E.prog.ti_of(ex) if ex else vt_name(st, b.cells.get(0))
        if me:
            src, dst = ti_name(E, st, a[1]), ti_name(E, st, a[2])
            so = E.prog.base_off(me, src)
            do = E.prog.base_off(me, dst)
            if do is None:
                return NULL
            return Ptr(p.base, p.off - (so or 0) + do)
    raise Unsupported('dynamic_cast of %r' % (p,))


def vt_name(st, cell):
    """class of a complete object by its virtual table"""
    v = cell[1] if cell else None
    if not isinstance(v, Ptr):
        return None
    for k, bid in st.globals.items():
        if bid == v.base:
            k = k if isinstance(k, str) else k[1]
            return '_ZTI' + k[4:] if k.startswith('_ZTV') else None
    return None


def ti_name(E, st, p):
    for k, bid in st.globals.items():
        if bid == p.base:
            return k if isinstance(k, str) else k[1]
    raise Unsupported('typeinfo')


# ------------------------------------------------------------------ deque iterators: one cell holding the element pointer
def _dq(dem):
    return re.search(r'_Deque_iterator<', dem)


@R(r'^std::deque<.*>::c?begin\(\)( const)?$')
def dq_begin(E, st, a, rt, mod, dem):
    E.aget(st, a[1], SeqV)
    st.put(a[0], 8, Ptr(('cd', a[1]), 0, 0))


@R(r'^std::deque<.*>::c?end\(\)( const)?$')
def dq_end(E, st, a, rt, mod, dem):
    v = E.aget(st, a[1], SeqV)
    n = v.size()
    st.put(a[0], 8, Ptr(('cd', a[1]), 0, n))


@R(r'^std::_Deque_iterator<.*>::_Deque_iterator(<.*>)?\(std::_Deque_iterator<.*> const&\)$', r'^std::_Deque_iterator<.*>::operator=\(std::_Deque_iterator<.*> const&\)$')
def dq_copy(E, st, a, rt, mod, dem):
    st.put(a[0], 8, E.load(st, E.prog.mods[0], a[1], PTRT))
    return a[0]


@R(r'^std::_Deque_iterator<.*>::operator(\*|->)\(\) const$')
def dq_deref(E, st, a, rt, mod, dem):
    p = E.load(st, E.prog.mods[0], a[0], PTRT)
    c = E.aget(st, p.base[1], SeqV)
    E.prove(st, z3.And(I(p.idx) >= 0, I(p.idx) < I(c.size())), 'iterator dereferenced inside the container', 'safety')
    return p


@R(r'^std::_Deque_iterator<.*>::operator\+\+\(\)$')
def dq_inc(E, st, a, rt, mod, dem):
    p = E.load(st, E.prog.mods[0], a[0], PTRT)
    c = E.aget(st, p.base[1], SeqV)
    E.prove(st, I(p.idx) < I(c.size()), 'increment of an iterator inside the container', 'safety')
    st.put(a[0], 8, Ptr(p.base, 0, p.idx + 1 if isinstance(p.idx, int) else z3.simplify(I(p.idx) + 1)))
    return a[0]


@R(r'^(bool )?std::operator(==|!=)(<.*>)?\(std::_Deque_iterator<.*> const&, std::_Deque_iterator<.*> const&\)$')
def dq_cmp(E, st, a, rt, mod, dem):
    p = E.load(st, E.prog.mods[0], a[0], PTRT)
    q = E.load(st, E.prog.mods[0], a[1], PTRT)
    e = z3.simplify(E.ptr_equal(st, p, q))
    return z3.simplify(z3.Not(e)) if 'operator!=' in dem else e


# ------------------------------------------------------------------ list iterators: one pointer, here to the element at an index
@R(r'^std::list<.*>::c?begin\(\)( const)?$')
def l_begin(E, st, a, rt, mod, dem):
    E.aget(st, a[0])
    return el(a[0], 0)


@R(r'^std::list<.*>::c?end\(\)( const)?$')
def l_end(E, st, a, rt, mod, dem):
    return el(a[0], seq(E, st, a[0]).size())


@R(r'^std::_List_(const_)?iterator<.*>::operator(\*|->)\(\) const$')
def l_deref(E, st, a, rt, mod, dem):
    p = E.load(st, E.prog.mods[0], a[0], PTRT)
    c = seq(E, st, p.base[1])
    E.prove(st, z3.And(I(p.idx) >= 0, I(p.idx) < I(c.size())), 'iterator dereferenced inside the container', 'safety')
    return p


@R(r'^std::_List_(const_)?iterator<.*>::operator(\+\+|--)\((int)?\)$')
def l_inc(E, st, a, rt, mod, dem):
    p = E.load(st, E.prog.mods[0], a[0], PTRT)
    c = seq(E, st, p.base[1])
    d = 1 if 'operator++' in dem else -1
    E.prove(st, z3.And(I(p.idx) + d >= 0, I(p.idx) + d <= I(c.size())), 'iterator stays inside the container', 'safety')
    st.put(a[0], 8, Ptr(p.base, 0, p.idx + d if isinstance(p.idx, int) else z3.simplify(I(p.idx) + d)))
    return p if dem.endswith('(int)') else a[0]


@R(r'^(bool )?std::operator(==|!=)(<.*>)?\(std::_List_(const_)?iterator<.*> const&, std::_List_(const_)?iterator<.*> const&\)$')
def l_cmp(E, st, a, rt, mod, dem):
    p = E.load(st, E.prog.mods[0], a[0], PTRT)
    q = E.load(st, E.prog.mods[0], a[1], PTRT)
    e = z3.simplify(E.ptr_equal(st, p, q))
    return z3.simplify(z3.Not(e)) if 'operator!=' in dem else e


def removed(st, v, i):
    """the sequence without its element at i"""
    i = I(i)
    arrs = []
    for x in v.arrs:
        y = fresh(x.sort(), 'rest')
        j = z3.Int(fresh_name('j'))
        st.assume(z3.ForAll([j], z3.Select(y, j) == z3.If(j < I(v.lo) + i, z3.Select(x, j), z3.Select(x, j + 1)), patterns=[z3.Select(y, j)]))
        arrs.append(y)
    return v.with_(arrs=tuple(arrs), hi=z3.simplify(I(v.hi) - 1))


@R(r'^std::list<.*>::erase(\[abi:\w+\])?\(std::_List_(const_)?iterator<.*>\)$')
def l_erase(E, st, a, rt, mod, dem):
    v = seq(E, st, a[0])
    p = a[1]
    E.prove(st, z3.And(I(p.idx) >= 0, I(p.idx) < I(v.size())), 'erased element is in the container', 'safety')
    E.aset(st, a[0], None, removed(st, v, p.idx))
    return p


@R(r'^std::_List_(const_)?iterator<.*> std::find<std::_List_(const_)?iterator<')
def l_find(E, st, a, rt, mod, dem):
    """the first element equal to the value by the element type's own operator=="""
    p, q, w = a[0], a[1], a[2]
    c = seq(E, st, p.base[1])
    t = targs(dem[dem.index('_iterator<'):])[0]
    fn = E.prog.fn_by_dem('%s::operator==(%s const&)' % (t, t)) or E.prog.fn_by_dem('%s::operator==(%s const&) const' % (t, t))
    if fn is None:
        raise Unsupported('std::find over ' + t)
    i = fint('found')
    s = st.fork()
    s.assume(i >= I(p.idx), i < I(q.idx), i >= 0, i < I(c.size()))
    col, E.collect = E.collect, False
    try:
        outs = E.run(s, fn, [Ptr(p.base, 0, i), w])
    finally:
        E.collect = col
    if len(outs) != 1 or outs[0].kind != 'ret':
        raise Unsupported('std::find: comparison with several outcomes')
    eq = B(outs[0].val)
    j = z3.Int(fresh_name('j'))
    eqj = z3.substitute(eq, (i, j))
    none = lambda hi: z3.ForAll([j], z3.Implies(z3.And(I(p.idx) <= j, j < I(hi)), z3.Not(eqj)), patterns=[c.get(j)]) if same(c.lo, 0) else z3.ForAll([j], z3.Implies(z3.And(I(p.idx) <= j, j < I(hi)), z3.Not(eqj)))
    miss = st.fork()
    miss.assume(none(q.idx))
    st.assume(i >= I(p.idx), i < I(q.idx), eq, none(i))
    outs = []
    if E.feasible(st, z3.BoolVal(True)):
        outs.append(_out(st, 'ret', Ptr(p.base, 0, i)))
    if E.feasible(miss, z3.BoolVal(True)):
        outs.append(_out(miss, 'ret', q))
    return outs

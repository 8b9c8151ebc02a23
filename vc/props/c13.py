"""C13: method dispatch and interceptors (dispatcher_manager.cc, method.h, method.cc, builtins.cc, server.cc)"""
from ..sexec import *
from ..models import _out

TUS = ['dispatcher_manager.cc', 'method.cc', 'builtins.cc', 'server.cc', 'value_type.cc', 'value.cc', 'http.cc', 'xheaders.cc', 'executor.cc', 'server_conn.cc', 'response.cc', 'auth_plugin.cc']
EXTRA = SX_EXTRA + """#include "libiqxmlrpc/dispatcher_manager.h"
#include "libiqxmlrpc/builtins.h"
struct emit_disp: iqxmlrpc::Method_dispatcher_base { virtual iqxmlrpc::Method* do_create_method(const std::string&); virtual void do_get_methods_list(iqxmlrpc::Array&) const; };
iqxmlrpc::Method* emit_disp::do_create_method(const std::string&) { return 0; }
void emit_disp::do_get_methods_list(iqxmlrpc::Array&) const {}
struct emit_factory: iqxmlrpc::Method_factory_base { virtual iqxmlrpc::Method* create(); };
iqxmlrpc::Method* emit_factory::create() { return 0; }
struct emit_yield: iqxmlrpc::Interceptor { virtual void process(iqxmlrpc::Method* m, const iqxmlrpc::Param_list& p, iqxmlrpc::Value& v) { yield(m, p, v); } };
void emit_more(iqxmlrpc::Method_dispatcher_base& d, iqxmlrpc::Interceptor* i, const iqxmlrpc::Method::Data& m) { d.create_method(m); emit_yield y; y.nest(i); emit_factory f; emit_disp q; throw iqxmlrpc::Unknown_method("x"); }
"""
MDM, MDI, MDB, DMD, MFB = ['iqxmlrpc::' + k for k in ('Method_dispatcher_manager', 'Method_dispatcher_manager::Impl', 'Method_dispatcher_base', 'Default_method_dispatcher', 'Method_factory_base')]
ARR = 'iqxmlrpc::Array'
LMC, LMF, LM = 'iqxmlrpc::System_method_factory<class iqxmlrpc::builtins::List_methods>', 'iqxmlrpc::System_method_factory<iqxmlrpc::builtins::List_methods>', 'iqxmlrpc::builtins::List_methods'
FMAP = 'std::map<std::string, iqxmlrpc::Method_factory_base*, std::less<std::string>, std::allocator<std::pair<std::string const, iqxmlrpc::Method_factory_base*>>>'
DDQ = 'std::deque<iqxmlrpc::Method_dispatcher_base*, std::allocator<iqxmlrpc::Method_dispatcher_base*>>'
PL = 'std::vector<iqxmlrpc::Value, std::allocator<iqxmlrpc::Value>> const&'
LST = z3.SeqSort(INT)
# whether a dispatcher knows a name, the names it lists, its place, a name as a list entry
KNOWS, LISTS, PLACE, NAME = z3.Function('knows', INT, STR, BOOL), z3.Function('lists', INT, LST), z3.Function('place', INT, INT), z3.Function('entry', STR, INT)
# the lists of the first i dispatchers, and the first i names of a map
ALL, FIRST = z3.Function('all_lists', z3.ArraySort(INT, INT), INT, INT, LST), z3.Function('first_names', z3.ArraySort(INT, STR), INT, LST)
NOLIST = z3.Empty(LST)


def rid(E, st, p):
    """the identity of an object a pointer refers to"""
    return E.val_to_leaf(st, p, 'ptr:')


# ---- one dispatcher
def m_docreate(E, st, a, rt, mod, dem):
    """some dispatcher: a new method when it knows the name, or nothing, or an error"""
    n = models.S(E, st, a[1])
    bad, none = st.fork(), st.fork()
    m = method(E, st)
    emit(st, 'made', a[0], n, m)
    emit(none, 'unknown', a[0], n)
    return [_out(st, 'ret', m), _out(none, 'ret', NULL)] + raised(E, bad, 'dispatcher')


def m_addr(E, st, a, rt, mod, dem):
    """copying an address: its two words"""
    for o in (8, 16):
        st.put(a[0].add(o), 8, st.cell(a[1].add(o)))
    return a[0]


def base_engine(E):
    sx_engine(E)
    X = E.mexact
    del X[MDM + '::create_method(iqxmlrpc::Method::Data const&)']
    X[MDB + '::do_create_method(std::string const&)'] = m_docreate
    X['iqnet::Inet_addr::operator=(iqnet::Inet_addr const&)'] = m_addr
    E._mcache = {}


def data(c):
    D = METH + '::Data'
    st = c.st
    p = st.alloc(c.prog.size(D), 'heap', 'call data', D)
    n = fstr('name')
    st.assume(slen(n) < MAXLEN)
    st.put(p.add(c.prog.off(D, 'method_name')), 32, StrV(n))
    ad = p.add(c.prog.off(D, 'peer_addr'))
    st.put(ad, 8, Opq('vptr-addr'))
    st.put(ad.add(8), 8, st.alloc(8, 'heap', 'address'))
    st.put(ad.add(16), 8, NULL)
    st.put(p.add(c.prog.off(D, 'server_face')), 8, st.alloc(8, 'heap', 'server'))
    return p, n


def setup_bc(c):
    st = c.st
    d = st.alloc(8, 'heap', 'dispatcher', MDB)
    st.blocks[d.base].exact = None
    st.put(d, 8, Ptr(('vt', MDB), 0))
    p, n = data(c)
    st.ghost['ev'] = ()
    header(c, RSP, 'error header')
    return [d, p]


def cases_bc(c, a):
    D = METH + '::Data'
    g = lambda st, p, n: st.cell(p.add(c.prog.off(D, n)))
    n = g(c.st, a[1], 'method_name').s

    def post(E, s2, o):
        ev = events(s2)
        if len(ev) != 1:
            return [('the dispatcher is asked once', False)]
        e = ev[0]
        if o.kind == 'throw':
            return [('raises what the dispatcher raised', e[0] == 'raise')]
        if e[0] == 'raise':
            return [('raises what the dispatcher raised', False)]
        out = [('for this name', e[2] == n)]
        if e[0] == 'unknown':
            return out + [('no method', same_ptr(E, s2, o.val, NULL))]
        md = e[3].add(c.prog.off(METH, 'data_'))
        return out + [('the new method', same_ptr(E, s2, o.val, e[3])), ('knows its name', g(s2, md, 'method_name').s == n), ('knows the server', same_ptr(E, s2, g(s2, md, 'server_face'), g(c.st, a[1], 'server_face')))]
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


# ---- all dispatchers
def m_ask(E, st, a, rt, mod, dem):
    """contract of one dispatcher"""
    d, n = rid(E, st, a[0]), models.S(E, st, a[1].add(E.prog.off(METH + '::Data', 'method_name')))
    E.prove(st, n == st.ghost['name'], 'asked for the name called', 'post')
    bad, none = st.fork(), st.fork()
    st.assume(KNOWS(d, n))
    none.assume(z3.Not(KNOWS(d, n)))
    m = method(E, st)
    emit(st, 'from', d, m)
    emit(bad, 'asked', d)
    return [_out(st, 'ret', m), _out(none, 'ret', NULL)] + raised(E, bad, 'dispatcher')


def m_lists(E, st, a, rt, mod, dem):
    E.prove(st, same_ptr(E, st, a[1], st.ghost['array']), 'listed into the array given', 'post')
    bad = st.fork()
    st.ghost['listed'] = z3.Concat(st.ghost['listed'], LISTS(rid(E, st, a[0])))
    return [_out(st, 'ret', None)] + raised(E, bad, 'dispatcher')


def mgr_engine(E):
    base_engine(E)
    X = E.mexact
    X[MDB + '::create_method(iqxmlrpc::Method::Data const&)'] = m_ask
    X[MDB + '::get_methods_list(iqxmlrpc::Array&) const'] = m_lists
    E._mcache = {}


def manager(c, n=None):
    st = c.st
    p = st.alloc(c.prog.size(MDM), 'heap', 'manager', MDM)
    i = st.alloc(c.prog.size(MDI), 'heap', 'manager impl', MDI)
    st.put(p.add(c.prog.off(MDM, 'impl_')), 8, i)
    q = containers.fresh_seq(st, 'iqxmlrpc::Method_dispatcher_base*', 'dispatchers')
    st.put(i.add(c.prog.off(MDI, 'dispatchers')), 80, q)
    d = st.alloc(c.prog.size(DMD), 'heap', 'default dispatcher', DMD)
    st.blocks[d.base].exact = DMD
    c.prog.put_vptrs(c.E, st, d, DMD)
    m = containers.fresh_map(FMAP, 'factories')
    k = z3.Const(fresh_name('k'), STR)
    st.assume(z3.ForAll([k], z3.Implies(m.has(k), z3.Select(m.vals[0], k) != 0), patterns=[m.has(k)]))
    st.put(d.add(c.prog.off(DMD, 'fs')), 48, m)
    st.put(i.add(c.prog.off(MDI, 'default_disp')), 8, d)
    return p, i, q, d, m


def setup_mc(c):
    p, i, q, d, m = manager(c)
    st = c.st
    k = z3.Int(fresh_name('k'))
    # the manager owns its dispatchers, so no two are the same
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= I(q.lo), k < I(q.hi)), PLACE(z3.Select(q.arrs[0], k)) == k), patterns=[z3.Select(q.arrs[0], k)]))
    dp, n = data(c)
    st.ghost['name'] = n
    st.ghost['ev'] = ()
    header(c, RSP, 'error header')
    return [p, dp]


def the_seq(c, a):
    return c.st.cell(c.st.cell(a[0].add(c.prog.off(MDM, 'impl_'))).add(c.prog.off(MDI, 'dispatchers')))


def none_before(q, k, n):
    j = z3.Int(fresh_name('j'))
    return z3.ForAll([j], z3.Implies(z3.And(j >= I(q.lo), j < k), z3.Not(KNOWS(z3.Select(q.arrs[0], j), n))), patterns=[z3.Select(q.arrs[0], j)])


def cases_mc(c, a):
    q, n = the_seq(c, a), c.st.ghost['name']

    def post(E, s2, o):
        ev, ra = events(s2, 'from', 'asked'), events(s2, 'raise')
        if not ev:
            return [('unknown method exactly when no dispatcher knows the name', z3.And(z3.BoolVal(o.kind == 'throw' and o.val.ti == E.prog.ti_of('iqxmlrpc::Unknown_method')), none_before(q, I(q.hi), n)))]
        d = ev[0][1]
        first = z3.And(PLACE(d) >= I(q.lo), PLACE(d) < I(q.hi), z3.Select(q.arrs[0], PLACE(d)) == d, none_before(q, PLACE(d), n))
        if o.kind == 'throw':
            return [('raises what a dispatcher raised before any other knew the name', z3.And(z3.BoolVal(bool(ra)), first))]
        return [('from the first dispatcher that knows the name', z3.And(z3.BoolVal(not ra and len(ev) == 1), first)), ('returns its method', same_ptr(E, s2, o.val, ev[0][2] if len(ev[0]) > 2 else NULL))]
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


def unfold(st, q, k):
    st.assume(ALL(q.arrs[0], I(q.lo), I(q.lo)) == NOLIST, z3.Implies(k >= I(q.lo), ALL(q.arrs[0], I(q.lo), k + 1) == z3.Concat(ALL(q.arrs[0], I(q.lo), k), LISTS(z3.Select(q.arrs[0], k)))))


def unfold_names(st, keys, k):
    st.assume(FIRST(keys, z3.IntVal(0)) == NOLIST, z3.Implies(k >= 0, FIRST(keys, k + 1) == z3.Concat(FIRST(keys, k), z3.Unit(NAME(z3.Select(keys, k))))))


def cand(L):
    out = []
    g0 = L.entry.ghost
    qs, ms = [], []
    for bid, b in L.entry.blocks.items():
        for off, (sz, v) in b.cells.items():
            if isinstance(v, SeqV) and b.name == 'manager impl':
                qs.append(v)
            if isinstance(v, MapV) and b.name == 'default dispatcher' and v.en is not None:
                ms.append(v)
    for n2, g, x0 in L.ints:
        for q in qs:
            at = lambda st, g=g, q=q: I(q.lo) + g(st)
            out.append(('%s within' % n2, lambda st, at=at, q=q: z3.And(at(st) >= I(q.lo), at(st) <= I(q.hi))))
            out.append(('%s before the end' % n2, lambda st, at=at, q=q: at(st) < I(q.hi)))
            if 'name' in g0:
                out.append(('none before knows', lambda st, at=at, q=q: none_before(q, at(st), g0['name'])))
            if 'listed' in g0:
                def inv(st, at=at, q=q):
                    unfold(st, q, at(st))
                    unfold(st, q, at(st) - 1)
                    return st.ghost['listed'] == z3.Concat(g0['listed'], ALL(q.arrs[0], I(q.lo), at(st)))
                out.append(('all lists so far', inv))
        for m in ms:
            out.append(('%s within' % n2, lambda st, g=g, m=m: z3.And(g(st) >= 0, g(st) <= m.en.n)))
            if 'listed' in g0:
                def inv(st, g=g, m=m):
                    unfold_names(st, m.en.keys, g(st))
                    unfold_names(st, m.en.keys, g(st) - 1)
                    return st.ghost['listed'] == z3.Concat(g0['listed'], FIRST(m.en.keys, g(st)))
                out.append(('names so far', inv))
    return out


CANDS = [cand_kept, cand]


def setup_ml(c):
    p, i, q, d, m = manager(c)
    st = c.st
    arr = st.alloc(c.prog.size(ARR), 'heap', 'result', ARR)
    st.ghost['array'] = arr
    st.ghost['listed'] = z3.Const(fresh_name('listed'), LST)
    st.ghost['ev'] = ()
    header(c, RSP, 'error header')
    return [p, arr]


def cases_ml(c, a):
    q, l0 = the_seq(c, a), c.st.ghost['listed']

    def post(E, s2, o):
        if o.kind == 'throw':
            return [('raises what a dispatcher raised', bool(events(s2, 'raise')))]
        unfold(s2, q, I(q.hi) - 1)
        return [('the lists of all dispatchers in their order', s2.ghost['listed'] == z3.Concat(l0, ALL(q.arrs[0], I(q.lo), I(q.hi))))]
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


def cases_mp(c, a):
    q = the_seq(c, a)

    def post(E, s2, o):
        i2 = s2.cell(a[0].add(E.prog.off(MDM, 'impl_')))
        r = s2.cell(i2.add(E.prog.off(MDI, 'dispatchers')))
        j = z3.Int(fresh_name('j'))
        n = I(q.size())
        at = lambda v, k: z3.Select(v.arrs[0], I(v.lo) + k)
        return [('one more', I(r.size()) == n + 1), ('added at the end', at(r, n) == rid(E, s2, a[1])), ('the others stay', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), at(r, j) == at(q, j))))]
    return [Case(True, any_frame=True, post=post)]


def setup_mp(c):
    p, i, q, d, m = manager(c)
    x = c.st.alloc(8, 'heap', 'new dispatcher')
    return [p, x]


def setup_mi(c):
    return [c.st.alloc(c.prog.size(MDI), 'heap', 'manager impl', MDI)]


def cases_mi(c, a):
    def post(E, s2, o):
        q, d = s2.cell(a[0].add(E.prog.off(MDI, 'dispatchers'))), s2.cell(a[0].add(E.prog.off(MDI, 'default_disp')))
        m = s2.cell(d.add(E.prog.off(DMD, 'fs')))
        k = z3.Const(fresh_name('k'), STR)
        return [('only the built-in dispatcher', z3.And(I(q.size()) == 1, z3.Select(q.arrs[0], I(q.lo)) == rid(E, s2, d))), ('it knows nothing', z3.ForAll([k], z3.Not(m.has(k)))), ('it is one', z3.BoolVal(s2.cell(d) == E.prog.vptr_for(E, s2, DMD)))]
    return [Case(True, any_frame=True, post=post)]


# ---- the built-in dispatcher
def m_factory(E, st, a, rt, mod, dem):
    bad = st.fork()
    m = method(E, st)
    emit(st, 'factory', rid(E, st, a[0]), m)
    return [_out(st, 'ret', m)] + raised(E, bad, 'factory')


def m_vstr(E, st, a, rt, mod, dem):
    st.put(a[0].add(8), 8, Opq('string value', models.S(E, st, a[1])))


def m_push(E, st, a, rt, mod, dem):
    E.prove(st, same_ptr(E, st, a[0], st.ghost['array']), 'listed into the array given', 'post')
    v = st.cell(a[1].add(8))
    st.ghost['listed'] = z3.Concat(st.ghost['listed'], z3.Unit(NAME(v.t)))


def def_engine(E):
    base_engine(E)
    X = E.mexact
    X[MFB + '::create()'] = m_factory
    X['iqxmlrpc::Value::Value(std::string)'] = X['iqxmlrpc::Value::Value(std::string const&)'] = m_vstr
    X['iqxmlrpc::Value::~Value()'] = lambda E, st, a, rt, mod, dem: None
    X[ARR + '::push_back(iqxmlrpc::Value const&)'] = m_push
    E._mcache = {}


def setup_dr(c):
    p, i, q, d, m = manager(c)
    n = c.newstr(name='name')
    if c.variant == 'manager':
        d = p
    f = c.st.alloc(8, 'heap', 'factory')
    return [d, n, f]


def cases_dr(c, a):
    d = a[0] if c.variant != 'manager' else c.st.cell(c.st.cell(a[0].add(c.prog.off(MDM, 'impl_'))).add(c.prog.off(MDI, 'default_disp')))
    fs = d.add(c.prog.off(DMD, 'fs'))
    m, n = c.st.cell(fs), c.str(a[1])

    def post(E, s2, o):
        return [('the handler of this name is the one given, all others stay', replaced(s2.cell(fs), m, n, rid(E, s2, a[2])))]
    return [Case(True, any_frame=True, post=post)]


def replaced(m2, m, n, f):
    k = z3.Const(fresh_name('k'), STR)
    return z3.And(m2.has(n), z3.Select(m2.vals[0], n) == f, z3.ForAll([k], z3.Implies(k != n, z3.And(m2.has(k) == m.has(k), z3.Implies(m.has(k), z3.Select(m2.vals[0], k) == z3.Select(m.vals[0], k))))))


def setup_dc(c):
    p, i, q, d, m = manager(c)
    n = c.newstr(name='name')
    c.st.ghost['ev'] = ()
    header(c, RSP, 'error header')
    return [d, n]


def cases_dc(c, a):
    fs = a[0].add(c.prog.off(DMD, 'fs'))
    m, n = c.st.cell(fs), c.str(a[1])

    def post(E, s2, o):
        ev, ra = events(s2, 'factory'), events(s2, 'raise')
        k = z3.Const(fresh_name('k'), STR)
        m2 = s2.cell(fs)
        res = [('the registrations stay', z3.ForAll([k], z3.And(m2.has(k) == m.has(k), z3.Implies(m.has(k), z3.Select(m2.vals[0], k) == z3.Select(m.vals[0], k)))))]
        if o.kind == 'throw':
            return res + [('raises what the factory raised', bool(ra))]
        if ev:
            return res + [('made by the handler of this name', z3.And(m.has(n), ev[0][1] == z3.Select(m.vals[0], n), same_ptr(E, s2, o.val, ev[0][2]), z3.BoolVal(len(ev) == 1)))]
        return res + [('nothing exactly for an unknown name', z3.And(z3.Not(m.has(n)), same_ptr(E, s2, o.val, NULL)))]
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


def setup_dl(c):
    p, i, q, d, m = manager(c)
    st = c.st
    containers.enum(st, m)
    arr = st.alloc(c.prog.size(ARR), 'heap', 'result', ARR)
    st.ghost['array'] = arr
    st.ghost['listed'] = z3.Const(fresh_name('listed'), LST)
    st.ghost['ev'] = ()
    return [d, arr]


def cases_dl(c, a):
    m, l0 = c.st.cell(a[0].add(c.prog.off(DMD, 'fs'))), c.st.ghost['listed']

    def post(E, s2, o):
        en = containers.enum(s2, m)
        return [('every registered name once', s2.ghost['listed'] == z3.Concat(l0, FIRST(en.keys, en.n)))]
    return [Case(True, any_frame=True, post=post)]


# ---- introspection
def setup_ei(c):
    p, i, q, d, m = manager(c)
    return [p]


def cases_ei(c, a):
    d = c.st.cell(c.st.cell(a[0].add(c.prog.off(MDM, 'impl_'))).add(c.prog.off(MDI, 'default_disp')))
    fs = d.add(c.prog.off(DMD, 'fs'))
    m, n = c.st.cell(fs), sbytes('system.listMethods')

    def post(E, s2, o):
        m2 = s2.cell(fs)
        new = [i for i, b in s2.blocks.items() if i not in c.st.blocks and b.alive and b.size == E.prog.size(LMC) and b.kind == 'heap']
        if len(new) != 1:
            return [('one new factory', False)]
        f = Ptr(new[0], 0)
        return [('system.listMethods is registered, all others stay', replaced(m2, m, n, rid(E, s2, f))), ('for this manager', same_ptr(E, s2, s2.cell(f.add(E.prog.off(LMC, 'dmgr_'))), a[0]))]
    return [Case(True, any_frame=True, post=post)]


def setup_lf(c):
    st = c.st
    f = st.alloc(c.prog.size(LMC), 'heap', 'factory', LMC)
    g = st.alloc(8, 'heap', 'manager')
    st.put(f.add(c.prog.off(LMC, 'dmgr_')), 8, g)
    return [f]


def cases_lf(c, a):
    g = c.st.cell(a[0].add(c.prog.off(LMC, 'dmgr_')))

    def post(E, s2, o):
        b = s2.blocks.get(o.val.base) if isinstance(o.val, Ptr) else None
        return [('a method that lists this manager', same_ptr(E, s2, s2.cell(o.val.add(E.prog.off(LM, 'disp_manager_'))), g) if b is not None and b.alive and o.val.base not in c.st.blocks else False)]
    return [Case(True, any_frame=True, anyret=True, post=post)]


def m_varr(E, st, a, rt, mod, dem):
    emit(st, 'array value', a[0])


def m_vassign(E, st, a, rt, mod, dem):
    emit(st, 'assign', a[0], a[1])
    return a[0]


def m_thearr(E, st, a, rt, mod, dem):
    p = st.alloc(8, 'heap', 'array')
    emit(st, 'array of', a[0], p)
    return p


def m_mlist(E, st, a, rt, mod, dem):
    bad = st.fork()
    emit(st, 'list', a[0], a[1])
    return [_out(st, 'ret', None)] + raised(E, bad, 'dispatcher')


def lm_engine(E):
    base_engine(E)
    X = E.mexact
    nop = lambda E, st, a, rt, mod, dem: None
    X[ARR + '::Array()'] = X[ARR + '::~Array()'] = X['iqxmlrpc::Value::~Value()'] = nop
    X['iqxmlrpc::Value::Value(iqxmlrpc::Array const&)'] = m_varr
    X['iqxmlrpc::Value::operator=(iqxmlrpc::Value const&)'] = m_vassign
    X['iqxmlrpc::Value::the_array()'] = m_thearr
    X[MDM + '::get_methods_list(iqxmlrpc::Array&) const'] = m_mlist
    E._mcache = {}


def setup_le(c):
    st = c.st
    p = st.alloc(c.prog.size(LM), 'heap', 'list method', LM)
    g = st.alloc(8, 'heap', 'manager')
    st.put(p.add(c.prog.off(LM, 'disp_manager_')), 8, g)
    v, ps = st.alloc(16, 'heap', 'result'), st.alloc(24, 'heap', 'params')
    st.ghost['ev'] = ()
    header(c, RSP, 'error header')
    return [p, ps, v]


def cases_le(c, a):
    g = c.st.cell(a[0].add(c.prog.off(LM, 'disp_manager_')))

    def post(E, s2, o):
        if o.kind == 'throw':
            return [('raises what a dispatcher raised', bool(events(s2, 'raise')))]
        ev = events(s2)
        if [e[0] for e in ev] != ['array value', 'assign', 'array of', 'list']:
            return [('an empty array is assigned and filled once', False)]
        return [('the result is a new array', z3.And(same_ptr(E, s2, ev[1][1], a[2]), same_ptr(E, s2, ev[1][2], ev[0][1]))), ('the list of this manager in it', z3.And(same_ptr(E, s2, ev[2][1], a[2]), same_ptr(E, s2, ev[3][1], g), same_ptr(E, s2, ev[3][2], ev[2][2])))]
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


# ---- interceptors
def m_process(E, st, a, rt, mod, dem):
    emit(st, 'process', *a)
    bad = st.fork()
    return [_out(st, 'ret', None)] + raised(E, bad, 'interceptor')


def m_run(E, st, a, rt, mod, dem):
    emit(st, 'run', *a)
    bad = st.fork()
    return [_out(st, 'ret', None)] + raised(E, bad, 'method')


def m_pexec(E, st, a, rt, mod, dem):
    emit(st, 'next', *a)
    bad = st.fork()
    return [_out(st, 'ret', None)] + raised(E, bad, 'next')


def ic_engine(E):
    base_engine(E)
    X = E.mexact
    X[IC + '::process(iqxmlrpc::Method*, %s, iqxmlrpc::Value&)' % PL] = m_process
    X[METH + '::execute(%s, iqxmlrpc::Value&)' % PL] = m_run
    E._mcache = {}


def iy_engine(E):
    base_engine(E)
    E.mexact[METH + '::process_execution(iqxmlrpc::Interceptor*, %s, iqxmlrpc::Value&)' % PL] = m_pexec
    E._mcache = {}


def interceptor(c, name='interceptor'):
    st = c.st
    p = st.alloc(c.prog.size(IC), 'heap', name, IC)
    st.blocks[p.base].exact = None
    st.put(p, 8, Ptr(('vt', IC), 0))
    return p


def setup_pe(c):
    st = c.st
    m = method(c.E, st)
    ic = interceptor(c) if c.variant == 'interceptor' else NULL
    v, ps = st.alloc(16, 'heap', 'result'), st.alloc(24, 'heap', 'params')
    st.ghost['ev'] = ()
    header(c, RSP, 'error header')
    return [m, ic, ps, v]


def same_args(E, s2, e, args):
    if len(e) != len(args) + 1:
        return z3.BoolVal(False)
    return z3.And(*[same_ptr(E, s2, x, y) for x, y in zip(e[1:], args)])


def cases_pe(c, a):
    def post(E, s2, o):
        ev = events(s2)
        want, args = ('process', [a[1], a[0], a[2], a[3]]) if c.variant == 'interceptor' else ('run', [a[0], a[2], a[3]])
        if not ev or ev[0][0] != want or any(e[0] != 'raise' for e in ev[1:]):
            return [('exactly one step: the interceptor if there is one, else the method', False)]
        return [('exactly one step: the interceptor if there is one, else the method', same_args(E, s2, ev[0], args)), ('raises what that raised', (o.kind == 'throw') == bool(events(s2, 'raise')))]
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


def setup_iy(c):
    st = c.st
    i = interceptor(c)
    n = interceptor(c, 'nested') if c.variant == 'nested' else NULL
    st.put(i.add(c.prog.off(IC, 'nested')), 8, n)
    m = method(c.E, st)
    v, ps = st.alloc(16, 'heap', 'result'), st.alloc(24, 'heap', 'params')
    st.ghost['ev'] = ()
    header(c, RSP, 'error header')
    return [i, m, ps, v]


def cases_iy(c, a):
    n = c.st.cell(a[0].add(c.prog.off(IC, 'nested')))

    def post(E, s2, o):
        ev = events(s2)
        if not ev or ev[0][0] != 'next' or any(e[0] != 'raise' for e in ev[1:]):
            return [('the call is passed on once', False)]
        return [('the call is passed on once, to the nested interceptor', same_args(E, s2, ev[0], [a[1], n, a[2], a[3]])), ('raises what that raised', (o.kind == 'throw') == bool(events(s2, 'raise')))]
    return [Case(True, any_frame=True, anyret=True, anyway=True, post=post)]


def setup_pi(c):
    s, i, lev, mx = server(c)
    st = c.st
    old = interceptor(c, 'old') if c.variant == 'more' else NULL
    st.put(i.add(c.prog.off(IMPL, 'interceptors')), 8, old)
    new = interceptor(c, 'new')
    st.put(new.add(c.prog.off(IC, 'nested')), 8, NULL)
    return [s, new]


def cases_pi(c, a):
    i = c.st.cell(a[0].add(c.prog.off(SRV, 'impl')))
    old = c.st.cell(i.add(c.prog.off(IMPL, 'interceptors')))

    def post(E, s2, o):
        alive = all(s2.blocks[p.base].alive for p in (old, a[1]) if not p.isnull)
        return [('the new interceptor is outermost', same_ptr(E, s2, s2.cell(i.add(E.prog.off(IMPL, 'interceptors'))), a[1])), ('the old ones are nested in it', same_ptr(E, s2, s2.cell(a[1].add(E.prog.off(IC, 'nested'))), old)), ('none is freed', alive)]
    return [Case(True, any_frame=True, post=post)]


# ---- the server passes registrations on
def m_note(kind):
    def f(E, st, a, rt, mod, dem):
        emit(st, kind, *a)
    return f


def sv_engine(E):
    base_engine(E)
    X = E.mexact
    X[MDM + '::register_method(std::string const&, iqxmlrpc::Method_factory_base*)'] = m_note('register')
    X[MDM + '::push_back(iqxmlrpc::Method_dispatcher_base*)'] = m_note('push')
    X[MDM + '::enable_introspection()'] = m_note('introspection')
    E._mcache = {}


def setup_sv(n):
    def setup(c):
        s, i, lev, mx = server(c)
        c.st.ghost['ev'] = ()
        return [s] + [c.st.alloc(32, 'heap', 'argument') for k in range(n)]
    return setup


def cases_sv(kind):
    def cases(c, a):
        i = c.st.cell(a[0].add(c.prog.off(SRV, 'impl')))

        def post(E, s2, o):
            ev = events(s2)
            return [('passed on once', z3.And(z3.BoolVal(ev[0][0] == kind), same_args(E, s2, ev[0], [i.add(E.prog.off(IMPL, 'disp_manager'))] + a[1:])) if len(ev) == 1 else False)]
        return [Case(True, any_frame=True, post=post)]
    return cases


NOTE = ('Contracts on registration, on the search through the dispatchers, on the built-in dispatcher, on the method list and on interceptor nesting, discharged for any number of dispatchers, names and interceptors. '
        'The battery runs calls against real servers with several dispatchers and interceptors.')
# THEOREM: a chain of interceptors runs from the last pushed to the first, each once, then the method once (each step by process_execution and yield)
ASSUME = ['dispatchers, factories, interceptors and methods are arbitrary: they return or raise any exception', 'no dispatcher is added twice and no null factory is registered', 'a value made from a text and added to an array is listed as that text (C03, C04)', 'memory allocation does not fail']


def replay(name, v):
    return ['chain 0', 'chain 1', 'chain 3', 'chain 3 stop 1', 'calls r:a,r:b,d:b+c,d:c+e', 'calls r:a,r:a,i,d:a', 'calls i', 'calls d:x,i,d:x', 'calls r:,d:+z']


def contracts(P):
    K = lambda n, s, cs, e, **k: Contract(n, s, cs, level='property', use=False, engine=e, **k)
    return [
        K(MDB + '::create_method(iqxmlrpc::Method::Data const&)', setup_bc, cases_bc, base_engine),
        K(MDM + '::create_method(iqxmlrpc::Method::Data const&)', setup_mc, cases_mc, mgr_engine),
        K(MDM + '::get_methods_list(iqxmlrpc::Array&) const', setup_ml, cases_ml, mgr_engine),
        K(MDM + '::push_back(iqxmlrpc::Method_dispatcher_base*)', setup_mp, cases_mp, mgr_engine),
        K(MDI + '::Impl()', setup_mi, cases_mi, mgr_engine),
        K(DMD + '::register_method(std::string const&, iqxmlrpc::Method_factory_base*)', setup_dr, cases_dr, def_engine),
        K(MDM + '::register_method(std::string const&, iqxmlrpc::Method_factory_base*)', setup_dr, cases_dr, def_engine, variants=['manager']),
        K(DMD + '::do_create_method(std::string const&)', setup_dc, cases_dc, def_engine),
        K(DMD + '::do_get_methods_list(iqxmlrpc::Array&) const', setup_dl, cases_dl, def_engine),
        K(MDM + '::enable_introspection()', setup_ei, cases_ei, def_engine),
        K(LMF + '::create()', setup_lf, cases_lf, def_engine),
        K(LM + '::execute(%s, iqxmlrpc::Value&)' % PL, setup_le, cases_le, lm_engine),
        K(METH + '::process_execution(iqxmlrpc::Interceptor*, %s, iqxmlrpc::Value&)' % PL, setup_pe, cases_pe, ic_engine, variants=['interceptor', 'none']),
        K(IC + '::yield(iqxmlrpc::Method*, %s, iqxmlrpc::Value&)' % PL, setup_iy, cases_iy, iy_engine, variants=['nested', 'last']),
        K(SRV + '::push_interceptor(iqxmlrpc::Interceptor*)', setup_pi, cases_pi, base_engine, variants=['first', 'more']),
        K(SRV + '::register_method(std::string const&, iqxmlrpc::Method_factory_base*)', setup_sv(2), cases_sv('register'), sv_engine),
        K(SRV + '::push_dispatcher(iqxmlrpc::Method_dispatcher_base*)', setup_sv(1), cases_sv('push'), sv_engine),
        K(SRV + '::enable_introspection()', setup_sv(0), cases_sv('introspection'), sv_engine),
    ]

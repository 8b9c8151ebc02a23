"""C21: the thread pool (executor.cc).

The code of every thread is verified on its own.  What a lock protects is unknown when the lock is taken (any other thread may have changed it, keeping
to the contract of the lock) and what was done to it is an obligation when the lock is given up."""
from ..core import *
from ..contract import *
from ..models import _out
from .. import models, containers, lockm
from ..events import emit, events
from ..sexec import same_ptr

F, PE, PT, EX = 'iqxmlrpc::Pool_executor_factory', 'iqxmlrpc::Pool_executor', 'iqxmlrpc::Pool_executor_factory::Pool_thread', 'iqxmlrpc::Executor'
METH, SRV, CONN = 'iqxmlrpc::Method', 'iqxmlrpc::Server', 'iqxmlrpc::Server_connection'
PL = 'std::vector<iqxmlrpc::Value, std::allocator<iqxmlrpc::Value>> const&'
TUS = ['executor.cc']
EXTRA = """#include "libiqxmlrpc/method.h"
struct emit_method: iqxmlrpc::Method { virtual void execute(const iqxmlrpc::Param_list&, iqxmlrpc::Value&); };
void emit_method::execute(const iqxmlrpc::Param_list&, iqxmlrpc::Value&) {}
void emit_use() { emit_method m; }
"""
containers.CUSTOM['iqxmlrpc::Value'] = (16, ((8, 8, 'ptr:'),))


def at(E, p, n, cls=F):
    return p.add(E.prog.off(cls, n))


def pool_of(st):
    return st.ghost['pool']


def k_of(E, st, n):
    return lockm.key(at(E, pool_of(st), n))


def flag(E, st):
    return B(st.cell(at(E, pool_of(st), 'in_destructor')))


def queue(E, st):
    return st.cell(at(E, pool_of(st), 'req_queue'))


def same_seq(q2, q, n, shift=0):
    j = z3.Int(fresh_name('j'))
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), q2.get(j) == q.get(j + shift)))


def some_flag(E, st):
    """shutdown may have been requested meanwhile, and is never taken back"""
    p, d = at(E, pool_of(st), 'in_destructor'), fbool('shutdown')
    st.assume(z3.Implies(flag(E, st), d))
    st.put(p, 1, d)


def calls(st, name='queue'):
    """any queued calls"""
    q = containers.fresh_seq(st, PE + '*', name)
    j = z3.Int(fresh_name('j'))
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I(q.size())), q.get(j) > 0), patterns=[q.get(j)]))
    return q


def note(st, *ev):
    if 'ev' in st.ghost:
        emit(st, *ev)


# ---- what the two locks protect
def on_acquire(E, st, k):
    if 'pool' not in st.ghost:
        return
    if k == k_of(E, st, 'req_queue_lock'):
        if st.ghost['role'] == 'alone':
            st.ghost['q0'] = queue(E, st)
            return
        q = calls(st)
        st.put(at(E, pool_of(st), 'req_queue'), 80, q)
        if st.ghost['role'] != 'owner':
            some_flag(E, st)
        st.ghost['q0'] = q
        note(st, 'lock')
    elif k == k_of(E, st, 'destructor_lock'):
        if st.ghost['role'] != 'owner':
            some_flag(E, st)


def on_release(E, st, k):
    if 'pool' not in st.ghost:
        return
    if k == k_of(E, st, 'req_queue_lock'):
        q, q0, role = queue(E, st), st.ghost['q0'], st.ghost['role']
        n, n0 = I(q.size()), I(q0.size())
        same = z3.And(n == n0, same_seq(q, q0, n0))
        if role == 'worker':
            own = st.ghost['own']
            took = z3.And(n == n0 - 1, n0 > 0, own == 0, same_seq(q, q0, n, 1))
            E.prove(st, z3.Or(same, took), 'a worker takes nothing or the call queued first', 'post')
            st.ghost['own'] = z3.simplify(z3.If(n == n0, own, q0.get(0)))
        elif role == 'caller':
            pushed = z3.And(n == n0 + 1, same_seq(q, q0, n0), q.get(n0) == st.ghost['call'])
            E.prove(st, z3.Or(same, pushed), 'a caller changes nothing or queues its call last', 'post')
            note(st, 'unlock', z3.simplify(n == n0 + 1))
        elif role != 'alone':
            E.prove(st, same, 'the queue is not changed', 'post')
            note(st, 'unlock', False)
        st.ghost['q0'] = 0
    elif k == k_of(E, st, 'destructor_lock'):
        note(st, 'flag', flag(E, st), k_of(E, st, 'req_queue_lock') in lockm.held(st))


def on_wait(E, st, cv, k):
    E.prove(st, cv == k_of(E, st, 'req_queue_cond') and k == k_of(E, st, 'req_queue_lock'), 'waits for the queue, with its lock', 'post')
    E.prove(st, st.ghost['own'] == 0, 'no call is kept while waiting', 'post')
    E.prove(st, I(queue(E, st).size()) == 0, 'waits only when nothing is queued', 'post')
    E.prove(st, z3.Not(flag(E, st)), 'waits only when no shutdown was requested, as seen since the queue was locked', 'post')


def on_notify(E, st, cv, kind):
    if cv == k_of(E, st, 'req_queue_cond'):
        note(st, 'notify', kind)


def rank(st, k):
    p = pool_of(st)
    return 0 if k == lockm.key(p.add(rank.q)) else 1


def guard(E, st, p):
    if 'pool' not in st.ghost or st.ghost['role'] in ('ctor', 'alone'):
        return
    r = pool_of(st)
    q = p.base[1] if isinstance(p.base, tuple) and len(p.base) > 1 and isinstance(p.base[1], Ptr) else p
    if q.base != r.base or not isinstance(q.off, int):
        return
    o, g = q.off, lambda n: E.prog.off(F, n)
    if g('req_queue') <= o < g('req_queue') + 80:
        E.prove(st, k_of(E, st, 'req_queue_lock') in lockm.held(st), 'the queue is accessed only under its lock', 'safety')
    elif o == g('in_destructor'):
        E.prove(st, k_of(E, st, 'destructor_lock') in lockm.held(st), 'the shutdown flag is accessed only under its lock', 'safety')


# ---- what the pool's code calls
def m_run(E, st, a, rt, mod, dem):
    """C12: the call is executed and answered"""
    lockm.free(E, st, 'while a method runs')
    p = I(E.val_to_leaf(st, a[0], 'ptr:'))
    E.prove(st, z3.And(st.ghost['own'] != 0, p == st.ghost['own']), 'only the call just taken is executed, and once', 'post')
    st.ghost['own'] = z3.IntVal(0)


def m_start(E, st, a, rt, mod, dem):
    E.prove(st, same_ptr(E, st, a[0], at(E, pool_of(st), 'threads')), "the thread belongs to the pool's threads", 'post')
    E.prove(st, same_ptr(E, st, a[-1], pool_of(st)), 'the worker serves this pool', 'post')
    if st.ghost['role'] == 'ctor':
        E.prove(st, z3.Not(flag(E, st)), 'the shutdown flag is clear before a worker starts', 'post')
        q = queue(E, st)
        E.prove(st, I(q.size()) == 0, 'the queue is empty before a worker starts', 'post')
    st.ghost['started'] = z3.simplify(st.ghost['started'] + 1)
    return NULL


def m_join(E, st, a, rt, mod, dem):
    lockm.free(E, st, 'while waiting for the workers')
    E.prove(st, same_ptr(E, st, a[0], at(E, pool_of(st), 'threads')), "the pool's threads are waited for", 'post')
    E.prove(st, woken(E, st), 'shutdown was requested and every worker notified before waiting for them', 'post')
    st.ghost['role'] = 'alone'
    st.ghost['left'] = calls(st)
    st.put(at(E, pool_of(st), 'req_queue'), 80, st.ghost['left'])
    emit(st, 'joined')


def freed(E, st, p, who, objs):
    ref = I(E.val_to_leaf(st, p, 'ptr:'))
    k, q = st.ghost[who], objs
    E.prove(st, z3.And(k < I(q.size()), ref == q.get(k)), '%s: every one is freed, once' % who, 'post')
    st.ghost[who] = z3.simplify(k + 1)


def on_delete(E, st, p):
    freed(E, st, p, 'workers', st.ghost['workers0'])


def m_pe_dead(E, st, a, rt, mod, dem):
    if not isinstance(a[0], SymPtr):
        raise Unsupported('destruction of a call')
    E.prove(st, st.ghost['role'] == 'alone', 'queued calls are freed after the workers ended', 'post')
    freed(E, st, a[0], 'queued', st.ghost['left'])


def woken(E, st):
    """after shutdown became visible the queue was locked, and everyone notified then or later"""
    seen = locked = False
    hold = False
    for e in events(st):
        if e[0] == 'flag':
            if E.must(st, e[1]):
                seen = True
                locked = locked or e[2]
        elif e[0] == 'lock':
            hold = True
            locked = locked or seen
        elif e[0] == 'unlock':
            hold = False
        elif e[0] == 'notify' and e[1] == 'all' and seen and locked:
            return True
        elif e[0] == 'closed':
            return True
    return False


def told(E, st):
    """someone is notified in the section that queued the call, or later"""
    n = pend = False
    pushed = 0
    for e in events(st):
        if e[0] == 'lock':
            pend = False
        elif e[0] == 'notify':
            pend = True
        elif e[0] == 'unlock' and E.must(st, B(e[1])):
            pushed += 1
            n = pend
        if pushed and e[0] == 'notify':
            n = True
    return pushed, n


def base(E):
    lockm.install(E)
    rank.q = E.prog.off(F, 'req_queue_lock')
    E.rank, E.on_acquire, E.on_release, E.on_wait, E.on_notify, E.guard, E.on_delete = rank, on_acquire, on_release, on_wait, on_notify, guard, on_delete
    X = E.mexact
    X['boost::thread_group::thread_group()'] = X['boost::thread_group::~thread_group()'] = lambda E, st, a, rt, mod, dem: None
    X['boost::thread* boost::thread_group::create_thread<%s>(%s)' % (PT, PT)] = m_start
    X['boost::thread_group::join_all()'] = m_join
    E._mcache = {}


def engine(E):
    base(E)
    X = E.mexact
    X[PE + '::process_actual_execution()'] = m_run
    X[PE + '::~Pool_executor()'] = m_pe_dead
    E._mcache = {}


# ---- states
def pool(c, role):
    st, E = c.st, c.E
    p = st.alloc(c.prog.size(F), 'heap', 'pool', F)
    st.blocks[p.base].exact = F
    c.prog.put_vptrs(E, st, p, F)
    st.ghost['pool'], st.ghost['role'] = p, role
    st.put(at(E, p, 'in_destructor'), 1, fbool('shutdown'))
    st.put(at(E, p, 'req_queue'), 80, calls(st))
    w, j = containers.fresh_seq(st, PT + '*', 'workers'), z3.Int(fresh_name('j'))
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I(w.size())), w.get(j) > 0), patterns=[w.get(j)]))
    st.put(at(E, p, 'pool'), 24, w)
    st.ghost['held'], st.ghost['q0'] = (), 0
    st.ghost['own'] = z3.IntVal(0)
    return p


def call(c):
    r = fint('call')
    c.st.assume(r > 0)
    return SymPtr(r, PE)


# ---- a worker
def setup_w(c):
    p = pool(c, 'worker')
    w = c.st.alloc(c.prog.size(PT), 'heap', 'worker', PT)
    c.st.put(at(c.E, w, 'id', PT), 4, c.E.fresh_of(c.st, ('i', 32), 'id'))
    c.st.put(at(c.E, w, 'pool', PT), 8, p)
    return [w]


def cases_w(c, a):
    def post(E, s2, o):
        return [('returns', o.kind == 'ret'), ('no lock is kept', not lockm.held(s2)), ('no call is kept', s2.ghost['own'] == 0), ('only when shutdown was requested', flag(E, s2))]
    return [Case(True, any_frame=True, anyway=True, post=post)]


# ---- queueing
def setup_r(c):
    p = pool(c, 'caller')
    c.st.ghost['ev'] = ()
    x = call(c)
    c.st.ghost['call'] = x.ref
    return [p, x]


def cases_r(c, a):
    def post(E, s2, o):
        n, t = told(E, s2)
        return [('returns', o.kind == 'ret'), ('no lock is kept', not lockm.held(s2)), ('the call is queued exactly once', n == 1), ('a worker is notified of it', t)]
    return [Case(True, any_frame=True, anyway=True, post=post)]


def setup_isd(c):
    p = pool(c, 'worker')
    if c.variant == 'queue locked':
        k = lockm.key(at(c.E, p, 'req_queue_lock'))
        c.st.ghost['held'] = (k,)
        c.st.ghost['q0'] = queue(c.E, c.st)
    return [p]


def cases_isd(c, a):
    h = lockm.held(c.st)

    def post(E, s2, o):
        return [('returns the flag', B(o.val) == flag(E, s2)), ('no lock is kept', lockm.held(s2) == h)]
    return [Case(True, any_frame=True, anyret=True, post=post)]


# ---- shutdown
def setup_ds(c):
    p = pool(c, 'owner')
    c.st.ghost['ev'] = ()
    return [p]


def cases_ds(c, a):
    def post(E, s2, o):
        return [('returns', o.kind == 'ret'), ('no lock is kept', not lockm.held(s2)), ('shutdown is requested', flag(E, s2)), ('every worker that saw no request is notified', woken(E, s2))]
    return [Case(True, any_frame=True, anyway=True, post=post)]


def setup_dtor(c):
    p = pool(c, 'owner')
    st = c.st
    st.ghost['ev'] = ()
    st.ghost['workers0'] = st.cell(at(c.E, p, 'pool'))
    st.ghost['workers'] = st.ghost['queued'] = z3.IntVal(0)
    return [p]


def cases_dtor(c, a):
    def post(E, s2, o):
        return [('returns', o.kind == 'ret'), ('no lock is kept', not lockm.held(s2)), ('the workers were waited for', len(events(s2, 'joined')) == 1),
                ('every worker object is freed', s2.ghost['workers'] == I(s2.ghost['workers0'].size())),
                ('every queued call is freed', s2.ghost['queued'] == I(s2.ghost['left'].size()) if 'left' in s2.ghost else False)]
    return [Case(True, any_frame=True, anyway=True, post=post)]


# ---- starting
def setup_at(c):
    p = pool(c, 'owner')
    c.st.ghost['started'] = z3.IntVal(0)
    n = c.E.fresh_of(c.st, ('i', 32), 'num')
    return [p, n]


def cases_at(c, a):
    v0 = c.st.cell(at(c.E, a[0], 'pool'))

    def post(E, s2, o):
        v = s2.cell(at(E, a[0], 'pool'))
        return [('returns', o.kind == 'ret'), ('no lock is kept', not lockm.held(s2)), ('as many workers are started as asked for', s2.ghost['started'] == I(a[1])),
                ('their objects are kept to be freed', I(v.size()) == I(v0.size()) + I(a[1])), ('those before are kept', same_seq(v, v0, I(v0.size())))]
    return [Case(True, any_frame=True, anyway=True, post=post)]


def setup_ct(c):
    st = c.st
    p = st.alloc(c.prog.size(F), 'heap', 'pool', F)
    st.ghost['pool'], st.ghost['role'] = p, 'ctor'
    st.ghost['held'], st.ghost['q0'], st.ghost['started'], st.ghost['own'] = (), 0, z3.IntVal(0), z3.IntVal(0)
    return [p, c.E.fresh_of(st, ('i', 32), 'num')]


def cases_ct(c, a):
    def post(E, s2, o):
        v = s2.cell(at(E, a[0], 'pool'))
        return [('returns', o.kind == 'ret'), ('no shutdown is requested', z3.Not(flag(E, s2))), ('as many workers are started as asked for', s2.ghost['started'] == I(a[1])), ('their objects are kept to be freed', I(v.size()) == I(a[1]))]
    return [Case(True, any_frame=True, anyway=True, post=post)]


# ---- the calls themselves
def m_reg(E, st, a, rt, mod, dem):
    """contract of register_executor: from here on the call belongs to the workers and may be gone any time"""
    E.deref_check(st, a[1], 'call')
    emit(st, 'registered', a[0], a[1], st.cell(at(E, a[1], 'params', PE)))
    st.wb(a[1].base).alive = False


def m_mdead(E, st, a, rt, mod, dem):
    E.deref_check(st, a[0], 'method')
    emit(st, 'method freed', a[0])
    if getattr(E, 'vslot_no', 0):
        st.wb(a[0].base).alive = False


def m_int(E, st, a, rt, mod, dem):
    emit(st, 'interrupt', a[0])


def call_engine(E):
    base(E)
    E.guard = E.on_delete = None
    X = E.mexact
    X[F + '::register_executor(%s*)' % PE] = m_reg
    X[METH + '::~Method()'] = m_mdead
    X[SRV + '::interrupt()'] = m_int
    E._mcache = {}


def obj(c, cls, name, abstract=False):
    o = c.st.alloc(c.prog.size(cls) if cls in c.prog.records else 64, 'heap', name, cls)
    if abstract:
        c.st.blocks[o.base].exact = None
        c.st.put(o, 8, Ptr(('vt', cls), 0))
    return o


def callobj(c):
    st, E = c.st, c.E
    e = obj(c, PE, 'call')
    st.blocks[e.base].exact = PE
    st.put(e, 8, c.prog.vptr_for(E, st, PE))
    for n, v in (('method', obj(c, METH, 'method', True)), ('interceptors', NULL), ('server', obj(c, SRV, 'server')), ('conn', obj(c, CONN, 'connection')), ('pool', obj(c, F, 'pool'))):
        st.put(at(E, e, n, PE), 8, v)
    st.put(at(E, e, 'params', PE), 24, containers.fresh_seq(st, 'iqxmlrpc::Value', 'old'))
    st.ghost['ev'] = ()
    return e


def setup_x(c):
    e = callobj(c)
    p = c.st.alloc(24, 'heap', 'params')
    c.st.put(p, 24, containers.fresh_seq(c.st, 'iqxmlrpc::Value', 'params'))
    return [e, p]


def cases_x(c, a):
    pl, want = c.st.cell(at(c.E, a[0], 'pool', PE)), c.st.cell(a[1])

    def post(E, s2, o):
        ev = events(s2, 'registered')
        out = [('returns', o.kind == 'ret'), ('queued exactly once', len(ev) == 1)]
        if len(ev) == 1:
            _, p, x, v = ev[0]
            out += [('in the pool of the call', same_ptr(E, s2, p, pl)), ('the call itself', same_ptr(E, s2, x, a[0])), ('with its parameters already in place', z3.And(I(v.size()) == I(want.size()), same_seq(v, want, I(want.size()))))]
        return out
    return [Case(True, any_frame=True, anyway=True, post=post)]


def setup_xd(c):
    return [callobj(c)]


def cases_xd(c, a):
    m, s = c.st.cell(at(c.E, a[0], 'method', PE)), c.st.cell(at(c.E, a[0], 'server', PE))

    def post(E, s2, o):
        i, f = events(s2, 'interrupt'), events(s2, 'method freed')
        return [('returns', o.kind == 'ret'), ('the server is woken up', bool(i) and same_ptr(E, s2, i[0][1], s)), ('the method is freed once', len(f) == 1 and same_ptr(E, s2, f[0][1], m))]
    return [Case(True, any_frame=True, anyway=True, post=post)]


def setup_cr(c):
    st = c.st
    st.ghost['ev'] = ()
    return [obj(c, F, 'pool'), obj(c, METH, 'method', True), obj(c, SRV, 'server'), obj(c, CONN, 'connection')]


def cases_cr(c, a):
    def post(E, s2, o):
        if o.kind != 'ret' or not isinstance(o.val, Ptr) or o.val.isnull:
            return [('returns a call', False)]
        g = lambda n: s2.cell(at(E, o.val, n, PE))
        return [('a call of its own kind', same_ptr(E, s2, s2.cell(o.val), E.prog.vptr_for(E, s2, PE)))] + [('%s as given' % n, same_ptr(E, s2, g(n), v)) for n, v in (('pool', a[0]), ('method', a[1]), ('server', a[2]), ('conn', a[3]))] + [('no interceptors yet', same_ptr(E, s2, g('interceptors'), NULL))]
    return [Case(True, any_frame=True, anyway=True, post=post)]


def cand(L):
    g0 = L.entry.ghost
    out = []
    if 'own' in g0:
        out.append(('nothing taken', lambda st: st.ghost['own'] == 0))
    if isinstance(g0.get('q0'), SeqV):
        out.append(('queue as locked', lambda st: z3.And(I(queue(L.E, st).size()) == I(st.ghost['q0'].size()), same_seq(queue(L.E, st), st.ghost['q0'], I(queue(L.E, st).size())))))
        def real(st):
            q, j = st.ghost['q0'], z3.Int(fresh_name('j'))
            return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < I(q.size())), q.get(j) > 0))
        out.append(('calls', real))
    if 'left' in g0:
        def rest(st):
            q, k, l = queue(L.E, st), st.ghost['queued'], g0['left']
            return z3.And(k >= 0, I(q.size()) + k == I(l.size()), same_seq(q, l, I(q.size()), k))
        out.append(('the rest is queued', rest))
    for w in ('started', 'workers', 'queued'):
        if w in g0:
            for n, g, x0 in L.ints:
                out.append(('%s counted by %s' % (w, n), lambda st, g=g, x0=x0, w=w: st.ghost[w] - I(g0[w]) == g(st) - x0))
                for n1, loc, v in L.seqs:
                    out.append(('%s grows with %s' % (n1, n), lambda st, g=g, x0=x0, loc=loc, v=v: I(loc.get(st).size()) == I(v.size()) + g(st) - x0))
            for n1, loc, v in L.seqs:
                out.append(('%s keeps what it had' % n1, lambda st, loc=loc, v=v: same_seq(loc.get(st), v, I(v.size()))))
    return out


CANDS = [cand]


def contracts(P):
    K = lambda n, s, c, **k: Contract(n, s, c, level='property', use=False, **k)
    return [
        K(PT + '::operator()()', setup_w, cases_w),
        K(F + '::register_executor(%s*)' % PE, setup_r, cases_r),
        K(F + '::is_being_destructed()', setup_isd, cases_isd, variants=['free', 'queue locked']),
        K(F + '::destruction_started()', setup_ds, cases_ds),
        K(F + '::~Pool_executor_factory()', setup_dtor, cases_dtor),
        K(F + '::add_threads(unsigned int)', setup_at, cases_at),
        K(F + '::Pool_executor_factory(unsigned int)', setup_ct, cases_ct),
        K(PE + '::execute(%s)' % PL, setup_x, cases_x, engine=call_engine),
        K(PE + '::~Pool_executor()', setup_xd, cases_xd, engine=call_engine),
        K(F + '::create(iqxmlrpc::Method*, iqxmlrpc::Server*, iqxmlrpc::Server_connection*)', setup_cr, cases_cr, engine=call_engine),
    ]


SAN = 'thread'
NOTE = ('Contracts on the worker loop, on queueing, on both parts of shutdown, on starting workers and on the call objects. Each thread is verified on its own against what the two locks protect: '
        'everything protected is unknown when a lock is taken, and what was done to it is an obligation when the lock is given up. The battery runs real pools with random delays at every lock, built with ThreadSanitizer.')
# THEOREM: a call leaves the queue only by being taken by one worker, which executes it once, or by being freed after the workers ended
# THEOREM: a worker waits only after it saw, with the queue locked, that nothing is queued and no shutdown requested; both are announced with the queue locked later, so no announcement is missed
ASSUME = ['boost mutexes, condition variables and thread groups do what their documentation says; threads are not interrupted and thread creation does not fail',
          'executing a call answers and frees it (C12)', 'a pool is destroyed by one thread, after the last call was handed to it', 'memory allocation does not fail']


def replay(name, v):
    return ['order 20', 'many 4 3 40', 'inside 2', 'late 4 10', 'shut 4 40 1500', 'shut 0 5 0', 'idle 4 20 0', 'idle 1 20 1000']

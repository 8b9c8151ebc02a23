"""Locks and condition variables of boost.thread: which locks the code under proof holds is part of the state."""
import z3
from .core import *
from .models import _out
from .irparse import PTR

UL = r'boost::(unique_lock|lock_guard)<boost::mutex>'


def key(p):
    return (p.base, p.off if isinstance(p.off, int) else str(p.off))


def held(st):
    return st.ghost.get('held', ())


def acquire(E, st, m):
    E.deref_check(st, m, 'lock')
    k = key(m)
    E.prove(st, k not in held(st), 'a lock is not taken twice', 'safety')
    if E.rank is not None:
        E.prove(st, all(E.rank(st, h) < E.rank(st, k) for h in held(st)), 'locks are taken in one order', 'safety')
    st.ghost['held'] = held(st) + (k,)
    if E.on_acquire is not None:
        E.on_acquire(E, st, k)


def release(E, st, m):
    k = key(m)
    E.prove(st, k in held(st), 'only a held lock is released', 'safety')
    if E.on_release is not None:
        E.on_release(E, st, k)
    st.ghost['held'] = tuple(h for h in held(st) if h != k)


def ul_ctor(E, st, a, rt, mod, dem):
    st.put(a[0], 8, a[1])
    st.put(a[0].add(8), 1, z3.BoolVal(True))
    acquire(E, st, a[1])


def owns(st, p):
    v = st.cell(p.add(8))
    v = z3.simplify(B(v))
    if not (z3.is_true(v) or z3.is_false(v)):
        raise Unsupported('lock state unknown')
    return z3.is_true(v)


def ul_dtor(E, st, a, rt, mod, dem):
    if owns(st, a[0]):
        release(E, st, st.cell(a[0]))


def ul_unlock(E, st, a, rt, mod, dem):
    E.prove(st, owns(st, a[0]), 'only a held lock is released', 'safety')
    release(E, st, st.cell(a[0]))
    st.put(a[0].add(8), 1, z3.BoolVal(False))


def ul_lock(E, st, a, rt, mod, dem):
    E.prove(st, not owns(st, a[0]), 'a lock is not taken twice', 'safety')
    acquire(E, st, st.cell(a[0]))
    st.put(a[0].add(8), 1, z3.BoolVal(True))


def ul_owns(E, st, a, rt, mod, dem):
    return z3.BoolVal(owns(st, a[0]))


def mx_lock(E, st, a, rt, mod, dem):
    acquire(E, st, a[0])


def mx_unlock(E, st, a, rt, mod, dem):
    release(E, st, a[0])


def mx_dtor(E, st, a, rt, mod, dem):
    E.prove(st, key(a[0]) not in held(st), 'a lock is not destroyed while it is held', 'safety')


def cv_wait(E, st, a, rt, mod, dem):
    """the lock is given up while waiting and held again afterwards"""
    E.prove(st, owns(st, a[1]), 'the lock is held when waiting starts', 'safety')
    m = st.cell(a[1])
    E.prove(st, held(st) == (key(m),), 'no other lock is held while waiting', 'safety')
    if E.on_wait is not None:
        E.on_wait(E, st, key(a[0]), key(m))
    release(E, st, m)
    acquire(E, st, m)


def cv_notify(kind):
    def f(E, st, a, rt, mod, dem):
        E.deref_check(st, a[0], 'condition')
        if E.on_notify is not None:
            E.on_notify(E, st, key(a[0]), kind)
    return f


def free(E, st, what):
    """obligation: no lock is held here"""
    E.prove(st, not held(st), 'no lock is held ' + what, 'safety')


def install(E):
    X = E.mexact
    for c in ('unique_lock', 'lock_guard'):
        n = 'boost::%s<boost::mutex>::' % c
        X[n + c + '(boost::mutex&)'] = ul_ctor
        X[n + '~' + c + '()'] = ul_dtor
        X[n + 'unlock()'], X[n + 'lock()'], X[n + 'owns_lock() const'] = ul_unlock, ul_lock, ul_owns
    X['boost::mutex::lock()'], X['boost::mutex::unlock()'] = mx_lock, mx_unlock
    X['boost::mutex::mutex()'] = lambda E, st, a, rt, mod, dem: None
    X['boost::mutex::~mutex()'] = mx_dtor
    for c in ('condition_variable', 'condition_variable_any'):
        n = 'boost::%s::' % c
        X[n + c + '()'] = X[n + '~' + c + '()'] = lambda E, st, a, rt, mod, dem: None
        X[n + 'notify_one()'], X[n + 'notify_all()'] = cv_notify('one'), cv_notify('all')
    X['boost::condition_variable::wait(boost::unique_lock<boost::mutex>&)'] = X['void boost::condition_variable_any::wait<boost::unique_lock<boost::mutex>>(boost::unique_lock<boost::mutex>&)'] = cv_wait
    E._mcache = {}

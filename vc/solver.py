"""Validity queries: z3 in process, cvc5 as second back end."""
import time, z3, subprocess, os, tempfile

STATS = {'z3': 0, 'cvc5': 0, 'simplifier': 0}


def valid(pc, goal, timeout_ms):
    """-> (status, backend, model, reason) status in proved/refuted/unknown"""
    s = z3.Solver()
    s.set('timeout', min(timeout_ms, 6000))
    s.add(*pc)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
        return 'proved', 'z3', None, None
    if r == z3.sat:
        return 'refuted', 'z3', s.model(), None
    reason = s.reason_unknown()
    # the search is sensitive to the order of decisions: other seeds
    for seed in (7, 23, 101):
        u = z3.SimpleSolver()
        u.set('timeout', min(timeout_ms, 4000), 'random_seed', seed)
        u.add(*s.assertions())
        r = u.check()
        if r == z3.unsat:
            return 'proved', 'z3', None, None
        if r == z3.sat:
            return 'refuted', 'z3', u.model(), None
    # second back end
    r2 = cvc5_check(s, min(timeout_ms, 20000))
    if r2 == 'unsat':
        return 'proved', 'cvc5', None, None
    if r2 == 'sat':
        return 'refuted', 'cvc5', None, None
    if timeout_ms > 6000:
        s.set('timeout', timeout_ms)
        r = s.check()
        if r == z3.unsat:
            return 'proved', 'z3', None, None
        if r == z3.sat:
            return 'refuted', 'z3', s.model(), None
    return 'unknown', 'z3+cvc5', None, reason


def cvc5_check(s, timeout_ms):
    txt = s.to_smt2()
    txt = '(set-logic ALL)\n' + txt
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    try:
        f.write(txt)
        f.close()
        p = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % timeout_ms, f.name], capture_output=True, text=True,
                           timeout=timeout_ms / 1000 + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout else ''
        if os.environ.get('VC_DEBUG') and out not in ('sat', 'unsat'):
            print('cvc5:', p.stdout[:300], p.stderr[:300])
        return out
    except Exception as e:
        return 'error'
    finally:
        os.unlink(f.name)

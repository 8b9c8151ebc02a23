"""One check: verify the contracts of a property on the current tree, replay what fails, write the evidence."""
import os, sys, time, json, importlib, subprocess, traceback, multiprocessing as mp, signal, re, shutil
import z3
from . import prog as PG, build as BLD, models, solver
from .core import *
from .engine import Engine
from .contract import Contract, Lemma, Ctx

ROOT = BLD.ROOT
EXIT_ERR = 2
LIMIT = 600        # seconds after which the proofs end
GRACE = 40         # seconds left to the proofs once there is a failing input


def setup_engine(P, mod, contracts, opts, own=None):
    E = Engine(P, dict(opts))
    models.install(E)
    for k in contracts:
        if not getattr(k, 'use', True):
            continue
        for n in k.names:
            E.contracts[n] = k
    if own is not None or hasattr(mod, 'engine'):
        (own or mod.engine)(E)
    return E


def model_inputs(o, inputs):
    """concrete values of the function's inputs from the solver's counterexample (preferring short ones)"""
    if o.model is None or not inputs:
        return None
    m = o.model
    try:
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*o.pc)
        s.add(z3.Not(o.goal))
        for lim in (4, 12, 40):
            s.push()
            for v in inputs.values():
                if is_sym(v) and z3.is_seq(v):
                    s.add(z3.Length(v) <= lim)
            if s.check() == z3.sat:
                m = s.model()
                break
            s.pop()
    except z3.Z3Exception:
        pass
    out = {}
    for k, v in inputs.items():
        try:
            out[k] = pyval(m.eval(v, model_completion=True)) if is_sym(v) else v
        except Exception:
            return None
        if out[k] is None:
            return None
    return out


def pyval(t):
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_bv_value(t):
        return t.as_long()
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    if z3.is_seq(t):
        bs = seq_bytes(t)
        return None if bs is None else bs.hex()
    return None


def seq_bytes(t):
    k = t.decl().kind()
    if k == z3.Z3_OP_SEQ_EMPTY:
        return b''
    if k == z3.Z3_OP_SEQ_UNIT:
        a = t.arg(0)
        return bytes([a.as_long()]) if z3.is_bv_value(a) else None
    if k == z3.Z3_OP_SEQ_CONCAT:
        r = b''
        for i in range(t.num_args()):
            x = seq_bytes(t.arg(i))
            if x is None:
                return None
            r += x
        return r
    return None


def verify_one(P, mod, allc, name, disabled, budget, opts, bounded=0):
    """runs in a forked worker"""
    t0 = time.time()
    c = next(k for k in allc if k.name == name)
    use = [k for k in allc if k.name not in disabled and k is not c]
    res = {'name': name, 'obls': [], 'undecided': None, 'level': c.level}
    E = None
    try:
        if isinstance(c, Lemma):
            E = Engine(P, dict(opts))
            obs = c.verify(E, budget)
        else:
            E = setup_engine(P, mod, use + ([c] if c.recursive else []), opts, c.engine)
            if bounded:
                E.bounded = True
                E.unroll = bounded
            c.dflt_cands = getattr(mod, 'CANDS', [])
            obs = c.verify(E, budget)
    except Unsupported as e:
        res['undecided'] = str(e)[:500]
        obs = E.obls if E else []
    except z3.Z3Exception as e:
        res['undecided'] = 'solver interface: ' + str(e)[:300]
        obs = E.obls if E else []
    except RecursionError:
        res['undecided'] = 'recursion limit'
        obs = E.obls if E else []
    except (AssertionError, KeyError, AttributeError, TypeError, IndexError, ValueError, NotImplementedError) as e:
        res['undecided'] = 'verifier: %s: %s' % (type(e).__name__, str(e)[:300])
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        obs = E.obls if E else []
    for o in obs:
        d = {'name': o.name, 'kind': o.kind, 'status': o.status, 'backend': o.backend, 'time': round(o.time or 0, 4), 'line': o.line}
        if o.status != 'proved':
            d['reason'] = str(o.reason)[:300] if o.reason else None
            d['taint'] = list(o.taint or [])
            d['trail'] = [str(x) for x in (o.trail or [])[-25:]]
            if o.model is not None:
                d['inputs'] = model_inputs(o, getattr(E, 'last_inputs', {}))
        res['obls'].append(d)
    if E:
        res.update(models=dict(E.used_models), contracts=dict(E.used_contracts), inlined=dict(E.inlined), solver_time=round(E.solver_time, 2),
                   queries=E.nqueries, invariants=[(a, b, list(c2), r) for a, b, c2, r in E.inv_log], cut=E.bounded_cut)
    res['wall'] = round(time.time() - t0, 2)
    return res


def worker(q, args):
    try:
        r = verify_one(*args)
    except BaseException as e:
        r = {'name': args[3], 'obls': [], 'undecided': 'worker failed: %r' % (e,), 'level': '?', 'wall': 0}
    q.put(r)


def run_jobs(jobs, limit, ncpu=8, stop=None):
    """jobs: list of verify_one argument tuples; each in its own process with a hard time limit; all of them end when stop() says so"""
    ctx = mp.get_context('fork')
    out, pend, live = {}, list(jobs), []
    while pend or live:
        while pend and len(live) < ncpu:
            a = pend.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=worker, args=(q, a))
            p.start()
            live.append((p, q, a, time.time()))
        time.sleep(0.02)
        if stop and stop():
            for p, q, a, t in live:
                if not q.empty():
                    out[a[3]] = q.get()
                p.kill()
                p.join()
            for a in [x[2] for x in live] + pend:
                out.setdefault(a[3], {'name': a[3], 'obls': [], 'undecided': 'not finished when the check ended', 'level': '?', 'wall': 0})
            return out
        nl = []
        for p, q, a, t in live:
            if not q.empty():
                out[a[3]] = q.get()
                p.join(5)
                if p.is_alive():
                    p.kill()
                continue
            if not p.is_alive() and q.empty():
                out[a[3]] = {'name': a[3], 'obls': [], 'undecided': 'verifier process ended without a result', 'level': '?', 'wall': time.time() - t}
                continue
            if time.time() - t > limit:
                p.kill()
                p.join()
                out[a[3]] = {'name': a[3], 'obls': [], 'undecided': 'hard time limit', 'level': '?', 'wall': time.time() - t}
                continue
            nl.append((p, q, a, t))
        live = nl
    return out


def ok(r):
    if r.get('elsewhere'):
        return True
    return not r['undecided'] and r['obls'] and all(o['status'] == 'proved' for o in r['obls'])


def known_findings(pid):
    f = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    out = []
    if os.path.exists(f):
        for l in open(f):
            if l.startswith('KNOWN-FINDING: property=%s ' % pid):
                out.append(l.strip())
    return out


def run_driver(exe, args, timeout):
    env = dict(os.environ)
    try:
        r = subprocess.run(['timeout', '-k', '5', str(timeout), exe] + args, capture_output=True, text=True, errors='replace', env=env, cwd='/tmp')
    except Exception as e:
        return None, 'driver could not be run: %r' % e, ''
    return r.returncode, r.stdout, r.stderr


def parse_fails(out):
    fs = []
    lines = out.split('\n')
    for i, l in enumerate(lines):
        if l.startswith('FAIL '):
            fs.append((l[5:], lines[i + 1].strip() if i + 1 < len(lines) else ''))
    return fs


def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module('vc.props.' + pid.lower())
    budget = getattr(mod, 'BUDGET', 200) * (3 if tier == 'thorough' else 1)
    opts = dict(getattr(mod, 'OPTS', {}))
    work = os.path.join(BLD.BUILD, 'ir-%s-%d' % (pid, os.getpid()))
    try:
        return main_(pid, mod, tier, seed, budget, opts, work, t0)
    except PG.ExtractError as e:
        print('check %s: the sources cannot be extracted: %s' % (pid, str(e)[:2000]))
        return EXIT_ERR
    except BLD.BuildError as e:
        print('check %s: %s' % (pid, str(e)[:3000]))
        return EXIT_ERR
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main_(pid, mod, tier, seed, budget, opts, work, t0):
    drv = getattr(mod, 'DRIVER', pid.lower())
    ctx = mp.get_context('fork')
    # the driver is built while the proofs run
    bq, rq = ctx.SimpleQueue(), ctx.SimpleQueue()
    tmo = getattr(mod, 'BATTERY_T', 120) * (4 if tier == 'thorough' else 1)

    def bld():
        try:
            exe = BLD.build_driver(drv, san=getattr(mod, 'SAN', True))
        except BaseException as e:
            bq.put(('err', str(e)))
            return
        bq.put(('ok', exe))
        lit = BLD.write_literals(drv)
        os.environ['VERIF_LITERALS'] = lit
        r = run_driver(exe, ['battery', str(seed), tier], tmo)
        os.unlink(lit)
        rq.put(r)
    bp = None
    if drv:
        bp = ctx.Process(target=bld)
        bp.start()
    P = PG.Program(mod.TUS, work, extra=getattr(mod, 'EXTRA', ''))
    allc = mod.contracts(P)
    early = {}

    def stop():
        """the battery has a failing input and the proofs had their time, or time is up"""
        if bp and 'res' not in early and not rq.empty():
            early['res'] = rq.get()
            if parse_fails(early['res'][1]):
                early['at'] = time.time()
        now = time.time()
        return now - t0 > LIMIT * (4 if tier == 'thorough' else 1) or ('at' in early and now - max(early['at'], t0 + 20) > GRACE)
    names = [c.name for c in allc]
    missing = [c.name for c in allc if not isinstance(c, Lemma) and not any(P.fn_by_dem(n) for n in c.names)]
    disabled = set(missing)
    results = {n: {'name': n, 'obls': [], 'undecided': 'no function of this name in the current tree', 'level': next(c for c in allc if c.name == n).level, 'wall': 0} for n in missing}
    ext = {c.name: c.elsewhere for c in allc if getattr(c, 'elsewhere', None)}
    results.update({n: {'name': n, 'obls': [], 'undecided': None, 'elsewhere': k, 'level': 'lemma', 'wall': 0} for n, k in ext.items() if n not in disabled})
    todo = [n for n in names if n not in disabled and n not in ext]
    hard = budget + 60
    # dependencies first matter little: every contract is used by its callers while it is itself being proved
    for rnd in range(4):
        r = run_jobs([(P, mod, allc, n, frozenset(disabled), budget, opts) for n in sorted(todo, key=lambda n: -getattr(next(c for c in allc if c.name == n), 'weight', 1))], hard, stop=stop)
        results.update(r)
        bad = {n for n in names if not ok(results[n])}
        newbad = bad - disabled
        if not newbad:
            break
        disabled |= newbad
        # callers that relied on a contract that does not hold are redone with the body in line
        todo = [n for n in names if n not in bad and n not in ext and any(d in (results[n].get('contracts') or {}) for c in allc if c.name in disabled for d in c.names)]
        if rnd == 0:
            # property-level contracts that failed while relying on a failed helper contract get a second chance too
            todo += [n for n in newbad if any(d in (results[n].get('contracts') or {}) for c in allc if c.name in disabled and c.name != n for d in c.names)]
            todo = list(dict.fromkeys(todo))
        if not todo or time.time() - t0 > 450 or 'at' in early:
            break
        for n in todo:
            disabled.discard(n) if n in newbad and False else None
    failed = [n for n in names if not ok(results[n]) and next(c for c in allc if c.name == n).level == 'property']
    dropped = [n for n in names if not ok(results[n]) and n not in failed]
    # ---- driver
    exe = None
    if bp:
        st, exe = bq.get()
        if st != 'ok':
            bp.join()
            raise BLD.BuildError(exe)
        if 'res' not in early:
            early['res'] = rq.get()
        bp.join()
    cases, bnd = [], {}
    if failed and 'at' not in early:
        bjobs = [(P, mod, allc, n, frozenset(disabled), 60, dict(opts, timeout=8000), getattr(mod, 'UNROLL', 5)) for n in failed]
        bnd = run_jobs(bjobs, 100)
        for n in failed:
            for rr in (results[n], bnd.get(n)):
                if not rr:
                    continue
                for o in rr['obls']:
                    if o['status'] == 'refuted' and o.get('inputs') is not None and hasattr(mod, 'replay'):
                        try:
                            cs = mod.replay(n, o['inputs'])
                        except Exception as e:
                            cs = []
                        for x in cs or []:
                            if x not in cases:
                                cases.append(x)
                        # the real code gets this very input below: without a failure there the refutation stems from an over-approximation
                        o['replayed'] = bool(cs) and all(x in cases[:400] for x in cs)
    fails, batt = [], {}
    replay_dir = os.path.join(ROOT, 'replays')
    if exe:
        os.makedirs(replay_dir, exist_ok=True)
        if cases:
            cf_ = os.path.join(work, 'cases')
            open(cf_, 'w').write('\n'.join(cases[:400]) + '\n')
            rc, out, err = run_driver(exe, ['case', cf_], 60)
            fails += [(a, b, 'counterexample of the verifier') for a, b in parse_fails(out)]
            if rc not in (0, 1) and not fails:
                fails += [('(case file)', 'driver ended with status %s' % rc, 'counterexample of the verifier')] if rc and rc != 124 and rc != 3 else []
        rc, out, err = early['res']
        m = re.search(r'DONE (.*)', out)
        batt = {'summary': m.group(1) if m else None, 'rc': rc}
        bf = parse_fails(out)
        fails += [(a, b, 'directed search') for a, b in bf]
        if not m and not bf:
            print('check %s: the driver did not finish (status %s)\n%s\n%s' % (pid, rc, out[-800:], err[-1500:]))
            return EXIT_ERR
        if err.strip() and bf:
            batt['stderr'] = err[-3000:]
    kf = known_findings(pid)
    kept = []
    for f in fails:
        key = re.match(r'\[known:([\w-]+)\]', f[1])
        if key and any(('[' + key.group(1) + ']') in l for l in kf):
            continue
        kept.append(f)
    fails = kept
    for l in kf:
        print(l)
    # ---- verdict
    clean = []
    for n in failed:
        for src in (results[n], bnd.get(n)):
            if not src:
                continue
            for o in src['obls']:
                if o['status'] == 'refuted' and not o.get('taint') and not o.get('replayed') and o['kind'] in ('post', 'frame', 'pre', 'safety') and not getattr(mod, 'NO_CLEAN', False):
                    clean.append((n, o))
    verdict = 0
    if fails or clean:
        verdict = 1
        path = os.path.join(replay_dir, '%s.txt' % pid)
        os.makedirs(replay_dir, exist_ok=True)
        with open(path, 'w') as f:
            f.write('# property %s  (rerun: cd /verif && bin/replay %s %s)\n' % (pid, pid, path))
            for a, b, c in fails[:20]:
                f.write('# found by: %s\n# %s\n%s\n' % (c, b, a))
            f.write('#\n# obligations of the unchanged contracts that the current tree does not meet:\n')
            for n in failed:
                f.write('# %s\n' % n)
                for src, tag in ((results[n], 'unbounded'), (bnd.get(n), 'bounded to %d iterations' % getattr(mod, 'UNROLL', 5))):
                    if not src:
                        continue
                    if src['undecided']:
                        f.write('#   [%s] undecided: %s\n' % (tag, src['undecided']))
                    for o in src['obls']:
                        if o['status'] != 'proved':
                            f.write('#   [%s] %s: %s (line %s, %s)%s\n' % (tag, o['status'], o['name'], o['line'], o['backend'], '' if not o.get('taint') else ' after over-approximation'))
                            if o.get('inputs'):
                                f.write('#       inputs: %s\n' % json.dumps(o['inputs']))
                            if o['status'] == 'refuted':
                                f.write('#       path: %s\n' % ' '.join(o.get('trail') or []))
            if batt.get('stderr'):
                f.write('# driver stderr:\n' + ''.join('#   ' + l + '\n' for l in batt['stderr'].split('\n')[:60]))
        if fails:
            print('%s: %s -> %s' % (fails[0][2], fails[0][0][:300], fails[0][1][:600]))
            for n in failed:
                for o in results[n]['obls']:
                    if o['status'] == 'refuted':
                        print('failed obligation: %s (line %s)' % (o['name'], o['line']))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        else:
            n, o = clean[0]
            print('failed obligation: %s (line %s)' % (o['name'], o['line']))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
    write_evidence(pid, mod, tier, seed, allc, results, failed, dropped, disabled, bnd, batt, fails, clean, t0, P, verdict)
    pr = sum(1 for n in names for o in results[n]['obls'] if o['status'] == 'proved')
    print('check %s: %d contracts, %d obligations discharged, %d contract(s) not proved%s, %s, %.0f s' % (
        pid, len(names), pr, len(failed), (' (bounded stand-in: %s)' % ', '.join(failed)) if failed and not verdict else '', batt.get('summary'), time.time() - t0))
    for n in failed + dropped:
        print('  not proved: %s: %s' % (n, results[n]['undecided'] or '; '.join(o['name'] + ' ' + o['status'] for o in results[n]['obls'] if o['status'] != 'proved')[:400]))
    return verdict


def write_evidence(pid, mod, tier, seed, allc, results, failed, dropped, disabled, bnd, batt, fails, clean, t0, P, verdict):
    fns, tot, dis, back, st = [], 0, 0, {}, 0.0
    asm = set()
    given = []
    for c in allc:
        r = results[c.name]
        if r.get('elsewhere'):
            given.append('contract of %s, discharged by check %s' % (c.name, r['elsewhere']))
            continue
        n = len(r['obls'])
        d = sum(1 for o in r['obls'] if o['status'] == 'proved')
        good = ok(r)
        if good:
            tot += n
            dis += d
        elif c.level == 'property':
            tot += max(n, 1)
            dis += d
        st += r.get('solver_time', 0)
        for o in r['obls']:
            if o['status'] == 'proved':
                back[o['backend']] = back.get(o['backend'], 0) + 1
        fns.append({'function': c.name, 'role': c.level, 'kind': 'lemma' if isinstance(c, Lemma) else 'contract', 'status': 'proved' if good else 'not proved (%s)' % (r['undecided'] or 'obligation failed'),
                    'obligations': n, 'discharged': d, 'solver_s': r.get('solver_time', 0), 'wall_s': r['wall'],
                    'loop_invariants': [{'line': b, 'function': a, 'inductive': i, 'rounds': k} for a, b, i, k in r.get('invariants', [])],
                    'verified_with_body_in_line': sorted(x for x in r.get('inlined', {}) if 'iqxmlrpc' in x or 'iqnet' in x)})
        for m in r.get('models', {}):
            asm.add(m)
    level = getattr(mod, 'LEVEL', 'proof')
    if failed and level == 'proof':
        level = 'other'
    cov = {'obligations': tot, 'discharged': dis, 'checker_cmd': 'bin/check ' + pid,
           'trusted_base': ['clang 18 -O0 -emit-llvm front end (C++ to LLVM IR)', 'vc/ (IR semantics, verification condition generator, loop invariant inference)', 'z3 5.3.2 / cvc5 1.1.2',
                            'assumed contracts of %d library functions (listed under assumptions)' % len(asm)],
           'functions': fns, 'obligations_by_back_end': back, 'solver_s': round(st, 1),
           'sources': P.src_hash,
           'bounded_cross_check': {'driver': 'replay/%s.cc' % getattr(mod, 'DRIVER', pid.lower()), 'result': batt.get('summary'), 'label': 'bounded, never counted as proved'},
           'bounded_stand_in_for': list(getattr(mod, 'BOUNDED', [])) + failed,
           'helper_contracts_not_used': dropped}
    if level != 'proof':
        n = 0
        m = re.search(r'cases=(\d+)', batt.get('summary') or '')
        cov['evaluations'] = int(m.group(1)) if m else 0
        cov['explanation'] = 'functions not proved on this tree were covered by the bounded stand-in only: ' + ', '.join(failed) if failed else getattr(mod, 'EXPLAIN', '')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - t0, 1),
          'assumptions': list(getattr(mod, 'ASSUME', [])) + given + ['library contract: ' + a for a in sorted(asm)], 'violations': len(fails) if fails else (1 if clean else 0)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    p = os.path.join(ROOT, 'evidence', pid + '.json')
    open(p + '.tmp', 'w').write(json.dumps(ev, indent=1))
    os.replace(p + '.tmp', p)


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1])
    except BaseException as e:
        traceback.print_exc()
        rc = EXIT_ERR
    sys.exit(rc)

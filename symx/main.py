"""check driver:  main.py PROPERTY [--tier quick|thorough] [--replay FILE]
[--only SUBSTR] [-v] [--inproc]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')


def setup_path():
    sys.dont_write_bytecode = True
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
    sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    z3p = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    sys.path.append(z3p)
    import z3    # noqa
    sys.path.remove(z3p)


def load_known(pid):
    known = {}
    fn = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'):
                continue
            d = json.loads(line)
            if d.get('property') == pid:
                known.setdefault(d['harness'], {})[d['key']] = d['what']
    return known


def _child(conn, name, fn, opts, known, tier):
    try:
        import resource
        gb = opts.get('mem_gb', 6)
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        from symx.runner import run_harness
        r = run_harness(name, fn, opts, known, tier)
    except BaseException:
        r = dict(name=name, violations=[], known=[], notes=[], mismatches=[],
                 undecided=['worker failure: ' + traceback.format_exc()],
                 reached=[], complete=False, wall_s=0, stats={}, funcs=[],
                 bounds='')
    conn.send(r)
    conn.close()
    os._exit(0)


def run_pool(tasks, known, tier, jobs, verbose=False):
    mctx = mp.get_context('fork')
    pending = list(tasks)
    running = {}
    results = []
    while pending or running:
        while pending and len(running) < jobs:
            name, fn, opts = pending.pop(0)
            a, b = mctx.Pipe(duplex=False)
            p = mctx.Process(target=_child, args=(
                b, name, fn, opts, list(known.get(name, {})), tier))
            p.start()
            b.close()
            lim = opts.get('budget_s', 100 if tier == 'quick' else 780)
            running[a] = (p, name, time.time() + lim * 1.5 + 60)
        ready = mp.connection.wait(list(running), timeout=1.0)
        for a in ready:
            p, name, _ = running.pop(a)
            try:
                r = a.recv()
            except EOFError:
                r = dict(name=name, violations=[], known=[], notes=[],
                         mismatches=[], undecided=['worker died'], reached=[],
                         complete=False, wall_s=0, stats={}, funcs=[],
                         bounds='')
            p.join()
            results.append(r)
            if verbose:
                report(r)
        now = time.time()
        for a, (p, name, lim) in list(running.items()):
            if now > lim:
                p.terminate()
                p.join(5)
                if p.is_alive():
                    p.kill()
                running.pop(a)
                results.append(dict(
                    name=name, violations=[], known=[], notes=[],
                    mismatches=[], undecided=['worker timed out'], reached=[],
                    complete=False, wall_s=0, stats={}, funcs=[], bounds=''))
    return results


def report(r):
    s = r['stats']
    print('%-34s %s paths=%s branches=%s checks=%s queries=%s '
          'validated=%s pins=%s %.1fs solver=%.1fs%s%s%s' % (
              r['name'], 'VIOL' if r['violations'] else
              'UNDEC' if r['undecided'] else
              'ok' if r['complete'] else 'bounded',
              s.get('paths'), s.get('branches'), s.get('checks'),
              s.get('queries'), s.get('validated'), s.get('concretized'),
              r['wall_s'], s.get('solver_s', 0),
              ' KNOWN%s' % sorted(set(r['known'])) if r['known'] else '',
              ' MISMATCH%s' % r['mismatches'][:2] if r['mismatches'] else '',
              ' NOTE%s' % r['notes'][:2] if r['notes'] else ''))
    for v in r['violations']:
        print('   VIOLATED %s | %s\n   %s\n   ops=%s\n   values=%s' % (
            v['key'], v['msg'], v['detail'], v['ops'][-10:],
            str(v['values'])[:600]))
    seen = set()
    for u in r['undecided']:
        if u.split(chr(10))[0] not in seen:
            seen.add(u.split(chr(10))[0])
            if len(seen) < 3:
                print('   UNDECIDED %s' % u.replace(chr(10), chr(10) + '   '))
    sys.stdout.flush()


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--inproc', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args(argv)
    setup_path()
    t0 = time.time()
    pid = a.prop
    mod = None
    try:
        import mdp
        import bimdp
        assert os.path.realpath(mdp.__file__).startswith(
            os.path.realpath(REPO) + '/'), mdp.__file__
        for fn in sorted(os.listdir(os.path.join(VERIF, 'checks'))):
            if fn.startswith(pid.lower() + '_') and fn.endswith('.py'):
                mod = importlib.import_module('checks.' + fn[:-3])
        if mod is None:
            print('no check for %s' % pid)
            return 2
    except Exception:
        traceback.print_exc()
        return 2
    known = load_known(pid)
    tasks = mod.harnesses(a.tier)
    if a.only:
        tasks = [t for t in tasks if a.only in t[0]]
    if a.replay:
        return replay(a.replay, mod, tasks, known)
    if a.inproc:
        from symx.runner import run_harness
        res = []
        for n, f, o in tasks:
            r = run_harness(n, f, o, list(known.get(n, {})), a.tier)
            report(r)
            res.append(r)
    else:
        # long ones first
        tasks.sort(key=lambda t: -t[2].get('weight', 1))
        res = run_pool(tasks, known, a.tier, a.j, a.v)
    return finish(pid, mod, a, res, known, t0, len(tasks))


def replay(fn, mod, tasks, known):
    from fractions import Fraction
    from symx import runner
    d = json.load(open(fn))
    v = d['violation']
    vals = {}
    for k, s in v['values'].items():
        if s in ('True', 'False'):
            vals[k] = s == 'True'
        else:
            f = Fraction(s)
            vals[k] = f
    for n, f, o in tasks:
        if n == d['harness']:
            r, info, C = runner._run_concrete(f, vals, o)
            print('replay of %s: %s %s %s' % (
                n, r, getattr(info, 'msg', info),
                getattr(info, 'detail', '')))
            print('history: %s' % C.ops)
            return 1 if r in ('violation', 'exc') else 0
    print('harness %s not found' % d['harness'])
    return 2


def finish(pid, mod, a, res, known, t0, ntasks):
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    viol = []
    for r in res:
        for v in r['violations']:
            path = os.path.join(ev, '%s.%s.replay.json' % (
                pid, r['name'].replace('/', '_')))
            with open(path, 'w') as f:
                json.dump(dict(property=pid, harness=r['name'], tier=a.tier,
                               violation=v), f, indent=1)
            viol.append((r, v, path))
    tot = {}
    for r in res:
        for k, x in r['stats'].items():
            if isinstance(x, (int, float)):
                tot[k] = tot.get(k, 0) + x
    funcs = sorted(set(tuple(x) for r in res for x in r['funcs']))
    domain = sorted(set(x for r in res for x in r['stats'].get('domain', [])))
    und = [(r['name'], u) for r in res for u in r['undecided']]
    inc = [r['name'] for r in res if not r['complete']
           and not r['violations'] and not r['undecided']]
    samples = []
    for r in res:
        samples.append(dict(
            harness=r['name'], paths=r['stats'].get('paths', 0),
            branches=r['stats'].get('branches', 0),
            assertions=r['stats'].get('checks', 0),
            queries=r['stats'].get('queries', 0),
            solver_s=round(r['stats'].get('solver_s', 0), 3),
            exhaustive=bool(r['complete']), bounds=r['bounds'],
            reached=r['reached'],
            witnesses_validated=r['stats'].get('validated', 0)))
    cov = dict(
        states=tot.get('paths', 0) + tot.get('branches', 0),
        transitions=max(1, tot.get('branches', 0) + tot.get('checks', 0)),
        traces_validated_against_impl=tot.get('validated', 0) +
        tot.get('replayed', 0),
        samples=samples,
        paths=tot.get('paths', 0), branch_decisions=tot.get('branches', 0),
        assertions_discharged=tot.get('checks', 0),
        queries_discharged=tot.get('queries', 0),
        queries_sat=tot.get('sat', 0), queries_unsat=tot.get('unsat', 0),
        queries_unknown=tot.get('unknown', 0),
        discharged_by_normalisation=tot.get('simplified', 0),
        solver_seconds=round(tot.get('solver_s', 0.0), 3),
        concolic_pins=tot.get('concretized', 0),
        functions_encoded=['%s:%s' % f for f in funcs],
        bounds=getattr(mod, 'BOUNDS', ''),
        not_exhaustive=inc,
        undecided=['%s: %s' % (n, u[:300]) for n, u in und],
        model_mismatches=[m for r in res for m in r['mismatches']][:20])
    evd = dict(property=pid, tier=a.tier,
               seed=int(os.environ.get('VERIF_SEED', '0') or 0),
               level='model_checking', coverage=cov,
               wall_s=round(time.time() - t0, 2),
               assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) +
               ['arithmetic is exact real/integer arithmetic (no rounding, '
                'overflow or nan)'] + domain,
               violations=[dict(harness=r['name'], what=v['msg'],
                                replay=p) for r, v, p in viol])
    if not a.only:
        try:
            with open(os.path.join(ev, pid + '.json'), 'w') as f:
                json.dump(evd, f, indent=1, default=str)
        except Exception:
            traceback.print_exc()
    print('%s %s: %d harnesses, %d paths, %d assertions, %d queries '
          '(%.1fs solver), %d witnesses validated, %.1fs' % (
              pid, a.tier, len(res), tot.get('paths', 0),
              tot.get('checks', 0), tot.get('queries', 0),
              tot.get('solver_s', 0), tot.get('validated', 0),
              time.time() - t0))
    seen = set()
    for r in res:
        for k in sorted(set(r['known'])):
            if (r['name'], k) not in seen:
                seen.add((r['name'], k))
                print('KNOWN-FINDING: property=%s %s' % (
                    pid, known[r['name']][k]))
    for m in cov['model_mismatches'][:5]:
        print('MODEL-MISMATCH %s' % m)
    if inc:
        print('BOUNDED (path/time budget reached): %s' % inc)
    seen = set()
    for n, u in und:
        u = u.split(chr(10))[0]
        if (n, u) not in seen and len(seen) < 6:
            seen.add((n, u))
            print('UNDECIDED %s: %s' % (n, u))
    if viol:
        for r, v, p in viol:
            print('  %s: %s: %s %s' % (r['name'], v['key'], v['msg'],
                                       v['detail'][-400:]))
            print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if not und:
        return 0
    # what is undecided was not explored and is listed above and in the
    # evidence; without a majority of decided harnesses there is no answer
    bad = sum(1 for r in res if r['undecided'])
    if os.environ.get('SYMX_STRICT') or 2 * bad > len(res):
        return 2
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)

"""Command line: decide one property, or replay a counterexample.

  python -m vf.cli check <PROPERTY> <quick|thorough> [--only SCENARIO] [-v]
  python -m vf.cli replay <FILE>
"""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, 'evidence')
REPL = os.path.join(EVID, 'replays')


def load(pid):
    return importlib.import_module('checks.%s' % pid.lower())


def get_scenarios(pid, tier):
    mod = load(pid)
    sc = mod.scenarios(tier)
    names = [s.name for s in sc]
    assert len(set(names)) == len(names), 'duplicate scenario names'
    return mod, sc


def _worker(scen, seed, conn):
    from . import env
    try:
        r = env.Runner(scen, seed=seed).run()
    except BaseException:
        r = dict(scenario=scen.name, error='worker: ' +
                 traceback.format_exc()[-2500:], violations=[],
                 inconclusive=[], obligations={}, stats={}, functions=[],
                 wall=0, witnesses=0, samples=[], stubs=[], inputs=[],
                 axioms=[], covered=[], bounds=scen.bounds)
    try:
        conn.send_bytes(json.dumps(r, default=str).encode())
    finally:
        conn.close()


def run_all(scens, seed, jobs, deadline, verbose):
    """one process per scenario"""
    ctx = mp.get_context('fork')
    # long ones first
    todo = sorted(scens, key=lambda s: -s.opts.get('weight', 1))
    running, out = [], []
    while todo or running:
        while todo and len(running) < jobs:
            s = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(s, seed, b))
            p.start()
            b.close()
            running.append((s, p, a, time.time()))
        for item in list(running):
            s, p, a, t0 = item
            lim = s.opts.get('budget_s', 600) + 60
            res = None
            if a.poll(0.01):
                try:
                    res = json.loads(a.recv_bytes().decode())
                except EOFError:
                    res = dict(error='worker died')
                p.join()
            elif not p.is_alive():
                res = dict(error='worker died (exit %s)' % p.exitcode)
            elif time.time() - t0 > lim or time.time() > deadline:
                p.kill()
                p.join()
                res = dict(error='time limit')
            if res is not None:
                base = dict(scenario=s.name, error=None, violations=[],
                            inconclusive=[], obligations={}, stats={},
                            functions=[], wall=time.time() - t0, witnesses=0,
                            samples=[], stubs=[], inputs=[], axioms=[],
                            covered=[], bounds=s.bounds)
                base.update(res)
                out.append(base)
                running.remove(item)
                if verbose:
                    st = base['stats']
                    n = sum(o['n'] for o in base['obligations'].values())
                    print('  %-44s %6.1fs paths=%s obl=%d queries=%s %s%s%s' %
                          (s.name, base['wall'], st.get('paths'), n,
                           st.get('queries'),
                           'VIOL ' if base['violations'] else '',
                           'INCONCLUSIVE ' if base['inconclusive'] else '',
                           'ERROR' if base['error'] else ''), flush=True)
                    if base['witnesses'] == 0:
                        print('     no witness')
                    if verbose > 1 or base['error'] or base['inconclusive']:
                        if base['error']:
                            print('     ', base['error'])
                        for i in base['inconclusive'][:4]:
                            print('     ', json.dumps(i)[:1500])
                        for i in base['violations'][:4]:
                            print('     ', json.dumps(i)[:1500])
        time.sleep(0.01)
    return out


def known_findings():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('known', [])


def is_known(k, pid, scen, label):
    return (k['property'] == pid and k['scenario'] == scen
            and k['label'] == label)


def confirm(pid, tier, scen, viol, n):
    """write the replay file and re-run it on the real code in a process of
    its own"""
    os.makedirs(REPL, exist_ok=True)
    path = os.path.join(REPL, '%s-%d.json' % (pid, n))
    with open(path, 'w') as f:
        json.dump(dict(property=pid, tier=tier, scenario=scen,
                       label=viol['label'], values=viol['values'],
                       detail=viol['detail']), f, indent=1)
    r = subprocess.run(
        [sys.executable, '-m', 'vf.cli', 'replay', path], cwd=ROOT,
        capture_output=True, text=True, timeout=300)
    return path, r.returncode == 1, r.stdout


def do_replay(path):
    from . import env
    with open(path) as f:
        d = json.load(f)
    _, scens = get_scenarios(d['property'], d['tier'])
    sc = [s for s in scens if s.name == d['scenario']]
    if not sc:
        print('scenario %s not found' % d['scenario'])
        return 2
    st, detail, e = env.run_concrete(sc[0], d['values'])
    print('replay of %s / %s' % (d['property'], d['scenario']))
    print('inputs: %s' % json.dumps(d['values'])[:1500])
    if st == 'fail':
        for lab, txt in detail:
            print('FAILS %s: %s' % (lab, txt))
        return 1
    if st == 'raise':
        print('RAISES %s' % (detail[0],))
        return 1 if detail[1] else 2
    print('result: %s' % st)
    return 0 if st == 'ok' else 2


def do_check(pid, tier, only, verbose):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod, scens = get_scenarios(pid, tier)
    if only:
        scens = [s for s in scens if only in s.name]
    limit = float(os.environ.get(
        'VF_LIMIT_S', 780 if tier == 'quick' else 6 * 3600))
    jobs = int(os.environ.get('VF_JOBS', str(min(8, os.cpu_count() or 2))))
    res = run_all(scens, seed, jobs, t0 + limit, verbose)
    known = known_findings()
    viols, kn, und = [], {}, []
    n = more = 0
    for r in res:
        done = set()
        for v in r['violations']:
            if v['label'] in done:
                continue
            done.add(v['label'])
            labs = [d[0] for d in v['detail']] + [v['label']]
            hit = [k for k in known if any(
                is_known(k, pid, r['scenario'], l) for l in labs)]
            if hit and all(any(is_known(k, pid, r['scenario'], l)
                               for k in known) for l in labs):
                kn[hit[0]['what']] = 1
                continue
            if len(viols) >= 4:
                more += 1
                continue
            path, ok, txt = confirm(pid, tier, r['scenario'], v, n)
            n += 1
            if ok:
                viols.append((path, r['scenario'], v, txt))
            else:
                und.append('%s/%s: counterexample not reproduced in a fresh '
                           'process' % (r['scenario'], v['label']))
        for i in r['inconclusive']:
            und.append('%s/%s: solver verdict %s, no confirmed '
                       'counterexample' % (r['scenario'], i['label'],
                                           i['verdict']))
        if r['error']:
            und.append('%s: %s' % (r['scenario'], str(r['error'])[:600]))
        elif r['witnesses'] == 0 and not r['violations']:
            und.append('%s: no reachability witness' % r['scenario'])
    tot = {}
    for r in res:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    nobl = sum(o['n'] for r in res for o in r['obligations'].values())
    nuns = sum(o['unsat'] for r in res for o in r['obligations'].values())
    funcs = sorted(set(f for r in res for f in r['functions']))
    ev = dict(
        property=pid, tier=tier, seed=seed, level=getattr(
            mod, 'LEVEL', 'other'),
        wall_s=round(time.time() - t0, 2),
        coverage=dict(
            explanation='symbolic execution of the functions listed under '
            'functions_encoded (taken from the current /repo source), every '
            'branch on symbolic data explored, every obligation posed to z3 '
            'as path /\\ axioms /\\ not(property)',
            evaluated_at=time.strftime('%Y-%m-%dT%H:%M:%S'),
            scenarios=len(res), paths=tot.get('paths', 0),
            obligations=nobl, obligations_discharged=nuns,
            solver_queries=tot.get('queries', 0),
            feasibility_queries=tot.get('feas_queries', 0),
            solver_seconds=round(tot.get('solver_s', 0), 2),
            queries_refined_with_definitions=tot.get('refined', 0),
            functions_encoded=funcs,
            functions_abstracted=sorted(set(
                x for r in res for x in r['stubs'])),
            uninterpreted=sorted(set(x for r in res for x in r['axioms'])),
            reachability_witnesses=sum(r['witnesses'] for r in res),
            bounds=getattr(mod, 'BOUNDS', ''),
            undecided=und,
            per_scenario=[dict(
                name=r['scenario'], bounds=r['bounds'],
                paths=r['stats'].get('paths', 0),
                queries=r['stats'].get('queries', 0),
                solver_s=round(r['stats'].get('solver_s', 0), 2),
                obligations={k: o['n'] for k, o in
                             r['obligations'].items()},
                symbolic_inputs=len(r['inputs']),
                sample=r['samples'][:1], wall_s=round(r['wall'], 2))
                for r in sorted(res, key=lambda r: r['scenario'])],
        ),
        assumptions=getattr(mod, 'ASSUMPTIONS', []) + GENERIC_ASSUMPTIONS,
        violations=[dict(
            replay=p, scenario=s, label=v['label'],
            detail=v['detail'][:3]) for p, s, v, _ in viols],
    )
    os.makedirs(EVID, exist_ok=True)
    if not only:
        with open(os.path.join(EVID, '%s.json' % pid), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d scenarios, %d paths, %d/%d obligations discharged, '
          '%d solver queries (%.1fs), wall %.1fs' % (
              pid, tier, len(res), tot.get('paths', 0), nuns, nobl,
              tot.get('queries', 0), tot.get('solver_s', 0),
              time.time() - t0))
    for k in sorted(kn):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    for u in und:
        print('UNDECIDED %s' % u)
    if more:
        print('%d further counterexamples not listed' % more)
    if viols:
        for p, s, v, txt in viols[:10]:
            print('counterexample in scenario %s' % s)
            print('\n'.join('  ' + l[:400] for l in txt.splitlines()[-6:]))
            print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if nuns == 0:
        print('nothing decided')
        return 2
    return 0


GENERIC_ASSUMPTIONS = [
    'floating point arithmetic is read as real arithmetic (rounding errors '
    'are covered by the comparison tolerances only)',
    'the functions run as Python (NUMBA_DISABLE_JIT=1); the numba compiler '
    'itself is trusted',
    'denominators met on a path are non-zero unless a property says so',
    'exp, log and non-integer powers are functions constrained only by sign, '
    'monotonicity and unit-interval axioms',
]


def main(argv):
    if argv[0] == 'replay':
        return do_replay(argv[1])
    v = argv.count('-v') + 2 * argv.count('-vv')
    only = argv[argv.index('--only') + 1] if '--only' in argv else None
    return do_check(argv[1], argv[2], only, v)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

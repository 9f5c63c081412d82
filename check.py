#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--harness NAME] [--jobs N]
   check.py --replay FILE"""
import argparse
import importlib
import json
import os
import sys
import time

os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from symx import runner  # noqa: E402


def load_known():
    """lines 'finding <KF-id> property=<id> <what fails>' of known_findings.txt"""
    out = {}
    p = os.path.join(runner.VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == 'finding':
                out[w[1]] = (w[2].split('=')[1], w[3].strip())
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--harness')
    ap.add_argument('--jobs', type=int)
    ap.add_argument('--replay')
    ap.add_argument('--strict', action='store_true', help='exit 2 when any obligation stayed undecided')
    ap.add_argument('--verbose', '-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module('props.' + a.prop.lower())
    known = load_known()
    opts = dict(seed=seed, budget=600 if a.tier == 'quick' else 3000, timeout=20000 if a.tier == 'quick' else 120000)
    tasks = []
    for h in mod.HARNESSES:
        if a.harness and a.harness != h.name:
            continue
        for cfg in h.configs(a.tier):
            tasks.append((h, cfg))
    deadline = t0 + (840 if a.tier == 'quick' else 3 * 3600)
    results = runner.run_all(tasks, opts, a.jobs, deadline)
    violations, problems, found = [], [], []
    for (h, cfg), r in zip(tasks, results):
        if a.verbose or r['inconclusive'] or r['unsupported'] or r['violations']:
            print('# %-28s %-60s paths=%d obl=%d proved=%d ident=%d val=%d q=%s %.1fs%s' % (
                h.name, str(cfg)[:60], r['paths'], r['obligations'], r['proved'], r['by_identity'], r['validated'],
                r['solver'].get('queries'), r['wall_s'],
                '' if not r['violations'] else ' VIOLATED'))
        if h.known and h.known in known:
            other = [v for v in r['violations'] if not all(h.known_label in f for f in v['failures'])]
            if r['violations'] and not other:
                found.append(h.known)
                continue
            violations += other
            if other:
                continue
            if r['inconclusive'] or r['unsupported']:
                problems += [(h.name, cfg, x) for x in r['inconclusive'] + r['unsupported']]
            continue
        for v in r['violations']:
            violations.append(v)
        if not r['violations']:
            problems += [(h.name, cfg, x) for x in r['inconclusive'] + r['unsupported']]
    for k in sorted(set(found)):
        print('KNOWN-FINDING: property=%s %s' % (a.prop, known[k][1]))
    rdir = os.path.join(runner.VERIF, 'evidence', 'replays')
    paths = []
    for i, v in enumerate(violations[:5]):
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, '%s-%d.json' % (a.prop, i))
        json.dump(dict(v, property=a.prop), open(p, 'w'), indent=1)
        paths.append(p)
        print('# %s %s: %s' % (v['harness'], v['cfg'], v['why']))
        for f in v['failures'][:3]:
            print('#    ' + f)
    for name, cfg, x in problems[:10]:
        print('# INCONCLUSIVE %s %s: %s' % (name, cfg, x if a.verbose else x.split('\n')[0][:300]))
    if not a.harness:
        evidence(a, mod, tasks, results, violations, paths, problems, seed, time.time() - t0)
    if violations:
        print('VIOLATION property=%s replay=%s' % (a.prop, paths[0]))
        return 1
    proved = sum(r['proved'] for r in results)
    if problems and (a.strict or not proved):
        return 2
    tot = sum(r['obligations'] for r in results)
    print('%s property=%s tier=%s harnesses=%d obligations=%d proved=%d undecided=%d solver_queries=%d wall=%.1fs' % (
        'PARTIAL' if problems else 'OK', a.prop, a.tier, len(tasks), tot, proved, len(problems), sum(r['solver'].get('queries', 0) for r in results), time.time() - t0))
    return 0


def evidence(a, mod, tasks, results, violations, paths, problems, seed, wall):
    funcs = sorted({f for r in results for f in r['functions']})
    sol = {}
    for r in results:
        for k, v in r['solver'].items():
            sol[k] = max(sol.get(k, 0), v) if k == 'max_query_s' else round(sol.get(k, 0) + v, 3)
    per = {}
    for (h, cfg), r in zip(tasks, results):
        p = per.setdefault(h.name, dict(about=h.about, configurations=[], paths=0, obligations=0, proved=0,
                                        proved_by_normalisation=0, concrete_values_cross_checked=0, symbolic_inputs_max=0,
                                        domain_assumptions=[]))
        p['configurations'].append(runner.cfg_json(cfg))
        p['paths'] += r['paths']
        p['obligations'] += r['obligations']
        p['proved'] += r['proved']
        p['proved_by_normalisation'] += r['by_identity']
        p['concrete_values_cross_checked'] += r['validated']
        p['symbolic_inputs_max'] = max(p['symbolic_inputs_max'], r['variables'])
        p['domain_assumptions'] = sorted(set(p['domain_assumptions']) | set(r['domain']))[:10]
    ev = dict(
        property=a.prop, tier=a.tier, seed=seed, level='other',
        coverage=dict(
            explanation='Symbolic execution of the real torch/numpy code of /repo on symbolic tensors; every '
                        'obligation is the negation of the property handed to z3 (unsat = holds for every value '
                        'within the bounds listed as configurations). ' + getattr(mod, 'BOUNDS', ''),
            functions_encoded=funcs, harnesses=per,
            obligations=sum(r['obligations'] for r in results), proved=sum(r['proved'] for r in results),
            paths=sum(r['paths'] for r in results), solver=sol,
            aten_operators=sorted({o for r in results for o in r['ops']}),
            inconclusive=len(problems)),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + [
            'numbers are mathematical reals and integers: floating point rounding, overflow and underflow are outside the claim',
            'torch kernels are represented by their documented mathematical meaning; the python code of the repository, '
            'torch\'s own python front end, decompositions and autograd formulas are executed as they are',
        ],
        wall_s=round(wall, 2),
    )
    ev['violations'] = len(violations)
    if violations:
        ev['coverage']['violation_details'] = [dict(replay=p, harness=v['harness'], failures=v['failures'])
                                               for p, v in zip(paths, violations)]
    os.makedirs(os.path.join(runner.VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(runner.VERIF, 'evidence', a.prop + '.json'), 'w'), indent=1)


def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module('props.' + d['property'].lower())
    h = [h for h in mod.HARNESSES if h.name == d['harness']][0]
    cfg = [c for c in h.configs('thorough') if runner.cfg_json(c) == d['cfg']][0]
    c = runner.run_concrete(h, cfg, runner.unjenv(d['env']))
    print('inputs:', c.used)
    for f in c.failures:
        print('FAIL', f)
    print('reproduced' if c.failures else 'not reproduced')
    return 1 if c.failures else 0


if __name__ == '__main__':
    sys.exit(main())

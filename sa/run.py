"""python3 -m sa.run <property> [--tier quick|thorough]"""
from __future__ import annotations

import importlib
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known(prop):
    out = []
    f = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            if l.startswith('KNOWN-FINDING: '):
                d = l[len('KNOWN-FINDING: '):].strip()
                p, _, rest = d.partition(' ')
                if p == f'property={prop}':
                    key, _, text = rest.partition(' :: ')
                    out.append((key.strip(), text.strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    only = sys.argv[sys.argv.index('--job') + 1] if '--job' in sys.argv else None
    t0 = time.time()
    from .repo import Repo, AnchorError
    from . import ob
    from .interp import AExc
    from .core import Unsupported, Cut
    mod = importlib.import_module(f'sa.checks.{prop.lower()}')
    try:
        repo = Repo()
        repo.load('kolombos.app')
        jobs = mod.jobs(repo, tier)
    except (AnchorError, AExc, Unsupported, Cut) as e:
        print(f'ANALYSIS-BROKEN property={prop}: {type(e).__name__}: {e} {getattr(e, "where", "")}')
        return 2
    if only: jobs = [j for j in jobs if only in j.name]
    from .core import Limit
    Limit.end = time.monotonic() + (660 if tier == 'quick' else 6 * 3600)
    Limit.stop = 0 if known(prop) or '-v' in sys.argv else 12
    res = ob.run_jobs(repo, jobs, 1 if '--serial' in sys.argv else None)
    res.sort(key=lambda r: r['job'])
    if hasattr(mod, 'post'): mod.post(repo, res, tier)
    tot = {k: 0 for k in ('paths', 'cut', 'unsupported', 'infeasible', 'inexact', 'overflow', 'steps')}
    for r in res:
        for k in tot: tot[k] += r['stats'][k]
    proved = sum(r['proved'] for r in res)
    und = sum(r['undecided'] for r in res)
    single = sum(r['single'] for r in res)
    funcs = sorted({f for r in res for f in r['funcs']})
    viol = []
    for r in res:
        for v in r['viol']: viol.append((r['job'], v))
    kn = known(prop)
    new = []
    seen = set()
    for job, v in viol:
        key = f"{v['label']}@{v['where'][2] if v['where'] else '-'}"
        k = next((x for x in kn if x[0] == key), None)
        if k:
            if key not in seen: print(f'KNOWN-FINDING: property={prop} {k[1]}')
        elif key not in seen: new.append((job, v, key))
        seen.add(key)
    verbose = '-v' in sys.argv
    for r in res:
        if verbose or r['viol']:
            print(f"  {r['job']}: proved={r['proved']} undecided={r['undecided']} paths={r['stats']['paths']} cut={r['stats']['cut']} "
                  f"unsup={r['stats']['unsupported']} over={r['stats']['overflow']} {r['wall']:.1f}s")
            if verbose and (r['why'] or r['stats']['reasons']): print('      ', r['why'], r['stats']['reasons'])
    wall = time.time() - t0
    edir = os.path.join(ROOT, 'evidence')
    os.makedirs(edir, exist_ok=True)
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': mod.EXPLAIN,
            'technique': 'abstract interpretation of the current source with trace partitioning (no execution)',
            'rule': mod.RULE,
            'scenarios': len(res), 'trace_partitions': tot['paths'], 'partitions_cut_by_bound': tot['cut'],
            'partitions_unsupported': tot['unsupported'], 'partitions_not_visited': tot['overflow'], 'abstract_steps': tot['steps'],
            'longest_partition_steps': max((r['stats'].get('longest', 0) for r in res), default=0),
            'obligations': proved + und + len(viol), 'discharged': proved, 'undecided': und, 'undecided_narrowed_to_single_states': single,
            'functions_analysed': len(funcs), 'functions': funcs[:400],
            'samples': [{'scenario': r['job'], 'obligations_discharged': r['proved'], 'partitions': r['stats']['paths']} for r in res][:60],
            'undecided_reasons': [f"{r['job']}: {w} x{c}" for r in res for w, c in list(r['why'].items())[:3]][:30],
            'bounds': getattr(mod, 'BOUNDS', ''),
        },
        'assumptions': getattr(mod, 'ASSUME', []) + ['the transfer functions of the interpreter model CPython 3.12 and the standard library faithfully'],
        'wall_s': round(wall, 2), 'violations': len(new),
    }
    with open(os.path.join(edir, f'{prop}.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    print(f'{prop} [{tier}]: scenarios={len(res)} partitions={tot["paths"]} discharged={proved} undecided={und} functions={len(funcs)} wall={wall:.1f}s')
    if not only and proved < getattr(mod, 'MIN_PROVED', 1) and single < 10 and not new:
        print(f'ANALYSIS-BROKEN property={prop}: only {proved} obligations discharged, at least {getattr(mod, "MIN_PROVED", 1)} expected')
        return 2
    code = 0
    for n, (job, v, key) in enumerate(new):
        rp = os.path.join(edir, f'{prop}-replay-{n}.json')
        with open(rp, 'w') as f:
            json.dump({'property': prop, 'scenario': job, 'obligation': v['label'], 'construct': ob.fmt_where(v['where']), 'witness': v['fixed'],
                       'detail': v['detail'], 'branches': v['branches']}, f, indent=1, default=str)
        print(f"  rule: {mod.RULE}")
        print(f"  scenario {job}: obligation '{v['label']}' fails at {ob.fmt_where(v['where'])}")
        print(f"  witness: {v['fixed']}")
        print(f"  {v['detail']}")
        for b in v['branches']: print(f'    via {b}')
        print(f'VIOLATION property={prop} replay={rp}')
        code = 1
    return code


if __name__ == '__main__':
    sys.exit(main())

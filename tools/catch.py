#!/usr/bin/env python3
"""Runs every planted bug (scratch copy) against its property's check and records the result in tools/caught.json (development aid).
usage: catch.py [id...]"""
import json, os, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = ROOT + '/tools/caught.json'
out = json.load(open(F)) if os.path.exists(F) else {}
ids = sys.argv[1:] or sorted(os.listdir(ROOT + '/seeded'))
for i in ids:
    m = json.load(open(f'{ROOT}/seeded/{i}/meta.json'))
    d = tempfile.mkdtemp(prefix='catch.')
    for p in ('kolombos', 'pytermor'): shutil.copytree('/repo/' + p, f'{d}/{p}')
    subprocess.run(['git', 'apply', '--directory', '', f'{ROOT}/seeded/{i}/patch.diff'], cwd=d, check=True)
    t = time.time()
    p = subprocess.run([sys.executable, '-m', 'sa.run', m['property']], cwd=ROOT, env=dict(os.environ, SA_REPO=d), capture_output=True, text=True)
    ob = re.search(r"obligation '(.*?)' fails at (\S+) in (\S+)", p.stdout)
    out[i] = {'property': m['property'], 'caught': p.returncode == 1 and f"VIOLATION property={m['property']}" in p.stdout, 'by': ob.group(1) if ob else '', 'where': ob.group(3) if ob else '', 's': round(time.time() - t)}
    shutil.rmtree(d)
    print(i, out[i], flush=True)
    json.dump({k: out[k] for k in sorted(out) if os.path.exists(f'{ROOT}/seeded/{k}')}, open(F, 'w'), indent=0)

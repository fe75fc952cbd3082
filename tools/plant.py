#!/usr/bin/env python3
"""Plant a bug described by a spec and keep it under seeded/ once confirmed.

usage: plant.py SPECFILE [id...]      (SPECFILE: python, BUGS = [dict(id, property, edits, needs, breaks, demo)])
A spec is kept when, in a scratch copy of /repo: the edits apply, the stable tests pass with them, and the
demonstration exits 0 on the unchanged tree and non-zero with the edits.
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile

HEAD = '''import os, subprocess, sys, tempfile, shutil
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
ENV = dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONDONTWRITEBYTECODE='1', COLUMNS='100', LINES='40', PYTHONIOENCODING='utf-8')
import re
def run(args, data=b'', columns=100):
    p = subprocess.run([PY, '-W', 'ignore', '-m', 'kolombos', *args], input=data, capture_output=True,
                       env=dict(ENV, COLUMNS=str(columns)), timeout=120)
    return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
def plain(s):
    return re.sub('\\x1b\\\\[[0-9;]*m', '', s)
def settings(**kw):
    from kolombos.settings import SettingsManager
    SettingsManager.init()
    for k, v in kw.items():
        setattr(SettingsManager.app_settings, k, v)
    return SettingsManager.app_settings
'''
SH = '''#!/bin/sh
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
exec "$PY" -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = set(sys.argv[2:])
    root = '/verif/seeded'
    base = json.load(open('/opt/vp/BASELINE.json'))
    for b in bugs:
        if only and b['id'] not in only:
            continue
        d = tempfile.mkdtemp(prefix='plant')
        try:
            w = d + '/repo'
            subprocess.run(['cp', '-a', '/repo', w], check=True)
            for f, old, new in b['edits']:
                p = f'{w}/{f}'
                s = open(p, encoding='utf-8').read()
                if s.count(old) != 1:
                    raise SystemExit(f"{b['id']}: {f}: {s.count(old)} occurrences of {old!r}")
                open(p, 'w', encoding='utf-8').write(s.replace(old, new))
            diff = sh(['git', 'diff'], w).stdout
            dd = d + '/demo'
            os.mkdir(dd)
            open(dd + '/demo.py', 'w').write(HEAD + b['demo'])
            open(dd + '/demo.sh', 'w').write(SH)
            os.chmod(dd + '/demo.sh', 0o755)
            bad = sh(['sh', dd + '/demo.sh'], w, timeout=300)
            good = sh(['sh', dd + '/demo.sh'], '/repo', timeout=300)
            te = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + w)
            open(d + '/test.sh', 'w').write(te)
            sh(['bash', d + '/test.sh', d + '/out.json'], w, env=dict(os.environ, PYTHONPATH=w))
            o = json.load(open(d + '/out.json'))
            passed = set(o.get('passed', [])) if isinstance(o.get('passed'), list) else {k for k, v in o.items() if v == 'passed'}
            tail = sorted(set(base['stable']) - passed)
            ok = bad.returncode and not good.returncode and not tail
            # original lines only
            added = set(sh(['git', 'diff', '-U0', '09353c2', 'HEAD'], '/repo').stdout.splitlines())
            added = {l[1:].strip() for l in added if l.startswith('+') and not l.startswith('+++')}
            mine = [l for l in diff.splitlines() if l.startswith('-') and not l.startswith('---') and l[1:].strip() in added]
            print(b['id'], b['property'], 'demo good', good.returncode, 'bad', bad.returncode, (bad.stderr or bad.stdout).strip()[-100:].replace('\n', ' '), '| failing tests', tail,
                  '| OWN LINES' if mine else '', '' if ok else '*** NOT KEPT ' + good.stderr[-200:])
            if ok:
                o = f"{root}/{b['id']}"
                os.makedirs(o, exist_ok=True)
                open(o + '/patch.diff', 'w').write(diff)
                shutil.copy(dd + '/demo.py', o)
                shutil.copy(dd + '/demo.sh', o)
                json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(o + '/meta.json', 'w'), indent=1, ensure_ascii=False)
        finally:
            shutil.rmtree(d)


main()

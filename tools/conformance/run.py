"""Compares the engine's reading of the snippets with CPython's.  (Development aid: not part of any check.)"""
import ast, contextlib, io, os, shutil, sys, tempfile, copy
sys.path.insert(0, '/verif')
from sa import core
from sa.core import Path, Ctx
from sa.interp import Interp, AExc
from sa.strs import mk

sys.setrecursionlimit(20000)
here = os.path.dirname(os.path.abspath(__file__))
src = ast.parse(open(f'{here}/snippets.py').read())
out = []
for n in src.body:
    if isinstance(n, ast.FunctionDef) and n.name.startswith('t_') and isinstance(n.body[-1], ast.Return) and isinstance(n.body[-1].value, ast.Tuple):
        for i, e in enumerate(n.body[-1].value.elts):
            m = copy.deepcopy(n)
            m.name = f'{n.name}__{i}'
            m.body[-1].value = ast.Tuple([m.body[-1].value.elts[i]], ast.Load())
            out.append(ast.fix_missing_locations(m))
        n.name = 'n' + n.name
    out.append(n)
src.body = out
d = tempfile.mkdtemp()
os.mkdir(f'{d}/snip')
open(f'{d}/snip/__init__.py', 'w').write(ast.unparse(src))
sys.path.insert(0, d)
import snip
src_of = {n.name: ast.unparse(n.body[-1]) for n in src.body if isinstance(n, ast.FunctionDef)}
I = Interp({'snip': f'{d}/snip'})
p = Path(); p.limit = 5_000_000; Ctx.cur = p
mod = I.load('snip')
only = sys.argv[1:]
bad = n_ = 0
for n in [x for x in src_of if x.startswith('t_')]:
    if only and n.split('__')[0] not in only: continue
    n_ += 1
    with contextlib.redirect_stdout(io.StringIO()): want = repr(getattr(snip, n)())
    q = Path(); q.limit = 2_000_000; Ctx.cur = q
    try:
        got = I.call(I.getattr_(mod, n), [], {})
        gr = str(I.call(I.lib.B['repr'], [got], {}))
    except BaseException as e:
        print(n, 'FAILS', type(e).__name__, str(e)[:120], '|', src_of[n][:110]); bad += 1; continue
    if gr != want:
        bad += 1
        i = next((i for i, (a, b) in enumerate(zip(gr, want)) if a != b), 0)
        print(n, 'DIFFERS\n   got ', gr[max(0, i - 40):i + 80], '\n   want', want[max(0, i - 40):i + 80], '|', src_of[n][:110])
print(f'{n_} compared, {bad} not alike')
shutil.rmtree(d)

"""Mutation campaign: which small edits of the package go unnoticed?

  python tools/mutate.py [--files GLOB] [--jobs N] [--share F] [--out FILE]

Every mutant of /repo's working tree is written in a scratch copy, and a share
of the quick cases of every check runs against it until one reports a
violation. Survivors are listed for inspection: they are equivalent, outside
of every property, or show a blind spot. Development aid: no check uses it.
"""
import argparse
import ast
import copy
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COSMETIC = {'figsize', 'linewidth', 'size', 'fontsize', 'color', 'c', 'cmap',
            'linestyle', 'linestyles', 'colors', 'dashes', 'lw', 'figlabel',
            'num', 'title', 'loc', 'sharex', 'stacklevel'}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt],
       ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn],
       ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div],
       ast.Div: [ast.Mult, ast.FloorDiv], ast.Pow: [ast.Mult],
       ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv]}
NAMES = {'nanmean': ['mean', 'nansum', 'nanmedian'], 'nansum': ['sum'],
         'nanmax': ['max', 'nanmin'], 'min': ['max'], 'max': ['min'],
         'floor': ['ceil', 'round'], 'ceil': ['floor'],
         'log2': ['log'], 'log': ['log2'], 'mean': ['median'],
         'fixednansum': ['fixednanmax'], 'fixednanmax': ['fixednansum'],
         'any': ['all'], 'all': ['any'], 'zeros': ['ones'], 'ones': ['zeros'],
         'real': ['imag'], 'abs': ['real'], 'copy_nj': ['get_nj'],
         'savefig': ['close'], 'maximum': ['minimum'], 'array': ['asarray'],
         'fft': ['ifft'], 'ifft': ['fft']}


def mutants(tree):
    """[(line, description, mutated tree)]"""
    out = []
    nodes = list(ast.walk(tree))
    doc = set()
    for n in nodes:
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)):
            for b in n.body:
                if isinstance(b, ast.Expr) and isinstance(
                        b.value, ast.Constant):
                    doc.add(id(b)), doc.add(id(b.value))
        if isinstance(n, ast.keyword) and n.arg in COSMETIC:
            for s in ast.walk(n):
                doc.add(id(s))
        if isinstance(n, ast.JoinedStr):
            for s in ast.walk(n):
                if s is not n:
                    doc.add(id(s))
        if isinstance(n, ast.Call) and getattr(n.func, 'attr', '') in (
                'warn', 'suptitle', 'set_title', 'set_xlabel', 'set_ylabel',
                'xlabel', 'ylabel', 'draw', 'grid', 'despine'):
            for s in ast.walk(n):
                doc.add(id(s))

    def emit(i, desc, change):
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))[i]
        change(n)
        ast.fix_missing_locations(t)
        out.append((getattr(nodes[i], 'lineno', 0), desc, t))

    for i, n in enumerate(nodes):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    emit(i, f'{ast.unparse(n)}: {new.__name__}',
                         lambda m, k=k, new=new: m.ops.__setitem__(k, new()))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for new in BIN.get(type(n.op), []):
                emit(i, f'{ast.unparse(n)}: {new.__name__}',
                     lambda m, new=new: setattr(m, 'op', new()))
        elif isinstance(n, ast.BoolOp):
            new = ast.Or if isinstance(n.op, ast.And) else ast.And
            emit(i, f'{ast.unparse(n)}: {new.__name__}',
                 lambda m, new=new: setattr(m, 'op', new()))
        elif isinstance(n, ast.UnaryOp) and isinstance(
                n.op, (ast.USub, ast.Not, ast.Invert)):
            emit(i, f'{ast.unparse(n)}: without the operator',
                 lambda m: (m.__setattr__('op', ast.UAdd()) if isinstance(
                     m.op, ast.USub) else m.__setattr__('op', ast.UAdd())))
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                new = [not v]
            elif isinstance(v, int):
                new = [v + 1, v - 1]
            elif isinstance(v, float):
                new = [v * 1.1, v + 1]
            elif v is None:
                new = []
            else:
                new = []
            for w in new:
                emit(i, f'{v!r} -> {w!r}',
                     lambda m, w=w: setattr(m, 'value', w))
        elif isinstance(n, ast.Call):
            for k, kw in enumerate(n.keywords):
                if kw.arg and kw.arg not in COSMETIC:
                    emit(i, f'{ast.unparse(n)[:60]}: without {kw.arg}',
                         lambda m, k=k: m.keywords.pop(k))
            if len(n.args) >= 2 and not any(
                    isinstance(a, ast.Starred) for a in n.args):
                emit(i, f'{ast.unparse(n)[:60]}: arguments swapped',
                     lambda m: m.args.__setitem__(
                         slice(0, 2), [m.args[1], m.args[0]]))
            if len(n.args) == 1 and not isinstance(n.args[0], ast.Starred) \
                    and isinstance(n.func, ast.Attribute):
                def inline(m):
                    m.func = ast.Name('_same', ast.Load())
                    m.keywords = []
                emit(i, f'{ast.unparse(n)[:60]}: call removed', inline)
        elif isinstance(n, (ast.Attribute, ast.Name)) and isinstance(
                n.ctx, ast.Load):
            name = n.attr if isinstance(n, ast.Attribute) else n.id
            for new in NAMES.get(name, []):
                emit(i, f'{name} -> {new}',
                     lambda m, new=new: setattr(
                         m, 'attr' if isinstance(m, ast.Attribute) else 'id',
                         new))
        elif isinstance(n, ast.If):
            for new in (True, False):
                emit(i, f'if {ast.unparse(n.test)[:50]} -> {new}',
                     lambda m, new=new: setattr(m, 'test',
                                                ast.Constant(new)))
        if hasattr(n, 'body') and isinstance(n.body, list):
            for k, b in enumerate(n.body):
                if id(b) in doc or not isinstance(
                        b, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return,
                            ast.Raise, ast.Assert, ast.Break, ast.Continue)):
                    continue
                if isinstance(b, ast.Expr) and id(b.value) in doc:
                    continue
                if isinstance(n, (ast.Module, ast.ClassDef)):
                    continue
                emit(i, f'deleted: {ast.unparse(b)[:70]}',
                     lambda m, k=k: m.body.__setitem__(k, ast.Pass()))
    return out


WORKER = r'''
import os, sys, json
sys.path.insert(0, {verif!r})
sys.argv = ['x']
import rv.main
from rv import core
import importlib, signal, builtins
builtins._same = lambda x, *a, **k: x
order, share = json.loads(sys.argv_json) if False else ({order!r}, {share})
for p in order:
    try:
        mod = importlib.import_module('rv.props.' + p.lower())
        if hasattr(mod, 'prepare'):
            mod.prepare()
        n = max(int(mod.QUICK * share), 6)
        known = core.known_findings(mod.ID)
        for i in range(n):
            ctx, problem = core.run_case(mod, 1, 'quick', i, known)
            if problem:
                print('KILLED', p, i, problem['oracle'],
                      str(problem['message'])[:90].replace('\n', ' '))
                sys.exit(0)
    except SystemExit:
        raise
    except BaseException as e:
        print('KILLED', p, 'error', type(e).__name__, str(e)[:90])
        sys.exit(0)
print('SURVIVED')
'''

ORDER = {'wavelet': 'C01 C02 C03 C04 C05 C12 C13 C32',
         'utils': 'C29 C11 C26 C07 C31', 'structure': 'C07 C13 C28 C32',
         'cumulants': 'C08 C13 C28 C31', 'mfspectrum': 'C09 C13 C28',
         'estimation': 'C10 C07 C28', 'mfa': 'C13 C35', 'signal': 'C27 C28',
         'psd': 'C23 C24 C28 C25', 'fractal': 'C25 C28', 'fbm': 'C18 C22',
         'mrw': 'C19 C20 C21 C22', 'pzutils': 'C18 C19 C22',
         'bivariate': 'C16 C17 C28 C32', 'bimfa': 'C16 C17', 'viz': 'C28',
         'multires': 'C31 C05'}
LAST = ['C30', 'C34']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--files', default='*.py')
    ap.add_argument('--jobs', type=int, default=2)
    ap.add_argument('--share', type=float, default=.06)
    ap.add_argument('--every', type=int, default=1)
    ap.add_argument('--start', type=int, default=0)
    ap.add_argument('--out', default='/tmp/mutants.log')
    a = ap.parse_args()
    repo = '/repo'
    every = [f'C{k:02d}' for k in range(1, 36)]
    work = []
    for f in sorted(glob.glob(repo + '/pymultifracs/**/*.py',
                              recursive=True)):
        rel = os.path.relpath(f, repo)
        if not glob.fnmatch.fnmatch(os.path.basename(f), a.files) or \
                os.path.basename(f) in ('__init__.py', '_version.py'):
            continue
        first = next((v for k, v in ORDER.items() if k in rel), '').split()
        order = first + [p for p in every if p not in first + LAST] + LAST
        for line, desc, t in mutants(ast.parse(open(f).read())):
            work.append((rel, line, desc, t, order))
    work = work[a.start::a.every]
    print(len(work), 'mutants', flush=True)
    env = dict(os.environ, OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED='0')

    def one(item):
        rel, line, desc, t, order = item
        d = tempfile.mkdtemp(prefix='mutant-')
        try:
            for sub in ('pymultifracs', 'examples'):
                shutil.copytree(f'{repo}/{sub}', f'{d}/{sub}',
                                ignore=shutil.ignore_patterns('__pycache__'))
            src = ast.unparse(t)
            with open(f'{d}/{rel}', 'w') as f:
                f.write(src)
            code = WORKER.format(verif=VERIF, order=order, share=a.share)
            try:
                r = subprocess.run(
                    ['/opt/venv/bin/python', '-B', '-W', 'ignore', '-c', code],
                    env=dict(env, RV_REPO=d), capture_output=True, text=True,
                    timeout=900, cwd=d)
                res = [v for v in r.stdout.splitlines()
                       if v.startswith(('KILLED', 'SURVIVED'))]
                res = res[-1] if res else 'KILLED ? ' + r.stderr[-100:]
            except subprocess.TimeoutExpired:
                res = 'KILLED timeout'
            return f'{rel}:{line} [{desc}] {res}'.replace('\n', ' ')
        finally:
            shutil.rmtree(d)

    with open(a.out, 'a') as out, ThreadPoolExecutor(a.jobs) as ex:
        for k, res in enumerate(ex.map(one, work)):
            out.write(res + '\n')
            out.flush()


if __name__ == '__main__':
    sys.exit(main())

#!/usr/bin/env python3
"""Mutation survey: small changes of behaviour at every place of a source file; lists those that no check reports and the stable tests pass.

usage: selftest/mutate.py -f vmoe/moe.py [-p C01,..] [-n max] [-o out.jsonl] [--tests]
A survivor is either outside every property, without effect, or a gap to look at. Works on throw-away copies."""
import argparse
import ast
import concurrent.futures as cf
import copy
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Add, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def sites(mod):
  """(description, function editing a deep copy addressed by node number)."""
  nodes = list(ast.walk(mod))
  num = {id(n): i for i, n in enumerate(nodes)}
  skip = set()
  for n in nodes:
    if isinstance(n, ast.Raise) or isinstance(n, ast.Assert) and n.msg:
      for m in ast.walk(n if isinstance(n, ast.Raise) else n.msg): skip.add(id(m))
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): skip.add(id(n)); skip.add(id(n.value))
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ('logging', 'warnings'):
      for m in ast.walk(n): skip.add(id(m))
    if isinstance(n, ast.AnnAssign):
      for m in ast.walk(n.annotation): skip.add(id(m))
    if isinstance(n, (ast.FunctionDef,)):
      for a in n.args.args + n.args.kwonlyargs + [n.args.vararg, n.args.kwarg]:
        if a is not None and a.annotation is not None:
          for m in ast.walk(a.annotation): skip.add(id(m))
      if n.returns is not None:
        for m in ast.walk(n.returns): skip.add(id(m))
    if isinstance(n, (ast.Import, ast.ImportFrom)):
      for m in ast.walk(n): skip.add(id(m))
    if isinstance(n, ast.JoinedStr): pass
  infn = set()
  for n in nodes:
    if isinstance(n, ast.FunctionDef):
      for m in ast.walk(n): infn.add(id(m))
  out = []
  def add(n, what, f): out.append((getattr(n, 'lineno', 0), what, num[id(n)], f))
  for n in nodes:
    if id(n) in skip: continue
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
      def f(m): m.ops = [CMP[type(m.ops[0])]()]
      add(n, f'{type(n.ops[0]).__name__}->{CMP[type(n.ops[0])].__name__}: {ast.unparse(n)}', f)
    if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.JoinedStr,)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
      def f(m): m.op = BIN[type(m.op)]()
      add(n, f'op {type(n.op).__name__}->{BIN[type(n.op)].__name__}: {ast.unparse(n)}', f)
    if isinstance(n, ast.AugAssign) and type(n.op) in BIN:
      def f(m): m.op = BIN[type(m.op)]()
      add(n, f'augop: {ast.unparse(n)}', f)
    if isinstance(n, ast.BoolOp):
      def f(m): m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
      add(n, f'and/or: {ast.unparse(n)}', f)
      for j in range(len(n.values)):
        def f(m, j=j): del m.values[j]
        if len(n.values) > 1: add(n, f'drop operand {j}: {ast.unparse(n)}', f)
    if isinstance(n, ast.Constant) and id(n) in infn:
      if isinstance(n.value, bool):
        def f(m): m.value = not m.value
        add(n, f'bool {n.value}', f)
      elif isinstance(n.value, (int, float)):
        def f(m): m.value = m.value + 1
        add(n, f'num {n.value}->{n.value + 1}', f)
      elif isinstance(n.value, str) and n.value:
        def f(m): m.value = m.value + '_x'
        add(n, f'str {n.value!r}', f)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
      def f(m): m.op = ast.UAdd() if isinstance(m.op, ast.USub) else ast.Not(); m.operand = m.operand if isinstance(m.op, ast.UAdd) else ast.UnaryOp(ast.Not(), m.operand)
      add(n, f'drop {type(n.op).__name__}: {ast.unparse(n)}', f)
    if isinstance(n, (ast.If, ast.IfExp, ast.While)) and not isinstance(n.test, (ast.Compare, ast.BoolOp)):
      def f(m): m.test = ast.UnaryOp(ast.Not(), m.test)
      add(n, f'negate test: {ast.unparse(n.test)}', f)
    if isinstance(n, (ast.If, ast.IfExp)):
      for b in (True, False):
        def f(m, b=b): m.test = ast.Constant(b)
        add(n, f'test always {b}: {ast.unparse(n.test)}', f)
    if isinstance(n, ast.comprehension) and n.ifs:
      def f(m): m.ifs = []
      out.append((getattr(n.iter, 'lineno', 0), f'drop filter: {ast.unparse(n)}', num[id(n)], f))
    if isinstance(n, ast.Call):
      if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]) and not (isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'hasattr', 'getattr')):
        def f(m): m.args[0], m.args[1] = m.args[1], m.args[0]
        add(n, f'swap args: {ast.unparse(n)}', f)
      for j, k in enumerate(n.keywords):
        def f(m, j=j): del m.keywords[j]
        add(n, f'drop keyword {k.arg}: {ast.unparse(n)}', f)
    if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and isinstance(n.ctx, ast.Load):
      def f(m): m.slice = ast.Slice(m.slice.upper, m.slice.lower, m.slice.step)
      add(n, f'swap slice: {ast.unparse(n)}', f)
    if isinstance(n, ast.Break):
      pass
    for k in ('body', 'orelse', 'finalbody'):
      b = getattr(n, k, None)
      if not (isinstance(b, list) and b and isinstance(b[0], ast.stmt)) or isinstance(n, (ast.Module, ast.ClassDef)): continue
      for j, s in enumerate(b):
        if id(s) in skip and not isinstance(s, ast.Raise): continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant): continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and 'logging' in ast.unparse(s.value.func): continue
        if isinstance(s, (ast.Expr, ast.AugAssign, ast.Raise, ast.Delete, ast.Assert, ast.Break, ast.Continue)) or isinstance(s, ast.Assign) and (not isinstance(s.targets[0], ast.Name) and not isinstance(s.targets[0], ast.Tuple) or isinstance(s.targets[0], ast.Name) and s.targets[0].id in {m.id for m in ast.walk(s.value) if isinstance(m, ast.Name)}):
          def f(m, k=k, j=j): getattr(m, k)[j] = ast.Pass()
          out.append((s.lineno, f'delete: {ast.unparse(s)}', num[id(n)], f))
  # a variable used for another one of the same function
  for fn in nodes:
    if not isinstance(fn, ast.FunctionDef): continue
    ps = [a.arg for a in fn.args.args if a.arg not in ('self', 'cls')]
    for n in ast.walk(fn):
      if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in ps and len(ps) > 1 and id(n) not in skip:
        o = ps[(ps.index(n.id) + 1) % len(ps)]
        def f(m, o=o): m.id = o
        add(n, f'{n.id} for {o}', f)
      if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Load) and False: pass
  seen, res = set(), []
  for x in sorted(out, key=lambda x: (x[0], x[2])):
    if (x[0], x[1], x[2]) in seen: continue
    seen.add((x[0], x[1], x[2]))
    res.append(x)
  return res


def apply(src, k):
  mod = ast.parse(src)
  line, what, i, f = sites(mod)[k]
  nodes = list(ast.walk(mod))
  f(nodes[i])
  ast.fix_missing_locations(mod)
  return line, what, ast.unparse(mod)


def function_at(src, line):
  best = '<module>'
  for n in ast.walk(ast.parse(src)):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.lineno <= line <= n.end_lineno: best = n.name if best == '<module>' else best + '.' + n.name
  return best


def run(job):
  file, k, props, tests = job
  src = open(f'/repo/{file}').read()
  try:
    line, what, new = apply(src, k)
    compile(new, file, 'exec')
  except Exception as e: return job, None, 'invalid', str(e)
  if new == ast.unparse(ast.parse(src)): return job, None, 'same', ''
  d = tempfile.mkdtemp(prefix='vsamut.')
  try:
    shutil.copytree('/repo/vmoe', f'{d}/repo/vmoe', ignore=shutil.ignore_patterns('__pycache__'))
    open(f'{d}/repo/{file}', 'w').write(new)
    env = dict(os.environ, VMOE_REPO=f'{d}/repo', VSA_EVIDENCE=f'{d}/ev')
    for p in props:
      r = subprocess.run([sys.executable, '-m', 'vsa', p], cwd=V, env=env, capture_output=True, text=True)
      if r.returncode == 1: return job, (line, what), 'caught', p
      if r.returncode != 0: return job, (line, what), 'ERROR', p + (r.stdout + r.stderr)[-300:]
    for tst in tests:
      r = subprocess.run(['bash', '-c', f'. /opt/vp/support/env.sh; export PYTHONPATH={d}/repo:/opt/vp/support TMPDIR={d} TEST_TMPDIR={d}; cd {d}/repo && timeout 300 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -p absl_flags_plugin -c /opt/vp/support/pytest.ini --rootdir={d}/repo --import-mode=importlib --timeout=200 {tst}'], capture_output=True, text=True)
      if r.returncode == 1: return job, (line, what), 'tests', tst
    return job, (line, what), 'SURVIVED', ''
  finally:
    shutil.rmtree(d, ignore_errors=True)


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('-f', required=True)
  ap.add_argument('-p')
  ap.add_argument('-n', type=int, default=0)
  ap.add_argument('-j', type=int, default=8)
  ap.add_argument('-o')
  ap.add_argument('--tests', action='store_true')
  a = ap.parse_args()
  base = {t.split('::')[0].split('.')[0] for t in ()}
  ev = {}
  for f in glob.glob('/tmp/ev/C*.json'):
    e = json.load(open(f))
    ev[e['property']] = {m.replace('.', '/') + '.py' for m in e['coverage'].get('modules_parsed', [])} | {m.replace('.', '/') + '/__init__.py' for m in e['coverage'].get('modules_parsed', [])}
  NEED = ('vmoe/initialization', 'vmoe/nn/external_test.py', 'vmoe/nn/vit_moe_ensemble_test.py', 'vmoe/nn/vit_moe_test.py', 'vmoe/projects/adversarial_attacks/lib_test.py', 'vmoe/projects/adversarial_attacks/restore_test.py', 'vmoe/projects/contrastive/models_test.py', 'vmoe/train/trainer_test.py')
  for file in a.f.split(','):
    props = a.p.split(',') if a.p else sorted(p for p in ev if file in ev[p])
    tests = []
    if a.tests:
      own = file[:-3] + '_test.py'
      modname = file[:-3].replace('/', '.')
      for p in sorted(glob.glob('/repo/vmoe/**/*_test.py', recursive=True)):
        rp = os.path.relpath(p, '/repo')
        if rp.startswith(NEED): continue
        s = open(p).read()
        last, pk = modname.rsplit('.', 1)[-1], modname.rsplit('.', 1)[0]
        if rp == own or re.search(rf'import {re.escape(modname)}\b|from {re.escape(pk)} import {last}\b', s): tests.append(rp)
    src = open(f'/repo/{file}').read()
    ks = list(range(len(sites(ast.parse(src)))))
    if a.n and len(ks) > a.n: ks = ks[::max(1, len(ks) // a.n)]
    cnt = {}
    with cf.ThreadPoolExecutor(a.j) as ex:
      for job, at, res, info in ex.map(run, [(file, k, props, tests) for k in ks]):
        cnt[res] = cnt.get(res, 0) + 1
        if res in ('SURVIVED', 'ERROR'):
          print(f'{res} {file}:{at[0]} [{function_at(src, at[0])}] #{job[1]} {at[1][:150]} {info}'.replace('\n', ' '), flush=True)
    print(f'{file}: {cnt} props={props} tests={tests}', flush=True)


if __name__ == '__main__': main()

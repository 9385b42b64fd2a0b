#!/usr/bin/env python3
"""Self-test of the checks: every mutation listed must fire, every refactoring must stay quiet.

usage: selftest/run.py [-p C04] [-k substring]
Cases live in selftest/cases_*.py: lists FIRE and QUIET of (name, property or 'C04,C05', file, old, new[, old, new ...]).
Works on throw-away copies of /repo's sources (VMOE_REPO); /repo and evidence/ are not touched."""
import argparse
import concurrent.futures as cf
import glob
import os
import py_compile
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(case):
  kind, name, props, file, *pairs = case
  d = tempfile.mkdtemp(prefix='vsaself.')
  try:
    shutil.copytree(os.environ.get('SELFTEST_BASE', '/repo') + '/vmoe', f'{d}/repo/vmoe', ignore=shutil.ignore_patterns('__pycache__', '*.npz', '*.png'))
    p = f'{d}/repo/{file}'
    s = open(p).read()
    for old, new in zip(pairs[::2], pairs[1::2]):
      if s.count(old) < 1: return case, 'STALE', f'old text found {s.count(old)} times: {old[:60]!r}'
      s = s.replace(old, new, 1)
    open(p, 'w').write(s)
    try:
      py_compile.compile(p, cfile=f'{d}/x.pyc', doraise=True)
    except py_compile.PyCompileError as e:
      return case, 'STALE', str(e)
    env = dict(os.environ, VMOE_REPO=f'{d}/repo', VSA_EVIDENCE=f'{d}/ev')
    outs, rcs = '', []
    for pid in props.split(','):
      r = subprocess.run([sys.executable, '-m', 'vsa', pid], cwd=V, env=env, capture_output=True, text=True)
      rcs.append(r.returncode)
      outs += r.stdout + r.stderr
    if kind == 'FIRE': ok = 1 in rcs and 2 not in rcs
    else: ok = all(x == 0 for x in rcs)
    return case, 'ok' if ok else 'BAD', f'rc={rcs} ' + outs[-1500:]
  finally:
    shutil.rmtree(d)


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('-p')
  ap.add_argument('-k')
  ap.add_argument('-v', action='store_true')
  a = ap.parse_args()
  cases = []
  for f in sorted(glob.glob(f'{V}/selftest/cases_*.py')):
    m = runpy.run_path(f)
    cases += [('FIRE',) + c for c in m.get('FIRE', [])] + [('QUIET',) + c for c in m.get('QUIET', [])]
  if a.p: cases = [c for c in cases if set(a.p.split(',')) & set(c[2].split(','))]
  if a.k: cases = [c for c in cases if a.k in c[1]]
  bad = 0
  with cf.ThreadPoolExecutor(8) as ex:
    for case, st, out in ex.map(run, cases):
      if st != 'ok' or a.v:
        bad += st != 'ok'
        print(f'{st} {case[0]} {case[1]} ({case[2]}): {out}')
  print(f'{len(cases)} cases ({len([c for c in cases if c[0] == "FIRE"])} mutations, {len([c for c in cases if c[0] == "QUIET"])} refactorings), {bad} bad')
  return bad != 0


sys.exit(main())

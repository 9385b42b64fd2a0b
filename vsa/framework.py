"""Runner: obligations, evidence, known findings, exit codes."""
import importlib
import json
import os
import pkgutil
import re
import sys
import time
import traceback

from . import terms as t
from . import engine as E

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REGISTRY = {}


def prop(pid, rule, floor=1):
  """Register the deciding function of property `pid`.

  rule: one-sentence statement of the static rule; floor: least number of
  obligations confirmed by hand on the reference tree (vacuity guard)."""
  def deco(fn):
    REGISTRY[pid] = (fn, rule, floor)
    return fn
  return deco


class Ctx:
  def __init__(self, pid, tier):
    self.pid = pid
    self.tier = tier
    self.eng = E.Engine()
    self.obls = []          # (rule id, construct, ok, detail)
    self.funcs = {}         # analysed entry points
    self.sites = 0
    self.notes = []
    self.und = []
    self.cache = {}

  def analyze(self, path, **kw):
    key = (path, repr(sorted((k, repr(v)) for k, v in kw.items() if k != 'callhook')), id(kw.get('callhook')))
    if key in self.cache: return self.cache[key]
    r = self.eng.analyze(path, **kw)
    self.funcs[path] = len(r.events)
    self.sites += len(r.events)
    self.cache[key] = r
    return r

  def ob(self, rule, construct, ok, detail=''):
    """One obligation. construct: file/function/call site it is about."""
    self.obls.append((rule, construct, bool(ok), detail))
    return bool(ok)

  def undecided(self, rule, construct, why):
    """A construct outside the vocabulary of the analysis: recorded in the evidence, never an alarm."""
    self.und.append((rule, construct, why))

  def section(self, fn, *a, **kw):
    """Run a part of a rule; if the analysis cannot follow the code there, the rest is still decided."""
    try:
      return fn(self, *a, **kw)
    except Exception as ex:
      if os.environ.get('VSA_STRICT'): raise
      tb = traceback.extract_tb(ex.__traceback__)[-1]
      self.undecided(fn.__name__, ' '.join(str(x) for x in a)[:120], f'{type(ex).__name__}: {ex} at {os.path.basename(tb.filename)}:{tb.lineno}')

  def note(self, s):
    self.notes.append(s)


def where(r_or_e):
  if isinstance(r_or_e, E.Event): return r_or_e.where()
  return f'{r_or_e.file}:{r_or_e.line} ({r_or_e.path})'


def load_known(pid):
  out = []
  p = os.path.join(VERIF, 'known-findings.txt')
  if os.path.exists(p):
    for line in open(p):
      line = line.strip()
      m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
      if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
  return out


def key_of(rule, construct):
  """Findings are keyed by rule and construct, not by line number."""
  return re.sub(r'\s+', '_', f'{rule}@{re.sub(r":[0-9]+", "", construct)}')


def main(argv):
  pid = argv[0]
  tier = os.environ.get('VERIF_TIER', 'quick')
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  if tier not in ('quick', 'thorough'): tier = 'quick'
  from . import rules
  for m in pkgutil.iter_modules(rules.__path__): importlib.import_module(f'vsa.rules.{m.name}')
  if pid not in REGISTRY:
    print(f'unknown property {pid}', file=sys.stderr)
    return 2
  fn, rule, floor = REGISTRY[pid]
  t0 = time.time()
  ctx = Ctx(pid, tier)
  err = None
  try:
    fn(ctx)
  except E.AnalysisError as ex:
    ctx.undecided('rest-of-rule', pid, f'the analysis stopped: {ex}')
  except Exception:
    ctx.undecided('rest-of-rule', pid, 'the analysis stopped: ' + traceback.format_exc())
  bad = [o for o in ctx.obls if not o[2]]
  known = load_known(pid)
  kkeys = {k: d for k, d in known}
  new = [o for o in bad if key_of(o[0], o[1]) not in kkeys]
  old = [o for o in bad if key_of(o[0], o[1]) in kkeys]
  if not ctx.obls: err = 'analysis broken: no obligation decided ' + '; '.join(u[2] for u in ctx.und)
  evd = os.environ.get('VSA_EVIDENCE') or os.path.join(VERIF, 'evidence')
  os.makedirs(evd, exist_ok=True)
  ev = {
      'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
      'coverage': {
          'explanation': f'Static analysis of the source under {ctx.eng.root} (never executed). Rule: {rule}',
          'rule': rule,
          'modules_parsed': sorted(m for m, v in ctx.eng.modules.items() if isinstance(v, E.Module) and m.startswith('vmoe')),
          'entry_points_analysed': ctx.funcs,
          'effects_and_call_sites_examined': ctx.sites,
          'obligations_on_reference_tree': floor,
          'obligations': len(ctx.obls), 'discharged': len([o for o in ctx.obls if o[2]]),
          'obligation_list': [f'{"ok" if o[2] else "VIOLATED"} {o[0]} @ {o[1]}' + (f': {o[3]}' if o[3] and not o[2] else '') for o in ctx.obls],
          'undecided': [f'{a} @ {b}: {c}' for a, b, c in ctx.und],
          'notes': ctx.notes,
          'error': err,
      },
      'assumptions': [
          'library functions (jax, flax, numpy, tensorflow, msgpack, optax) behave as documented',
          'names resolve statically (no monkey patching of the analysed modules)',
      ],
      'wall_s': round(time.time() - t0, 3),
      'violations': len(new),
  }
  with open(os.path.join(evd, f'{pid}.json'), 'w') as f:
    json.dump(ev, f, indent=1)
  for o in old:
    print(f'KNOWN-FINDING: property={pid} {o[0]} @ {o[1]}: {kkeys[key_of(o[0], o[1])]}')
  if new:
    rp = os.path.join(evd, f'{pid}.violation.txt')
    with open(rp, 'w') as f:
      for o in new: f.write(f'rule: {o[0]}\nwhere: {o[1]}\nwhat: {o[3]}\nkey: {key_of(o[0], o[1])}\n\n')
      if err: f.write(err)
    for o in new: print(f'  {o[0]} @ {o[1]}: {o[3]}')
    print(f'VIOLATION property={pid} replay={rp}')
    return 1
  if err:
    print(err, file=sys.stderr)
    return 2
  for u in ctx.und: print(f'  undecided {u[0]} @ {u[1]}: {u[2]}')
  print(f'{pid}: ok, {len(ctx.obls)} obligations discharged over {len(ctx.funcs)} entry points, {ctx.sites} effects/call sites ({ev["wall_s"]} s)')
  return 0

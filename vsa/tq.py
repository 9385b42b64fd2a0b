"""Helpers to decide array properties with the index-notation domain."""
import itertools
import os
from . import terms as t
from . import tensor as tz
from .terms import TRUE, FALSE, raw, const, sym


def mod_atom(z, a):
  """Decide an atom that compares n % m with 0 from the symbolic sizes (None if it is not one)."""
  if a.op == 'eq':
    for x, y in (a.args, a.args[::-1]):
      if t.is_const(x, 0) and y.op == 'bin' and y.args[0] == '%':
        return tz.divides(z.size(y.args[2]), z.size(y.args[1])) is not None
  if a.op == 'truth' and a.args[0].op == 'bin' and a.args[0].args[0] == '%':
    y = a.args[0]
    return tz.divides(z.size(y.args[2]), z.size(y.args[1])) is None
  return None


def cases(terms, limit=6):
  """All truth assignments of the atoms that guard values inside the terms."""
  ats = sorted({a for x in terms for a in t.inner_atoms(x)}, key=lambda a: a.uid)
  if len(ats) > limit: raise tz.Unknown(f'{len(ats)} conditions')
  for vals in itertools.product((True, False), repeat=len(ats)): yield dict(zip(ats, vals))


def resolve(z, term, fixed=None):
  """Specialise term: atoms on divisibility by sizes, others from `fixed`; Unknown if some atom stays open."""
  lits = dict(fixed or {})
  for _ in range(12):
    term = t.assume(term, lits)
    ats = [a for a in t.inner_atoms(term) if a not in lits]
    if not ats: return term
    new = {}
    for a in sorted(ats, key=lambda a: a.uid):
      v = mod_atom(z, a)
      if v is not None: new[a] = v
    if not new: raise tz.Unknown(f'open condition {t.show(ats[0], 4)}')
    lits.update(new)
  raise tz.Unknown('conditions')


class Dec:
  """Obligation with three outcomes: discharged, violated, undecided (recorded, never an alarm)."""
  def __init__(self, ctx, rule, where):
    self.ctx, self.rule, self.where = ctx, rule, where
  def __enter__(self): return self
  def __exit__(self, et, ev, tb):
    if et is None: return False
    if issubclass(et, tz.Unknown):
      self.ctx.undecided(self.rule, self.where, str(ev))
      return True
    if issubclass(et, tz.Bad):
      self.ctx.ob(self.rule, self.where, False, f'array sizes do not fit: {ev}')
      return True
    if issubclass(et, Exception) and not os.environ.get('VSA_STRICT'):
      self.ctx.undecided(self.rule, self.where, f'{et.__name__}: {ev}')
      return True
    return False

"""Equality of scalar arithmetic terms.

Terms with the same normal form are equal.  Terms whose normal forms differ are
*refuted* only by a ground instance of the interpreted operators (+ - * / // %
min max ceil floor round abs, comparisons, conditionals) on which they differ;
anything else is left open (None), which a rule reports as undecided."""
import math
import random
from fractions import Fraction

from . import terms as t

UN = {'math.ceil': math.ceil, 'numpy.ceil': math.ceil, 'jax.numpy.ceil': math.ceil, 'math.floor': math.floor, 'numpy.floor': math.floor, 'jax.numpy.floor': math.floor,
      'int': math.trunc, 'abs': abs, 'numpy.abs': abs, 'jax.numpy.abs': abs, 'float': lambda x: x, 'numpy.float32': lambda x: x, 'round': round, 'numpy.round': round,
      'math.trunc': math.trunc, 'bool': bool}
ROOT = {k: (lambda x: Fraction(math.sqrt(x))) for k in ('math.sqrt', 'numpy.sqrt', 'jax.numpy.sqrt', 'jax.lax.sqrt')}
ROOT.update({k: (lambda x: Fraction(1 / math.sqrt(x))) for k in ('jax.lax.rsqrt',)})
UN.update(ROOT)
NARY = {'min': min, 'max': max, 'jax.numpy.minimum': min, 'jax.numpy.maximum': max, 'numpy.minimum': min, 'numpy.maximum': max}


class Open(Exception): pass


def leaf(x):
  return x.op in ('sym', 'attr', 'item', 'nth', 'phi') or (x.op == 'call' and x.args[0].op in ('opaque', 'attr')) or (x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in ('len',))


def ev(x, env):
  if x in env: return env[x]
  op = x.op
  if op == 'const':
    v = x.args[1]
    if isinstance(v, bool): return v
    if isinstance(v, int): return v
    if isinstance(v, float) and math.isfinite(v): return Fraction(v)
    if v is None: return None
    raise Open(t.show(x, 2))
  if op == 'poly':
    s = 0
    for m, c in x.args:
      p = Fraction(c) if isinstance(c, float) else c
      for y, e in m:
        v = ev(y, env)
        if e < 0 and v == 0: raise ZeroDivisionError
        p = p * (Fraction(v) ** e if e < 0 else v ** e)
      s = s + p
    return int(s) if isinstance(s, Fraction) and s.denominator == 1 else s
  if op == 'bin':
    a, b = ev(x.args[1], env), ev(x.args[2], env)
    if x.args[0] == '//': return a // b
    if x.args[0] == '%': return a % b
    if x.args[0] == '-': return a - b
    if x.args[0] == '*': return a * b
    if x.args[0] == '/': return Fraction(a) / b
    if x.args[0] == '**': return Fraction(float(a) ** float(b))
    raise Open(x.args[0])
  if op == 'ite': return ev(x.args[1] if ev(x.args[0], env) else x.args[2], env)
  if op == 'truth': return bool(ev(x.args[0], env))
  if op == 'not': return not ev(x.args[0], env)
  if op == 'lt': return ev(x.args[0], env) < ev(x.args[1], env)
  if op == 'eq': return ev(x.args[0], env) == ev(x.args[1], env)
  if op == 'in': return ev(x.args[0], env) in ev(x.args[1], env)
  if op == 'is': return ev(x.args[0], env) is ev(x.args[1], env)
  if op == 'tuple': return tuple(ev(y, env) for y in x.args)
  if op == 'call' and x.args[0].op == 'glob':
    n = x.args[0].args[0]
    if n in UN and len(x.args[1]) == 1: return UN[n](ev(x.args[1][0], env))
    if n in NARY and len(x.args[1]) >= 2: return NARY[n](*[ev(y, env) for y in x.args[1]])
    if n in NARY and len(x.args[1]) == 1 and x.args[1][0].op in ('tuple', 'list'): return NARY[n](*[ev(y, env) for y in x.args[1][0].args])
    if n in ('jax.numpy.where', 'numpy.where') and len(x.args[1]) == 3: return ev(x.args[1][1] if ev(x.args[1][0], env) else x.args[1][2], env)
  raise Open(t.show(x, 3))


def close(x, y):
  num = (int, float, Fraction)
  return isinstance(x, num) and isinstance(y, num) and not isinstance(x, bool) and not isinstance(y, bool) and abs(x - y) <= 1e-9 * max(1, abs(x), abs(y))


def variables(x, acc=None):
  acc = set() if acc is None else acc
  if leaf(x): acc.add(x)
  else:
    for y in children(x): variables(y, acc)
  return acc


def children(x):
  def go(a):
    if isinstance(a, t.T): yield a
    elif isinstance(a, tuple):
      for b in a: yield from go(b)
  for a in x.args: yield from go(a)


CANON = {'jax.numpy.minimum': 'min', 'numpy.minimum': 'min', 'jax.numpy.maximum': 'max', 'numpy.maximum': 'max', 'numpy.ceil': 'math.ceil', 'jax.numpy.ceil': 'math.ceil', 'numpy.floor': 'math.floor',
         'jax.numpy.floor': 'math.floor', 'numpy.sqrt': 'math.sqrt', 'jax.numpy.sqrt': 'math.sqrt', 'jax.lax.sqrt': 'math.sqrt', 'numpy.abs': 'abs', 'jax.numpy.abs': 'abs'}


def norm(x):
  """One name per function; commutative arguments sorted; 1/sqrt as a power."""
  memo = {}
  def go(y):
    if y in memo: return memo[y]
    args = tuple(t._targs(a, go) for a in y.args)
    r = y if args == y.args else t.rebuild_node(y, args)
    if r.op == 'call' and r.args[0].op == 'glob' and not r.args[2]:
      n = CANON.get(r.args[0].args[0], r.args[0].args[0])
      a = r.args[1]
      if n in ('min', 'max') and len(a) > 1: a = tuple(sorted(a))
      if n == 'jax.lax.rsqrt' and len(a) == 1: r = t.div(t.const(1), t.raw('call', t.glob('math.sqrt'), a, ()))
      elif n != r.args[0].args[0] or a != r.args[1]: r = t.raw('call', t.glob(n), a, ())
    memo[y] = r
    return r
  return go(x)


def equal(a, b, dom=None, n=400, seed=7, allow=None):
  """True (same normal form) / False (a ground instance separates them) / None (open)."""
  if a is b: return True
  a, b = norm(a), norm(b)
  if a is b: return True
  vs = sorted(variables(a) | variables(b), key=lambda v: v.uid)
  if allow is not None and any(v not in allow for v in vs): return None
  rnd = random.Random(seed)
  try:
    for _ in range(n):
      env = {v: (dom[v](rnd) if dom and v in dom else rnd.randint(1, 12) if rnd.random() < .6 else rnd.randint(1, 400)) for v in vs}
      try:
        x, y = ev(a, env), ev(b, env)
      except ZeroDivisionError:
        continue
      except ValueError:   # outside the domain of a root
        continue
      if x != y and not close(x, y): return False
  except (Open, TypeError, OverflowError, ValueError):
    return None
  return None


def escapes(bad, guard, dom=None, n=3000, seed=7):
  """A ground instance on which `bad` holds and `guard` does not, or None."""
  vs = sorted(variables(bad) | variables(guard), key=lambda v: v.uid)
  rnd = random.Random(seed)
  for _ in range(n):
    env = {v: (dom[v](rnd) if dom and v in dom else rnd.randint(1, 12)) for v in vs}
    try:
      if ev(bad, env) and not ev(guard, env): return env
    except (ZeroDivisionError, ValueError): continue
    except (Open, TypeError, OverflowError): return None
  return None

"""Three-valued comparison of value-flow terms: True (equal), False (a construct that differs), None (open).

Equal operations are compared argument by argument, arithmetic through
`arith.equal` with equal operands abstracted to the same symbol, conditionals
case by case when both sides test the same conditions.  Different operations
are open unless they belong to one family of `DISTINCT` operations."""
from . import arith, terms as t
from .terms import const, glob, raw, sym

MATH = {'tensorflow.minimum': 'min', 'tensorflow.math.minimum': 'min', 'tensorflow.maximum': 'max', 'tensorflow.math.maximum': 'max', 'tensorflow.round': 'round', 'tensorflow.math.round': 'round',
        'tensorflow.floor': 'math.floor', 'tensorflow.math.floor': 'math.floor', 'tensorflow.math.ceil': 'math.ceil', 'tensorflow.ceil': 'math.ceil', 'tensorflow.abs': 'abs', 'tensorflow.math.abs': 'abs'}
BIN = {'tensorflow.add': '+', 'tensorflow.math.add': '+', 'tensorflow.subtract': '-', 'tensorflow.math.subtract': '-', 'tensorflow.multiply': '*', 'tensorflow.math.multiply': '*',
       'tensorflow.divide': '/', 'tensorflow.math.divide': '/', 'tensorflow.math.truediv': '/', 'tensorflow.floordiv': '//', 'tensorflow.math.floordiv': '//', 'tensorflow.truediv': '/'}
INTS = {f'tensorflow.{n}' for n in ('int32', 'int64', 'uint8', 'int8', 'int16')}
FLOATS = {f'tensorflow.{n}' for n in ('float32', 'float64')}
IDENT = {'tensorflow.constant', 'tensorflow.convert_to_tensor', 'tensorflow.identity'}
DISTINCT = [{'tensorflow.image.resize', 'tensorflow.v1image.resize', 'tensorflow.v1image.resize_images', 'tensorflow.image.resize_with_pad', 'tensorflow.image.resize_with_crop_or_pad'},
            {'tensorflow.image.random_flip_left_right', 'tensorflow.image.flip_left_right', 'tensorflow.image.random_flip_up_down', 'tensorflow.image.flip_up_down'},
            {'tensorflow.math.logical_and', 'tensorflow.math.logical_or', 'tensorflow.math.logical_xor'},
            {'tensorflow.slice', 'tensorflow.image.resize'},
            {f'flax.linen.{n}' for n in ('LayerNorm', 'MultiHeadDotProductAttention', 'Dropout', 'Dense', 'Conv', 'Embed', 'tanh', 'relu', 'gelu', 'sigmoid', 'softmax')} | {'vit_jax.models_vit.IdentityLayer', 'vit_jax.models_vit.AddPositionEmbs'},
            {f'flax.linen.initializers.{n}' for n in ('zeros', 'ones', 'xavier_uniform', 'normal', 'constant', 'lecun_normal')} | {'flax.linen.linear.default_kernel_init'},
            {'jax.numpy.sin', 'jax.numpy.cos', 'jax.numpy.tan'}, {'jax.numpy.exp', 'jax.numpy.log', 'jax.numpy.sqrt', 'jax.numpy.square'}]


def cv(x): return x.args[1]


def norm(x):
  """Tensorflow arithmetic under the names of scalar arithmetic; conversions that keep the value dropped."""
  memo = {}
  def go(y):
    if y in memo: return memo[y]
    args = tuple(t._targs(a, go) for a in y.args)
    r = y if args == y.args else t.rebuild_node(y, args)
    if r.op == 'call' and r.args[0].op == 'glob':
      n, a, kw = r.args[0].args[0], r.args[1], dict((k, v) for k, v in r.args[2] if isinstance(k, str))
      if n in MATH and not kw: r = raw('call', glob(MATH[n]), a, ())
      elif n in BIN and len(a) == 2: r = t.binop(BIN[n], a[0], a[1])
      elif n in IDENT and a: r = a[0]
      elif n == 'tensorflow.cast' and a:
        ty = a[1] if len(a) > 1 else kw.get('dtype')
        if ty is not None and ty.op == 'glob' and ty.args[0] in FLOATS: r = a[0]
        elif ty is not None and ty.op == 'glob' and ty.args[0] in INTS: r = raw('call', glob('int'), (a[0],), ())
        elif a[0].op == 'call' and t.is_glob(a[0].args[0], 'tensorflow.reshape') and ty is t.attr(a[0].args[1][0], 'dtype'): r = a[0]
      elif n == 'tensorflow.clip_by_value' and len(a) == 3: r = raw('call', glob('min'), (a[2], raw('call', glob('max'), (a[0], a[1]), ())), ())
      elif n == 'tensorflow.shape' and len(a) == 1: r = t.attr(a[0], 'shape')
      elif n in ('tensorflow.logical_and', 'tensorflow.logical_or'): r = raw('call', glob('tensorflow.math.' + n[11:]), a, r.args[2])
    if r.op == 'totuple' and r.args[0].op in ('tuple', 'list'): r = raw('tuple', *r.args[0].args)
    if r.op == 'item' and r.args[0].op == 'tuple': r = t.item(r.args[0], r.args[1])
    if r.op == 'item' and r.args[0].op == 'call' and t.is_glob(r.args[0].args[0], 'tensorflow.unstack') and len(r.args[0].args[1]) == 1 and not r.args[0].args[2]:
      v = r.args[0].args[1][0]
      if v.op == 'poly' and all(len(m) == 1 and m[0][1] == 1 for m, c in v.args if m):   # element of a sum of vectors
        s = const(0)
        for m, c in v.args: s = t.binop('+', s, t.binop('*', const(c), t.item(m[0][0], r.args[1])) if m else const(c))
        r = s
      else: r = t.item(v, r.args[1])
    memo[y] = r
    return r
  return go(x)


ARITH = ('poly', 'bin')


def is_arith(x):
  if x.op in ARITH: return True
  return x.op == 'call' and x.args[0].op == 'glob' and (x.args[0].args[0] in arith.UN or x.args[0].args[0] in arith.NARY) and not x.args[2]


def operands(x, acc):
  """Maximal non-arithmetic subterms."""
  if x.op == 'const': return
  if is_arith(x):
    for y in arith.children(x if x.op != 'call' else raw('tuple', *x.args[1])): operands(y, acc)
  elif x not in acc: acc.append(x)


def same(a, b):
  """`b` is the wanted term."""
  a, b = norm(a), norm(b)
  r = _same(a, b, 0)
  if r is None:
    syms = lambda x: {y for y in t.subterms(x) if y.op == 'sym'}
    if syms(b) - syms(a): return False      # an argument the result depends on is not used at all
    opts = lambda x: {y for y in t.subterms(x) if y.op == 'attr' and y.args[0].op == 'self'}
    if opts(b) - opts(a) and not any(z.op == 'self' for y in t.subterms(a) if y.op != 'attr' for w in y.args for z in (w if isinstance(w, tuple) else (w,)) if isinstance(z, t.T)): return False
    dts = lambda x: any(y.op == 'attr' and y.args[1] == 'dtype' for y in t.subterms(x))
    if dts(b) and not dts(a): return False  # the type of the input does not matter for the result
  return r


def _same(a, b, depth):
  if a is b: return True
  if depth > 30: return None
  ats = sorted(set(t.inner_atoms(a)) | set(t.inner_atoms(b)), key=lambda y: y.uid)
  if a.op == 'ite' or b.op == 'ite' or ((is_arith(a) or is_arith(b)) and ats):
    if not ats or len(ats) > 6: return None
    both = set(t.inner_atoms(a)) & set(t.inner_atoms(b))
    at = sorted(both, key=lambda y: y.uid)[0] if both else ats[0]
    res = [_same(t.assume(a, {at: v}), t.assume(b, {at: v}), depth + 1) for v in (True, False)]
    if not both: return True if res == [True, True] else None
    return _all(res)
  if is_arith(a) or is_arith(b):
    oa, ob = [], []
    operands(a, oa); operands(b, ob)
    sub = {}
    for i, y in enumerate(ob): sub[y] = sym(f'#{i}')
    suba = {}
    verdicts = []
    for x in oa:
      if x in sub: suba[x] = sub[x]; continue
      m = [y for y in ob if _same(x, y, depth + 1) is True]
      if m: suba[x] = sub[m[0]]
      else: verdicts.append(x)
    if verdicts:
      rest = [y for y in ob if sub[y] not in suba.values()]
      if len(verdicts) == 1 and len(rest) == 1 and t.subst(a, {verdicts[0]: rest[0]}) is b: return _same(verdicts[0], rest[0], depth + 1)
      base = lambda x: base(x.args[0]) if x.op == 'item' and x.args[1].op == 'const' else x
      known = {base(y) for y in ob}
      if all(x.op == 'sym' or (x.op == 'item' and base(x) in known) for x in verdicts):   # independent components
        for i, x in enumerate(verdicts): suba[x] = sym(f'#u{i}')
      else: return None
    r = arith.equal(t.subst(a, suba), t.subst(b, sub))
    return r
  if a.op in ('totuple', 'listof') or b.op in ('totuple', 'listof'):
    x = a.args[0] if a.op in ('totuple', 'listof') else a
    y = b.args[0] if b.op in ('totuple', 'listof') else b
    return _same(x, y, depth + 1)
  if a.op == 'call' and b.op == 'call':
    r = _same(a.args[0], b.args[0], depth + 1)
    if r is not True: return r if r is False and a.args[0].op in ('glob', 'call') else None
    ka, kb = dict(a.args[2]), dict(b.args[2])
    if len(a.args[1]) == len(b.args[1]) and set(ka) < set(kb) and not any(kb[k].op == 'const' for k in set(kb) - set(ka)) and a.args[0].op in ('glob', 'call') and all(isinstance(k, str) for k in kb):
      return False       # an option that has to be passed on is left at its default
    if len(a.args[1]) != len(b.args[1]) or set(ka) != set(kb): return None
    return _all([_same(x, y, depth + 1) for x, y in zip(a.args[1], b.args[1])] + [_same(ka[k], kb[k], depth + 1) for k in ka])
  for x, y in ((a, b), (b, a)):   # a function that is not the identity, left out or added
    if y.op == 'call' and y.args[0].op == 'glob' and y.args[0].args[0].rsplit('.', 1)[-1] in ('log', 'exp', 'sqrt', 'tanh', 'square') and y.args[1] == (x,): return False
  if a.op == 'glob' and b.op == 'glob':
    if any(a.args[0] in s and b.args[0] in s for s in DISTINCT): return False
    if a.args[0] in INTS | FLOATS and b.args[0] in INTS | FLOATS: return False
    return None
  if a.op in ('tuple', 'list') and b.op in ('tuple', 'list'):
    if len(a.args) != len(b.args): return False
    return _all([_same(x, y, depth + 1) for x, y in zip(a.args, b.args)])
  if a.op == b.op and a.op in ('item', 'index', 'nth', 'attr', 'lt', 'eq', 'not', 'truth', 'neg', 'slice') and len(a.args) == len(b.args):
    res = []
    for x, y in zip(a.args, b.args):
      if isinstance(x, t.T) and isinstance(y, t.T): res.append(_same(x, y, depth + 1))
      elif x != y: res.append(False)
    return None if None in res else _all(res)
  if a.op == 'const' and b.op == 'const': return False if a is not b and cv(a) != cv(b) else True
  if {a.op, b.op} <= {'const', 'sym'}: return False
  if {a.op, b.op} <= {'glob', 'const'}: return None
  return None


def _all(res):
  if False in res: return False
  return None if None in res else True

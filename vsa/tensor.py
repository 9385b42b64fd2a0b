"""Index-notation abstract domain for array programs.

An array-valued term of the value-flow analysis (jnp/np calls, methods,
operators) is interpreted as an *element expression over named indices*: every
dimension is a row-major product of index factors with symbolic sizes, and the
value is a term over those indices.  Re-layout operations (reshape, swapaxes,
transpose, einsum, gather, one_hot, repeat, vmap ...) only re-group, rename or
substitute indices, so two programs that compute the same elements have the
same normal form however they are written.  Nothing is executed; sizes stay
symbolic.  Anything outside the vocabulary raises Unknown.
"""
import itertools

from . import terms as t
from .terms import T, TRUE, FALSE, NONE, raw, const, glob, fresh, sym


class Unknown(Exception):
  pass


class Bad(Exception):
  """The array program is ill-formed (incompatible sizes)."""


ONE = const(1)
BELL = ('bell',)   # block of size-1 dimensions matching a trailing '...' block


class Whole(int):
  """Position of a '...' block that is meant as a whole."""


class Arr:
  __slots__ = ('dims', 'val')
  def __init__(self, dims, val):
    self.dims = tuple(dims)
    self.val = val


# ------------------------------------------------------------- sizes
def mono(s):
  """(coef, {atom: power}) of a monomial size term, or None."""
  p = t.poly_of(s)
  if len(p) != 1: return None
  (m, c), = p.items()
  return c, dict(m)


def divides(a, b):
  """b / a if a divides b as monomials, else None."""
  if b is a: return ONE
  if t.is_const(a, 1): return b
  ma, mb = mono(a), mono(b)
  if ma is None or mb is None: return None
  ca, da = ma
  cb, db = mb
  if not isinstance(ca, int) or not isinstance(cb, int) or ca == 0 or cb % ca: return None
  d = dict(db)
  for x, e in da.items():
    d[x] = d.get(x, 0) - e
    if d[x] < 0: return None
  return t.from_poly({tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda xe: xe[0].uid)): cb // ca})


ELEMWISE_ID = {'astype', 'asarray', 'array', 'stop_gradient', 'copy', 'device_put', 'with_sharding_constraint', 'block_until_ready', 'lax.stop_gradient',
               'with_logical_constraint', 'optimization_barrier', 'asanyarray', 'ascontiguousarray', 'float32', 'int32', 'bfloat16', 'float16', 'convert_element_type'}
ELEMWISE = {'exp', 'log', 'sqrt', 'abs', 'square', 'sign', 'logical_not', 'erf', 'tanh', 'sigmoid', 'floor', 'ceil', 'round', 'isfinite', 'isnan', 'rsqrt', 'relu', 'reciprocal', 'cdf', 'log1p', 'expm1', 'log_sigmoid', 'invert', 'xlogy', 'nan_to_num', 'sin', 'cos'}
ELEM2 = {'maximum', 'minimum', 'power', 'mod', 'logical_and', 'logical_or', 'logical_xor', 'fmod', 'xlogy', 'floor_divide', 'remainder'}
REDUCE = {'max', 'min', 'prod', 'any', 'all', 'argmax', 'argmin', 'logsumexp', 'std', 'var', 'median', 'amax', 'amin', 'norm'}


def short(fn):
  """Short name of a called function term, for library namespaces."""
  if fn.op == 'glob':
    n = fn.args[0]
    for p in ('jax.numpy.linalg.', 'jax.numpy.', 'numpy.linalg.', 'numpy.', 'jax.nn.', 'jax.lax.', 'flax.linen.', 'jax.scipy.stats.norm.', 'jax.scipy.stats.', 'jax.scipy.special.', 'jax.', 'optax.losses.', 'optax.', 'tensorflow.', 'vmoe.partitioning.'):
      if n.startswith(p) and '.' not in n[len(p):]: return n[len(p):]
    if '.' not in n: return n
  if fn.op == 'opaque': return fn.args[0].rsplit('.', 1)[-1]
  return None


class Tensor:
  def __init__(self, assume=None):
    self.env = {}        # T -> Arr
    self.sz = {}         # index sym -> size T
    self.ell = set()     # index syms that stand for a '...' block
    self.lits = assume or {}
    self.memo = {}
    self.size_env = {}   # T -> T
    self.bools = set()   # base arrays known to hold booleans

  # ----------------------------------------------------------- declare
  def ix(self, size, hint='x'):
    s = fresh(hint)
    self.sz[s] = size
    return s

  def new_ell(self):
    s = fresh('ell')
    self.ell.add(s)
    self.sz[s] = raw('sizeof', s)
    return s

  def declare(self, term, dims, label=None):
    """dims: size terms or '...' ; registers `term` as a base array."""
    ds = []
    for i, d in enumerate(dims):
      if d == '...': ds.append((self.new_ell(),))
      elif isinstance(d, (tuple, list)): ds.append(tuple(self.ix(x) for x in d))
      elif t.is_const(d, 1): ds.append(())
      else: ds.append((self.ix(d, str(d.args[0]).lower()[:3] if d.op == 'sym' else 'x'),))
    a = Arr(ds, raw('el', label or term, *[self.mix(d) for d in ds]))
    self.env[term] = a
    return a

  def mix(self, fs):
    fs = [f for f in fs]
    if not fs: return const(0)
    if len(fs) == 1: return fs[0]
    return self.mk_mix([(f, self.sz[f]) for f in fs])

  def mk_mix(self, parts):
    out = []
    for v, s in parts:
      if v.op == 'mix': out.extend(v.args)
      else: out.append((v, s))
    # re-join split indices
    i = 0
    while i < len(out):
      v, s = out[i]
      if v.op == 'unmix' and v.args[1] == 0:
        n = len(v.args[2])
        seg = out[i:i + n]
        if len(seg) == n and all(x.op == 'unmix' and x.args[0] is v.args[0] and x.args[1] == k and x.args[2] == v.args[2] for k, (x, _) in enumerate(seg)):
          tot = ONE
          for z in v.args[2]: tot = t.mul(tot, z)
          inner = v.args[0]
          out[i:i + n] = list(inner.args) if inner.op == 'mix' else [(inner, tot)]
          continue
      i += 1
    if len(out) == 1: return out[0][0]
    return raw('mix', *out)

  # ----------------------------------------------------------- values
  def clam(self, vs, body):
    """Canonical (order-independent) abstraction over index symbols."""
    vs = list(vs)
    if len(vs) <= 1 or len(vs) > 5: return t.lam(vs, body)
    return min((t.lam(p, body) for p in itertools.permutations(vs)), key=lambda x: x.uid)

  def rsum(self, vs, body):
    vs = [v for v in vs]
    if not vs: return body
    out = const(0)
    for m, c in t.poly_of(body).items():
      fs = [(x, e) for x, e in m]
      left = list(vs)
      mult = const(c)
      # variables not mentioned contribute their size
      ment = {x: t.subterms(x) for x, _ in fs}
      unused = [v for v in left if not any(v in ment[x] for x, _ in fs)]
      for v in unused: mult = t.mul(mult, self.sz[v])
      left = [v for v in left if v not in unused]
      hit = None
      for x, e in fs:
        if x.op != 'eq' or e < 1: continue
        for a_, b_ in (x.args, x.args[::-1]):
          if a_ in left and b_.op == 'topk' and a_ not in t.subterms(b_) and b_.args[2] is self.sz[a_]: hit = (a_, b_, x)
      if hit:   # a sum against an indicator of one index in range picks that element
        v_, at, ind = hit
        p = const(c)
        for x, e in m:
          if x is ind: continue
          for _ in range(abs(e)): p = t.mul(p, x) if e > 0 else t.div(p, x)
        out = t.add(out, self.rsum([v for v in vs if v is not v_], self.sub(p, {v_: at})))
        continue
      inside, outside = [], []
      for x, e in fs: (inside if any(v in ment[x] for v in left) else outside).append((x, e))
      def prod(l):
        p = ONE
        for x, e in l:
          for _ in range(abs(e)): p = t.mul(p, x) if e > 0 else t.div(p, x)
        return p
      nested = [(x, e) for x, e in inside if x.op == 'rsum' and e == 1]
      if left and nested:   # one sum over all indices
        term, allv = prod([y for y in inside if y not in nested]), list(left)
        for x, _ in nested:
          syms, b = t.open_lam(x.args[0], 'x')
          for s_, z in zip(syms, x.args[1]): self.sz[s_] = z
          allv += syms
          term = t.mul(term, b)
        term = self.rsum(allv, term)
      else: term = self.mk_rsum(left, prod(inside)) if left else prod(inside)
      out = t.add(out, t.mul(t.mul(mult, prod(outside)), term))
    return out

  def mk_rsum(self, vs, body):
    best = None
    for p in (itertools.permutations(vs) if len(vs) <= 5 else [tuple(vs)]):
      x = raw('rsum', t.lam(list(p), body), tuple(self.sz[v] for v in p))
      if best is None or x.uid < best.uid: best = x
    return best

  def sub(self, v, m):
    """Substitute index symbols in an element expression, renormalising."""
    if not m: return v
    keys = set(m)
    memo = {}
    def go(x):
      if x in memo: return memo[x]
      if x in m: r = m[x]
      elif not (keys & t.subterms(x)): r = x
      else: r = self.rebuild(x, go)
      memo[x] = r
      return r
    return go(v)

  def rebuild(self, x, go):
    op = x.op
    if op == 'mix': return self.mk_mix([(go(v), s) for v, s in x.args])
    if op == 'rsum':
      syms, b = t.open_lam(x.args[0], 'x')
      for s, z in zip(syms, x.args[1]): self.sz[s] = z
      return self.rsum(syms, go(b))
    if op == 'lam':
      syms, b = t.open_lam(x, 'x')
      return self.clam(syms, go(b)) if False else t.lam(syms, go(b))
    if op == 'red':
      syms, b = t.open_lam(x.args[1], 'x')
      return raw('red', x.args[0], self.clam(syms, go(b)))
    args = tuple(t._targs(a, go) for a in x.args)
    return self.node(op, args, x)

  def node(self, op, args, x=None):
    if op == 'pick':
      j = args[0]
      if t.is_const(j):
        return args[1 + j.args[1]]
      if j.op == 'sym' and j in args[1:]: pass
      return raw('pick', *args)
    if op == 'argsort':
      l, at = args
      # argsort(argsort(f)) is the inverse permutation of argsort(f)
      if at.op == 'argsort':
        s, b = t.open_lam(at.args[0], 'x')
        if b.op == 'argsort' and b.args[0] is l and b.args[1] is s[0]: return at.args[1]
        s, b = t.open_lam(l, 'x')
        if b.op == 'argsort' and b.args[0] is at.args[0] and b.args[1] is s[0]: return at.args[1]
      return raw('argsort', l, at)
    if op == 'unmix':
      v, k, zs = args
      if v.op == 'mix' and len(v.args) == len(zs) and all(a[1] is z for a, z in zip(v.args, zs)): return v.args[k][0]
      return raw('unmix', v, k, zs)
    if x is not None: return t.rebuild_node(x, args)
    return raw(op, *args)

  def asub(self, a, m):
    """Rename/substitute index factors of an Arr (m: sym -> tuple of syms)."""
    if not m: return a
    dims = [tuple(y for x in d for y in (m.get(x, (x,)))) if d is not BELL else d for d in a.dims]
    return Arr(dims, self.sub(a.val, {k: self.mix(v) for k, v in m.items()}))

  def freshen(self, a):
    m = {}
    for d in a.dims:
      if d is BELL: continue
      for x in d:
        y = fresh(x.args[0].split('#')[0] if isinstance(x.args[0], str) else 'x')
        self.sz[y] = self.sz[x]
        if x in self.ell: y = x
        m[x] = (y,)
    return self.asub(a, {k: v for k, v in m.items() if v[0] is not k})

  def split(self, a, f, s1, s2):
    x, y = self.ix(s1), self.ix(s2)
    return self.asub(a, {f: (x, y)}), x, y

  def dsize(self, d):
    if d is BELL: return ONE
    s = ONE
    for f in d: s = t.mul(s, self.sz[f])
    return s

  def known(self, z):
    m = [y for k in t.poly_of(z) for y, _ in k]
    return all(y.op in ('sym', 'sizeof') for y in m)

  def bad(self, msg, *sizes):
    """Size mismatch: an alarm only if both sizes are fully understood."""
    for z in sizes:
      if not self.known(z): raise Unknown(f'size {t.show(z, 4)}')
    raise Bad(msg)

  def is_ell(self, d): return d is BELL or (len(d) == 1 and d[0] in self.ell)

  # ----------------------------------------------------------- unify dims
  def unify(self, a, b, pairs):
    """Make the dims of a and b listed in pairs (indices) use the same factors."""
    for i, j in pairs:
      while True:
        da, db = a.dims[i], b.dims[j]
        if da == db: break
        k = 0
        while k < len(da) and k < len(db) and da[k] is db[k]: k += 1
        if k >= len(da) or k >= len(db): self.bad(f'size mismatch {t.show(self.dsize(da))} vs {t.show(self.dsize(db))}', self.dsize(da), self.dsize(db))
        fa, fb = da[k], db[k]
        sa, sb = self.sz[fa], self.sz[fb]
        if fa in self.ell or fb in self.ell:
          if fa in self.ell and fb in self.ell:
            b = self.asub(b, {fb: (fa,)})
            continue
          raise Bad('named axis against ...')
        if sa is sb:
          if fa in [x for dd in b.dims if dd is not BELL for x in dd]:
            raise Unknown('index used twice')
          b = self.asub(b, {fb: (fa,)})
          continue
        q = divides(sa, sb)
        if q is not None:
          b, x, y = self.split(b, fb, sa, q)
          continue
        q = divides(sb, sa)
        if q is not None:
          a, x, y = self.split(a, fa, sb, q)
          continue
        self.bad(f'size mismatch {t.show(sa)} vs {t.show(sb)}', sa, sb)
    return a, b

  def same(self, a, b):
    """Do two arrays have the same shape and the same elements?"""
    if len(a.dims) != len(b.dims): return False
    b = self.freshen(b)
    try:
      a, b = self.unify(a, b, [(i, i) for i in range(len(a.dims))])
    except Bad:
      return False
    return a.val is b.val

  def broadcast(self, f, *arrs):
    """Elementwise f over broadcast arrays."""
    r = arrs[0]
    vals = None
    if len(arrs) == 1: return Arr(r.dims, f(r.val))
    acc = arrs[0]
    got = [acc.val]
    dims = acc.dims
    for b in arrs[1:]:
      b = self.freshen(b)
      cur = Arr(dims, raw('pack', *got))
      cur, b, dims = self.align(cur, b)
      got = list(cur.val.args) + [b.val]
    return Arr(dims, f(*got))

  def align(self, a, b):
    la, lb = list(a.dims), list(b.dims)
    ea = [i for i, d in enumerate(la) if self.is_ell(d)]
    eb = [i for i, d in enumerate(lb) if self.is_ell(d)]
    if len(ea) > 1 or len(eb) > 1: raise Unknown('several ... blocks')
    pairs, order = [], []
    def right(ia, ib):
      out = []
      ia, ib = list(ia), list(ib)
      while ia or ib:
        out.append((ia.pop() if ia else None, ib.pop() if ib else None))
      return out[::-1]
    if ea and eb:
      order = right(range(ea[0]), range(eb[0])) + [(ea[0], eb[0])] + right(range(ea[0] + 1, len(la)), range(eb[0] + 1, len(lb)))
      if len(la) - ea[0] != len(lb) - eb[0]: raise Unknown('... blocks not aligned')
    elif ea or eb:
      l, e, o = (la, ea, lb) if ea else (lb, eb, la)
      if len(o) > len(l) - e[0] - 1: raise Unknown('broadcast against ...')
      order = right(range(len(la)), range(len(lb)))
    else:
      order = right(range(len(la)), range(len(lb)))
    for i, j in order:
      if i is None or j is None: continue
      if la[i] is BELL or lb[j] is BELL or not la[i] or not lb[j]: continue
      pairs.append((i, j))
    a, b = self.unify(a, b, pairs)
    dims = []
    for i, j in order:
      if i is None: dims.append(b.dims[j])
      elif j is None: dims.append(a.dims[i])
      elif a.dims[i] is BELL or not a.dims[i]: dims.append(b.dims[j])
      else: dims.append(a.dims[i])
    return a, b, dims

  # ----------------------------------------------------------- shapes
  def size(self, x):
    """Evaluate a term as a dimension size."""
    if x in self.size_env: return self.size_env[x]
    if t.is_const(x): return x
    if x.op == 'poly':
      r = const(0)
      for m, c in x.args:
        p = const(c)
        for y, e in m:
          s = self.size(y)
          for _ in range(abs(e)): p = t.mul(p, s) if e > 0 else t.div(p, s)
        r = t.add(r, p)
      return r
    if x.op == 'item':
      b, i = x.args
      if b.op == 'attr' and b.args[1] == 'shape':
        l = self.shape_of(b.args[0])
        if l is not None and t.is_const(i):
          k = i.args[1]
          if k < 0:
            if -k <= len(l) and all(y is not Ellipsis for y in l[k:]): return l[k]
            k += len(l)
          if k < len(l) and all(y is not Ellipsis for y in l[:k + 1]): return l[k]
          raise Unknown('shape index')
      if (b.op in ('tuple', 'list', 'cat') or (self.is_seq(b) and b.op != 'attr')) and t.is_const(i):
        l = self.shape(b)
        if b.op == 'item' and 0 <= i.args[1] < len(l) and not any(isinstance(y, tuple) for y in l[:i.args[1] + 1]): return l[i.args[1]]
        if all(y is not Ellipsis and y is not BELL for y in l): return l[i.args[1]]
    if x.op == 'call':
      n = short(x.args[0])
      if n == 'len' and len(x.args[1]) == 1:
        l = self.shape_of(x.args[1][0])
        if l and l[0] is not Ellipsis: return l[0]
      if n in ('prod',) and len(x.args[1]) == 1:
        r = ONE
        for y in self.shape(x.args[1][0]):
          if y is Ellipsis or y is BELL: raise Unknown('prod of ...')
          r = t.mul(r, y)
        return r
      if n == 'int' and len(x.args[1]) == 1: return self.size(x.args[1][0])
    if x.op == 'attr' and x.args[1] == 'size':
      r = ONE
      for y in self.shape_of(x.args[0]) or []:
        if y is Ellipsis: raise Unknown('size of ...')
        r = t.mul(r, y)
      return r
    if x.op == 'bin' and x.args[0] == '//':
      a, b = self.size(x.args[1]), self.size(x.args[2])
      q = divides(b, a)
      if q is not None: return q
    if x.op == 'ite' and x.args[0] in self.lits: return self.size(x.args[1] if self.lits[x.args[0]] else x.args[2])
    # any other expression: sizes inside it are still evaluated so that equal expressions agree
    return x

  def shape_of(self, x):
    try:
      a = self.arr(x)
    except Unknown:
      return None
    return [Ellipsis if self.is_ell(d) else self.dsize(d) for d in a.dims]

  def ell_of(self, x):
    for d in self.arr(x).dims:
      if self.is_ell(d): return d
    return None

  def shape(self, *args):
    """Shape arguments -> list of size terms, -1, (ellsym,) or BELL."""
    out = []
    for a in args:
      if a.op in ('tuple', 'list') or a.op == 'cat':
        out += self.shape(*a.args)
      elif a.op == 'star': out += self.shape_seq(a.args[0])
      elif self.is_seq(a): out += self.shape_seq(a)
      else: out.append(self.size(a))
    return out

  def is_seq(self, a):
    if a.op in ('listof', 'totuple', 'seqmul', 'setitem', 'map'): return True
    if a.op == 'attr' and a.args[1] == 'shape': return True
    if a.op == 'item' and a.args[1].op == 'slice': return True
    return False

  def shape_seq(self, a):
    if a.op in ('listof', 'totuple'): return self.shape_seq(a.args[0])
    if a.op in ('tuple', 'list', 'cat'): return self.shape(*a.args)
    if a.op == 'attr' and a.args[1] == 'shape':
      r = self.arr(a.args[0])
      return [d if self.is_ell(d) else self.dsize(d) for d in r.dims]
    if a.op == 'item' and a.args[1].op == 'slice':
      l = self.shape_seq(a.args[0])
      lo, hi, st = a.args[1].args
      if st not in (NONE, ONE): raise Unknown('strided shape slice')
      lo = 0 if lo is NONE else t.cval_or(lo)
      hi = len(l) if hi is NONE else t.cval_or(hi)
      if lo is None or hi is None: raise Unknown('shape slice')
      e = [i for i, d in enumerate(l) if isinstance(d, tuple)]
      if e:
        if lo < 0 or (lo > e[0]): raise Unknown('shape slice past ...')
        if hi != len(l) and not (0 <= hi <= e[0]):
          if hi < 0 and -hi <= len(l) - 1 - e[0]: hi += len(l)
          else: raise Unknown('shape slice into ...')
      return l[lo:hi]
    if a.op == 'seqmul':
      base, n = a.args
      if base.op in ('tuple', 'list') and len(base.args) == 1 and t.is_const(base.args[0], 1):
        k = self.ndim_expr(n)
        return k
    if a.op == 'map' and a.args[2] is t.TRUE and a.args[1].op == 'call' and t.is_glob(a.args[1].args[0], 'range') and len(a.args[1].args[1]) == 1:
      (i, *_), b = t.open_lam(a.args[0])
      if t.is_const(b, 1): return self.ndim_expr(a.args[1].args[1][0])
    if a.op == 'setitem' and isinstance(t.cval_or(a.args[1]), int):
      l = list(self.shape_seq(a.args[0]))
      k = t.cval_or(a.args[1])
      if any(isinstance(d, tuple) for d in l) or not -len(l) <= k < len(l): raise Unknown('assignment to a shape')
      l[k] = a.args[2]
      return l
    if a.op == 'ite' and a.args[0] in self.lits: return self.shape_seq(a.args[1] if self.lits[a.args[0]] else a.args[2])
    raise Unknown(f'shape {t.show(a, 4)}')

  def ndim_expr(self, n):
    """(1,) * n with n = x.ndim - k."""
    c = t.cval_or(n)
    if isinstance(c, int): return [ONE] * c
    if n.op == 'call' and short(n.args[0]) in ('max', 'min') and len(n.args[1]) > 1 and not n.args[2]:
      l = [self.ndim_expr(y) for y in n.args[1]]
      mx = short(n.args[0]) == 'max'
      if not mx and any(BELL in y for y in l): raise Unknown('ndim expression')
      return (max if mx else min)(l, key=lambda y: (BELL in y, len(y)))
    p = t.poly_of(n)
    k = p.pop((), 0)
    ells = 0
    for m, co in p.items():
      if len(m) != 1 or m[0][1] != 1 or not isinstance(co, int): raise Unknown('ndim expression')
      x = m[0][0]
      if x.op == 'attr' and x.args[1] == 'ndim': l = [d if self.is_ell(d) else None for d in self.arr(x.args[0]).dims]
      elif x.op == 'call' and short(x.args[0]) == 'len': l = self.shape_seq(x.args[1][0])
      else: raise Unknown('ndim expression')
      e = sum(isinstance(y, tuple) for y in l)
      k += co * (len(l) - e)
      ells += co * e
    if ells not in (0, 1): raise Unknown('ndim expression')
    if k < 0:
      if ells: raise Unknown('ndim')
      k = 0
    return [ONE] * k + [BELL] * ells

  # ----------------------------------------------------------- reshape
  def reshape(self, a, targets):
    try:
      return self.reshape_aligned(a, targets)
    except Unknown:
      r = self.reshape_mixed(a, targets)
      if r is None: raise
      return r

  def reshape_mixed(self, a, targets):
    """Row-major reshape whose axes do not line up: old indices become digits of the new flat position."""
    if any(d is BELL for d in a.dims) or any(z is BELL for z in targets): return None
    F = [f for d in a.dims for f in d]
    tot = ONE
    for f in F:
      if f not in self.ell: tot = t.mul(tot, self.sz[f])
    oth = ONE
    neg = None
    for i, z in enumerate(targets):
      if isinstance(z, tuple): continue
      if t.is_const(z, -1): neg = i
      else: oth = t.mul(oth, z)
    targets = list(targets)
    if neg is not None:
      n = divides(oth, tot)
      if n is None: return None
      targets[neg] = n
    elif oth is not tot: self.bad(f'reshape of {t.show(tot)} elements into {t.show(oth)}', tot, oth)
    dims, m = [], {}
    i = 0
    j = 0
    while j < len(targets):
      if isinstance(targets[j], tuple):
        if i >= len(F) or F[i] not in self.ell: return None
        dims.append((F[i],))
        i += 1
        j += 1
        continue
      hit = None
      nt = ONE
      for jj in range(j, len(targets)):
        if isinstance(targets[jj], tuple): break
        nt = t.mul(nt, targets[jj])
        ns = ONE
        for ii in range(i, len(F) + 1):
          if ns is nt:
            hit = ii, jj + 1
            break
          if ii == len(F) or F[ii] in self.ell: break
          ns = t.mul(ns, self.sz[F[ii]])
        if hit: break
      if not hit: return None
      olds, news = F[i:hit[0]], [() if t.is_const(z, 1) else (self.ix(z),) for z in targets[j:hit[1]]]
      dims += news
      flat = self.mix([x for d in news for x in d])
      if len(olds) == 1: m[olds[0]] = flat
      else:
        for k, f in enumerate(olds): m[f] = self.node('unmix', (flat, k, tuple(self.sz[x] for x in olds)))
      i, j = hit
    if i < len(F): return None
    return Arr(dims, self.sub(a.val, m))

  def reshape_aligned(self, a, targets):
    F = []
    for d in a.dims:
      if d is BELL: continue
      F += list(d)
    bells = [d for d in a.dims if d is BELL]
    neg = [i for i, x in enumerate(targets) if not isinstance(x, tuple) and t.is_const(x, -1)]
    if len(neg) > 1: raise Bad('two -1 in reshape')
    pre = targets[:neg[0]] if neg else targets
    post = targets[neg[0] + 1:] if neg else []
    cur = Arr([tuple(F)], a.val)
    def take(size, front, cur, lo, hi):
      """consume factors with product `size` from F[lo:hi]; returns cur, lo, hi, dim"""
      if isinstance(size, tuple):
        if size is BELL: return cur, lo, hi, BELL
        F = cur.dims[0]
        f = F[lo] if front else F[hi - 1]
        if lo >= hi or f not in self.ell: raise Bad('... does not line up')
        return (cur, lo + 1, hi, (f,)) if front else (cur, lo, hi - 1, (f,))
      need = size
      got = []
      while not t.is_const(need, 1):
        if lo >= hi: self.bad(f'reshape runs out of elements for {t.show(size)}', size)
        F = cur.dims[0]
        f = F[lo] if front else F[hi - 1]
        if f in self.ell: raise Unknown('reshape across ...')
        s = self.sz[f]
        qn = divides(s, need)
        if qn is not None:
          got.append(f)
          need = qn
          if front: lo += 1
          else: hi -= 1
          continue
        qs = divides(need, s)
        if qs is None: raise Unknown(f'reshape {t.show(s)} into {t.show(need)}')
        if front: cur, x, y = self.split(cur, f, need, qs); got.append(x)
        else: cur, x, y = self.split(cur, f, qs, need); got.append(y)
        hi += 1
        if front: lo += 1
        else: hi -= 1
        need = ONE
      return cur, lo, hi, tuple(got if front else got[::-1])
    lo, hi = 0, len(F)
    dims = []
    back = []
    if neg:
      for z in reversed(post):
        cur, lo, hi, d = take(z, False, cur, lo, hi)
        back.append(d)
    for z in pre:
      cur, lo, hi, d = take(z, True, cur, lo, hi)
      dims.append(d)
    rest = cur.dims[0][lo:hi]
    if neg: dims.append(tuple(rest))
    elif rest: self.bad('reshape leaves elements over', *[z for z in targets if not isinstance(z, tuple)])
    dims += back[::-1]
    # later splits may have refined factors used in earlier dims
    return self.refine(Arr(dims, cur.val), cur)

  def refine(self, a, cur):
    known = set(cur.dims[0])
    for d in a.dims:
      if d is BELL: continue
      for f in d:
        if f not in known: raise Unknown('reshape order')
    return a

  # ----------------------------------------------------------- interpretation
  def arr(self, x):
    if x in self.env: return self.env[x]
    if x in self.memo: return self.memo[x]
    r = self.arr0(x)
    self.memo[x] = r
    return r

  def axis(self, a, k):
    n = len(a.dims)
    e = [i for i, d in enumerate(a.dims) if self.is_ell(d)]
    if not isinstance(k, int): raise Unknown('axis')
    if e:
      if k >= 0 and k >= e[0]: raise Unknown('axis inside ...')
      if k < 0 and n + k <= e[0]: raise Unknown('axis inside ...')
    if k < 0: k += n
    if not 0 <= k < n: raise Bad('axis out of range')
    return k

  def arr0(self, x):
    op = x.op
    if x in self.size_env: return Arr((), self.size_env[x])
    if op == 'const':
      if not isinstance(x.args[1], (int, float, bool)): raise Unknown('constant')
      return Arr((), x)
    if op == 'poly':
      parts, struct = [], []
      idx = {}
      for m, c in x.args:
        for y, e in m:
          if y not in idx:
            idx[y] = len(parts)
            parts.append(self.arr(y))
      def f(*vals):
        r = const(0)
        for m, c in x.args:
          p = const(c)
          for y, e in m:
            for _ in range(abs(e)): p = t.mul(p, vals[idx[y]]) if e > 0 else t.div(p, vals[idx[y]])
          r = t.add(r, p)
        return r
      return self.broadcast(f, *parts)
    if op in ('lt', 'eq'):
      return self.broadcast((lambda a, b: t.lt(a, b)) if op == 'lt' else (lambda a, b: t.eq(a, b)), self.arr(x.args[0]), self.arr(x.args[1]))
    if op == 'not' or (op == 'ite' and x.args[1] is FALSE and x.args[2] is TRUE):
      return self.broadcast(self.not_, self.arr(x.args[0]))
    if op == 'ite':
      if x.args[0] in self.lits: return self.arr(x.args[1] if self.lits[x.args[0]] else x.args[2])
      raise Unknown(f'condition {t.show(x.args[0], 3)}')
    if op == 'truth': return self.arr(x.args[0])
    if op == 'bin':
      if x.args[0] == '//':
        a, b = self.arr(x.args[1]), self.arr(x.args[2])
        if not a.dims and not b.dims and divides(b.val, a.val) is not None: return Arr((), divides(b.val, a.val))
      if x.args[0] == '@': return self.matmul(self.arr(x.args[1]), self.arr(x.args[2]))
      return self.broadcast(lambda a, b: self.and_(a, b) if x.args[0] == '&' else raw('fn', 'bin' + x.args[0], a, b), self.arr(x.args[1]), self.arr(x.args[2]))
    if op == 'item': return self.index(x)
    if op == 'nth': return self.gather(self.freshen(self.arr(x.args[0])), x.args[1])
    if op == 'attr':
      b, n = x.args
      if n == 'T':
        a = self.arr(b)
        return Arr(a.dims[::-1], a.val)
      if n in ('ndim', 'size', 'dtype', 'shape'): return Arr((), x)
    if op == 'call':
      return self.call(x)
    if op in ('list', 'tuple'):
      return self.stack([self.arr(y) for y in x.args], 0)
    raise Unknown(f'{op} {t.show(x, 3)}')

  # booleans are 0/1 values
  def boolish(self, v):
    if v.op in ('lt', 'eq', 'in') or v is TRUE or v is FALSE: return True
    if v.op == 'poly':
      return all(all(self.boolish(x) and e > 0 for x, e in m) for m, c in v.args)
    return v.op == 'el' and v.args[0] in self.bools

  def not_(self, v):
    return t.sub(ONE, v) if self.boolish(v) else raw('fn', 'not', v)

  def and_(self, a, b):
    if self.boolish(a) and self.boolish(b): return t.mul(a, b)
    return raw('fn', 'logical_and', *sorted([a, b]))

  def where_(self, c, a, b):
    if c in (TRUE, ONE): return a
    if c in (FALSE, const(0)): return b
    if self.boolish(c):
      if c.op == 'poly':       # where(1 - p, a, b) = where(p, b, a)
        n = t.sub(ONE, c)
        if n.op in ('lt', 'eq'): return self.where_(n, b, a)
      if c.op in ('lt', 'eq'):
        a, b = self.under(a, c, TRUE), self.under(b, c, FALSE)
        if c.op == 'eq' and any(t.cval_or(x) == 0 for x in c.args):
          x = c.args[0] if t.cval_or(c.args[1]) == 0 else c.args[1]
          a = self.sub(a, {x: const(0)})
          if t.cval_or(a) == 0 and t.cval_or(b) is None:     # where(x == 0, 0, x * y) is x * y
            if b.op == 'poly' and all(any(y is x and e > 0 for y, e in m) for m, _ in b.args): return b
      if t.cval_or(b) == 0: return t.mul(c, a)
      if t.cval_or(a) == 0: return t.mul(t.sub(ONE, c), b)
      if a is b: return a
    return raw('fn', 'where', c, a, b)

  def under(self, v, c, truth):
    """v simplified in a branch where the condition c has the given truth value."""
    if c not in t.subterms(v): return v
    memo = {}
    def go(x):
      if x in memo: return memo[x]
      if x is c: r = ONE if truth is TRUE else const(0)
      elif c not in t.subterms(x): r = x
      elif x.op == 'fn' and x.args[0] == 'where': r = self.where_(*[go(y) for y in x.args[1:]])
      else: r = self.rebuild(x, go)
      memo[x] = r
      return r
    return go(v)

  def stack(self, arrs, axis):
    if not arrs: raise Unknown('empty stack')
    j = self.ix(const(len(arrs)), 'j') if len(arrs) > 1 else None
    r = self.broadcast(lambda *v: raw('pick', j, *v) if j is not None else v[0], *arrs)
    n = len(r.dims) + 1
    k = axis if axis >= 0 else n + axis
    if any(self.is_ell(d) for d in r.dims[:k]): raise Unknown('stack after ...')
    return Arr(r.dims[:k] + ((j,) if j is not None else (),) + r.dims[k:], r.val)

  def index(self, x):
    b, i = x.args
    if t.is_glob(b, 'jax.numpy.mgrid', 'numpy.mgrid'):
      sl = i.args if i.op == 'tuple' else (i,)
      if not all(y.op == 'slice' and y.args[0] in (NONE, const(0)) and y.args[2] in (NONE, ONE) and y.args[1] is not NONE for y in sl): raise Unknown('mgrid')
      def grid(k):
        fs = [self.ix(self.size(y.args[1])) for y in sl]
        return Arr([(f,) for f in fs], fs[k])
      return self.stack([grid(k) for k in range(len(sl))], 0)
    # multi-result functions
    if b.op == 'call' and b.args[0].op == 'call' and short(b.args[0].args[0]) == 'vmap' and t.is_const(i) and b.args[0].args[1] and b.args[0].args[1][0].op == 'lam':
      g = b.args[0]
      syms, body = t.open_lam(g.args[1][0], 'v')
      if t.kind(body) == 'tuple' or body.op in ('tuple', 'list', 'ite'):
        f2 = raw('call', g.args[0], (t.lam(syms, t.item(body, i)),) + tuple(g.args[1][1:]), g.args[2])
        return self.arr(raw('call', f2, b.args[1], b.args[2]))
    if b.op == 'call':
      n = short(b.args[0])
      if n == 'top_k' and t.is_const(i):
        a = self.arr(b.args[1][0])
        k = self.size(b.args[1][1] if len(b.args[1]) > 1 else dict(b.args[2])['k'])
        d = a.dims[-1]
        if self.is_ell(d): raise Unknown('top_k of ...')
        a = self.freshen(a)
        e, val = self.bind(a, len(a.dims) - 1)
        kk = self.ix(k, 'k')
        v = raw('topk', t.lam([e], val), kk, self.sz[e])
        if i.args[1] == 0: v = self.sub(val, {e: v})
        return Arr(a.dims[:-1] + ((kk,),), v)
    if b.op == 'attr' and b.args[1] == 'shape':
      return Arr((), self.size(x))
    if b.op in ('tuple', 'list') and t.is_const(i): return self.arr(b.args[i.args[1]])
    a = self.freshen(self.arr(b))
    return self.gather(a, i)

  def bind(self, a, k):
    """Open dimension k as one bound index: (sym, value over that sym)."""
    d = a.dims[k]
    if self.is_ell(d): raise Unknown('reduce over ...')
    if len(d) == 1: return d[0], a.val
    if not d:
      s = self.ix(ONE)
      return s, a.val
    s = self.ix(self.dsize(d))
    zs = tuple(self.sz[f] for f in d)
    return s, self.sub(a.val, {f: self.node('unmix', (s, n, zs)) for n, f in enumerate(d)})

  def setdim(self, val, d, v):
    """Substitute the index of dimension d by expression v."""
    if not d: return val
    if len(d) == 1: return self.sub(val, {d[0]: v})
    zs = tuple(self.sz[f] for f in d)
    return self.sub(val, {f: self.node('unmix', (v, n, zs)) for n, f in enumerate(d)})

  def gather(self, a, i):
    idx = list(i.args) if i.op in ('tuple',) else [i]
    def dots(y): return (y.op == 'const' and y.args[1] is Ellipsis) or (y.op == 'glob' and y.args[0] == 'Ellipsis')
    nreal = len([y for y in idx if y is not NONE and not dots(y)])
    # expand Ellipsis
    ex = [k for k, y in enumerate(idx) if dots(y)]
    full = raw('slice', NONE, NONE, NONE)
    if ex:
      k = ex[0]
      n = len(a.dims) - nreal
      e = [p for p, d in enumerate(a.dims) if self.is_ell(d)]
      if n < 0: raise Bad('too many indices')
      if e:
        before = len([y for y in idx[:k] if y is not NONE])
        after = len([y for y in idx[k + 1:] if y is not NONE])
        if before > e[0] or after > len(a.dims) - e[0] - 1: raise Unknown('index into ...')
      idx = idx[:k] + [full] * n + idx[k + 1:]
    else:
      idx = idx + [full] * (len(a.dims) - nreal)
    dims, val = [], a.val
    pos = 0
    adv = []      # (output position, Arr, dim)
    for y in idx:
      if y is NONE:
        dims.append(())
        continue
      if pos >= len(a.dims): raise Bad('too many indices')
      d = a.dims[pos]
      pos += 1
      if y.op == 'slice':
        lo, hi, st = y.args
        if lo is NONE and hi is NONE and st in (NONE, ONE):
          dims.append(d)
          continue
        if self.is_ell(d): raise Unknown('slice of ...')
        n = self.dsize(d)
        if st is const(-1) and lo is NONE and hi is NONE:
          f = self.ix(n)
          val = self.setdim(val, d, t.sub(t.add(n, const(-1)), f))
          dims.append((f,))
          continue
        if st not in (NONE, ONE): raise Unknown('strided slice')
        def bound(z, dflt):
          if z is NONE: return dflt
          s = self.size(z)
          if t.is_const(s) and isinstance(s.args[1], int) and s.args[1] < 0: return t.add(n, s)
          return s
        l, h = bound(lo, const(0)), bound(hi, n)
        if t.is_const(t.sub(h, l), 1):
          val = self.setdim(val, d, l)
          dims.append(())
          continue
        f = self.ix(t.sub(h, l))
        val = self.setdim(val, d, t.add(f, l))
        dims.append((f,))
        continue
      if self.is_ell(d): raise Unknown('index of ...')
      c = t.cval_or(y)
      if isinstance(c, int) and not isinstance(c, bool):
        v = const(c) if c >= 0 else t.add(self.dsize(d), const(c))
        adv.append((len(dims), Arr((), v), d))
        continue
      ia = self.freshen(self.arr(y))
      adv.append((len(dims), ia, d))
    if adv:
      arrs = [z[1] for z in adv]
      joint = self.broadcast(lambda *v: raw('pack', *v), *arrs)
      for (p, _, d), v in zip(adv, joint.val.args): val = self.setdim(val, d, v)
      # numpy: consecutive advanced indices stay in place
      p0 = adv[0][0]
      if len({z[0] for z in adv}) > 1 and joint.dims: p0 = 0
      dims = list(dims[:p0]) + list(joint.dims) + list(dims[p0:])
    return Arr(dims, val)

  def matmul(self, a, b):
    a, b = self.freshen(a), self.freshen(b)
    if len(a.dims) != 2 or len(b.dims) != 2 or any(self.is_ell(d) for d in a.dims + b.dims):
      if not (len(b.dims) == 2 and len(a.dims) >= 2): raise Unknown('matmul')
    a, b = self.unify(a, b, [(len(a.dims) - 1, 0)])
    vs = a.dims[-1]
    return Arr(a.dims[:-1] + b.dims[1:], self.rsum(list(vs), t.mul(a.val, b.val)))

  def reduce(self, name, a, axes, keep):
    a = self.freshen(a)
    ks = [int(k) if isinstance(k, Whole) else self.axis(a, k) for k in axes]
    if any(a.dims[k] is BELL for k in ks): raise Unknown('reduce ...')
    vs = [f for k in ks for f in a.dims[k]]
    if any(self.is_ell(a.dims[k]) for k in ks) and (keep or name not in ('sum', 'mean')): raise Unknown('reduce ...')
    if name == 'sum': v = self.rsum(vs, a.val)
    elif name == 'mean':
      n = ONE
      for k in ks: n = t.mul(n, self.dsize(a.dims[k]))
      v = t.div(self.rsum(vs, a.val), n)
    elif name in ('argmax', 'argmin'):
      if len(ks) != 1: raise Unknown('argmax over several axes')
      s, val = self.bind(a, ks[0])
      v = raw('red', name, t.lam([s], val)) if name == 'argmin' else raw('topk', t.lam([s], val), const(0), self.sz[s])
    else:
      name = {'amax': 'max', 'amin': 'min'}.get(name, name)
      if name == 'var':
        v = raw('red', 'std', self.clam(vs, a.val))
        v = t.mul(v, v)
      elif name == 'max' and len(vs) == 1 and a.val.op == 'el':   # the largest element is the element at the first top_k index
        v = self.sub(a.val, {vs[0]: raw('topk', t.lam([vs[0]], a.val), const(0), self.sz[vs[0]])})
      else: v = raw('red', name, self.clam(vs, a.val)) if vs else a.val
    dims = []
    for k, d in enumerate(a.dims):
      if k in ks:
        if keep: dims.append(())
      else: dims.append(d)
    return Arr(dims, v)

  def axes_arg(self, a, x):
    if x is not None and x is not NONE and len(a.dims) and self.is_ell(a.dims[-1]) and not any(self.is_ell(d) for d in a.dims[:-1]):
      # a block of trailing dimensions is reduced as a whole or not at all
      self.ell_axis = False
      r = self.axes_arg0(a, x)
      if self.ell_axis and not (r and r == list(range(r[0], len(a.dims)))): raise Unknown('axis argument')
      if any(k < 0 for k in r): raise Unknown('axis argument')
      return [Whole(k) if self.ell_axis and k == len(a.dims) - 1 else k for k in r]
    if x is None or x is NONE: return [Whole(k) if self.is_ell(d) else k for k, d in enumerate(a.dims)]
    return self.axes_arg0(a, x)

  def axes_arg0(self, a, x):
    if x is None or x is NONE: return list(range(len(a.dims)))
    c = t.cval_or(x)
    if isinstance(c, int): return [c]
    if x.op in ('totuple', 'listof'): return self.axes_arg0(a, x.args[0])
    if x.op in ('range',) or (x.op == 'call' and short(x.args[0]) == 'range'):
      ys = x.args if x.op == 'range' else x.args[1]
      b = [self.int_of(y, a, k == (1 if len(ys) > 1 else 0)) for k, y in enumerate(ys)]
      return list(range(*b))
    if x.op in ('tuple', 'list'):
      return [self.int_of(y, a) for y in x.args]
    if x.op == 'map' and x.args[2] is TRUE:
      return [self.int_of(t.beta(x.args[0], [const(k)]), a) for k in self.axes_arg0(a, x.args[1])]
    return [self.int_of(x, a)]

  def int_of(self, x, a=None, stop=False):
    """Integer value of an axis expression (uses ranks of arrays)."""
    c = t.cval_or(x)
    if isinstance(c, int): return c
    p = t.poly_of(x)
    r = 0
    for m, co in p.items():
      if m == (): r += co; continue
      if len(m) == 1 and m[0][1] == 1:
        y = m[0][0]
        z = None
        if y.op == 'attr' and y.args[1] == 'ndim': z = y.args[0]
        elif y.op == 'call' and short(y.args[0]) == 'len' and y.args[1][0].op == 'attr' and y.args[1][0].args[1] == 'shape': z = y.args[1][0].args[0]
        if z is not None:
          d = self.arr(z).dims
          if not any(self.is_ell(k) for k in d):
            r += co * len(d)
            continue
          if stop and co == 1 and d == a.dims and self.is_ell(d[-1]) and not any(self.is_ell(k) for k in d[:-1]):
            r += len(d)
            self.ell_axis = True
            continue
      raise Unknown('axis argument')
    if not isinstance(r, int): raise Unknown('axis argument')
    return r

  def call(self, x):
    fn, args, kw = x.args
    kw = dict(kw)
    if fn.op == 'call' and short(fn.args[0]) == 'vmap': return self.vmap(fn, args)
    if fn.op == 'call' and short(fn.args[0]) == 'Dense' and len(args) == 1:
      a = self.arr(args[0])
      ft = dict(fn.args[2]).get('features', fn.args[1][0] if fn.args[1] else None)
      if ft is None: raise Unknown('Dense')
      return self.declare(x, [self.dsize(d) if not self.is_ell(d) else '...' for d in a.dims[:-1]] + [self.size(ft)])
    if fn.op == 'glob' and fn.args[0] in ('jax.random.normal', 'jax.random.uniform', 'jax.random.gumbel', 'jax.random.truncated_normal'):
      sh = self.shape(kw.get('shape', args[1] if len(args) > 1 else const(())))
      dims = [z if isinstance(z, tuple) else ((self.ix(z),) if not t.is_const(z, 1) else ()) for z in sh]
      return Arr(dims, raw('el', raw('rand', fn.args[0], kw.get('key', args[0] if args else NONE)), *[self.mix(d) if d else const(0) for d in dims]))
    if fn.op == 'glob' and fn.args[0] == 'jax.random.dirichlet':
      a = self.freshen(self.arr(kw.get('alpha', args[1] if len(args) > 1 else None)))
      sh = kw.get('shape', args[2] if len(args) > 2 else None)
      if sh is not None and sh is not NONE:
        lead = [z if isinstance(z, tuple) else ((self.ix(z),) if not t.is_const(z, 1) else ()) for z in self.shape(sh)]
        if len(a.dims) != 1: raise Unknown('dirichlet shape')
        a = Arr(lead + list(a.dims), a.val)
      return Arr(a.dims, raw('el', raw('rand', 'dirichlet', kw.get('key', args[0] if args else NONE), a.val), *[self.mix(d) if d else const(0) for d in a.dims]))
    if fn.op == 'glob' and fn.args[0] in ('jax.scipy.linalg.block_diag', 'scipy.linalg.block_diag') and len(args) == 1 and args[0].op == 'star':
      a = self.freshen(self.arr(args[0].args[0]))
      if len(a.dims) != 3: raise Unknown('block_diag')
      blk = a.dims[0]
      other = tuple(self.ix(self.sz[f]) for f in blk)
      v = a.val
      for f, g in zip(blk, other): v = t.mul(v, raw('eq', *sorted([f, g])))
      return Arr([blk + a.dims[1], other + a.dims[2]], v)
    if fn.op == 'attr':
      if fn.args[0].op == 'item' and fn.args[0].args[0].op == 'attr' and fn.args[0].args[0].args[1] == 'at':
        return self.scatter(fn.args[1], fn.args[0].args[0].args[0], fn.args[0].args[1], args)
      n = fn.args[1]
      args = (fn.args[0],) + tuple(args)
      meth = True
    else:
      n = short(fn)
      meth = False
    if n is None: raise Unknown(f'call {t.show(fn, 3)}')
    def arg(name, pos, d=None):
      if name in kw: return kw[name]
      return args[pos] if pos is not None and pos < len(args) else d
    if n in ELEMWISE_ID: return self.arr(args[0])
    if n == 'reshape':
      a = self.freshen(self.arr(args[0]))
      tg = args[1:] or [kw.get('shape', kw.get('newshape'))]
      if kw.get('order') not in (None, const('C')): raise Bad('reshape order')
      return self.reshape(a, self.shape(*tg))
    if n in ('ravel', 'flatten'):
      a = self.freshen(self.arr(args[0]))
      return self.reshape(a, [const(-1)])
    if n == 'swapaxes':
      a = self.arr(args[0])
      i, j = self.axis(a, t.cval_or(arg('axis1', 1))), self.axis(a, t.cval_or(arg('axis2', 2)))
      d = list(a.dims)
      d[i], d[j] = d[j], d[i]
      return Arr(d, a.val)
    if n == 'moveaxis':
      a = self.arr(args[0])
      i, j = self.axis(a, t.cval_or(arg('source', 1))), self.axis(a, t.cval_or(arg('destination', 2)))
      d = list(a.dims)
      z = d.pop(i)
      d.insert(j, z)
      return Arr(d, a.val)
    if n == 'transpose':
      a = self.arr(args[0])
      ax = args[1:] or ((kw['axes'],) if 'axes' in kw else ())
      if len(ax) == 1 and ax[0].op in ('tuple', 'list'): ax = ax[0].args
      if not ax or ax[0] is NONE:
        if any(self.is_ell(d) for d in a.dims): raise Unknown('transpose of ...')
        return Arr(a.dims[::-1], a.val)
      p = [self.axis(a, t.cval_or(y)) for y in ax]
      if sorted(p) != list(range(len(a.dims))): raise Bad('transpose axes')
      return Arr([a.dims[k] for k in p], a.val)
    if n == 'expand_dims':
      a = self.arr(args[0])
      ax = arg('axis', 1)
      ks = [t.cval_or(y) for y in (ax.args if ax.op in ('tuple', 'list') else (ax,))]
      if not all(isinstance(k, int) for k in ks): raise Unknown('expand_dims')
      if len(ks) > 1 and any(self.is_ell(d) for d in a.dims): raise Unknown('expand_dims')
      nd = len(a.dims) + len(ks)
      ks = sorted(k if k >= 0 else nd + k for k in ks)
      d = list(a.dims)
      for k in ks: d.insert(k, ())
      return Arr(d, a.val)
    if n == 'squeeze':
      a = self.arr(args[0])
      ax = arg('axis', 1)
      ks = [self.axis(a, k) for k in self.axes_arg(a, ax)] if ax is not None else [k for k, d in enumerate(a.dims) if not d]
      if any(a.dims[k] for k in ks): raise Unknown('squeeze of a named axis')
      return Arr([d for k, d in enumerate(a.dims) if k not in ks], a.val)
    if n == 'einsum': return self.einsum(args)
    if n in ('matmul', 'dot'): return self.matmul(self.arr(args[0]), self.arr(args[1]))
    if n == 'repeat':
      a = self.freshen(self.arr(args[0]))
      ax = arg('axis', 2)
      if ax is None: raise Unknown('repeat without axis')
      k = self.axis(a, t.cval_or(ax))
      r = self.size(arg('repeats', 1))
      d = list(a.dims)
      d[k] = d[k] + ((self.ix(r, 'r'),) if not t.is_const(r, 1) else ())
      return Arr(d, a.val)
    if n == 'tile':
      a = self.freshen(self.arr(args[0]))
      reps = self.shape(arg('reps', 1))
      d = list(a.dims)
      de, re_ = [k for k, y in enumerate(d) if self.is_ell(y)], [k for k, y in enumerate(reps) if isinstance(y, tuple)]
      if de or re_:
        if not (de == re_ and len(d) == len(reps) and all(reps[k] is BELL for k in re_)): raise Unknown('tile with ...')
        reps = [ONE if isinstance(r, tuple) else r for r in reps]
      while len(d) < len(reps): d.insert(0, ())
      reps = [ONE] * (len(d) - len(reps)) + reps
      for k, r in enumerate(reps):
        if not t.is_const(r, 1): d[k] = (self.ix(r, 'r'),) + d[k]
      return Arr(d, a.val)
    if n == 'broadcast_to':
      a = self.freshen(self.arr(args[0]))
      sh = self.shape(arg('shape', 1))
      d = [None] * (len(sh) - len(a.dims)) + list(a.dims)
      out = []
      for y, z in zip(d, sh):
        if y is None or not y: out.append(z if isinstance(z, tuple) else ((self.ix(z),) if not t.is_const(z, 1) else ()))
        else: out.append(y)
      return Arr(out, a.val)
    if n == 'one_hot':
      a = self.freshen(self.arr(args[0]))
      nc = self.size(arg('num_classes', 1))
      h = self.ix(nc, 'h')
      ax = arg('axis', None, const(-1))
      k = t.cval_or(ax)
      if not isinstance(k, int): raise Unknown('one_hot axis')
      k = k if k >= 0 else len(a.dims) + 1 + k
      return Arr(a.dims[:k] + ((h,),) + a.dims[k:], raw('eq', *sorted([a.val, h])))
    if n == 'argsort':
      a = self.freshen(self.arr(args[0]))
      ax = arg('axis', 1, const(-1))
      k = self.axis(a, t.cval_or(ax))
      s, val = self.bind(a, k)
      if arg('descending', None) is TRUE: val = t.neg(val)
      j = self.ix(self.dsize(a.dims[k]), 'p')
      return Arr(a.dims[:k] + ((j,),) + a.dims[k + 1:], self.node('argsort', (t.lam([s], val), j)))
    if n == 'sort':
      a = self.freshen(self.arr(args[0]))
      k = self.axis(a, t.cval_or(arg('axis', 1, const(-1))))
      s, val = self.bind(a, k)
      n = self.dsize(a.dims[k])
      j = self.ix(n, 'p')
      at = j
      if arg('descending', None) not in (None, FALSE): at = t.sub(t.add(n, const(-1)), j)
      p = t.poly_of(val)
      sign = 1
      if p and all(isinstance(c, (int, float)) and c < 0 for c in p.values()):   # sort(-v)[j] = -sort(v)[n-1-j]
        val, sign, at = t.neg(val), -1, t.sub(t.add(n, const(-1)), at)
      v = raw('sort', t.lam([s], val), at)
      return Arr(a.dims[:k] + ((j,),) + a.dims[k + 1:], v if sign > 0 else t.neg(v))
    if n in ('cumsum', 'cumprod'):
      a = self.freshen(self.arr(args[0]))
      ax = arg('axis', 1)
      if ax is None or ax is NONE: a = self.reshape(a, [const(-1)]); k = 0
      else: k = self.axis(a, t.cval_or(ax))
      d = a.dims[k]
      nd = tuple(self.ix(self.sz[f]) for f in d)
      return Arr(a.dims[:k] + (nd,) + a.dims[k + 1:], raw('cum', n, t.lam(list(d), a.val), nd))
    if n == 'softmax' or n == 'log_softmax':
      a = self.freshen(self.arr(args[0]))
      ax = arg('axis', 1, const(-1))
      ks = [self.axis(a, k) for k in self.axes_arg(a, ax)]
      fs = [f for k in ks for f in a.dims[k]]
      nd = {f: (self.ix(self.sz[f]),) for f in fs}
      at = [nd[f][0] for f in fs]
      best = None
      for p in itertools.permutations(range(len(fs))) if len(fs) <= 4 else [range(len(fs))]:
        y = t.lam([fs[q] for q in p], a.val)
        if best is None or y.uid < best[0].uid: best = (y, tuple(at[q] for q in p))
      return Arr([tuple(nd[f][0] if f in nd else f for f in d) if d is not BELL else d for d in a.dims], raw(n, best[0], best[1]))
    if n == 'sum' and fn.op == 'glob' and fn.args[0] == 'sum' and args[0].op in ('list', 'tuple', 'cat'):
      parts = [y for y in args[0].args] + list(args[1:])
      flat = []
      for y in parts:
        if y.op in ('list', 'tuple'): flat += list(y.args)
        elif y.op in ('opt', 'star', 'map', 'cat', 'ite'): raise Unknown('sum of a computed list')
        else: flat.append(y)
      if not flat: return Arr((), const(0))
      r = self.arr(flat[0])
      for y in flat[1:]: r = self.broadcast(t.add, r, self.arr(y))
      return r
    if n == 'sum' and fn.op == 'glob' and fn.args[0] == 'sum' and len(args) == 1 and args[0].op == 'map' and args[0].args[1].op == 'range' and args[0].args[2] is TRUE:
      (i,), body = t.open_lam(args[0].args[0], 'i')
      self.sz[i] = self.size(args[0].args[1].args[0])
      self.env[i] = Arr((), i)
      a = self.arr(body)
      return Arr(a.dims, self.rsum([i], a.val))
    if n == 'softmax_cross_entropy':
      lg, lb = arg('logits', 0), arg('labels', 1)
      ls = raw('call', glob('jax.nn.log_softmax'), (lg,), ())
      return self.reduce('sum', self.broadcast(lambda a, b: t.neg(t.mul(a, b)), self.arr(ls), self.arr(lb)), [-1], False)
    if n == 'sigmoid_binary_cross_entropy':
      lg, lb = arg('logits', 0), arg('labels', 1)
      f = lambda a, b: t.neg(t.add(t.mul(b, raw('fn', 'log_sigmoid', a)), t.mul(t.sub(ONE, b), raw('fn', 'log_sigmoid', t.neg(a)))))
      return self.broadcast(f, self.arr(lg), self.arr(lb))
    if n in ('sum', 'mean') or n in REDUCE:
      a = self.arr(args[0])
      ax = arg('axis', 1)
      keep = arg('keepdims', None)
      df = arg('ddof', None)
      if df is None: df = arg('correction', None)
      if df is not None and not t.is_const(df, 0):   # another estimator: never equal to the plain one
        if n in ('std', 'var'): return self.reduce(f'{n} with {t.show(df, 1)} degrees removed', a, self.axes_arg(a, ax), keep is TRUE)
      for o in ('where', 'initial'):
        w_ = arg(o, None)
        if w_ is not None and w_ is not NONE: raise Unknown(o)
      return self.reduce(n, a, self.axes_arg(a, ax), keep is TRUE)
    if n in ('ones_like', 'zeros_like', 'full_like'):
      a = self.freshen(self.arr(args[0]))
      return Arr(a.dims, ONE if n == 'ones_like' else const(0) if n == 'zeros_like' else self.arr(args[1]).val)
    if n in ('zeros', 'ones', 'full', 'empty'):
      sh = self.shape(arg('shape', 0))
      dims = [z if isinstance(z, tuple) else ((self.ix(z),) if not t.is_const(z, 1) else ()) for z in sh]
      return Arr(dims, ONE if n == 'ones' else const(0) if n != 'full' else self.arr(arg('fill_value', 1)).val)
    if n == 'arange' and len(args) == 1:
      f = self.ix(self.size(args[0]))
      return Arr([(f,)], f)
    if n == 'eye' and len(args) == 1:
      s = self.size(args[0])
      i, j = self.ix(s), self.ix(s)
      return Arr([(i,), (j,)], raw('eq', *sorted([i, j])))
    if n == 'stack':
      ax = t.cval_or(arg('axis', 1, const(0)))
      if args[0].op not in ('list', 'tuple'): raise Unknown('stack of a computed list')
      return self.stack([self.arr(y) for y in args[0].args], ax)
    if n in ('concatenate', 'concat', 'hstack'):
      if args[0].op not in ('list', 'tuple'): raise Unknown('concatenate of a computed list')
      ax = t.cval_or(arg('axis', 1, const(0)))
      return self.concat([self.arr(y) for y in args[0].args], ax)
    if n == 'where' and len(args) == 3:
      return self.broadcast(self.where_, *[self.arr(y) for y in args])
    if n == 'take_along_axis':
      a, i = self.freshen(self.arr(args[0])), self.freshen(self.arr(args[1]))
      k = self.axis(a, t.cval_or(arg('axis', 2)))
      i, a = self.unify(i, a, [(p, p) for p in range(len(a.dims)) if p != k])
      return Arr(i.dims, self.setdim(a.val, a.dims[k], i.val))
    if n == 'roll':
      a = self.freshen(self.arr(args[0]))
      ax = arg('axis', 2)
      k = self.axis(a, t.cval_or(ax)) if ax is not None else None
      if k is None:
        if len(a.dims) != 1: self.bad('an array is rolled over all its axes at once')
        k = 0
      f = self.ix(self.dsize(a.dims[k]))
      s = self.arr(arg('shift', 1))
      if s.dims: raise Unknown('roll by array')
      return Arr(a.dims[:k] + ((f,),) + a.dims[k + 1:], self.setdim(a.val, a.dims[k], f if t.is_const(s.val, 0) else raw('wrap', t.sub(f, s.val), self.sz[f])))
    if n == 'flip':
      a = self.freshen(self.arr(args[0]))
      k = self.axis(a, t.cval_or(arg('axis', 1)))
      f = self.ix(self.dsize(a.dims[k]))
      return Arr(a.dims[:k] + ((f,),) + a.dims[k + 1:], self.setdim(a.val, a.dims[k], t.sub(t.add(self.sz[f], const(-1)), f)))
    if n in ('multiply', 'add', 'subtract', 'divide', 'true_divide', 'mul', 'sub', 'div'):
      f = dict(mul=t.mul, sub=t.sub, div=t.div, multiply=t.mul, add=t.add, subtract=t.sub, divide=t.div, true_divide=t.div)[n]
      return self.broadcast(f, self.arr(args[0]), self.arr(args[1]))
    if n in ('less', 'greater'):
      f = t.lt if n == 'less' else (lambda a, b: t.lt(b, a))
      return self.broadcast(f, self.arr(args[0]), self.arr(args[1]))
    if n == 'negative': return self.broadcast(t.neg, self.arr(args[0]))
    if n in ('logical_not', 'invert'): return self.broadcast(self.not_, self.arr(args[0]))
    if n in ('greater_equal', 'less_equal'):
      return self.broadcast((lambda a, b: self.not_(t.lt(a, b))) if n == 'greater_equal' else (lambda a, b: self.not_(t.lt(b, a))), self.arr(args[0]), self.arr(args[1]))
    if n in ('equal', 'not_equal'):
      return self.broadcast((lambda a, b: t.eq(a, b)) if n == 'equal' else (lambda a, b: self.not_(t.eq(a, b))), self.arr(args[0]), self.arr(args[1]))
    if n == 'square': return self.broadcast(lambda v: t.mul(v, v), self.arr(args[0]))
    if n == 'reciprocal': return self.broadcast(lambda v: t.div(ONE, v), self.arr(args[0]))
    if n == 'rsqrt': return self.broadcast(lambda v: t.div(ONE, raw('fn', 'sqrt', v)), self.arr(args[0]))
    if n in ELEMWISE: return self.broadcast(lambda v: raw('fn', n, v), self.arr(args[0]))
    if n in ELEM2:
      def f2(a, b):
        if n == 'logical_and': return self.and_(a, b)
        if n in ('maximum', 'minimum', 'logical_and', 'logical_or'): a, b = sorted([a, b])
        return raw('fn', n, a, b)
      return self.broadcast(f2, self.arr(args[0]), self.arr(args[1]))
    raise Unknown(f'function {n}')

  def concat(self, arrs, axis):
    arrs = [self.freshen(a) for a in arrs]
    k = self.axis(arrs[0], axis)
    base = arrs[0]
    tot = self.dsize(base.dims[k])
    parts = [(base.val, base.dims[k])]
    for b in arrs[1:]:
      cur = Arr(base.dims, raw('pack', *[v for v, _ in parts]))
      cur, b = self.unify(cur, b, [(p, p) for p in range(len(base.dims)) if p != k])
      parts = [(v, d) for v, (_, d) in zip(cur.val.args, parts)] + [(b.val, b.dims[k])]
      base = Arr(cur.dims, base.val)
      tot = t.add(tot, self.dsize(b.dims[k]))
    f = self.ix(tot, 'c')
    off = const(0)
    vals = []
    for v, d in parts:
      vals.append(self.setdim(v, d, t.sub(f, off)))
      off = t.add(off, self.dsize(d))
    return Arr(base.dims[:k] + ((f,),) + base.dims[k + 1:], raw('concat', f, tuple(self.dsize(d) for _, d in parts), *vals))

  def scatter(self, how, basex, key, args):
    base = self.freshen(self.arr(basex))
    if not t.is_const(base.val, 0): raise Unknown('scatter into non-zero array')
    u = self.freshen(self.arr(args[0]))
    # key: tuple(jnp.moveaxis(indices, -1, 0)) / explicit tuple / array
    keys = None
    if key.op in ('totuple', 'listof') or (key.op == 'call' and short(key.args[0]) in ('tuple', 'list')):
      inner = key
      while inner.op in ('totuple', 'listof') or (inner.op == 'call' and short(inner.args[0]) in ('tuple', 'list')):
        inner = inner.args[0] if inner.op != 'call' else inner.args[1][0]
      a = self.freshen(self.arr(inner))
      n = self.dsize(a.dims[0])
      c = t.cval_or(n)
      if not isinstance(c, int): raise Unknown('number of scatter indices')
      keys = [Arr(a.dims[1:], self.setdim(a.val, a.dims[0], const(q))) for q in range(c)]
    elif key.op == 'tuple': keys = [self.freshen(self.arr(y)) for y in key.args]
    else: keys = [self.freshen(self.arr(key))]
    joint = self.broadcast(lambda *v: raw('pack', *v), *keys)
    nk, nj = len(keys), len(joint.dims)
    if nk > len(base.dims): raise Bad('scatter rank')
    # updates: joint dims followed by the remaining dims of base
    if len(u.dims) == 0: u = Arr(tuple(joint.dims) + base.dims[nk:], u.val)
    if len(u.dims) != nj + len(base.dims) - nk: raise Unknown('scatter broadcast')
    joint, u = self.unify(joint, u, [(i, i) for i in range(nj)])
    base, u = self.unify(base, u, [(nk + i, nj + i) for i in range(len(base.dims) - nk)])
    vs = [f for d in u.dims[:nj] for f in d]
    if how == 'set' and nk == 1 and nj == 1 and joint.val.args[0].op == 'argsort' and len(vs) == 1 and u.val is vs[0] and joint.val.args[0].args[1] is vs[0]:
      o = base.dims[0]
      return Arr(base.dims, self.node('argsort', (t.lam([vs[0]], joint.val.args[0]), self.mix(o))))
    if how not in ('add', 'set'): raise Unknown(f'scatter {how}')
    prod = u.val
    for d, v in zip(base.dims[:nk], joint.val.args): prod = t.mul(prod, raw('eq', *sorted([self.mix(d), v])))
    r = self.rsum(vs, prod)
    if how == 'set': r = raw('setscatter', r)
    return Arr(base.dims, r)

  def vmap(self, fn, args):
    f = fn.args[1][0]
    kw = dict(fn.args[2])
    ia = kw.get('in_axes', fn.args[1][1] if len(fn.args[1]) > 1 else const(0))
    oa = kw.get('out_axes', fn.args[1][2] if len(fn.args[1]) > 2 else const(0))
    arrs = [self.freshen(self.arr(a)) for a in args]
    axes = []
    for n in range(len(arrs)):
      z = ia.args[n] if ia.op in ('tuple', 'list') else ia
      axes.append(None if z is NONE else t.cval_or(z))
    first = None
    for n, (a, k) in enumerate(zip(arrs, axes)):
      if k is None: continue
      k = self.axis(a, k)
      axes[n] = k
      if first is None: first = n
      else:
        arrs[first], arrs[n] = self.unify(arrs[first], arrs[n], [(axes[first], k)])
    if first is None: raise Unknown('vmap without mapped argument')
    batch = arrs[first].dims[axes[first]]
    if f.op != 'lam' or f.args[1] != len(arrs): raise Unknown(f'vmap of {t.show(f, 3)}')
    syms, body = t.open_lam(f, 'v')
    for s, a, k in zip(syms, arrs, axes):
      self.env[s] = a if k is None else Arr(a.dims[:k] + a.dims[k + 1:], a.val)
    r = self.arr(body)
    # batch factors split during evaluation keep their identity through unify on shared syms
    k = t.cval_or(oa)
    if not isinstance(k, int) or k < 0: raise Unknown('vmap out_axes')
    return Arr(r.dims[:k] + (batch,) + r.dims[k:], r.val)

  def einsum(self, args):
    spec = args[0]
    if not (t.is_const(spec) and isinstance(spec.args[1], str)): raise Unknown('einsum spec')
    spec = spec.args[1].replace(' ', '')
    if '->' not in spec: raise Unknown('implicit einsum')
    lhs, rhs = spec.split('->')
    ops = lhs.split(',')
    if len(ops) != len(args) - 1: raise Bad('einsum operands')
    def labels(s):
      out = []
      i = 0
      while i < len(s):
        if s[i:i + 3] == '...': out.append('...'); i += 3
        else: out.append(s[i]); i += 1
      return out
    acc = None
    lab = []
    for s, x in zip(ops, args[1:]):
      a = self.freshen(self.arr(x))
      ls = labels(s)
      if '...' in ls:
        n = len(a.dims) - (len(ls) - 1)
        if n < 0: raise Bad('einsum rank')
        p = ls.index('...')
        blk = a.dims[p:p + n]
        # the block: either one ... axis or named axes
        ls = ls[:p] + [f'...{n - 1 - q}' for q in range(n)] + ls[p + 1:]
      if len(ls) != len(a.dims): raise Bad(f'einsum rank of operand {s}')
      if len(set(ls)) != len(ls): raise Unknown('einsum diagonal')
      if acc is None: acc, lab = a, list(ls)
      else:
        pairs = [(lab.index(l), k) for k, l in enumerate(ls) if l in lab]
        real = [(i, k) for i, k in pairs if acc.dims[i] and a.dims[k] and acc.dims[i] is not BELL and a.dims[k] is not BELL]
        acc, a = self.unify(acc, a, real)
        dims = list(acc.dims)
        for i, k in pairs:
          if not dims[i] or dims[i] is BELL: dims[i] = a.dims[k]
        for k, l in enumerate(ls):
          if l not in lab:
            lab.append(l)
            dims.append(a.dims[k])
        acc = Arr(dims, t.mul(acc.val, a.val))
    ro = []
    for l in labels(rhs):
      if l == '...': ro += sorted([x for x in lab if x.startswith('...')], key=lambda z: -int(z[3:]))
      else: ro.append(l)
    for l in ro:
      if l not in lab: raise Bad('einsum output label')
    drop = [l for l in lab if l not in ro]
    if any(l.startswith('...') for l in drop): raise Bad('einsum drops ...')
    vs = [f for l in drop for f in acc.dims[lab.index(l)]]
    if any(f in self.ell for f in vs): raise Unknown('einsum sums ...')
    return Arr([acc.dims[lab.index(l)] for l in ro], self.rsum(vs, acc.val))

  def show(self, a):
    def dim(d):
      if d is BELL: return '1...'
      return '(' + ' '.join(t.show(f) + (':' + t.show(self.sz[f], 3) if f not in self.ell else '...') for f in d) + ')'
    return '[' + ', '.join(dim(d) for d in a.dims) + '] ' + t.show(a.val, 9)

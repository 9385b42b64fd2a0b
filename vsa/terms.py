"""Hash-consed value terms and their normal forms.

A term is the abstract value the analysis assigns to a program point: two program
points carrying the same term compute the same value (value numbering).  Terms are
interned, so equality is identity.  Normalisation used by the constructors:
  * +,-,*,/ of scalars/arrays    -> polynomials ('poly')
  * comparisons                  -> 'lt' / 'eq' / 'in' / 'is' atoms and 'not'
  * conditions and conditionals  -> ordered decision diagrams over atoms ('ite')
  * lambdas / comprehensions     -> locally nameless 'lam' (binder height)
  * string building              -> 'strcat'
"""
import sys
sys.setrecursionlimit(20000)


class T:
  __slots__ = ('op', 'args', 'uid', 'h', '__weakref__')
  def __repr__(self):
    return show(self)
  def __lt__(self, o):
    return self.uid < o.uid


_TABLE = {}
_UID = [0]
_PAYLOAD = {}


OPAQUE_SIG = {}   # parameter names of the functions a rule keeps opaque


def raw(op, *args):
  key = (op, args)
  t = _TABLE.get(key)
  if t is None:
    t = T()
    t.op = op
    t.args = args
    _UID[0] += 1
    t.uid = _UID[0]
    h = 0
    if op == 'lam':
      h = args[0] + args[1]
    for a in args:
      if isinstance(a, T):
        if a.h > h: h = a.h
      elif isinstance(a, tuple):
        h = max(h, _theight(a))
    t.h = h
    _TABLE[key] = t
  return t


def _theight(tp):
  h = 0
  for a in tp:
    if isinstance(a, T):
      if a.h > h: h = a.h
    elif isinstance(a, tuple):
      h = max(h, _theight(a))
  return h


def const(v):
  if isinstance(v, T): return v
  if isinstance(v, tuple): return mk_tuple([const(x) for x in v])
  return raw('const', type(v).__name__, v)


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ELLIPSIS = const(...)


def is_const(t, v=Ellipsis):
  if not isinstance(t, T) or t.op != 'const': return False
  if v is Ellipsis: return True
  return type(v).__name__ == t.args[0] and t.args[1] == v


def cval(t):
  """Python value of a constant term (tuples included); raises ValueError."""
  if t.op == 'const': return t.args[1]
  if t.op == 'tuple': return tuple(cval(x) for x in t.args)
  if t.op == 'list': return [cval(x) for x in t.args]
  if t.op == 'poly' and not t.args: return 0
  raise ValueError(t)


def cval_or(t, d=None):
  try:
    return cval(t)
  except ValueError:
    return d


_FRESH = [0]


def fresh(hint='s'):
  _FRESH[0] += 1
  return raw('sym', f'{hint}#{_FRESH[0]}')


def sym(name):
  return raw('sym', name)


def glob(name):
  return raw('glob', name)


def is_glob(t, *names):
  return isinstance(t, T) and t.op == 'glob' and (not names or t.args[0] in names)


def top(why, *deps):
  return raw('top', why, *deps)


def mk_tuple(xs):
  return raw('tuple', *xs)


# ---------------------------------------------------------------- kinds
_STRCALLS = {'os.path.join', 'os.path.basename', 'os.path.dirname', 'str', 'repr', 'format'}


def kind(t):
  op = t.op
  if op == 'const':
    v = t.args[1]
    if isinstance(v, bool): return 'bool'
    if isinstance(v, (int, float, complex)): return 'num'
    if isinstance(v, (str, bytes)): return 'str'
    return 'other'
  if op in ('strcat', 'fmt'): return 'str'
  if op in ('tuple', 'list', 'map', 'cat', 'seqmul', 'listof', 'append', 'totuple'): return 'seq'
  if op in ('set', 'setof', 'setunion', 'setadd'): return 'set'
  if op in ('dict', 'dictmap', 'setitem', 'dictupd', 'dictof', 'delitem', 'dictmerge', 'groupby', 'groupadd'): return 'map'
  if op == 'bin' and kind(t.args[1]) == 'set': return 'set'
  if op in ('lt', 'eq', 'in', 'is', 'not', 'isinstance', 'hasattr'): return 'bool'
  if op == 'poly': return 'num'
  if op == 'call':
    f = t.args[0]
    if f.op == 'glob':
      if f.args[0] in _STRCALLS: return 'str'
      if f.args[0] in ('len', 'int', 'float', 'abs', 'sum'): return 'num'
      if f.args[0] in ('sorted', 'list', 'tuple', 'range', 'zip', 'enumerate', 'reversed'): return 'seq'
      if f.args[0] in ('all', 'any', 'bool', 'isinstance', 'hasattr'): return 'bool'
      if f.args[0] in ('flax.traverse_util.flatten_dict', 'flax.traverse_util.unflatten_dict', 'dict', 'vars'): return 'map'
    return 'unknown'
  if op == 'ite':
    a, b = kind(t.args[1]), kind(t.args[2])
    if a == b: return a
    return 'unknown'
  if op == 'item':
    b = t.args[0]
    if b.op == 'ref': return 'unknown'
    if isinstance(t.args[1], T) and t.args[1].op == 'slice': return kind(b)
  return 'unknown'


# ---------------------------------------------------------------- polynomials
def _num(v):
  return isinstance(v, (int, float, complex)) and not isinstance(v, bool)


def poly_of(t):
  """dict monomial -> coef; monomial = tuple of (T, power) sorted by uid."""
  if t.op == 'poly':
    return dict(t.args)
  if t.op == 'const' and _num(t.args[1]):
    return {(): t.args[1]} if t.args[1] != 0 or isinstance(t.args[1], float) else {}
  return {((t, 1),): 1}


def from_poly(p):
  p = {m: c for m, c in p.items() if c != 0}
  if not p: return const(0)
  if len(p) == 1:
    (m, c), = p.items()
    if m == (): return const(c)
    if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
  items = sorted(p.items(), key=lambda mc: [(x.uid, e) for x, e in mc[0]])
  return raw('poly', *[(m, c) for m, c in items])


def _mono_mul(a, b):
  d = {}
  for x, e in a + b:
    d[x] = d.get(x, 0) + e
  return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda xe: xe[0].uid))


def add(a, b):
  ka, kb = kind(a), kind(b)
  if a.op == 'const' and b.op == 'const' and ka == kb == 'str':
    try:
      return const(a.args[1] + b.args[1])
    except TypeError:
      pass
  if ka == 'str' or kb == 'str': return strcat([a, b])
  if ka == 'seq' or kb == 'seq': return cat([a, b])
  pa, pb = dict(poly_of(a)), poly_of(b)
  for m, c in pb.items():
    pa[m] = pa.get(m, 0) + c
  return from_poly(pa)


def neg(a):
  return from_poly({m: -c for m, c in poly_of(a).items()})


def sub(a, b):
  if kind(a) in ('map', 'seq', 'set') or kind(b) in ('map', 'seq', 'set'): return raw('bin', '-', a, b)
  return add(a, neg(b))


def mul(a, b):
  ka, kb = kind(a), kind(b)
  if ka in ('seq', 'str') or kb in ('seq', 'str'):
    if ka not in ('seq', 'str'): a, b = b, a
    if a.op in ('list', 'tuple') and is_const(b) and isinstance(b.args[1], int) and b.args[1] <= 16:
      return raw(a.op, *(a.args * b.args[1]))
    return raw('seqmul', a, b)
  pa, pb = poly_of(a), poly_of(b)
  if len(pa) * len(pb) > 64:
    return raw('bin', '*', *sorted([a, b]))
  r = {}
  for m1, c1 in pa.items():
    for m2, c2 in pb.items():
      m = _mono_mul(m1, m2)
      r[m] = r.get(m, 0) + c1 * c2
  return from_poly(r)


def div(a, b):
  pb = poly_of(b)
  if len(pb) == 1:
    (m, c), = pb.items()
    if c == 1 or (isinstance(c, (int, float)) and c != 0):
      inv = tuple((x, -e) for x, e in m)
      r = {}
      for m1, c1 in poly_of(a).items():
        v = c1 / c
        if isinstance(c1, int) and isinstance(c, int) and c1 % c == 0: v = c1 // c
        r[_mono_mul(m1, inv)] = v
      return from_poly(r)
  r = {}
  for m1, c1 in poly_of(a).items():
    r[_mono_mul(m1, ((b, -1),))] = c1
  return from_poly(r)


def binop(op, a, b):
  if op == '+': return add(a, b)
  if op == '-': return sub(a, b)
  if op == '*': return mul(a, b)
  if op == '/':
    if kind(a) == 'str' or kind(b) == 'str': return raw('call', glob('pathdiv'), (a, b), ())
    return div(a, b)
  if a.op == 'const' and b.op == 'const':
    try:
      x, y = a.args[1], b.args[1]
      if op == '%' and isinstance(x, str): return const(x % y)
      r = {'//': lambda: x // y, '%': lambda: x % y, '**': lambda: x ** y, '&': lambda: x & y,
           '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y, '>>': lambda: x >> y}[op]()
      return const(r)
    except Exception:
      pass
  if op == '%' and a.op == 'const' and isinstance(a.args[1], str): return raw('fmt%', a, b)
  if op == '**' and is_const(b) and isinstance(b.args[1], int) and 0 < b.args[1] <= 4:
    r = a
    for _ in range(b.args[1] - 1): r = mul(r, a)
    return r
  if op in ('&', '^') or op == '|' and (kind(a) in ('set', 'bool', 'num') or kind(b) in ('set', 'bool', 'num')): a, b = sorted([a, b])   # the union of dictionaries is not symmetric
  return raw('bin', op, a, b)


# ---------------------------------------------------------------- sequences / strings
def cat(parts):
  """Concatenation of sequences."""
  out = []
  for p in parts:
    if p.op == 'cat': out.extend(p.args)
    else: out.append(p)
  res = []
  for p in out:
    if p.op in ('list', 'tuple') and not p.args: continue
    if res and p.op in ('list', 'tuple') and res[-1].op in ('list', 'tuple'):
      res[-1] = raw(res[-1].op if res[-1].op == p.op else 'list', *(res[-1].args + p.args))
    else:
      res.append(p)
  if not res: return parts[0] if parts else raw('list')
  if len(res) == 1: return res[0]
  return raw('cat', *res)


def strcat(parts):
  parts = list(parts)
  out = []
  for p in parts:
    if p.op == 'strcat': out.extend(p.args)
    elif p.op == 'fmt' and p.args[1] == '' and (kind(p.args[0]) == 'str' or len(parts) > 1): out.append(p.args[0])
    else: out.append(p)
  res = []
  for p in out:
    if is_const(p) and isinstance(p.args[1], str):
      if p.args[1] == '': continue
      if res and is_const(res[-1]) and isinstance(res[-1].args[1], str):
        res[-1] = const(res[-1].args[1] + p.args[1])
        continue
    res.append(p)
  if not res: return const('')
  if len(res) == 1 and kind(res[0]) == 'str': return res[0]
  return raw('strcat', *res)


# ---------------------------------------------------------------- comparisons
def lt(a, b):
  if a.op == 'const' and b.op == 'const':
    try:
      return const(bool(a.args[1] < b.args[1]))
    except TypeError:
      pass
  if kind(a) in ('unknown', 'num') and kind(b) in ('unknown', 'num') and (a.op == 'poly' or b.op == 'poly'):
    d = sub(b, a)
    if d.op == 'const' and _num(d.args[1]): return const(d.args[1] > 0)
    # canonical: split positive and negative part
    p = poly_of(d)
    posi = from_poly({m: c for m, c in p.items() if _pos(c)})
    nega = neg(from_poly({m: c for m, c in p.items() if not _pos(c)}))
    return raw('lt', nega, posi)
  if a is b: return FALSE
  return raw('lt', a, b)


def _pos(c):
  return not isinstance(c, complex) and c > 0


def eq(a, b):
  if a is b: return TRUE
  try:
    return const(cval(a) == cval(b))
  except ValueError:
    pass
  if a is NONE or b is NONE: return raw('is', *(sorted([a, b])))
  if a.op == 'enum' and b.op == 'enum' and a.args[0] == b.args[0]: return FALSE
  if a.op == 'tuple' and b.op == 'tuple':
    if len(a.args) != len(b.args): return FALSE
    r = TRUE
    for x, y in zip(a.args, b.args): r = b_and(r, cond(eq(x, y)))
    return val(r)
  if a.op == 'strcat' or b.op == 'strcat':
    r = _str_eq(a, b)
    if r is not None: return r
  return raw('eq', *sorted([a, b]))


def _str_eq(a, b):
  """Strings with literal parts: equal beginnings and ends are cancelled, different literals decide."""
  def parts(x):
    if x.op == 'strcat': return list(x.args)
    if x.op == 'const' and isinstance(x.args[1], str): return [x]
    return None
  x, y = parts(a), parts(b)
  if x is None or y is None: return None
  lit = lambda z: z.args[1] if z.op == 'const' and isinstance(z.args[1], str) else None
  for rev in (False, True):
    while x and y:
      i = -1 if rev else 0
      if x[i] is y[i]:
        x.pop(i); y.pop(i)
        continue
      p, r = lit(x[i]), lit(y[i])
      if p is None or r is None: break
      n = min(len(p), len(r))
      if (p[-n:] != r[-n:]) if rev else (p[:n] != r[:n]): return FALSE
      cut = lambda s: s[:-n] if rev else s[n:]
      for l, s in ((x, p), (y, r)):
        if cut(s): l[i] = const(cut(s))
        else: l.pop(i)
  if not x and not y: return TRUE
  if not x or not y:
    return FALSE if any(lit(z) for z in x + y) else None
  return None


def is_(a, b):
  if a is b: return TRUE
  if a.op == 'const' and b.op == 'const': return const(a.args == b.args)
  for x, y in ((a, b), (b, a)):
    if x is NONE and y.op in ('tuple', 'list', 'dict', 'lam', 'func', 'poly', 'strcat', 'obj', 'ref', 'cls', 'map',
                              'glob', 'partial', 'bound', 'cat', 'setitem', 'dictmap', 'append'): return FALSE
    if x is NONE and kind(y) in ('num', 'str', 'bool', 'seq'): return FALSE
  return raw('is', *sorted([a, b]))


def not_(a):
  if a.op == 'not': return a.args[0]
  if a is TRUE: return FALSE
  if a is FALSE: return TRUE
  return raw('not', a)


def cmp(op, a, b):
  if kind(a) == 'set' or kind(b) == 'set':
    if op == '<=': return val(b_not(cond(sub(a, b))))
    if op == '>=': return val(b_not(cond(sub(b, a))))
  if op == '<': return lt(a, b)
  if op == '>': return lt(b, a)
  if op == '<=': return not_(lt(b, a))
  if op == '>=': return not_(lt(a, b))
  if op == '==': return eq(a, b)
  if op == '!=': return not_(eq(a, b))
  if op == 'is': return is_(a, b)
  if op == 'is not': return not_(is_(a, b))
  if op in ('in', 'not in'):
    r = in_(a, b)
    return r if op == 'in' else val(b_not(cond(r)))
  raise ValueError(op)


def in_(a, b):
  if b.op in ('tuple', 'list', 'set') and a.op == 'const' and all(x.op == 'const' for x in b.args): return const(any(eq(a, x) is TRUE for x in b.args))
  if b.op in ('tuple', 'list', 'set') and len(b.args) <= 8 and not any(x.op == 'star' for x in b.args):
    r = FALSE
    for x in b.args: r = b_or(r, cond(eq(a, x)))
    return val(r)
  if b.op == 'dict' and a.op == 'const' and all(k.op == 'const' for k, _ in b.args):
    return const(any(k is a for k, _ in b.args))
  if b.op == 'dict' and a.op != 'const' and 1 <= len(b.args) <= 6 and all(k.op == 'enum' for k, _ in b.args):
    return in_(a, raw('tuple', *[k for k, _ in b.args]))
  if b.op == 'const' and a.op == 'const':
    try:
      return const(a.args[1] in b.args[1])
    except TypeError:
      pass
  return raw('in', a, b)


# ---------------------------------------------------------------- decision diagrams
BOOLATOM = ('lt', 'eq', 'in', 'is', 'isinstance', 'hasattr', 'truth')


def _truly(x):
  """A term that is a plain boolean, never an array of them."""
  if x.op == 'not': return _truly(x.args[0])
  return x.op in ('isinstance', 'is', 'in', 'hasattr')


def cond(t):
  """Decision diagram (leaves TRUE/FALSE) of the truth value of t."""
  op = t.op
  if op == 'const': return const(bool(t.args[1])) if not isinstance(t.args[1], bool) else t
  if op == 'not': return b_not(cond(t.args[0]))
  if op in ('eq', 'is') and all(_truly(x) for x in t.args):
    a, b = cond(t.args[0]), cond(t.args[1])
    return mk_ite(a, b, b_not(b))
  if op == 'bin' and t.args[0] == '^' and all(_truly(x) for x in t.args[1:]):
    a, b = cond(t.args[1]), cond(t.args[2])
    return mk_ite(a, b_not(b), b)
  if op in BOOLATOM: return raw('ite', t, TRUE, FALSE)
  if op == 'bin' and t.args[0] in ('%', '//') and kind(t.args[1]) != 'str': return b_not(cond(eq(t, const(0))))
  if op == 'ite':
    return mk_ite(raw('ite', t.args[0], TRUE, FALSE), cond(t.args[1]), cond(t.args[2]))
  if op in ('tuple', 'list'):
    if not any(x.op == 'star' for x in t.args): return const(bool(t.args))
  if op == 'dict': return const(bool(t.args)) if not any(k.op == 'kwstar' for k, _ in t.args) else raw('ite', raw('truth', t), TRUE, FALSE)
  if op in ('func', 'lam', 'cls', 'glob', 'partial', 'bound', 'obj'): return TRUE
  if op == 'call' and t.args[0].op == 'glob':
    g = t.args[0].args[0]
    if g == 'bool' and len(t.args[1]) == 1: return cond(t.args[1][0])
    if g == 'len' and len(t.args[1]) == 1: return cond(t.args[1][0])
    if g == 'isinstance' and len(t.args[1]) == 2:
      x, c = t.args[1]
      cs = c.args if c.op == 'tuple' else (c,)
      r = FALSE
      for k in cs: r = b_or(r, raw('ite', raw('isinstance', x, k), TRUE, FALSE))
      return r
  if op == 'cat' and all(x.op in ('list', 'tuple') or x.op == 'opt' and x.args[1].op in ('list', 'tuple') for x in t.args):
    r = FALSE
    for x in t.args: r = b_or(r, const(bool(x.args)) if x.op != 'opt' else cond(x.args[0]) if x.args[1].args else FALSE)
    return r
  if op == 'opt' and t.args[1].op in ('list', 'tuple'): return cond(t.args[0]) if t.args[1].args else FALSE
  return raw('ite', raw('truth', t), TRUE, FALSE)


def val(c):
  """Value form of a decision diagram."""
  if c.op == 'ite':
    if c.args[1] is TRUE and c.args[2] is FALSE and kind(c.args[0]) == 'bool': return c.args[0]
    if c.args[1] is FALSE and c.args[2] is TRUE and c.args[0].op != 'ite': return not_(c.args[0])
  return c


_ITE = {}
_BUDGET = [0]


def mk_ite(c, a, b):
  """c: decision diagram; a, b: terms (possibly decision diagrams)."""
  if c is TRUE: return a
  if c is FALSE: return b
  if a is b: return a
  key = (c, a, b)
  r = _ITE.get(key)
  if r is not None: return r
  v = None
  for x in (c, a, b):
    if x.op == 'ite' and (v is None or x.args[0].uid < v.uid): v = x.args[0]
  def br(x, pos):
    if x.op == 'ite' and x.args[0] is v: return x.args[1] if pos else x.args[2]
    return x
  hi = mk_ite(br(c, 1), br(a, 1), br(b, 1))
  lo = mk_ite(br(c, 0), br(a, 0), br(b, 0))
  if hi is lo: r = hi
  elif v.op == 'in' and hi.op == 'item' and hi.args[1] is v.args[0] and hi.args[0] is v.args[1] and lo.op != 'ite':
    r = raw('getdef', hi.args[0], hi.args[1], lo)  # D[k] if k in D else d  ==  D.get(k, d)
  else: r = raw('ite', v, hi, lo)
  _ITE[key] = r
  return r


def ite(c, a, b):
  """c: any value term."""
  return val(mk_ite(cond(c), a, b))


def b_not(c): return mk_ite(c, FALSE, TRUE)
def b_and(a, b): return mk_ite(a, b, FALSE)
def b_or(a, b): return mk_ite(a, TRUE, b)


def implies(a, b):
  """Is diagram a => b valid (propositionally)?"""
  return b_and(a, b_not(b)) is FALSE


def atoms(c, acc=None):
  acc = set() if acc is None else acc
  if c.op == 'ite':
    if c in acc: return acc
    acc.add(c)
    atoms(c.args[1], acc); atoms(c.args[2], acc)
  return acc


def cond_atoms(c):
  if c.op not in ('ite', 'const'): c = cond(c)
  return {x.args[0] for x in atoms(c)}


# ---------------------------------------------------------------- traversal
def _targs(a, f):
  if isinstance(a, T): return f(a)
  if isinstance(a, tuple): return tuple(_targs(x, f) for x in a)
  return a


def rebuild_node(t, args):
  """Re-normalise node t with new args."""
  op = t.op
  if op == 'poly':
    r = const(0)
    for m, c in args:
      p = const(c)
      for x, e in m:
        for _ in range(abs(e)):
          p = mul(p, x) if e > 0 else div(p, x)
      r = add(r, p)
    return r
  if op == 'ite': return ite(args[0] if args[0].op != 'truth' else args[0].args[0], args[1], args[2])
  if op == 'truth': return val(cond(args[0])) if args[0].op in ('const', 'tuple', 'list', 'ite', 'not', 'bin', 'cat', 'opt') + BOOLATOM else raw('truth', args[0])
  if op == 'lt': return lt(*args)
  if op == 'eq': return eq(*args)
  if op == 'is': return is_(*args)
  if op == 'in': return in_(*args)
  if op == 'not': return val(b_not(cond(args[0])))
  if op == 'bin': return binop(*args)
  if op == 'strcat': return strcat(args)
  if op == 'cat': return cat(args)
  if op == 'opt' and args[0] in (TRUE, FALSE): return args[1] if args[0] is TRUE else raw('list')
  if op == 'item': return item(*args)
  if op == 'attr': return attr(*args)
  if op == 'nth': return nth(*args)
  if op == 'call' and args[0].op == 'glob' and args[0].args[0] == 'len' and len(args[1]) == 1 and args[1][0].op in ('tuple', 'list') and not any(x.op == 'star' for x in args[1][0].args): return const(len(args[1][0].args))
  return raw(op, *args)


def transform(t, f, memo=None):
  """Bottom-up rewrite: f(node) -> replacement or None."""
  memo = {} if memo is None else memo
  def go(x):
    r = memo.get(x)
    if r is not None: return r
    pre = f(x)
    if pre is not None:
      memo[x] = pre
      return pre
    args = tuple(_targs(a, go) for a in x.args)
    r = x if args == x.args else rebuild_node(x, args)
    memo[x] = r
    return r
  return go(t)


def subst(t, mapping):
  if not mapping: return t
  return transform(t, lambda x: mapping.get(x))


def assume(t, lits):
  """Specialise t under atom -> bool decisions (dict)."""
  if not lits: return t
  def f(x):
    if x.op == 'ite' and x.args[0] in lits:
      return go(x.args[1] if lits[x.args[0]] else x.args[2])
    if x in lits and x.op in BOOLATOM: return const(lits[x])
    if x.op == 'getdef':
      a = raw('in', x.args[1], x.args[0])
      if a in lits: return go(item(x.args[0], x.args[1]) if lits[a] else x.args[2])
    return None
  memo = {}
  def go(x): return transform(x, f, memo)
  return go(t)


def subterms(t, seen=None):
  seen = set() if seen is None else seen
  stack = [t]
  while stack:
    x = stack.pop()
    if isinstance(x, tuple):
      stack.extend(x)
    elif isinstance(x, T):
      if x in seen: continue
      seen.add(x)
      stack.extend(x.args)
  return seen


def contains(t, pred):
  return any(pred(x) for x in subterms(t))


def mentions(t, s):
  return s in subterms(t)


def cubes(c, limit=64):
  """Paths of a decision diagram to TRUE: list of {atom: bool}."""
  out = []
  def go(x, lits):
    if len(out) > limit: return
    if x is TRUE: out.append(dict(lits)); return
    if x is FALSE: return
    if x.op != 'ite': out.append(dict(lits)); return
    a = x.args[0]
    lits[a] = True; go(x.args[1], lits)
    lits[a] = False; go(x.args[2], lits)
    del lits[a]
  go(c, {})
  return out


def leaves(t, limit=256):
  """(cube, leaf) pairs of a decision diagram value."""
  out = []
  def go(x, lits):
    if len(out) > limit: return
    if x.op == 'ite':
      a = x.args[0]
      lits[a] = True; go(x.args[1], lits)
      lits[a] = False; go(x.args[2], lits)
      del lits[a]
    else:
      out.append((dict(lits), x))
  go(t, {})
  return out


def inner_atoms(t):
  """Atoms of every conditional nested anywhere in t."""
  return {x.args[0] for x in subterms(t) if x.op == 'ite'}


def paths(ts, limit=10):
  """Enumerate assignments of all conditional atoms inside the terms ts.

  Yields (lits, specialised terms); atoms are discovered lazily, so infeasible
  combinations under nested conditionals are not enumerated."""
  def go(ts, lits, depth):
    ats = set()
    for t in ts: ats |= inner_atoms(t)
    # outermost first: prefer smallest uid
    ats = [a for a in ats if not any(x.op == 'bv' for x in subterms(a))]
    if not ats or depth >= limit:
      yield dict(lits), ts
      return
    a = min(ats, key=lambda x: x.uid)
    for b in (True, False):
      l2 = dict(lits); l2[a] = b
      yield from go([assume(t, {a: b}) for t in ts], l2, depth + 1)
  yield from go(list(ts), {}, 0)


# ---------------------------------------------------------------- selectors
def _const_index(i):
  if i.op == 'const' and isinstance(i.args[1], int) and not isinstance(i.args[1], bool): return i.args[1]
  return None


def item(b, i):
  if b.op == 'ite': 
    # projections distribute over conditionals
    return mk_ite(raw('ite', b.args[0], TRUE, FALSE), item(b.args[1], i), item(b.args[2], i))
  n = _const_index(i)
  if b.op in ('tuple', 'list') and not any(x.op == 'star' for x in b.args):
    if n is not None and -len(b.args) <= n < len(b.args): return b.args[n]
    if i.op == 'slice':
      try:
        s = slice(*[cval(x) for x in i.args])
        return raw(b.op, *b.args[s])
      except (ValueError, TypeError):
        pass
  if b.op in ('tuple', 'list') and n is not None and -len(b.args) <= n < len(b.args) and not any(x.op == 'star' for x in (b.args[:n + 1] if n >= 0 else b.args[n:])):
    return b.args[n]
  if b.op == 'const' and isinstance(b.args[1], str):
    try:
      if n is not None: return const(b.args[1][n])
      if i.op == 'slice': return const(b.args[1][slice(*[cval(x) for x in i.args])])
    except (ValueError, IndexError):
      pass
  if b.op == 'dict' and i.op in ('const', 'enum'):
    hit = None
    for k, v in b.args:
      if k is i: hit = v
      elif k.op != i.op: hit = None; break
    if hit is not None: return hit
  if b.op == 'setitem':
    if b.args[1] is i: return b.args[2]
    if b.args[1].op == 'const' and i.op == 'const': return item(b.args[0], i)
  if b.op == 'delitem' and b.args[1].op == 'const' and i.op == 'const' and b.args[1] is not i:
    return item(b.args[0], i)
  if b.op == 'map' and n is not None and n >= 0 and b.args[2] is TRUE:
    src = b.args[1]
    if src.op in ('tuple', 'list') and len(src.args) > n and not any(x.op == 'star' for x in src.args):
      return beta(b.args[0], [src.args[n]])
  return raw('item', b, i)


def attr(b, name):
  if b.op == 'ite':
    return mk_ite(raw('ite', b.args[0], TRUE, FALSE), attr(b.args[1], name), attr(b.args[2], name))
  if b.op == 'call' and b.args[0].op == 'attr' and b.args[0].args[1] == 'replace' and not b.args[1] and b.args[2]:
    kw = b.args[2]
    if all(isinstance(k, str) for k, _ in kw):
      for k, v in kw:
        if k == name: return v
      if name not in ('replace',) : return attr(b.args[0].args[0], name)
  if b.op == 'glob': return glob(b.args[0] + '.' + name)
  if b.op == 'slice' and name in ('start', 'stop', 'step'): return b.args[('start', 'stop', 'step').index(name)]
  return raw('attr', b, name)


def nth(x, i):
  """i-th element met when iterating x."""
  if x.op == 'obj':
    f = dict(x.args[1])
    a = f.get('<args>')
    if a is not None and len(a.args) == 1 and a.args[0].op != 'star': return nth(a.args[0], i)
  if x.op == 'map' and x.args[2] is TRUE: return beta(x.args[0], [i])
  if x.op in ('listof', 'totuple'): return nth(x.args[0], i)
  if x.op in ('tuple', 'list') and i.op == 'const': return item(x, i)
  return raw('nth', x, i)


# ---------------------------------------------------------------- lambdas
def lam(fresh_syms, body):
  h = body.h
  m = {s: raw('bv', h + i) for i, s in enumerate(fresh_syms)}
  return raw('lam', h, len(fresh_syms), subst(body, m))


def beta(l, args):
  h, n, body = l.args
  m = {raw('bv', h + i): a for i, a in enumerate(args)}
  return subst(body, m)


def open_lam(l, hint='e'):
  syms = [fresh(hint) for _ in range(l.args[1])]
  return syms, beta(l, syms)


def mk_map(fn_body_syms, body, it, filt=TRUE):
  """map term: fn applied to every element of `it` satisfying filt (in order)."""
  l = lam(fn_body_syms, body)
  f = TRUE if filt is TRUE else lam(fn_body_syms, filt)
  # identity map over an iterable
  if f is TRUE and l.args[1] == 1 and l.args[2] is raw('bv', l.args[0]):
    return raw('listof', it) if it.op not in ('listof', 'map', 'list', 'tuple') else it
  if it.op == 'listof': it = it.args[0]
  # map fusion
  if it.op == 'map' and l.args[1] == 1:
    s = fresh('e')
    inner = beta(it.args[0], [s])
    nb = beta(l, [inner])
    nf = TRUE
    if it.args[2] is not TRUE: nf = cond(beta(it.args[2], [s]))
    if f is not TRUE: nf = b_and(nf, cond(beta(f, [inner])))
    return mk_map([s], nb, it.args[1], val(nf) if nf is not TRUE else TRUE)
  return raw('map', l, it, f)


# ---------------------------------------------------------------- printing
def show(t, depth=12):
  if isinstance(t, tuple): return '(' + ', '.join(show(x, depth) for x in t) + ')'
  if not isinstance(t, T): return repr(t)
  if depth <= 0: return '…'
  op, a = t.op, t.args
  s = lambda x: show(x, depth - 1)
  if op == 'const': return '...' if a[1] is Ellipsis else repr(a[1])
  if op == 'sym': return '$' + a[0]
  if op == 'glob': return '@' + a[0]
  if op == 'bv': return f'%{a[0]}'
  if op == 'lam': return 'λ' + ','.join(f'%{a[0]+i}' for i in range(a[1])) + '.' + s(a[2])
  if op == 'call':
    kw = [(f'{k}={s(v)}' if isinstance(k, str) else f'**{s(v)}') for k, v in a[2]]
    return f'{s(a[0])}(' + ', '.join([s(x) for x in a[1]] + kw) + ')'
  if op == 'attr': return f'{s(a[0])}.{a[1]}'
  if op == 'item': return f'{s(a[0])}[{s(a[1])}]'
  if op == 'slice': return ':'.join('' if x is NONE else s(x) for x in a)
  if op == 'tuple': return '(' + ', '.join(s(x) for x in a) + ',)'
  if op == 'list': return '[' + ', '.join(s(x) for x in a) + ']'
  if op == 'dict': return '{' + ', '.join(f'{s(k)}: {s(v)}' for k, v in a) + '}'
  if op == 'poly':
    ms = []
    for m, c in a:
      fs = [(s(x) if e == 1 else f'{s(x)}^{e}') for x, e in m]
      if c != 1 or not fs: fs.insert(0, repr(c))
      ms.append('*'.join(fs))
    return '(' + ' + '.join(ms) + ')'
  if op == 'ite':
    if a[1] is TRUE and a[2] is FALSE: return f'<{s(a[0])}>'
    if a[1] is FALSE and a[2] is TRUE: return f'<not {s(a[0])}>'
    return f'ite({s(a[0])} ? {s(a[1])} : {s(a[2])})'
  if op in ('lt', 'eq', 'is', 'in'):
    return f'({s(a[0])} {dict(lt="<", eq="==", **{"is": "is", "in": "in"})[op]} {s(a[1])})'
  if op == 'not': return f'not {s(a[0])}'
  if op == 'bin': return f'({s(a[1])} {a[0]} {s(a[2])})'
  if op == 'strcat': return 'str(' + ' ++ '.join(s(x) for x in a) + ')'
  if op == 'map': return f'[{s(a[0])} for {s(a[1])}' + ('' if a[2] is TRUE else f' if {s(a[2])}') + ']'
  return f'{op}(' + ', '.join(s(x) if isinstance(x, (T, tuple)) else str(x) for x in a) + ')'

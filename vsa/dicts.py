"""Lookup semantics of symbolic dictionaries.

look(D, k) gives, for any dictionary term built by literals, assignments,
updates, deletions and comprehensions, the condition under which key k is
present and the value stored under it, in terms of the dictionaries it was
built from.  So two ways of building the same dictionary agree on every key."""
from . import terms as t
from .terms import T, TRUE, FALSE, raw, const

STRUCT = ('dict', 'setitem', 'dictupd', 'dictof', 'delitem', 'dictmerge', 'getset')


class Opaque(Exception):
  pass


def look(D, k, depth=0):
  """(condition, value or None) or raises Opaque."""
  if depth > 12: raise Opaque('depth')
  op = D.op
  if op == 'ite':
    a, b = look(D.args[1], k, depth + 1), look(D.args[2], k, depth + 1)
    c = raw('ite', D.args[0], TRUE, FALSE)
    return t.mk_ite(c, a[0], b[0]), _sel(c, a[1], b[1])
  if op == 'dict':
    c, v = FALSE, None
    for kk, x in D.args:
      if kk.op in ('kwstar', 'star'): raise Opaque('star')
      e = t.cond(t.eq(k, kk))
      v = x if v is None or e is TRUE else (v if e is FALSE else t.mk_ite(e, x, v))
      c = t.b_or(e, c)
    return c, v
  if op == 'setitem':
    e = t.cond(t.eq(k, D.args[1]))
    if e is TRUE: return TRUE, D.args[2]
    c, v = look(D.args[0], k, depth + 1)
    return t.b_or(e, c), _sel(e, D.args[2], v)
  if op == 'delitem':
    c, v = look(D.args[0], k, depth + 1)
    return t.b_and(c, t.b_not(t.cond(t.eq(k, D.args[1])))), v
  if op == 'dictof': return look(D.args[0], k, depth + 1)
  if op == 'bin' and D.args[0] == '|' and (t.kind(D.args[1]) == 'map' or t.kind(D.args[2]) == 'map'):
    (c0, v0), (c1, v1) = look(D.args[1], k, depth + 1), look(D.args[2], k, depth + 1)
    return t.b_or(c1, c0), _sel(c1, v1, v0)
  if op == 'dictmerge':
    c, v = FALSE, None
    for x in D.args:
      c2, v2 = look(x, k, depth + 1)
      c, v = t.b_or(c2, c), _sel(c2, v2, v)
    return c, v
  if op == 'dictupd':
    c0, v0 = look(D.args[0], k, depth + 1)
    c1, v1 = comp(D.args[1], k, depth + 1)
    return t.b_or(c1, c0), _sel(c1, v1, v0)
  if op == 'map': return comp(D, k, depth + 1)
  if op == 'item' and D.args[0].op == 'fold' and t.is_const(D.args[1]): return folded(D, k, depth + 1)
  return t.cond(t.in_(k, D)), t.item(D, k)


def folded(D, k, depth):
  """A loop over distinct keys that touches, in each round, only the entry of that round's key."""
  dom, inits, l = D.args[0].args[:3]
  inits = inits.args if isinstance(inits, T) else inits
  n = D.args[1].args[1]
  if dom.op != 'keys' or l.op != 'lam': raise Opaque('fold')
  ss, body = t.open_lam(l)
  i, *accs = ss if len(ss) == len(inits) + 1 else (None,)
  if not accs: raise Opaque('fold')
  if t.mentions(body, accs[0]) and len(accs) > 1 and any(t.mentions(t.item(body, const(n)), a) for j, a in enumerate(accs) if j != n): raise Opaque('fold')
  acc, nxt = accs[n], t.item(body, const(n))
  key = raw('nth', dom, i)
  # the accumulator is used only through this round's key
  def only(x):
    if x is acc: return False
    if x.op in ('item', 'getdef') and x.args[0] is acc: return x.args[1] is key and (x.op == 'item' or only(x.args[2]))
    if x.op == 'in' and x.args[1] is acc: return x.args[0] is key
    def sub(a):
      if isinstance(a, T): return only(a)
      if isinstance(a, tuple): return all(sub(b) for b in a)
      return True
    return all(sub(a) for a in x.args)
  def upd(x):
    if x is acc: return True
    if x.op == 'setitem': return upd(x.args[0]) and x.args[1] is key and only(x.args[2])
    if x.op == 'delitem': return upd(x.args[0]) and x.args[1] is key
    if x.op == 'ite': return only(x.args[0]) and upd(x.args[1]) and upd(x.args[2])
    return False
  if not upd(nxt): raise Opaque('fold')
  init = inits[n]
  x = t.subst(nxt, {key: k, acc: init})
  if t.mentions(x, i): raise Opaque('fold')
  c0, v0 = look(init, k, depth + 1)
  c1, v1 = look(rewrite(x), k, depth + 1)
  here = look(dom.args[0], k, depth + 1)[0]
  return t.mk_ite(here, c1, c0), _sel(here, v1, v0)


def _sel(c, a, b):
  if a is None: return b
  if b is None: return a
  return t.mk_ite(c, a, b)


def comp(m, k, depth):
  """Dictionary from a sequence of pairs (or another mapping)."""
  if m.op in STRUCT: return look(m, k, depth)
  if m.op != 'map' or m.args[0].args[1] != 1: raise Opaque(m.op)
  (i,), body = t.open_lam(m.args[0])
  dom = m.args[1]
  filt = TRUE
  if m.args[2] is not TRUE:
    l = m.args[2]
    filt = t.beta(l, [i]) if l.op == 'lam' else l
  if t.kind(body) != 'seq' and body.op != 'tuple': raise Opaque('pairs')
  key, val = t.item(body, const(0)), t.item(body, const(1))
  if key.op != 'nth' or key.args[1] is not i: raise Opaque('key')
  src = key.args[0]
  def f(x):
    if x is key: return k
    return None
  val, filt = t.transform(val, f), t.transform(filt, f)
  if t.mentions(val, i) or t.mentions(filt, i): raise Opaque('index')
  if src.op == 'keys':
    if dom is not src: raise Opaque('domain')
    c = look(src.args[0], k, depth + 1)[0]
  else:
    if dom is not src: raise Opaque('domain')
    c = t.cond(t.in_(k, src))
  return t.b_and(c, t.cond(filt)), val


def rewrite(x):
  """Normalise lookups and membership tests in structured dictionaries."""
  memo = {}
  def f(y):
    if y.op == 'item' and isinstance(y.args[1], T) and (y.args[0].op in STRUCT or (y.args[0].op == 'item' and y.args[0].args[0].op == 'fold')) and y.args[1].op != 'slice':
      b, k = y.args
      try:
        c, v = look(b, go(k))
      except Opaque:
        return None
      return go(v) if v is not None and v is not y else None
    if y.op == 'in' and y.args[1].op in STRUCT + ('keys',):
      k, b = y.args
      if b.op == 'keys': b = b.args[0]
      try:
        c, v = look(b, go(k))
      except Opaque:
        return None
      r = t.val(c)
      return go(r) if r is not y else None
    if y.op == 'getdef' and y.args[0].op in STRUCT:
      try:
        c, v = look(y.args[0], go(y.args[1]))
      except Opaque:
        return None
      return go(t.val(t.mk_ite(c, v, y.args[2]))) if v is not None else go(y.args[2])
    if y.op == 'ite':
      a = go(y.args[0])
      return t.val(t.mk_ite(t.cond(a), go(y.args[1]), go(y.args[2])))
    return None
  def go(y): return t.transform(y, f, memo)
  return go(x)

"""Queries over terms and events shared by the rules."""
from . import terms as t
from .terms import T, TRUE, FALSE, NONE, raw, const, glob


def calls(term, *names):
  """Call subterms of external functions with one of the given dotted names."""
  return [x for x in t.subterms(term) if x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in names]


def mcalls(term, *names):
  """Method-call subterms .name(...)."""
  return [x for x in t.subterms(term) if x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] in names]


def is_call(x, *names):
  return isinstance(x, T) and x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0] in names


def is_mcall(x, *names):
  return isinstance(x, T) and x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] in names


def kwarg(x, name, pos=None, default=None):
  """Argument of a call term by keyword or position."""
  for k, v in x.args[2]:
    if k == name: return v
  if x.args[0].op == 'opaque' and name in t.OPAQUE_SIG.get(x.args[0].args[0], ()): pos = t.OPAQUE_SIG[x.args[0].args[0]].index(name)
  if pos is not None and pos < len(x.args[1]): return x.args[1][pos]
  return default


def ekw(e, name, pos=None, default=None):
  for k, v in e.kwargs:
    if k == name: return v
  if e.fn is not None and e.fn.op == 'opaque' and name in t.OPAQUE_SIG.get(e.fn.args[0], ()): pos = t.OPAQUE_SIG[e.fn.args[0]].index(name)
  if pos is not None and pos < len(e.args): return e.args[pos]
  return default


def kws(x):
  """Named arguments of a call term (with the positional ones of a call of a known function under their names)."""
  return _kws(x.args[0], x.args[1], x.args[2])


def ekws(e): return _kws(e.fn, e.args, e.kwargs)


def _kws(fn, args, kwargs):
  d = {}
  if isinstance(fn, T) and fn.op == 'opaque' and not any(a.op == 'star' for a in args): d.update(zip(t.OPAQUE_SIG.get(fn.args[0], ()), args))
  d.update(dict(kwargs))
  return d


def ev(r, *names, kind='call'):
  """Events of calls to external functions."""
  return [e for e in r.events if e.kind == kind and e.fn is not None and e.fn.op == 'glob' and e.fn.args[0] in names]


def mev(r, *names):
  return [e for e in r.events if e.kind == 'call' and e.fn is not None and e.fn.op == 'attr' and e.fn.args[1] in names]


def early(e):
  """The loops around an event that may stop before their last element."""
  return [l for l in e.loops if l.early is not FALSE]


def raises(r):
  return [e for e in r.events if e.kind == 'raise']


# ---------------------------------------------------------------- paths
def split_path(p):
  """(directory term, [name parts]) of a path term, or None."""
  if is_call(p, 'os.path.join') and len(p.args[1]) >= 2:
    d = p.args[1][:-1]
    d = d[0] if len(d) == 1 else raw('call', glob('os.path.join'), tuple(d), ())
    n = p.args[1][-1]
    return d, list(n.args) if n.op == 'strcat' else [n]
  if p.op == 'strcat':
    # dir + '/' + name...  or join(dir, a) + b
    if is_call(p.args[0], 'os.path.join'):
      d, n = split_path(p.args[0])
      return d, n + list(p.args[1:])
    for i, x in enumerate(p.args):
      if t.is_const(x) and isinstance(x.args[1], str) and '/' in x.args[1] and i >= 1:
        pre, post = x.args[1].rsplit('/', 1)
        if pre: return None
        d = p.args[:i]
        d = d[0] if len(d) == 1 else raw('strcat', *d)
        if d.op == 'fmt' and d.args[1] == '': d = d.args[0]
        rest = ([const(post)] if post else []) + list(p.args[i + 1:])
        return d, rest
  return None


def unfmt(x):
  while x.op == 'fmt' and x.args[1] == '': x = x.args[0]
  return x


def merge_parts(parts):
  parts = [unfmt(p) for p in parts]
  r = t.strcat(parts)
  return [unfmt(p) for p in r.args] if r.op == 'strcat' else [r]


def temp_of(p):
  """If p names the temporary sibling '.tmp.<basename(F)>' of F, return F."""
  s = split_path(p)
  if s is None: return None
  d, parts = s
  parts = merge_parts(parts)
  if not (t.is_const(parts[0]) and isinstance(parts[0].args[1], str) and parts[0].args[1] == '.tmp.'): return None
  for x in parts[1:2]:
    if is_call(x, 'os.path.basename'):
      f = x.args[1][0]
      if d is raw('call', glob('os.path.dirname'), (f,), ()) : return f, parts, d
  return None

#!/usr/bin/env python3
"""Refactoring fuzzer: rewrites every function of a source file in a way that keeps its behaviour and requires every check to stay quiet.

usage: selftest/refactor.py [-f substring of file] [-k kind,kind] [-p C01,C02] [-v]
Each (file, kind) is one case; on an alarm the functions are tried one by one to name the culprit.
Works on throw-away copies of /repo's sources (VMOE_REPO); /repo and evidence/ are not touched."""
import argparse
import ast
import concurrent.futures as cf
import copy
import glob
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FN = (ast.FunctionDef,)
SCOPES = (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def nm(x, ctx=None): return ast.Name(x, ctx or ast.Load())
def assign(x, v): return ast.Assign([nm(x, ast.Store())], v)


def params(f):
  a = f.args
  return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def own(f):
  """Nodes of a function without nested scopes."""
  todo = list(f.body)
  while todo:
    n = todo.pop()
    yield n
    if not isinstance(n, SCOPES): todo += list(ast.iter_child_nodes(n))


def is_gen(f): return any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in own(f))


def uses_super(f): return any(isinstance(n, ast.Name) and n.id in ('super', '__class__', 'locals', 'vars') for n in ast.walk(f))


def bodies(f):
  """Statement lists of a function, without nested functions."""
  yield f.body
  for n in own(f):
    if isinstance(n, SCOPES): continue
    for k in ('body', 'orelse', 'finalbody'):
      b = getattr(n, k, None)
      if isinstance(b, list) and b and isinstance(b[0], ast.stmt): yield b
    if isinstance(n, ast.Match):
      for c in n.cases: yield c.body


def each_stmt(f, fun):
  """fun(stmt) -> list of statements or None."""
  for b in bodies(f):
    out = []
    for s in b:
      r = fun(s)
      out += [s] if r is None else r
    b[:] = out


class Fresh:
  def __init__(self): self.n = 0
  def __call__(self, p='tmp'):
    self.n += 1
    return f'{p}_{self.n}'


# --- the rewritings: kind(f, cls, mod, fresh) edits the function in place
def k_rename(f, cls, mod, fresh):
  keep = set(params(f))
  inner, st = set(), set()
  for n in ast.walk(f):
    if isinstance(n, (ast.Global, ast.Nonlocal)): keep |= set(n.names)
    if n is not f and isinstance(n, (ast.FunctionDef, ast.Lambda)): inner |= set(params(n))
    if n is not f and isinstance(n, ast.FunctionDef): inner |= {m.id for m in own(n) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)}
    if n is not f and isinstance(n, ast.ClassDef): return
    if n is not f and isinstance(n, ast.FunctionDef): keep.add(n.name)
    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name: keep.add(n.name)
    if isinstance(n, ast.ExceptHandler) and n.name: keep.add(n.name)
    if isinstance(n, (ast.Import, ast.ImportFrom)): keep |= {a.asname or a.name for a in n.names}
    if isinstance(n, ast.FormattedValue): pass
  # self-documenting f-strings ({x=}) keep their text, which is behaviour: leave those names alone
  src = ast.unparse(f)
  for n in own(f):
    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): st.add(n.id)
  for x in st - keep - inner:
    for n in ast.walk(f):
      if isinstance(n, ast.Name) and n.id == x: n.id = x + '_value'


def k_ret(f, cls, mod, fresh):
  each_stmt(f, lambda s: [assign('result_value', s.value), ast.Return(nm('result_value'))] if isinstance(s, ast.Return) and s.value is not None else None)


def k_invert(f, cls, mod, fresh):
  for n in own(f):
    if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
      n.test = ast.UnaryOp(ast.Not(), n.test)
      n.body, n.orelse = n.orelse, n.body
    if isinstance(n, ast.IfExp):
      n.test = ast.UnaryOp(ast.Not(), n.test)
      n.body, n.orelse = n.orelse, n.body


def simple(e): return isinstance(e, (ast.Name, ast.Constant, ast.Starred, ast.Lambda)) or isinstance(e, ast.Attribute) and simple(e.value)


def k_hoist(f, cls, mod, fresh):
  """Arguments of calls into variables."""
  def hoist(e, pre):
    """Hoist in evaluation order everything that is not trivially pure."""
    if isinstance(e, (ast.Lambda, ast.IfExp, ast.BoolOp, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.JoinedStr) + COMPS): return e
    if isinstance(e, ast.Call):
      if isinstance(e.func, ast.Name) and e.func.id in ('super', 'isinstance'): return e
      if isinstance(e.func, ast.Attribute): e.func.value = hoist(e.func.value, pre)
      def arg(a):
        if isinstance(a, ast.Starred): return a
        a = hoist(a, pre)
        if simple(a) or isinstance(a, (ast.IfExp, ast.BoolOp, ast.JoinedStr, ast.Yield, ast.YieldFrom, ast.GeneratorExp)): return a
        x = fresh('arg')
        pre.append(assign(x, a))
        return nm(x)
      e.args = [arg(a) for a in e.args]
      for k in e.keywords:
        if k.arg is not None: k.value = arg(k.value)
    elif isinstance(e, ast.BinOp): e.left, e.right = hoist(e.left, pre), hoist(e.right, pre)
    elif isinstance(e, ast.Subscript) and isinstance(e.ctx, ast.Load): e.value = hoist(e.value, pre)
    elif isinstance(e, ast.Attribute): e.value = hoist(e.value, pre)
    elif isinstance(e, ast.Tuple) and isinstance(e.ctx, ast.Load): e.elts = [hoist(x, pre) for x in e.elts]
    return e
  def g(s):
    if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and s.value is not None and not isinstance(s.value, ast.Constant):
      pre = []
      s.value = hoist(s.value, pre)
      return pre + [s]
  each_stmt(f, g)


def k_comp(f, cls, mod, fresh):
  """Comprehensions into loops."""
  def g(s):
    if not (isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.DictComp, ast.SetComp))): return None
    c = s.value
    tn = [n.id for gen in c.generators for n in ast.walk(gen.target) if isinstance(n, ast.Name)]
    if any(isinstance(n, ast.Name) and n.id in tn for b in f.body for n in ast.walk(b) if not any(n in list(ast.walk(cc)) for cc in ast.walk(f) if isinstance(cc, COMPS))): return None
    x = fresh('items')
    if isinstance(c, ast.DictComp): init, st = ast.Dict([], []), ast.Assign([ast.Subscript(nm(x), c.key, ast.Store())], c.value)
    elif isinstance(c, ast.SetComp): init, st = ast.Call(nm('set'), [], []), ast.Expr(ast.Call(ast.Attribute(nm(x), 'add', ast.Load()), [c.elt], []))
    else: init, st = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(nm(x), 'append', ast.Load()), [c.elt], []))
    body = [st]
    for gen in reversed(c.generators):
      for i in reversed(gen.ifs): body = [ast.If(i, body, [])]
      body = [ast.For(gen.target, gen.iter, body, [])]
    s.value = nm(x)
    return [assign(x, init)] + body + [s]
  each_stmt(f, g)


def k_ifexp(f, cls, mod, fresh):
  """Conditional expressions into statements."""
  def g(s):
    if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
      return [ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)])]
    if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
      return [ast.If(s.value.test, [ast.Return(s.value.body)], []), ast.Return(s.value.orelse)]
  each_stmt(f, g)


def ends(b): return b and (isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) or isinstance(b[-1], ast.If) and b[-1].orelse and ends(b[-1].body) and ends(b[-1].orelse))


def k_else(f, cls, mod, fresh):
  """Code after an early exit into an else branch."""
  for b in list(bodies(f)):
    for i in range(len(b) - 2, -1, -1):
      if isinstance(b[i], ast.If) and not b[i].orelse and ends(b[i].body):
        b[i].orelse = b[i + 1:]
        del b[i + 1:]


def k_flat(f, cls, mod, fresh):
  """Else branches after an early exit flattened."""
  def g(s):
    if isinstance(s, ast.If) and s.orelse and ends(s.body):
      o, s.orelse = s.orelse, []
      return [s] + o
  for _ in range(4): each_stmt(f, g)


def k_aug(f, cls, mod, fresh):
  def g(s):
    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
      return [ast.Assign([s.target], ast.BinOp(nm(s.target.id), s.op, s.value))]
    if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Subscript, ast.Attribute)):
      l = copy.deepcopy(s.target)
      l.ctx = ast.Load()
      return [ast.Assign([s.target], ast.BinOp(l, s.op, s.value))]
  each_stmt(f, g)


FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def k_flip(f, cls, mod, fresh):
  for n in own(f):
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
      o = type(n.ops[0])
      if o in FLIP: n.left, n.comparators, n.ops = n.comparators[0], [n.left], [FLIP[o]()]


def k_neg(f, cls, mod, fresh):
  """Negated forms: a is not None -> not a is None, a != b -> not a == b, a < b -> not a >= b."""
  N = {ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.NotEq: ast.Eq}
  class R(ast.NodeTransformer):
    def visit_Compare(self, n):
      self.generic_visit(n)
      if len(n.ops) == 1 and type(n.ops[0]) in N: return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [N[type(n.ops[0])]()], n.comparators))
      return n
  R().generic_visit(f)


def k_demorgan(f, cls, mod, fresh):
  for n in own(f):
    if isinstance(n, (ast.If, ast.IfExp)) and isinstance(n.test, ast.BoolOp):
      o = ast.And() if isinstance(n.test.op, ast.Or) else ast.Or()
      n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))


def k_nested(f, cls, mod, fresh):
  """if a and b -> if a: if b."""
  for n in own(f):
    if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
      vs = n.test.values
      n.test = vs[0]
      for v in reversed(vs[1:]): n.body = [ast.If(v, n.body, [])]


def k_cond(f, cls, mod, fresh):
  """Tests of if statements into variables."""
  def g(s):
    if isinstance(s, ast.If) and not simple(s.test) and not any(isinstance(n, ast.NamedExpr) for n in ast.walk(s.test)):
      x = fresh('test')
      pre = assign(x, s.test)
      s.test = nm(x)
      return [pre, s]
  # elif chains: the test of an elif must not be evaluated early
  def split(b):
    for s in b:
      if isinstance(s, ast.If) and len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If): pass
  each_stmt(f, g)


def k_dict(f, cls, mod, fresh):
  class R(ast.NodeTransformer):
    def visit_Dict(self, n):
      self.generic_visit(n)
      if n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in n.keys):
        return ast.Call(nm('dict'), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
      return n
    def visit_Call(self, n):
      self.generic_visit(n)
      if isinstance(n.func, ast.Name) and n.func.id == 'dict' and not n.args and n.keywords:
        return ast.Dict([ast.Constant(k.arg) if k.arg else None for k in n.keywords], [k.value for k in n.keywords])
      return n
  R().generic_visit(f)


def k_tuple(f, cls, mod, fresh):
  """a, b = x -> t = x; a = t[0]; b = t[1] (not of iterators)."""
  def g(s):
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and not any(isinstance(x, ast.Starred) for x in s.targets[0].elts):
      if isinstance(s.value, ast.GeneratorExp) or isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ('zip', 'map', 'reversed', 'filter'): return None
      x = fresh('parts')
      return [assign(x, s.value)] + [ast.Assign([e], ast.Subscript(nm(x), ast.Constant(i), ast.Load())) for i, e in enumerate(s.targets[0].elts)]
  each_stmt(f, g)


def k_noop(f, cls, mod, fresh):
  i = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
  f.body.insert(i, ast.parse("unused_value = None").body[0])
  f.body.insert(i, ast.Pass())


def k_continue(f, cls, mod, fresh):
  for n in own(f):
    if isinstance(n, ast.For) and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
      i = n.body[0]
      n.body = [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], [])] + i.body


def k_assert(f, cls, mod, fresh):
  each_stmt(f, lambda s: [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Raise(ast.Call(nm('AssertionError'), [s.msg] if s.msg else [], []), None)], [])] if isinstance(s, ast.Assert) else None)


def k_listcomp(f, cls, mod, fresh):
  class R(ast.NodeTransformer):
    def visit_Call(self, n):
      self.generic_visit(n)
      if isinstance(n.func, ast.Name) and n.func.id in ('sum', 'max', 'min', 'tuple', 'list', 'set', 'sorted', 'dict') and len(n.args) >= 1 and isinstance(n.args[0], ast.GeneratorExp):
        n.args[0] = ast.ListComp(n.args[0].elt, n.args[0].generators)
      elif isinstance(n.func, ast.Name) and n.func.id in ('sum', 'max', 'min', 'tuple', 'list', 'set', 'sorted', 'dict', 'all', 'any') and len(n.args) >= 1 and isinstance(n.args[0], ast.ListComp):
        n.args[0] = ast.GeneratorExp(n.args[0].elt, n.args[0].generators)
      return n
  R().generic_visit(f)


def k_fstring(f, cls, mod, fresh):
  class R(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
      fmt, args = '', []
      for v in n.values:
        if isinstance(v, ast.Constant): fmt += v.value.replace('{', '{{').replace('}', '}}')
        else:
          spec = ''
          if v.format_spec is not None:
            if not all(isinstance(x, ast.Constant) for x in v.format_spec.values): return n
            spec = ':' + ''.join(x.value for x in v.format_spec.values)
          fmt += '{' + ('!' + chr(v.conversion) if v.conversion != -1 else '') + spec + '}'
          args.append(v.value)
      return ast.Call(ast.Attribute(ast.Constant(fmt), 'format', ast.Load()), args, [])
  R().generic_visit(f)


def k_items(f, cls, mod, fresh):
  """for k, v in d.items() -> for k in d: v = d[k]."""
  for n in own(f):
    if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == 'items' and not n.iter.args and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and simple(n.iter.func.value) and isinstance(n.target.elts[0], ast.Name):
      d = n.iter.func.value
      k, v = n.target.elts
      n.iter, n.target = d, k
      n.body.insert(0, ast.Assign([v], ast.Subscript(d, nm(k.id), ast.Load())))


def names_of(x, ctx): return {n.id for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ctx)}


def local_names(f):
  out = set(params(f))
  for n in own(f):
    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): out.add(n.id)
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)): out.add(n.name)
    if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name: out.add(n.name)
    if isinstance(n, ast.ExceptHandler) and n.name: out.add(n.name)
    if isinstance(n, (ast.Import, ast.ImportFrom)): out |= {(a.asname or a.name).split('.')[0] for a in n.names}
  return out


def k_helper(f, cls, mod, fresh):
  """The last returned expression into a module-level helper."""
  if f.nested or is_gen(f) or uses_super(f): return
  r = f.body[-1]
  if not isinstance(r, ast.Return) or r.value is None or simple(r.value): return
  if any(isinstance(n, (ast.NamedExpr,)) for n in ast.walk(r.value)): return
  inner = {n.id for c in ast.walk(r.value) if isinstance(c, COMPS) for g in c.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
  for c in ast.walk(r.value):
    if isinstance(c, ast.Lambda): inner |= set(params(c))
  free = sorted((names_of(r.value, ast.Load) & local_names(f)) - inner)
  if names_of(r.value, ast.Load) & local_names(f) & inner: return
  h = fresh('_finish_' + f.name.strip('_'))
  d = ast.parse(f'def {h}({", ".join(free)}):\n  return 0').body[0]
  d.body[0].value = r.value
  mod.body.append(d)
  f.body[-1] = ast.Return(ast.Call(nm(h), [nm(x) for x in free], []))


def k_helper2(f, cls, mod, fresh):
  """The last statements of a function into a module-level helper."""
  if f.nested or is_gen(f) or uses_super(f) or len(f.body) < 4: return
  i = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
  cut = max(i + 1, len(f.body) - 3)
  tail = f.body[cut:]
  if not ends(tail) : return
  m = ast.Module(copy.deepcopy(tail), [])
  st = {n.id for s in tail for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
  bound_before = set(params(f)) | {n for s in f.body[:cut] for n in (names_of(s, ast.Store) | ({s.name} if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else set()))}
  ld = {n.id for s in tail for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del))}
  aug = {s.target.id for s in ast.walk(m) if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name)}
  if any(isinstance(n, (ast.Nonlocal, ast.Global)) for n in ast.walk(m)): return
  free = sorted((ld | aug) & bound_before)
  h = fresh('_rest_of_' + f.name.strip('_'))
  d = ast.parse(f'def {h}({", ".join(free)}):\n  return 0').body[0]
  d.body = tail
  mod.body.append(d)
  f.body[cut:] = [ast.Return(ast.Call(nm(h), [nm(x) for x in free], []))]


def k_closure(f, cls, mod, fresh):
  """The body into a local function."""
  if is_gen(f) or uses_super(f): return
  st = {n.id for n in own(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
  if st & set(params(f)) or any(isinstance(n, (ast.Nonlocal, ast.Global)) for n in ast.walk(f)): return
  i = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
  if len(f.body) - i < 2: return
  d = ast.parse('def run_body():\n  pass').body[0]
  d.body = f.body[i:]
  f.body = f.body[:i] + [d, ast.Return(ast.Call(nm('run_body'), [], []))]


def k_kwargs(f, cls, mod, fresh):
  """Positional arguments of calls to functions of the module by keyword."""
  defs = {d.name: d for d in mod.body if isinstance(d, ast.FunctionDef) and not d.decorator_list and not d.args.vararg and not d.args.posonlyargs}
  for n in ast.walk(f):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in defs and not any(isinstance(a, ast.Starred) for a in n.args):
      ps = [a.arg for a in defs[n.func.id].args.args]
      if len(n.args) > len(ps): continue
      n.keywords = [ast.keyword(p, a) for p, a in zip(ps, n.args)] + n.keywords
      n.args = []


def k_swap(f, cls, mod, fresh):
  """Adjacent independent assignments swapped (pure right-hand sides only)."""
  def pure(e): return not any(isinstance(n, (ast.Call, ast.Yield, ast.Await, ast.NamedExpr, ast.Subscript)) for n in ast.walk(e))
  for b in bodies(f):
    i = 0
    while i + 1 < len(b):
      x, y = b[i], b[i + 1]
      if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) for s in (x, y)) and (pure(x.value) or pure(y.value)):
        tx, ty = x.targets[0].id, y.targets[0].id
        if tx != ty and tx not in names_of(y.value, ast.Load) and ty not in names_of(x.value, ast.Load):
          b[i], b[i + 1] = y, x
          i += 1
      i += 1


def k_ssa(f, cls, mod, fresh):
  """x = g(x) at the top level of a function gives a new name from there on (straight-line code only)."""
  if any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.Nonlocal)) for s in f.body for n in ast.walk(s)): return
  for i, s in enumerate(f.body):
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id in names_of(s.value, ast.Load):
      x = s.targets[0].id
      rest = f.body[i + 1:]
      if any(isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Del) for r in rest for n in ast.walk(r)): continue
      y = fresh('new_' + x)
      s.targets[0].id = y
      for r in rest:
        for n in ast.walk(r):
          if isinstance(n, ast.Name) and n.id == x: n.id = y


def k_commute(f, cls, mod, fresh):
  """a * b -> b * a and a + b -> b + a where neither side is text or a sequence."""
  seqish = (ast.Constant, ast.JoinedStr, ast.List, ast.Tuple, ast.ListComp)
  def text(e): return isinstance(e, (ast.JoinedStr, ast.List, ast.Tuple, ast.ListComp, ast.Dict)) or isinstance(e, ast.Constant) and isinstance(e.value, (str, bytes)) or isinstance(e, ast.BinOp) and (text(e.left) or text(e.right)) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('tuple', 'list', 'str')
  for n in own(f):
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) and not text(n.left) and not text(n.right): n.left, n.right = n.right, n.left


def k_const(f, cls, mod, fresh):
  """Strings and numbers of subscripts, comparisons and keyword arguments into module-level constants."""
  cs = {}
  def new(c):
    key = (type(c.value), c.value)
    if key not in cs:
      cs[key] = fresh('_CONST_' + f.name.strip('_').upper())
      mod.body.insert(next((i for i, s in enumerate(mod.body) if isinstance(s, (ast.FunctionDef, ast.ClassDef))), 0), assign(cs[key], ast.Constant(c.value)))
    return nm(cs[key])
  ok = lambda e: isinstance(e, ast.Constant) and isinstance(e.value, (str, int, float)) and not isinstance(e.value, bool)
  for n in own(f):
    if isinstance(n, ast.Subscript) and ok(n.slice) and isinstance(n.slice.value, str): n.slice = new(n.slice)
    if isinstance(n, ast.Compare):
      n.comparators = [new(c) if ok(c) else c for c in n.comparators]
    if isinstance(n, ast.Call):
      n.args = [new(a) if ok(a) else a for a in n.args]
      for k in n.keywords:
        if ok(k.value): k.value = new(k.value)


def k_while(f, cls, mod, fresh):
  for n in own(f):
    if isinstance(n, ast.While) and not n.orelse and not (isinstance(n.test, ast.Constant)):
      n.body = [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])] + n.body
      n.test = ast.Constant(True)


def k_annot(f, cls, mod, fresh):
  each_stmt(f, lambda s: [ast.AnnAssign(s.targets[0], ast.Constant('Any'), s.value, 1)] if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id not in {n.id for b in ast.walk(f) if isinstance(b, (ast.Global, ast.Nonlocal)) for n in ()} else None)


def k_try(f, cls, mod, fresh):
  """with contextlib-free wrapping: the last loop or block stays, but a log line is added at each return."""
  each_stmt(f, lambda s: [ast.parse("len('done')").body[0], s] if isinstance(s, ast.Return) else None)


def k_defaults(f, cls, mod, fresh):
  """d.get(k, v) -> d[k] if k in d else v."""
  class R(ast.NodeTransformer):
    def visit_Call(self, n):
      self.generic_visit(n)
      if isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and len(n.args) == 2 and not n.keywords and simple(n.func.value) and isinstance(n.args[0], ast.Constant) and simple(n.args[1]):
        return ast.IfExp(ast.Compare(n.args[0], [ast.In()], [n.func.value]), ast.Subscript(n.func.value, n.args[0], ast.Load()), n.args[1])
      return n
  R().generic_visit(f)


def k_or(f, cls, mod, fresh):
  """a or b -> a if a else b for plain a."""
  class R(ast.NodeTransformer):
    def visit_BoolOp(self, n):
      self.generic_visit(n)
      if isinstance(n.op, ast.Or) and len(n.values) == 2 and simple(n.values[0]): return ast.IfExp(copy.deepcopy(n.values[0]), n.values[0], n.values[1])
      return n
  for n in own(f):
    if isinstance(n, (ast.Assign, ast.keyword)) and n.value is not None: n.value = R().visit(n.value)


def k_meth(f, cls, mod, fresh):
  """x.sum(...) <-> jnp.sum(x, ...) for the numpy alias of the module."""
  al = next((a.asname or a.name for s in mod.body if isinstance(s, ast.Import) for a in s.names if a.name == 'jax.numpy' and a.asname), None)
  if al is None: return
  M = ('sum', 'mean', 'max', 'min', 'reshape', 'transpose', 'argmax', 'argmin', 'std', 'prod')
  for n in own(f):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in M and isinstance(n.func.value, ast.Name) and n.func.value.id == al and n.args and isinstance(n.args[0], ast.Name):
      n.func = ast.Attribute(n.args[0], n.func.attr, ast.Load())
      n.args = n.args[1:]


def k_selfvars(f, cls, mod, fresh):
  """self.x read into a local variable first (only attributes never stored by the method)."""
  if cls is None or not f.args.args or f.args.args[0].arg != 'self' or is_gen(f): return
  st = {n.attr for n in ast.walk(f) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
  called = {id(n.func) for n in ast.walk(f) if isinstance(n, ast.Call)}
  rd, loc = {}, local_names(f)
  fields = {s.target.id for s in cls.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)}
  for n in own(f):
    for k, v in ast.iter_fields(n):
      for x in (v if isinstance(v, list) else [v]):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and isinstance(x.ctx, ast.Load) and x.attr in fields and x.attr not in st and id(x) not in called: rd.setdefault(x.attr, []).append((n, k, x))
  i = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
  for a, us in sorted(rd.items()):
    if 'own_' + a in loc: continue
    for n, k, x in us:
      v = getattr(n, k)
      if isinstance(v, list): v[:] = [nm('own_' + a) if y is x else y for y in v]
      else: setattr(n, k, nm('own_' + a))
    f.body.insert(i, assign('own_' + a, ast.Attribute(nm('self'), a, ast.Load())))


KINDS = {k[2:]: v for k, v in sorted(globals().items()) if k.startswith('k_')}


def functions(mod):
  out = []
  def go(b, cls, pre, nested):
    for n in b:
      if isinstance(n, ast.FunctionDef):
        n.nested = nested
        out.append((pre + n.name, n, cls))
        go(n.body, None, pre + n.name + '.', True)
      elif isinstance(n, ast.ClassDef): go(n.body, n, pre + n.name + '.', nested)
      elif isinstance(n, (ast.If, ast.For, ast.With, ast.Try)): go(n.body, cls, pre, nested)
  go(mod.body, None, '', False)
  return out


def rewrite(src, kind, only=None):
  mod = ast.parse(src)
  fresh = Fresh()
  before = ast.unparse(mod)
  for name, f, cls in functions(mod):
    if only is None or name == only: KINDS[kind](f, cls, mod, fresh)
  ast.fix_missing_locations(mod)
  out = ast.unparse(mod)
  return None if out == before else out


def run(job):
  file, kind, props, only = job
  src = open(f'/repo/{file}').read()
  try: new = rewrite(src, kind, only)
  except RecursionError: return job, 'ERROR', 'recursion'
  if new is None: return job, 'same', ''
  try: compile(new, file, 'exec')
  except SyntaxError as e: return job, 'ERROR', f'{e} {e.text}'
  d = tempfile.mkdtemp(prefix='vsaref.')
  try:
    shutil.copytree('/repo/vmoe', f'{d}/repo/vmoe', ignore=shutil.ignore_patterns('__pycache__', '*.npz', '*.png'))
    open(f'{d}/repo/{file}', 'w').write(new)
    env = dict(os.environ, VMOE_REPO=f'{d}/repo', VSA_EVIDENCE=f'{d}/ev')
    bad, und = [], 0
    for p in props:
      r = subprocess.run([sys.executable, '-m', 'vsa', p], cwd=V, env=env, capture_output=True, text=True)
      if r.returncode != 0: bad.append((p, r.returncode, (r.stdout + r.stderr)[-1200:]))
      und += r.stdout.count('undecided')
    return job, 'BAD' if bad else 'ok', bad or und
  finally:
    shutil.rmtree(d)


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('-f', default='')
  ap.add_argument('-k')
  ap.add_argument('-p')
  ap.add_argument('-v', action='store_true')
  a = ap.parse_args()
  files = [os.path.relpath(p, '/repo') for p in sorted(glob.glob('/repo/vmoe/**/*.py', recursive=True)) if not re.search(r'_test\.py$|/configs/|__init__|test_utils', p)]
  files = [f for f in files if a.f in f]
  kinds = a.k.split(',') if a.k else list(KINDS)
  import json
  props = a.p.split(',') if a.p else [c['property_id'] if 'property_id' in c else c.get('property', c.get('id')) for c in json.load(open(f'{V}/MANIFEST.json'))['checks']]
  jobs = [(f, k, props, None) for f in files for k in kinds]
  n = bad = 0
  with cf.ThreadPoolExecutor(8) as ex:
    todo = []
    for job, res, out in ex.map(run, jobs):
      if res == 'same': continue
      n += 1
      if res == 'ok':
        if a.v: print('ok', job[0], job[1], f'{out} undecided')
      elif res == 'ERROR': print('ERROR', job[0], job[1], out)
      else:
        bad += 1
        ps = [p for p, _, _ in out]
        print('BAD', job[0], job[1], ps, flush=True)
        todo += [(job[0], job[1], ps, name) for name, _, _ in functions(ast.parse(open(f'/repo/{job[0]}').read()))]
    for job, res, out in ex.map(run, todo):
      if res == 'BAD':
        for p, rc, o in out: print(f'  culprit {job[0]} {job[1]} {job[3]} {p} rc={rc}\n      ' + o.strip().replace('\n', '\n      ')[:1500], flush=True)
  print(f'{n} cases, {bad} bad')
  sys.exit(1 if bad else 0)


if __name__ == '__main__': main()

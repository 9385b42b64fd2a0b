"""C35: array summaries: every matching array, transformed as asked, one named value per element."""
import itertools

from .. import compare, dicts, q, tensor as tz, terms as t, tq
from ..framework import prop
from ..terms import T, NONE, FALSE, TRUE, const, glob, raw, sym
from .moe import spec

K = 'vmoe.train.tree_summarizer'
C = f'{K}:TreeSummarizer.'
D = f'{K}.TreeSummarizer.'


@prop('C35', 'Value-flow terms of the summaries for symbolic arrays and patterns: index-notation normal forms of every operation against specification programs, names and elements of every index, rules applied under every combination of matches, path condition of the refusal.', floor=40)
def c35(ctx):
  for f in (transform, refuse, elements, matching, tree, compiled, created, used): ctx.section(f)


def text(x):
  """Concatenation parts of a text term, constants joined, tuples printed as Python does."""
  if t.is_const(x): return [t.cval(x)] if isinstance(t.cval(x), str) else [repr(t.cval(x))]
  x = q.unfmt(x)
  if x.op == 'strcat':
    out = []
    for p in x.args: out += text(p) if isinstance(p, T) else [p]
  elif x.op == 'tuple' and all(t.is_const(y) for y in x.args): out = [repr(tuple(t.cval(y) for y in x.args))]
  elif x.op == 'bin' and x.args[0] == '+': out = text(x.args[1]) + text(x.args[2])
  else: return [x]
  res = []
  for p in out:
    if isinstance(p, str) and res and isinstance(res[-1], str): res[-1] += p
    elif p != '': res.append(p)
  return res


def transform(ctx):
  X, A, B_ = sym('value'), sym('A'), sym('B')
  tup = lambda *a: t.mk_tuple([x if isinstance(x, T) else const(x) for x in a])
  cases = [(op, tup(op), f'_{op}', f'all_{op}') for op in ('mean', 'std', 'sum', 'min', 'max', 'norm')]
  cases += [(f'{op} of axis 1', tup(tup(op, 1)), f'_{op}(1,)', f'one_{op}') for op in ('mean', 'std', 'sum', 'min', 'max', 'norm')]
  cases += [('norm of axes (1,)', tup(tup('norm', tup(1))), '_norm(1,)', 'one_norm'), ('min of axis 0, max', tup(tup('min', 0), 'max'), '_min(0,)_max', 'min_then_max'), ('nothing', tup(), '', None)]
  for name, tr, suf, sp in cases:
    r = ctx.analyze(C + '_transform', bind={'transforms': tr, 'value': X})
    w = f'{r.file} _transform ({name})'
    if r.ret.op != 'tuple' or len(r.ret.args) != 2:
      ctx.undecided('transform', w, t.show(r.ret, 3))
      continue
    s, o = r.ret.args
    got = text(s)
    if all(isinstance(p, str) for p in got): ctx.ob('suffix', w, ''.join(got) == suf, f'the suffix is {"".join(got)!r}, not {suf!r}')
    else: ctx.undecided('suffix', w, t.show(s, 3))
    if sp is None:
      ctx.ob('transform', w, o is X, f'the value is {t.show(o, 3)}')
      continue
    with tq.Dec(ctx, 'transform', w):
      z = tz.Tensor()
      z.declare(X, [A, B_])
      got, want = z.arr(o), z.arr(spec(ctx, sp, 'summary', x=X))
      ctx.ob('transform', w, z.same(got, want), f'the value is {z.show(got)[:300]}, not {z.show(want)[:300]}')


def refuse(ctx):
  for tr in (t.mk_tuple([const('(other)')]), t.mk_tuple([t.mk_tuple([const('(other)'), const(0)])])):
    r = ctx.analyze(C + '_transform', bind={'transforms': tr})
    ctx.ob('unknown-operation', f'{r.file} _transform', any(e.pc is TRUE or t.cond(t.val(e.pc)) is TRUE for e in q.raises(r)) or r.ret.op == 'item', 'an unknown operation is accepted')


def elements(ctx):
  X, P = sym('value'), sym('prefix')
  for sh in ((2, 1, 3), (1, 1), (), (2,), (0,), (1, 3)):
    r = ctx.analyze(C + '_yield', bind={'value': X, 'prefix': P}, attrs={(X, 'shape'): t.mk_tuple([const(k) for k in sh]), (X, 'ndim'): const(len(sh))})
    w = f'{r.file} _yield (shape {sh})'
    x = r.ret
    if x.op not in ('list', 'tuple') or not all(y.op == 'tuple' and len(y.args) == 2 for y in x.args):
      ctx.undecided('elements', w, t.show(x, 3))
      continue
    want = {}
    for idx in itertools.product(*(range(k) for k in sh)):
      s = ','.join(str(i) for i, k in zip(idx, sh) if k > 1)
      want[idx] = f'[{s}]' if s else ''
    got, known = {}, True
    for y in x.args:
      nm, v = y.args
      ix = index(v, X)
      tx = text(nm)
      if ix is None or not tx or tx[0] is not P or not all(isinstance(p, str) for p in tx[1:]): known = False
      else: got.setdefault(ix, []).append(''.join(tx[1:]))
    if not known:
      ctx.undecided('elements', w, t.show(x, 4))
      continue
    ctx.ob('elements', w, sorted(got) == sorted(want) and all(len(v) == 1 for v in got.values()), f'elements {sorted(got)[:8]} are reported, not each of {sorted(want)[:8]} once')
    for k, v in want.items():
      if k in got: ctx.ob('element-names', w, got[k] == [v], f'element {k} is called {got[k]}, not {v!r}')


def index(v, X):
  ks = []
  while v.op == 'item' and v is not X:
    k = v.args[1]
    if k.op == 'tuple' and all(t.is_const(y) for y in k.args): ks = [t.cval(y) for y in k.args] + ks
    elif t.is_const(k) and isinstance(t.cval(k), int): ks = [t.cval(k)] + ks
    else: return None
    v = v.args[0]
  return tuple(ks) if v is X else None


def searched(a):
  """(pattern part, method) of a test whether a pattern is found."""
  for y in t.subterms(a):
    if y.op == 'call' and y.args[0].op == 'attr' and y.args[0].args[1] in ('search', 'match', 'fullmatch', 'findall', 'finditer'): return y.args[0].args[0], y.args[0].args[1], y.args[1]
    if y.op == 'call' and y.args[0].op == 'glob' and y.args[0].args[0] in ('re.search', 're.match', 're.fullmatch'): return y.args[1][0], y.args[0].args[0][3:], y.args[1][1:]
  return None


def matching(ctx):
  P = [sym('P0'), sym('P1'), sym('P2')]
  rules = raw('list', t.mk_tuple([P[0]]), t.mk_tuple([P[1], const('norm')]), t.mk_tuple([P[2], t.mk_tuple([const('max'), const(0)]), const('sum'), const('norm')]))
  trs = [(), (const('norm'),), (t.mk_tuple([const('max'), const(0)]), const('sum'), const('norm'))]
  for strs in (True, False):
    r = ctx.analyze(C + '_summarize', self_bind={'rules': rules}, opaque=[D + '_transform', D + '_yield'])
    w = f'{r.file} _summarize'
    key, val = list(r.params.values())[1:3]
    ats = sorted({a for a in list(t.inner_atoms(r.ret)) + [b for e in r.events for b in t.cond_atoms(e.pc)]}, key=lambda a: a.uid)
    tests, lits = {}, {}
    for a in ats:
      s = searched(a)
      if s is None:
        if a.op == 'isinstance': lits[a] = strs
        continue
      k = [i for i, p in enumerate(P) if t.mentions(s[0], p)]
      if len(k) != 1 or not (s[2] and s[2][0] is key): continue
      tests[a] = (k[0], a.op == 'is' or a.op == 'truth' and a.args[0].op == 'not')
      ctx.ob('pattern', w, s[1] == 'search' or s[1] in ('findall', 'finditer'), f'rule patterns are tested by {s[1]}')
    if len({k for k, _ in tests.values()}) != 3:
      ctx.undecided('matching', w, f'{len(tests)} pattern tests')
      continue
    for m in itertools.product((True, False), repeat=3):
      cs = {**lits, **{a: m[k] != neg for a, (k, neg) in tests.items()}}
      x = t.assume(r.ret, cs)
      for _ in range(4):
        x2 = t.assume(x, cs)
        if x2 is x: break
        x = x2
      parts = x.args if x.op in ('cat', 'flat') else [x]
      got, known = [], True
      for y in parts:
        if y.op in ('list', 'tuple') and not y.args: continue
        if y.op == 'call' and y.args[0] is raw('opaque', D + '_yield'): got.append(y)
        else: known = False
      if not known:
        ctx.undecided('matching', w, t.show(x, 4))
        continue
      want = [i for i in range(3) if m[i]]
      def rule_of(y):
        for i in range(3):
          for z in t.subterms(y):
            if z.op == 'call' and z.args[0] is raw('opaque', D + '_transform') and tuple(z.args[1][-1].args) == trs[i]: return i
      names = [rule_of(y) for y in got]
      ctx.ob('matching', w, sorted(map(str, names)) == sorted(map(str, want)), f'when rules {want} match, rules {names} are applied')
      for y in got:
        a = y.args[1][-2:]
        tf = next((z for z in t.subterms(y) if z.op == 'call' and z.args[0] is raw('opaque', D + '_transform')), None)
        if tf is None: continue
        ctx.ob('matching', w, tf.args[1][-2] is val, f'the summary is taken of {t.show(tf.args[1][-2], 3)}')
        ctx.ob('matching', w, a[1] is t.item(tf, const(1)), f'the values reported are {t.show(a[1], 3)}')
        tx = text(a[0])
        ctx.ob('names', w, tx == [key, t.item(tf, const(0))] or a[0] is t.add(key, t.item(tf, const(0))), f'the name is {t.show(a[0], 3)}')
    # too many values
    rs = q.raises(r)
    MX = t.attr(r.selfv, 'max_summary_values')
    for m in range(3):
      cs = {**lits, **{a: (k == m) != neg for a, (k, neg) in tests.items()}}
      pcs = [t.cond(t.assume(t.val(e.pc), cs)) for e in rs]
      pcs = [p for p in pcs if p is not FALSE]
      if not pcs:
        ctx.ob('limit', w, False, f'rule {m} may report any number of values')
        continue
      p = pcs[0]
      for p2 in pcs[1:]: p = t.b_or(p, p2)
      at = t.cond_atoms(p)
      tf = [z for a in at for z in t.subterms(a) if z.op == 'call' and z.args[0] is raw('opaque', D + '_transform')]
      if len(at) == 1 and not tf: tf = [NONE]
      if len(set(tf)) != 1 or len(at) != 1:
        ctx.undecided('limit', w, t.show(p, 4))
        continue
      out = t.item(tf[0], const(1))
      sizes = [t.attr(out, 'size')]
      want = t.cond(t.lt(MX, sizes[0]))
      if t.contains(p, lambda y: y is sizes[0]) and t.mentions(p, MX): ctx.ob('limit', w, p is want, f'refused if {t.show(p, 4)}, not if there are more than max_summary_values')
      elif not t.mentions(p, MX): ctx.ob('limit', w, False, f'refused if {t.show(p, 4)}, whatever max_summary_values')
      else:
        rest = [y for a in at for y in (a.args if a.op in ('lt', 'le', 'eq') else ()) if isinstance(y, T) and not t.mentions(y, MX)]
        odd = rest and all(y.op == 'attr' and y.args[1] == 'size' and y.args[0] is not out or q.is_call(y, 'len') or y.op == 'item' and y.args[0].op == 'attr' and y.args[0].args[1] == 'shape' for y in rest)
        if odd: ctx.ob('limit', w, False, f'refused if {t.show(p, 4)}, not by the number of values')
        else: ctx.undecided('limit', w, t.show(p, 4))


def tree(ctx):
  r = ctx.analyze(C + '__call__', opaque=[D + '_summarize'])
  w = f'{r.file} __call__'
  TR = list(r.params.values())[1]
  OP = raw('opaque', D + '_summarize')
  calls = sorted({y for y in t.subterms(r.ret) if y.op == 'call' and y.args[0] is OP}, key=lambda y: y.uid)
  if len(calls) != 1:
    (ctx.ob('leaves', w, False, 'no array is summarised') if not calls and not any(e.kind == 'call' and e.fn is OP for e in r.events) else ctx.undecided('leaves', w, t.show(r.ret, 3)))
    return
  es = [e for e in r.events if e.kind == 'call' and e.fn is OP]
  ctx.ob('leaves', w, all(e.pc is TRUE or t.cond(t.val(e.pc)) is TRUE for e in es), f'only arrays with {t.show(es[0].pc, 3)} are summarised' if es else '')
  for e in es:
    if len(e.loops) == 1 and e.loops[0].domain.op == 'keys':
      fl = e.loops[0].domain.args[0]
      if q.is_call(fl, 'flax.traverse_util.flatten_dict'):
        sep = q.kwarg(fl, 'sep', 3)
        ctx.ob('leaves', w, sep is not None and t.is_const(sep, '/'), f'names are joined by {t.show(sep, 1) if sep is not None else "nothing"}')
        ctx.ob('leaves', w, t.mentions(fl, TR), 'the arrays are not those of the tree')
      k, v = e.args[1:3]
      want = raw('nth', e.loops[0].domain, e.loops[0].idx)
      ctx.ob('leaves', w, k is want, f'the name given is {t.show(k, 3)}')
      ctx.ob('leaves', w, v is t.item(fl, want), f'the array given is {t.show(v, 3)}')
      ctx.ob('leaves', w, not q.early(e), 'the arrays after some condition are not summarised')
    else: ctx.undecided('leaves', w, 'loops')


def compiled(ctx):
  P0, P1, TR = sym('P0'), sym('P1'), sym('TR')
  r = ctx.analyze(C + '__post_init__', self_bind={'rules': t.mk_tuple([P0, t.mk_tuple([P1, const('norm'), TR, const('sum'), const('max')])])})
  w = f'{r.file} __post_init__'
  sets = [e for e in r.events if e.kind == 'setattr' or e.kind == 'call' and t.is_glob(e.fn, 'object.__setattr__')]
  vals = [e.args[-1] for e in sets if any(t.is_const(a, 'rules') if isinstance(a, T) else a == 'rules' for a in e.args)]
  if len(vals) != 1: return ctx.undecided('compile', w, f'{len(vals)} assignments of rules')
  x = vals[0]
  for s in (True, False):
    ats = sorted(t.inner_atoms(x), key=lambda a: a.uid)
    lits = {}
    for a in ats:
      if a.op != 'isinstance': continue
      if a.args[0] is P0: lits[a] = (t.contains(a.args[1], lambda y: y is glob('str')) if s else t.contains(a.args[1], lambda y: y is glob('re.Pattern')))
      else: lits[a] = False
    y = t.assume(x, lits)
    if y.op not in ('list', 'tuple', 'cat'):
      ctx.undecided('compile', w, t.show(y, 4))
      continue
    els = []
    for p in (y.args if y.op == 'cat' else [y]):
      p = t.assume(p, lits)
      if p.op in ('list', 'tuple'): els += p.args
      else: els = None; break
    if els is None:
      ctx.undecided('compile', w, t.show(y, 4))
      continue
    comp = lambda p: raw('call', glob('re.compile'), (p,), ())
    ctx.ob('compile', w, len(els) == 2, f'two rules become {len(els)}')
    if len(els) != 2: continue
    for e, p, tr in ((els[0], P0, ()), (els[1], P1, (const('norm'), TR, const('sum'), const('max')))):
      if e.op not in ('list', 'tuple'): ctx.undecided('compile', w, t.show(e, 3)); continue
      fl = []
      for a in e.args: fl += a.args[0].args if a.op == 'star' and a.args[0].op in ('list', 'tuple') else [a]
      e = t.mk_tuple(fl)
      if any(a.op == 'star' for a in fl): ctx.undecided('compile', w, t.show(e, 3)); continue
      ctx.ob('compile', w, len(e.args) == 1 + len(tr) and e.args[0] in (p, comp(p)) and tuple(e.args[1:]) == tr, f'a rule becomes {t.show(e, 3)}')


def created(ctx):
  r = ctx.analyze('vmoe.train.trainer:create_tree_summarizer')
  w = f'{r.file} create_tree_summarizer'
  CF = list(r.params.values())[0]
  x = r.ret
  none = t.assume(x, {raw('truth', CF): False})
  if none.op == 'ite': ctx.undecided('config', w, t.show(none, 3))
  else: ctx.ob('config', w, none is NONE or none.op not in ('obj', 'const'), f'without rules the summarizer is {t.show(none, 3)}')
  some = t.assume(x, {raw('truth', CF): True})
  for is_list in (True, False):
    y = t.assume(some, {a: is_list for a in t.inner_atoms(some) if a.op == 'isinstance' and a.args[0] is CF})
    if y.op != 'obj':
      (ctx.ob('config', w, False, 'the summarizer is not created') if y is NONE else ctx.undecided('config', w, t.show(y, 3)))
      continue
    kw = dict(y.args[1])
    if '**' in kw and kw['**'] is not CF:
      try:
        for k in ('rules', 'max_summary_values'):
          c, v = dicts.look(kw['**'], const(k))
          if c is TRUE: kw[k] = v
      except dicts.Opaque:
        ctx.undecided('config', w, t.show(y, 3))
        continue
    if is_list: ctx.ob('config', w, kw.get('rules') is CF, f'rules={t.show(kw["rules"], 3) if "rules" in kw else "missing"}')
    else: ctx.ob('config', w, kw.get('**') is CF or t.mentions(kw.get('rules', NONE), CF) and t.mentions(kw.get('max_summary_values', NONE), CF), 'the options are not passed on')


def used(ctx):
  for f, ap in (('vmoe.train.trainer:train_step', None), ('vmoe.projects.contrastive.trainer:train_step', None)):
    r = ctx.analyze(f)
    S = r.params.get('summarizer')
    w = f'{r.file} train_step'
    if S is None:
      ctx.undecided('used', w, 'no summarizer parameter')
      continue
    es = [e for e in r.events if e.kind == 'call' and e.fn is S]
    if not es:
      ctx.ob('used', w, False, 'the summarizer is never called')
      continue
    ST = r.ret.args[0] if r.ret.op == 'tuple' else None
    for e in es:
      x = e.args[0]
      lits = {raw('truth', S): True, raw('is', *sorted([NONE, S])): False}
      ctx.ob('used', w, t.cond(t.assume(t.val(e.pc), lits)) is TRUE, f'the summaries are only computed if {t.show(e.pc, 3)}')
      off = {raw('truth', S): False, raw('is', *sorted([NONE, S])): True}
      ctx.ob('used', w, t.cond(t.assume(t.val(e.pc), off)) is not TRUE, 'the summaries are also computed without a summarizer')
      for y in t.subterms(x):
        if y.op == 'call' and y.args[0] is t.glob('flax.traverse_util.flatten_dict'):
          sep = q.kws(y).get('sep', y.args[1][3] if len(y.args[1]) > 3 else None)
          if sep is None or t.is_const(sep): ctx.ob('used', w, sep is const('/'), f'the names of the arrays are joined with {t.show(sep, 2) if sep is not None else "nothing (tuples)"}')
      if ST is not None: ctx.ob('used', w, t.mentions(x, ST) or not t.contains(x, lambda y: q.is_call(y, 'flax.serialization.to_state_dict')), 'the summaries are not of the updated state')
      try: c, v = dicts.look(x, const('params_grads'))
      except dicts.Opaque as ex: ctx.undecided('used', w, str(ex))
      else: ctx.ob('used', w, c is TRUE and v is not None and t.contains(v, lambda y: y.op == 'item' or y.op == 'call'), 'gradients are not summarised')
    if r.ret.op == 'tuple' and len(r.ret.args) == 2:
      m = t.assume(r.ret.args[1], {raw('truth', S): True, raw('is', *sorted([NONE, S])): False})
      called = lambda x: t.contains(x, lambda y: y.op == 'call' and y.args[0] is S)
      upd = [e for e in r.events if e.kind in ('call', 'mutate') and e.fn is not None and e.fn.op == 'attr' and e.fn.args[1] in ('update', '__ior__') and any(isinstance(a, T) and called(a) for a in e.args)]
      ctx.ob('used', w, called(m) or bool(upd), 'the summaries are not reported with the metrics')

"""C33: few-shot evaluation: ridge regression on k valid examples of each class, measured on the test set."""
from .. import dicts, q, tensor as tz, terms as t, tq
from ..framework import prop
from ..terms import T, NONE, FALSE, TRUE, const, glob, raw, sym
from .mesh import tup
from .moe import spec
from .optim import is_op

F = 'vmoe.evaluate.fewshot'
CR, PC, ACC, BEST, CM, PF = [f'{F}.{n}' for n in ('_compute_representation', '_precompute_cache', '_eig_fewshot_acc_fn', '_find_best_l2_reg', '_compute_fewshot_metrics')] + ['vmoe.data.pjit_utils.prefetch_to_device']
N, D, C, E, TT, DB = [sym(n) for n in ('N', 'D', 'C', 'E', 'T', 'DB')]
CONV = ('numpy.asarray', 'numpy.array', 'jax.numpy.asarray', 'jax.numpy.array', 'jax.device_get', 'numpy.ascontiguousarray')


def conv(x):
  """Drop conversions that keep the values."""
  while True:
    if q.is_call(x, *CONV) and len(x.args[1]) >= 1: x = x.args[1][0]
    elif q.is_mcall(x, 'astype', 'copy'): x = x.args[0].args[0]
    else: return x


@prop('C33', 'Index-notation normal forms of the regression compared with specification programs (eigendecomposition opaque), value-flow terms of example selection, of the choice of the regulariser and of the reports.', floor=40)
def c33(ctx):
  for f in (cache, accuracy, representation, step, metrics, best, report, datasets): ctx.section(f)


def padded(ctx, w, x):
  """The bias feature: (array padded, pad calls found)."""
  return sorted({y for y in t.subterms(x) if q.is_call(y, 'jax.numpy.pad')}, key=lambda y: y.uid)


def bias(ctx, w, p):
  a = p.args[1][0]
  pw = q.kwarg(p, 'pad_width', 1, NONE)
  ok = pw is tup((tup((const(0), const(0))), tup((const(0), const(1)))))
  known = pw.op in ('tuple', 'list')
  if known: ctx.ob('bias', w, tuple(tuple(t.cval_or(z) for z in y.args) if y.op in ('tuple', 'list') else t.cval_or(y) for y in pw.args) == ((0, 0), (0, 1)), f'the bias feature is added by padding {t.show(pw, 3)}')
  else: ctx.undecided('bias', w, t.show(pw, 3))
  return a, q.kwarg(p, 'constant_values', None, const(0))


def cache(ctx):
  r = ctx.analyze(f'{F}:_precompute_cache')
  w = f'{r.file} _precompute_cache'
  X, Y, nc = sym('x'), sym('y'), sym('num_classes')
  got = {}
  for k in ('eigs', 'rhs', 'lhs', 'mean', 'std'):
    try: c, v = dicts.look(r.ret, const(k))
    except dicts.Opaque as e:
      ctx.undecided('regression', w, str(e))
      return
    if t.cond(c) is not TRUE:
      ctx.undecided('regression', w, f'no {k}')
      return
    got[k] = v
  with tq.Dec(ctx, 'whitening', w):
    z = tz.Tensor()
    z.declare(X, [N, D])
    a, b = z.arr(got['mean']), z.arr(spec(ctx, 'mean', 'fewshot', x=X))
    ctx.ob('whitening', w, z.same(a, b), f'the mean is {z.show(a)}')
  sd = [y for y in t.subterms(got['std']) if q.is_call(y, 'jax.numpy.std', 'jax.numpy.var')]
  for y in sd:
    ctx.ob('whitening', w, y.args[1][0] is X and t.is_const(q.kwarg(y, 'axis', 1, NONE), 0), f'the deviation is {t.show(y, 3)}')
  ps = padded(ctx, w, raw('tuple', *got.values()))
  if len(ps) != 1:
    ctx.undecided('regression', w, f'{len(ps)} paddings')
    return
  inner, bc = bias(ctx, w, ps[0])
  ctx.shared_bias = bc
  ctx.ob('bias', w, not t.is_const(bc, 0), 'the bias feature is zero')
  MU, SD = sym('MU'), sym('SD')
  # every occurrence of the reported mean and deviation inside the whitened array
  sub = t.subst(inner, {got['std']: SD})
  sub = t.subst(sub, {got['mean']: MU})
  with tq.Dec(ctx, 'whitening', w):
    z = tz.Tensor()
    z.declare(X, [N, D]); z.declare(MU, [const(1), D]); z.declare(SD, [const(1), D])
    for s in ([sub] if t.mentions(sub, SD) else [inner]):
      a, b = z.arr(s), z.arr(spec(ctx, 'whitened', 'fewshot', x=X, mean=MU if t.mentions(sub, MU) else got['mean'], std=SD if t.mentions(sub, SD) else got['std']))
      ctx.ob('whitening', w, z.same(a, b), f'the regression runs on {z.show(a)}, not on {z.show(b)}')
  XB, Q, EIG, S = sym('XB'), sym('Q'), sym('EIG'), sym('S')
  ats = sorted(t.inner_atoms(raw('tuple', *got.values())), key=lambda a: a.uid)
  for lits in (tq.cases(list(got.values())) if len(ats) <= 3 else []):
    g = {k: t.assume(v, lits) for k, v in got.items()}
    tot = raw('tuple', *g.values())
    hs = sorted({y for y in t.subterms(tot) if q.is_call(y, 'jax.numpy.linalg.eigh')}, key=lambda y: y.uid)
    if len(hs) != 1:
      ctx.undecided('regression', w, f'{len(hs)} decompositions')
      continue
    h = hs[0]
    s1 = {t.item(h, const(0)): EIG, t.item(h, const(1)): Q, t.attr(h, 'eigenvalues'): EIG, t.attr(h, 'eigenvectors'): Q}
    sb = lambda v: t.subst(t.subst(v, s1), {ps[0]: XB})
    with tq.Dec(ctx, 'regression', w):
      for kind in ('gram', 'outer'):
        z = tz.Tensor()
        n = DB if kind == 'gram' else N
        z.declare(XB, [N, DB]); z.declare(Y, [N]); z.declare(Q, [n, n]); z.declare(EIG, [n]); z.declare(S, [n])
        A = z.arr(sb(h.args[1][0]))
        same = z.same(A, z.arr(spec(ctx, kind, 'fewshot', x=XB)))
        if same: break
      else:
        ctx.ob('regression', w, False, f'the decomposed matrix is {z.show(A)}')
        continue
      ctx.ob('regression', w, sb(g['eigs']) is EIG, f'the eigenvalues are {t.show(sb(g["eigs"]), 3)}')
      yt = spec(ctx, 'targets', 'fewshot', y=Y, num_classes=nc)
      W = z.arr(spec(ctx, 'weights', 'fewshot', lhs=sb(g['lhs']), s=S, rhs=sb(g['rhs'])))
      V = z.arr(spec(ctx, 'primal' if kind == 'gram' else 'dual', 'fewshot', x=XB, q=Q, s=S, y=yt))
      ctx.ob('regression', w, z.same(W, V), f'the weights are {z.show(W)}, not {z.show(V)} (S: inverse regularised eigenvalues)')


def accuracy(ctx):
  r = ctx.analyze(f'{F}:_eig_fewshot_acc_fn')
  w = f'{r.file} _eig_fewshot_acc_fn'
  ch, X, Y, l2 = sym('cache'), sym('x_test'), sym('y_test'), sym('l2_reg')
  it = {k: t.item(ch, const(k)) for k in ('mean', 'std', 'lhs', 'rhs', 'eigs')}
  ps = padded(ctx, w, r.ret)
  if len(ps) != 1:
    ctx.undecided('accuracy', w, f'{len(ps)} paddings')
    return
  inner, bc = bias(ctx, w, ps[0])
  if getattr(ctx, 'shared_bias', None) is not None: ctx.ob('bias', w, bc is ctx.shared_bias, f'the bias feature is {t.show(bc, 2)} for testing and {t.show(ctx.shared_bias, 2)} for training')
  dims = {'mean': [const(1), D], 'std': [const(1), D], 'lhs': [DB, E], 'rhs': [E, C], 'eigs': [E]}
  XB = sym('XB')
  def mk():
    z = tz.Tensor()
    for k, d in dims.items(): z.declare(it[k], d)
    z.declare(l2, []); z.declare(X, [TT, D]); z.declare(XB, [TT, DB]); z.declare(Y, [TT])
    return z
  with tq.Dec(ctx, 'whitening', w):
    z = mk()
    a, b = z.arr(inner), z.arr(spec(ctx, 'whitened', 'fewshot', x=X, mean=it['mean'], std=it['std']))
    ctx.ob('whitening', w, z.same(a, b), f'test features become {z.show(a)}, not {z.show(b)}')
  x = t.subst(r.ret, {ps[0]: XB})
  am = sorted({y for y in t.subterms(x) if q.is_call(y, 'jax.numpy.argmax', 'jax.numpy.argmin') or q.is_mcall(y, 'argmax', 'argmin')}, key=lambda y: y.uid)
  if len(am) != 1:
    ctx.undecided('accuracy', w, f'{len(am)} predictions')
    return
  p = am[0]
  ctx.ob('accuracy', w, (p.args[0].args[0] if p.args[0].op == 'glob' else p.args[0].args[1]).endswith('argmax'), 'the class with the lowest score is predicted')
  sc = p.args[1][0] if p.args[0].op == 'glob' else p.args[0].args[0]
  ax = q.kwarg(p, 'axis', 1 if p.args[0].op == 'glob' else 0, NONE)
  ctx.ob('accuracy', w, t.cval_or(ax) in (1, -1), f'classes are compared along axis {t.show(ax, 2)}')
  with tq.Dec(ctx, 'accuracy', w):
    z = mk()
    a = z.arr(sc)
    b = z.arr(spec(ctx, 'scores', 'fewshot', x=XB, lhs=it['lhs'], s=spec(ctx, 'scale', 'fewshot', eigs=it['eigs'], l2_reg=l2), rhs=it['rhs']))
    ctx.ob('accuracy', w, z.same(a, b), f'the scores are {z.show(a)}, not {z.show(b)}')
  PR = sym('PR')
  y = t.subst(x, {p: PR})
  good = t.eq(PR, Y)
  hit = [raw('call', glob('jax.numpy.mean'), (good,), ()), raw('call', t.attr(good, 'mean'), (), ())]
  if y in hit: ctx.ob('accuracy', w, True)
  else:
    core = conv(y)
    fn = core.args[0] if core.op == 'call' else None
    if fn is not None and (fn.op == 'glob' and fn.args[0] in ('jax.numpy.mean', 'jax.numpy.sum', 'jax.numpy.max', 'jax.numpy.median') or fn.op == 'attr' and fn.args[1] in ('mean', 'sum')):
      ar = core.args[1][0] if fn.op == 'glob' else fn.args[0]
      if conv(ar) is good: ctx.ob('accuracy', w, 'mean' in str(fn.args), f'the accuracy is {t.show(y, 4)}')
      elif conv(ar).op in ('not', 'eq', 'lt'): ctx.ob('accuracy', w, False, f'the accuracy is {t.show(y, 4)}')
      else: ctx.undecided('accuracy', w, t.show(y, 4))
    else: ctx.undecided('accuracy', w, t.show(y, 4))


def representation(ctx):
  r = ctx.analyze(f'{F}:_compute_representation')
  w = f'{r.file} _compute_representation'
  itr, fn, st0, vs = sym('iterator'), sym('representation_fn'), sym('state'), sym('variables')
  if not (r.ret.op == 'tuple' and len(r.ret.args) == 3):
    ctx.undecided('valid-only', w, t.show(r.ret, 3))
    return
  for k, nm, pos in ((1, 'features', 1), (2, 'labels', 2)):
    x = r.ret.args[k]
    if not (q.is_call(x, 'numpy.concatenate', 'jax.numpy.concatenate') and x.args[1][0].op == 'item' and x.args[1][0].args[0].op == 'fold'):
      ctx.undecided('valid-only', w, t.show(x, 3))
      continue
    ctx.ob('valid-only', w, t.is_const(q.kwarg(x, 'axis', 1, const(0)), 0), f'batches of {nm} are joined along axis {t.show(q.kwarg(x, "axis", 1, const(0)), 2)}')
    f = x.args[1][0].args[0]
    j = t.cval_or(x.args[1][0].args[1])
    (i, *acc), body = t.open_lam(f.args[2])
    ctx.ob('every-batch', w, f.args[0] is itr and body.args[-1] is FALSE, f'not every batch is used: {t.show(f.args[0], 3)}, ends if {t.show(body.args[-1], 3)}')
    b = body.args[j]
    if b is acc[j] or b.op == 'ite':
      ctx.ob('every-batch', w, False, f'a batch is used only if {t.show(b, 3)}')
      continue
    if not (b.op == 'cat' and len(b.args) == 2 and b.args[0] is acc[j] and b.args[1].op == 'list' and len(b.args[1].args) == 1):
      ctx.undecided('valid-only', w, t.show(b, 3))
      continue
    v = b.args[1].args[0]
    bt = raw('nth', f.args[0], i)
    calls = sorted({y for y in t.subterms(v) if y.op == 'call' and y.args[0] is fn}, key=lambda y: y.uid)
    if len(calls) != 1:
      ctx.undecided('valid-only', w, f'{len(calls)} representations')
      continue
    rep = calls[0]
    a = rep.args[1]
    if len(a) == 5:
      ctx.ob('own-batch', w, a[0] in acc and a[1] is vs, f'state and variables are {t.show(a[0], 2)}, {t.show(a[1], 2)}')
      for m, key in ((2, 'image'), (3, 'label'), (4, '__valid__')): ctx.ob('own-batch', w, a[m] is t.item(bt, const(key)), f'the {key} is {t.show(a[m], 4)}')
    else: ctx.undecided('own-batch', w, t.show(rep, 3))
    if v.op != 'item':
      ctx.ob('valid-only', w, conv(v) is not t.item(rep, const(pos)), f'{nm} of padding examples are used')
      continue
    ctx.ob('valid-only', w, conv(v.args[0]) is t.item(rep, const(pos)), f'the {nm} are {t.show(v.args[0], 4)}')
    m = v.args[1]
    ok = conv(m) is t.item(rep, const(3)) or conv(m) is t.item(bt, const('__valid__'))
    if ok and q.is_mcall(m, 'astype'): ctx.ob('valid-only', w, 'bool' in t.show(m.args[1][0], 3), 'examples are indexed by numbers, not selected by the mask')
    elif ok: ctx.ob('valid-only', w, True)
    elif m.op in ('slice', 'not') or conv(m).op == 'item': ctx.ob('valid-only', w, False, f'{nm} are selected by {t.show(m, 4)}')
    else: ctx.undecided('valid-only', w, t.show(m, 3))
  s = r.ret.args[0]
  if s.op == 'item' and s.args[0].op == 'fold':
    (i, *acc), body = t.open_lam(s.args[0].args[2])
    j = t.cval_or(s.args[1])
    ctx.ob('own-batch', w, body.args[j].op == 'item' and body.args[j].args[0].op == 'call' and body.args[j].args[0].args[0] is fn and t.is_const(body.args[j].args[1], 0), f'the next state is {t.show(body.args[j], 3)}')
  else: ctx.ob('own-batch', w, s is not st0, 'the state is not advanced')


def step(ctx):
  r = ctx.analyze(f'{F}:_fewshot_step')
  w = f'{r.file} _fewshot_step'
  if r.ret.op != 'tuple' or len(r.ret.args) != 4:
    ctx.undecided('own-batch', w, t.show(r.ret, 3))
    return
  st, ft, lb, vd = r.ret.args
  if ft.op == 'item' and ft.args[0].op == 'call' and ft.args[0].args[0] is sym('apply_fn'):
    c = ft.args[0]
    ctx.ob('own-batch', w, t.is_const(ft.args[1], 0) and c.args[1][:2] == (sym('variables'), sym('images')), f'the features are {t.show(ft, 3)}')
  else: ctx.undecided('own-batch', w, t.show(ft, 3))
  ctx.ob('own-batch', w, lb is sym('label') and vd is sym('valid'), f'labels and mask become {t.show(lb, 3)}, {t.show(vd, 3)}')


def metrics(ctx):
  k0, k1, a, b = const(2), const(5), const(0.25), const(0.75)
  r = ctx.analyze(f'{F}:_compute_fewshot_metrics', opaque=[CR, PC, ACC], bind=dict(shots=raw('list', k0, k1), l2_regs=raw('list', a, b)))
  w = f'{r.file} _compute_fewshot_metrics'
  tri, tei, fn, vs, nc, sd = sym('tr_iter'), sym('te_iter'), sym('representation_fn'), sym('variables'), sym('num_classes'), sym('seed')
  def reps(x, it):
    if x.op != 'item' or not is_op(x.args[0], CR): return None
    c = x.args[0]
    al = dict(zip(('f', 'state', 'variables', 'iterator'), c.args[1])); al.update({('f' if k == 'representation_fn' else k): v for k, v in c.args[2]})
    return t.cval_or(x.args[1]), al
  for k in (k0, k1):
    for l in (a, b):
      tx = f'{w} ({t.show(k, 1)} shots)'
      try: c, v = dicts.look(r.ret, tup((k, l)))
      except dicts.Opaque as e:
        ctx.undecided('selection', tx, str(e))
        continue
      if t.cond(c) is not TRUE:
        ctx.ob('selection', tx, False, 'there is no result')
        continue
      v = conv(dicts.rewrite(v))
      if not is_op(v, ACC):
        ctx.undecided('selection', tx, t.show(v, 3))
        continue
      al = dict(zip(('cache', 'x_test', 'y_test', 'l2_reg'), v.args[1])); al.update(q.kws(v))
      ctx.ob('own-regulariser', tx, al.get('l2_reg') is l, f'the result for {t.show(l, 1)} is computed with {t.show(al.get("l2_reg", NONE), 3)}')
      for n, j in (('x_test', 1), ('y_test', 2)):
        rp = reps(conv(al.get(n, NONE)), tei)
        if rp is None: ctx.undecided('test-set', tx, t.show(al.get(n, NONE), 3))
        else: ctx.ob('test-set', tx, rp[0] == j and rp[1].get('iterator') is tei and rp[1].get('variables') is vs and rp[1].get('f') is fn, f'{n} is {t.show(al[n], 4)}')
      ch = al.get('cache', NONE)
      if not is_op(ch, PC):
        ctx.undecided('selection', tx, t.show(ch, 3))
        continue
      cl = dict(zip(('x', 'y', 'num_classes'), ch.args[1])); cl.update(q.kws(ch))
      ctx.ob('selection', tx, cl.get('num_classes') is nc, f'there are {t.show(cl.get("num_classes", NONE), 3)} classes')
      x, y = cl.get('x', NONE), cl.get('y', NONE)
      if not (x.op == 'item' and y.op == 'item'):
        rp = reps(conv(x), tri)
        if rp is not None: ctx.ob('selection', tx, False, 'all training examples are used')
        else: ctx.undecided('selection', tx, t.show(x, 3))
        continue
      ctx.ob('selection', tx, x.args[1] is y.args[1], 'features and labels of different examples are used')
      for n, u, j in (('features', x.args[0], 1), ('labels', y.args[0], 2)):
        rp = reps(conv(u), tri)
        if rp is None: ctx.undecided('selection', tx, t.show(u, 3))
        else: ctx.ob('selection', tx, rp[0] == j and rp[1].get('iterator') is tri and rp[1].get('variables') is vs, f'training {n} are {t.show(u, 4)}')
      idx = x.args[1]
      if not (q.is_call(idx, 'numpy.concatenate', 'jax.numpy.concatenate', 'numpy.hstack') and idx.args[1][0].op == 'map'):
        ctx.undecided('selection', tx, t.show(idx, 3))
        continue
      mp = idx.args[1][0]
      dom = mp.args[1]
      rng_ok = dom is raw('range', nc) or q.is_call(dom, 'range') and dom.args[1] in ((nc,), (const(0), nc))
      if rng_ok or q.is_call(dom, 'range') or dom.op == 'range': ctx.ob('selection', tx, rng_ok and mp.args[2] is TRUE, f'classes come from {t.show(dom, 3)}')
      else: ctx.undecided('selection', tx, t.show(dom, 3))
      (i, *_), body = t.open_lam(mp.args[0])
      if not (body.op == 'item' and body.args[1].op == 'slice'):
        if q.is_mcall(body, 'permutation') or q.is_call(body, 'numpy.where'): ctx.ob('selection', tx, False, 'the number of examples of a class is not limited')
        else: ctx.undecided('selection', tx, t.show(body, 3))
        continue
      lo, hi, stp = body.args[1].args
      width = t.sub(hi, NONE_TO(lo)) if hi is not NONE else None
      ctx.ob('selection', tx, stp in (NONE, const(1)) and (lo in (NONE, const(0))) and hi is k, f'of every class the examples {t.show(body.args[1], 3)} are used')
      pm = body.args[0]
      src = pm.args[1][0] if q.is_mcall(pm, 'permutation') else pm
      ctx.ob('selection', tx, t.mentions(pm, sd) or not q.is_mcall(pm, 'permutation'), 'the selection does not depend on the seed')
      cand = src.args[0] if src.op == 'item' and q.is_call(src.args[0], 'numpy.where', 'numpy.nonzero') else src if q.is_call(src, 'numpy.flatnonzero') else None
      if cand is None:
        ctx.undecided('selection', tx, t.show(src, 3))
        continue
      if src is not cand: ctx.ob('selection', tx, t.is_const(src.args[1], 0), 'examples are selected by another axis')
      cnd = cand.args[1][0]
      lab = y.args[0]
      el = i if cnd is t.eq(lab, i) else raw('nth', dom, i)
      if cnd is t.eq(lab, el) or cnd is t.eq(conv(lab), el): ctx.ob('selection', tx, True)
      elif cnd.op in ('eq', 'lt', 'not'): ctx.ob('selection', tx, False, f'the examples of a class are those with {t.show(cnd, 4)}')
      else: ctx.undecided('selection', tx, t.show(cnd, 3))


def NONE_TO(x): return const(0) if x is NONE else x


def best(ctx):
  k0, k1 = const(2), const(5)
  r = ctx.analyze(f'{F}:_find_best_l2_reg', bind=dict(shots=raw('list', k0, k1)))
  w = f'{r.file} _find_best_l2_reg'
  AR, L2 = sym('all_results'), sym('l2_regs')
  for k in (k0, k1):
    try: c, v = dicts.look(r.ret, k)
    except dicts.Opaque as e:
      ctx.undecided('best', w, str(e))
      continue
    v = dicts.rewrite(v)
    ctx.ob('best', w, t.cond(c) is TRUE, 'a number of shots has no regulariser')
    if v.op != 'item' or v.args[0] is not L2:
      ctx.undecided('best', w, t.show(v, 3))
      continue
    m = v.args[1]
    while q.is_call(m, 'int'): m = m.args[1][0]
    nm = m.args[0].args[0].split('.')[-1] if m.op == 'call' and m.args[0].op == 'glob' else m.args[0].args[1] if m.op == 'call' and m.args[0].op == 'attr' else None
    if nm not in ('argmax', 'argmin', 'nanargmax'):
      ctx.undecided('best', w, t.show(m, 3))
      continue
    ctx.ob('best', w, nm != 'argmin', 'the regulariser with the lowest accuracy is chosen')
    u = m.args[1][0] if m.args[0].op == 'glob' else m.args[0].args[0]
    if not (u.op == 'call' and (u.args[0].op == 'glob' or u.args[0].op == 'attr')):
      ctx.undecided('best', w, t.show(u, 3))
      continue
    un = u.args[0].args[0].split('.')[-1] if u.args[0].op == 'glob' else u.args[0].args[1]
    if un not in ('mean', 'sum', 'average', 'max', 'min', 'median'):
      ctx.undecided('best', w, t.show(u, 3))
      continue
    ctx.ob('best', w, un in ('mean', 'sum', 'average'), f'ranks of the data sets are combined by {un}')
    ax = q.kwarg(u, 'axis', 1 if u.args[0].op == 'glob' else 0, NONE)
    ctx.ob('best', w, t.is_const(ax, 0), f'ranks are averaged along axis {t.show(ax, 2)}')
    rk = u.args[1][0] if u.args[0].op == 'glob' else u.args[0].args[0]
    rk = conv(rk)
    if rk.op != 'map':
      ctx.undecided('best', w, t.show(rk, 3))
      continue
    d = rk.args[1]
    ok = d in (raw('keys', AR), AR) or q.is_mcall(d, 'values', 'keys', 'items') and d.args[0].args[0] is AR
    if ok: ctx.ob('best', w, rk.args[2] is TRUE, 'not all data sets count')
    else: ctx.undecided('best', w, t.show(d, 3))
    (i, *_), b = t.open_lam(rk.args[0])
    depth = 0
    while q.is_call(b, 'numpy.argsort') or q.is_mcall(b, 'argsort'): b, depth = conv(b.args[1][0] if b.args[0].op == 'glob' else b.args[0].args[0]), depth + 1
    if b.op != 'map' or b.args[1] is not L2:
      ctx.undecided('best', w, t.show(b, 3))
      continue
    ctx.ob('best', w, depth == 2 and b.args[2] is TRUE, 'the data sets are not compared by the rank of each regulariser')
    (j, *_), e = t.open_lam(b.args[0])
    want = t.item(t.item(AR, raw('nth', d, i)), tup((k, raw('nth', L2, j))))
    if d.op == 'call': want = t.item(raw('nth', d, i), tup((k, raw('nth', L2, j))))
    if e is want: ctx.ob('best', w, True)
    elif e.op == 'item' and e.args[1].op == 'tuple': ctx.ob('best', w, False, f'the accuracy compared is {t.show(e, 4)}')
    else: ctx.undecided('best', w, t.show(e, 3))


def report(ctx):
  P = f'{F}:FewShotPeriodicAction._make_callback_fn'
  k0, k1 = const(2), const(5)
  TR, TE, NC, TR2, TE2, NC2 = [sym(n) for n in ('TR', 'TE', 'NC', 'TR2', 'TE2', 'NC2')]
  info = {'foo': (TR, TE, NC), 'bar': (TR2, TE2, NC2)}
  for seeds in (1, 2):
    sy = [sym(n) for n in ('step', 'time', 'variables')]
    r = ctx.analyze(P, opaque=[CM, BEST, PF], then=sy,
                    bind=dict(shots=raw('list', k0, k1), report_progress=NONE, report_progress_name=const('fewshot'), seeds_per_step=const(seeds), main_task=tup((const('foo'), k1)), main_task_prefix=const('0'),
                              datasets_info=raw('dict', *[(const(n), tup(v)) for n, v in info.items()])))
    w = f'{r.file} FewShotPeriodicAction ({seeds} seeds)'
    ev = [e for e in r.events if e.kind == 'call' and is_op(raw('call', e.fn, tuple(e.args), ()), CM)]
    ctx.ob('every-data-set', w, len(ev) == seeds * len(info), f'{len(ev)} evaluations of {len(info)} data sets with {seeds} seeds')
    per = {}
    for e in ev:
      al = dict(zip(('representation_fn', 'shots', 'l2_regs', 'num_classes', 'state', 'variables', 'tr_iter', 'te_iter', 'seed'), e.args)); al.update(e.kwargs)
      its = []
      for n in ('tr_iter', 'te_iter'):
        x = al.get(n, NONE)
        its.append((x.args[1][0] if x.args[1] else q.kws(x).get('iterator')) if is_op(x, PF) else x)
      nm = next((n for n, v in info.items() if v[2] is al.get('num_classes')), None)
      ctx.ob('own-data', w, nm is not None and its == list(info[nm][:2]), f'{[t.show(y, 2) for y in its]} are evaluated with {t.show(al.get("num_classes", NONE), 2)} classes')
      ctx.ob('own-data', w, al.get('variables') is sy[2] and al.get('shots') is raw('list', k0, k1) and al.get('l2_regs') is sym('l2_regs') and al.get('representation_fn') is sym('representation_fn'), 'the evaluation gets other variables, shots or regularisers')
      per.setdefault(nm, []).append(e)
      if nm:
        for d, what in ((info[nm][0], 'training'), (info[nm][1], 'test')):
          rs = [o for o in r.events if o.kind == 'call' and o.fn is t.attr(d, 'reset') and o.seq > e.seq and t.cond(o.pc) is t.cond(e.pc)]
          nxt = [o.seq for o in per[nm] if o.seq > e.seq]
          ctx.ob('reset', w, bool(rs), f'the {what} data are not reset for the next evaluation')
    ws = [e for e in r.events if e.kind == 'call' and e.fn is t.attr(sym('metric_writer'), 'write_scalars')]
    ctx.ob('reported', w, len(ws) == 1 and ws[0].args[0] is sy[0] and t.cond(ws[0].pc) is TRUE, f'{len(ws)} reports')
    if len(ws) != 1: continue
    out = ws[0].args[1] if len(ws[0].args) > 1 else NONE
    bs = sorted({y for y in t.subterms(out) if is_op(y, BEST)}, key=lambda y: y.uid)
    if len(bs) != 1 or not bs[0].args[1]:
      ctx.undecided('reported', w, f'{len(bs)} regularisers')
      continue
    bl = bs[0]
    allr = bl.args[1][0]
    ctx.ob('best', w, bl.args[1][1:] == (raw('list', k0, k1), sym('l2_regs')), 'the regulariser is chosen among others')
    vals = {}
    for n in info:
      for s in range(seeds):
        name = n if seeds == 1 else f'{n}-seed-{s}'
        try: c, v = dicts.look(allr, const(name))
        except dicts.Opaque as e:
          ctx.undecided('reported', w, str(e))
          continue
        ctx.ob('best', w, t.cond(c) is TRUE, f'{name} does not count for the choice of the regulariser')
        if not is_op(v, CM): continue
        vals[n, s] = v
        ctx.ob('reported', w, info[n][2] in v.args[1] or info[n][2] in q.kws(v).values(), f'{name} is the result of another data set')
        for k in (k0, k1):
          try: c2, u = dicts.look(out, const(f'fewshot/{name}/{k.args[1]}shot'))
          except dicts.Opaque as e:
            ctx.undecided('reported', w, str(e))
            continue
          want = t.item(v, tup((k, t.item(bl, k))))
          u = dicts.rewrite(u)
          if u is want or u.op == 'item' or not t.mentions(u, t.item(bl, k)): ctx.ob('reported', w, u is want and t.cond(c2) is not FALSE, f'{name} {k.args[1]}shot is reported as {t.show(u, 4)}')
          elif t.cond(c2) is FALSE: ctx.ob('reported', w, False, f'{name} {k.args[1]}shot is not reported')
          else: ctx.undecided('reported', w, t.show(u, 3))
    if len({vals[n, s] for n, s in vals}) != len(vals): ctx.ob('reported', w, False, 'different seeds give the same result')
    try:
      c, u = dicts.look(out, const('0/foo/5shot'))
      u = dicts.rewrite(u)
      if all(('foo', s) in vals for s in range(seeds)):
        want = const(0)
        for s in range(seeds): want = t.add(want, t.item(vals['foo', s], tup((k1, t.item(bl, k1)))))
        want = t.div(want, const(seeds)) if seeds > 1 else t.item(vals['foo', 0], tup((k1, t.item(bl, k1))))
        alt = t.mul(const(1.0 / seeds), t.mul(want, const(seeds))) if seeds > 1 else want
        if u in (want, alt) or t.poly_of(t.sub(u, want)) == {}: ctx.ob('main-task', w, True)
        else: ctx.ob('main-task', w, False, f'the main task is reported as {t.show(u, 4)}')
    except dicts.Opaque as e: ctx.undecided('main-task', w, str(e))


def datasets(ctx):
  GD = 'vmoe.data.input_pipeline.get_dataset'
  n, a, b = sym('nm'), sym('tr_s'), sym('te_s')
  r = ctx.analyze(f'{F}:_get_datasets', opaque=[GD], bind=dict(datasets=raw('dict', (const('foo'), tup((n, a, b))))))
  w = f'{r.file} _get_datasets'
  try: c, v = dicts.look(r.ret, const('foo'))
  except dicts.Opaque as e:
    ctx.undecided('own-data', w, str(e))
    return
  v = dicts.rewrite(v)
  if v.op != 'tuple' or len(v.args) != 3:
    ctx.undecided('own-data', w, t.show(v, 3))
    return
  for x, s in zip(v.args, (a, b)):
    if not is_op(x, GD):
      ctx.undecided('own-data', w, t.show(x, 3))
      continue
    kw = q.kws(x)
    ctx.ob('own-data', w, kw.get('name') is n and kw.get('split') is s, f'the data set is {t.show(kw.get("name", NONE), 2)}, split {t.show(kw.get("split", NONE), 2)}')
    ctx.ob('own-data', w, not t.is_const(kw.get('variant', NONE), 'train'), 'few-shot data are read like training data')
  ctx.ob('own-data', w, t.mentions(v.args[2], n), f'the number of classes is {t.show(v.args[2], 4)}')

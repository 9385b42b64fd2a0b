"""C23: evaluation metrics are averages over the valid examples of the data set."""
from .. import dicts, q, tensor as tz, terms as t, tq
from ..framework import prop
from ..terms import T, NONE, FALSE, TRUE, const, glob, raw, sym
from .moe import spec
from .optim import is_op

P = 'vmoe.evaluate.evaluator'
B, C = sym('B'), sym('C')
ED, MK, SDS, FL, MR, PRE = (f'{P}.evaluate_dataset', f'{P}.make_eval_step_pjit', 'vmoe.data.pjit_utils.get_dataset_shape_dtype_struct', 'vmoe.utils.get_flops_and_seconds_per_device',
                            'vmoe.utils.make_rngs', 'vmoe.data.pjit_utils.prefetch_to_device')
MAP = 'jax.tree.map'


def sync(x):
  """Waiting for a value, or copying it to the host, does not change it."""
  def f(y):
    if q.is_call(y, 'jax.block_until_ready', 'jax.device_get') and len(y.args[1]) == 1: return go(y.args[1][0])
    if q.is_mcall(y, 'block_until_ready'): return go(y.args[0].args[0])
    if q.is_call(y, MAP) and len(y.args[1]) == 2 and not y.args[2]:
      g = y.args[1][0]
      if g.op == 'lam' and g.args[1] == 1:
        (v,), b = t.open_lam(g)
        if q.is_mcall(b, 'block_until_ready') and b.args[0].args[0] is v: return go(y.args[1][1])
      if g.op == 'glob' and g.args[0] in ('numpy.asarray', 'numpy.array', 'jax.device_get', 'jax.block_until_ready'): return go(y.args[1][1])
    return None
  memo = {}
  def go(y): return t.transform(y, f, memo)
  return go(x)


@prop('C23', 'Index-notation normal form of the sums that one evaluation step adds, compared with the specification; value-flow analysis of the loop over the batches and of the callback: every batch once, own sums of each data set, fresh start, step and parameters reported.', floor=25)
def c23(ctx):
  st = ctx.eng.obj_of(f'{P}:EvalState')
  a = [st, sym('params'), sym('images'), sym('labels'), sym('valid')]
  r = ctx.analyze(f'{P}:evaluate_step', bind=dict(state=st))
  for dims in ([B], [B, '...']): ctx.section(step, r, 'evaluate_step', dims)
  ctx.section(compiled, a)
  ctx.section(dataset)
  ctx.section(callback)
  ctx.section(zeroshot)
  ctx.section(retrieval)


def compiled(ctx, a):
  r = ctx.analyze(f'{P}:make_eval_step_pjit', then=a)
  step(ctx, r, 'make_eval_step_pjit', [B, '...'])


def step(ctx, r, name, ldims):
  st = ctx.eng.obj_of(f'{P}:EvalState')
  params, images, labels, valid = [sym(n) for n in ('params', 'images', 'labels', 'valid')]
  ap, lf, lp = [sym(n) for n in ('apply_fn', 'loss_fn', 'label_pred_fn')]
  w = f'{r.file} {name}'
  fw = sorted({y for y in t.subterms(r.ret) if y.op == 'call' and y.args[0] is ap}, key=lambda y: y.uid)
  if len(fw) != 1:
    ctx.undecided('forward', w, f'{len(fw)} forward passes')
    return
  f = fw[0]
  v = f.args[1][0] if f.args[1] else NONE
  try:
    pv = dicts.rewrite(t.item(v, const('params')))
  except dicts.Opaque:
    pv = None
  if pv is not None: ctx.ob('given-parameters', w, pv is params, f'the model is applied to {t.show(v, 4)}')
  ctx.ob('given-images', w, len(f.args[1]) > 1 and f.args[1][1] is images, 'the model is not applied to the images of the batch')
  logits = t.item(f, const(0))
  loss, pred = raw('call', lf, (logits, labels), ()), raw('call', lp, (logits,), ())
  for fld, fn, bind in (('num', 'num', dict(valid=valid)), ('sum_correct', 'correct', dict(pred=pred, labels=labels, valid=valid)), ('sum_loss', 'loss', dict(loss=loss, valid=valid))):
    x = t.attr(r.ret, fld)
    if x.op == 'attr':
      ctx.undecided('sum', f'{w}.{fld}', t.show(x, 4)) if r.ret.op != 'self' else ctx.ob('sum', f'{w}.{fld}', False, f'{fld} is not updated')
      continue
    for y in sorted({y for y in t.subterms(x) if y.op == 'call' and y.args[0] in (lf, lp)}, key=lambda y: y.uid):
      ctx.ob('pairing', f'{w}.{fld}', y in (loss, pred), f'{t.show(y, 3)} is not computed from the logits and labels of this batch')
    with tq.Dec(ctx, 'sum', f'{w}.{fld} (loss of rank {"1" if len(ldims) == 1 else "n"})'):
      z = tz.Tensor()
      z.declare(labels, [B, C])
      z.declare(valid, [B])
      z.declare(loss, ldims)
      z.declare(pred, [B])
      z.env[t.attr(st, fld)] = tz.Arr((), t.attr(st, fld))
      for o in ('num', 'sum_correct', 'sum_loss'): z.env[t.attr(st, o)] = tz.Arr((), t.attr(st, o))
      got = z.arr(tq.resolve(z, x))
      want = z.arr(tq.resolve(z, t.add(t.attr(st, fld), spec(ctx, fn, 'evaluation', **bind))))
      ctx.ob('sum', f'{w}.{fld} (loss of rank {"1" if len(ldims) == 1 else "n"})', z.same(got, want), f'{z.show(got)}, not {z.show(want)}')
  rn = t.attr(r.ret, 'rngs')
  ctx.ob('next-keys', w, rn is not t.attr(st, 'rngs'), 'every batch is evaluated with the same keys')


def dataset(ctx):
  r = ctx.analyze(f'{P}:evaluate_dataset')
  w = f'{r.file} evaluate_dataset'
  x = sync(r.ret)
  ds, fn, s0, params = sym('dataset'), sym('eval_step_pjit'), sym('eval_state'), sym('params')
  if not (x.op == 'item' and x.args[0].op == 'fold' and t.is_const(x.args[1])):
    ctx.ob('all-batches', w, t.mentions(x, ds), f'the result {t.show(x, 3)} does not depend on the data set')
    ctx.undecided('all-batches', w, t.show(x, 3))
    return
  f = x.args[0]
  dom = f.args[0]
  d2 = dom.args[1] if dom.op == 'slice' else dom
  ctx.ob('all-batches', w, dom is ds or not t.mentions(dom, ds) or dom.op in ('call', 'attr') and not q.is_call(dom, 'itertools.islice'), f'the loop visits {t.show(dom, 4)}, not the whole data set')
  inits = f.args[1].args if isinstance(f.args[1], T) else f.args[1]
  k = x.args[1].args[1]
  ss, body = t.open_lam(f.args[2])
  i, *accs = ss
  ctx.ob('start-state', w, inits[k] is s0, f'the evaluation starts from {t.show(inits[k], 3)}')
  if dom is not ds:
    ctx.undecided('each-batch', w, t.show(dom, 4))
    return
  early = t.item(body, const(len(accs))) if body.op == 'tuple' and len(body.args) > len(accs) else FALSE
  ctx.ob('no-early-stop', w, early is FALSE, f'the loop stops early if {t.show(early, 4)}')
  nxt = sync(t.item(body, const(k)))
  for lits in tq.cases([nxt]):
    y = t.assume(nxt, lits)
    cond = ' when ' + ', '.join(f'{t.show(a, 3)} is {v}' for a, v in lits.items()) if lits else ''
    if y is accs[k]:
      ctx.ob('each-batch', w, False, f'a batch is skipped{cond}')
      continue
    if not (y.op == 'call' and y.args[0] is fn):
      ctx.undecided('each-batch', w, t.show(y, 3))
      continue
    b = raw('nth', ds, i)
    a = list(y.args[1]) + [None] * 5
    want = [accs[k], params] + [t.item(b, const(n)) for n in ('image', 'labels', '__valid__')]
    names = ('state', 'params', 'images', 'labels', 'valid')
    for n, g, v in zip(names, a, want):
      if g is None: g = q.kws(y).get(n)
      if g is None: ctx.undecided('step-arguments', w, n)
      else: ctx.ob('step-arguments', w, g is v, f'{n} of the evaluation step is {t.show(g, 4)}, not {t.show(v, 4)}{cond}')


def callback(ctx):
  path = f'{P}:EvaluateMultipleDatasets._make_callback_fn'
  S, Tm, params, extra, ds = sym('step'), sym('time'), sym('params'), sym('extra'), sym('datasets')
  r = ctx.analyze(path, bind=dict(report_progress=NONE), then=[S, Tm, params], then_kw=[(raw('kwstar'), extra)], opaque=[ED, MK, SDS, FL, MR, PRE])
  w = f'{r.file} EvaluateMultipleDatasets'
  ev = [e for e in r.events if e.kind == 'call' and e.fn.op == 'opaque' and e.fn.args[0] == ED]
  if len(ev) != 1 or len(ev[0].loops) != 1:
    ctx.undecided('per-data-set', w, f'{len(ev)} evaluations')
    return
  e = ev[0]
  l = e.loops[-1]
  dom = l.domain
  ctx.ob('every-data-set', w, dom in (ds, raw('keys', ds)) or not t.mentions(dom, ds), f'the evaluated data sets are {t.show(dom, 4)}')
  ctx.ob('every-data-set', w, e.pc is TRUE and l.early is FALSE, f'a data set is evaluated only if {t.show(t.val(e.pc), 4)}')
  name = raw('nth', dom, l.idx)
  one = t.item(ds, name)
  it = q.ekw(e, 'dataset')
  src = [y for y in t.subterms(it) if is_op(y, PRE)] if it is not None else []
  if len(src) == 1:
    kw = q.kws(src[0])
    g = kw.get('iterator', src[0].args[1][0] if src[0].args[1] else None)
    g = g.args[1][0] if q.is_call(g, 'iter') else g
    ctx.ob('own-data', w, it is src[0] and g is one, f'{t.show(name, 2)} is evaluated on {t.show(it, 4)}')
  else: ctx.undecided('own-data', w, t.show(it, 4) if it is not None else 'none')
  ctx.ob('own-parameters', w, q.ekw(e, 'params') is params, 'the evaluation does not use the parameters it is given')
  s = sync(q.ekw(e, 'eval_state', None, NONE))
  if s.op == 'obj':
    fl = dict(s.args[1])
    for n in ('num', 'sum_correct', 'sum_loss'):
      v = fl.get(n)
      z = v is not None and (t.is_const(v, 0) or t.is_const(v, 0.0) or q.is_call(v, 'jax.numpy.zeros', 'numpy.zeros') or
                             (q.is_call(v, 'jax.numpy.asarray', 'jax.numpy.array', 'jax.numpy.float32', 'numpy.float32') and v.args[1] and t.is_const(v.args[1][0]) and v.args[1][0].args[1] == 0))
      if z or (v is not None and (t.is_const(v) or q.is_call(v, 'jax.numpy.ones') or t.mentions(v, l.idx))): ctx.ob('fresh-sums', w, z, f'{n} starts at {t.show(v, 3)}')
      else: ctx.undecided('fresh-sums', w, f'{n}: {t.show(v, 3) if v is not None else None}')
    ctx.ob('seed', w, t.mentions(fl.get('rngs', NONE), sym('seed')), 'the keys do not depend on the seed')
  elif any(p is s or t.mentions(s, p) for p in l.phis): ctx.ob('fresh-sums', w, False, 'the sums continue from the previous data set')
  else: ctx.undecided('fresh-sums', w, t.show(s, 3))
  fn = q.ekw(e, 'eval_step_pjit', None, NONE)
  mk = sorted({y for y in t.subterms(fn) if is_op(y, MK)}, key=lambda y: y.uid)
  if len(mk) == 1:
    for n in ('apply_fn', 'loss_fn', 'label_pred_fn'): ctx.ob('own-functions', w, q.kws(mk[0]).get(n) is sym(n), f'{n} of the evaluation step is {t.show(q.kws(mk[0]).get(n, NONE), 3)}')
    low = [y for y in t.subterms(fn) if q.is_mcall(y, 'lower')]
    for y in low:
      for n, k in ((2, 'image'), (3, 'labels'), (4, '__valid__')):
        if n < len(y.args[1]):
          g = dicts.rewrite(y.args[1][n])
          want = t.item(raw('call', raw('opaque', SDS), (one,), ()), const(k))
          if g is want: ctx.ob('compiled-for-own-shapes', w, True)
          elif t.contains(g, lambda z: z.op == 'item' and t.is_const(z.args[1]) and z.args[1].args[1] in ('image', 'labels', '__valid__') and z.args[1].args[1] != k): ctx.ob('compiled-for-own-shapes', w, False, f'argument {n} is compiled for {t.show(g, 4)}')
          elif not t.mentions(g, l.idx): ctx.ob('compiled-for-own-shapes', w, False, 'the step is compiled for the shapes of another data set')
  else: ctx.undecided('own-functions', w, f'{len(mk)} compiled steps')
  cache_keys(ctx, w)
  rs = [x for x in r.events if x.kind == 'call' and x.fn.op == 'attr' and x.fn.args[1] == 'reset' and x.loops and x.loops[-1] is l]
  ok = any(x.fn.args[0] is one and x.pc is TRUE for x in rs)
  if ok or not rs: ctx.ob('data-reset', w, ok, 'the iterator of the data set is not reset for the next evaluation')
  elif any(x.fn.args[0] is one for x in rs): ctx.ob('data-reset', w, False, f'the iterator is reset only if {t.show(t.val([x for x in rs if x.fn.args[0] is one][0].pc), 4)}')
  else: ctx.undecided('data-reset', w, t.show(rs[0].fn, 3))
  res = raw('call', e.fn, tuple(e.args), tuple(e.kwargs))
  ratio = lambda f: t.div(t.attr(res, f), t.attr(res, 'num'))
  want = {'/prec@1': ratio('sum_correct'), '/loss': ratio('sum_loss')}
  report(ctx, r, w, S, extra, l, name, want)


def cache_keys(ctx, w):
  """The cache of compiled functions distinguishes the data sets."""
  import ast
  m = ctx.eng.module(P)
  for n in ast.walk(m.tree):
    if not isinstance(n, ast.FunctionDef): continue
    for d in n.decorator_list:
      if not (isinstance(d, ast.Call) and ast.unparse(d.func).endswith('cachetools.cached')): continue
      ks = [k.value for k in d.keywords if k.arg == 'key']
      if not ks or not isinstance(ks[0], ast.Lambda): continue
      ps = [a.arg for a in ks[0].args.args]
      used = {x.id for x in ast.walk(ks[0].body) if isinstance(x, ast.Name)}
      ctx.ob('cache-key', f'{w} {n.name}', bool(ps) and ps[0] in used or bool(ks[0].args.vararg and ks[0].args.vararg.arg in used), f'the compiled function of one data set is used for another: key {ast.unparse(ks[0])}')


def written(ctx, r, w, S, has):
  """The event that writes the metrics whose names contain `has`, checked for the step."""
  ws = [e for e in r.events if e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[1] == 'write_scalars' and len(e.args) == 2 and
        t.contains(e.args[1], lambda y: t.is_const(y) and isinstance(y.args[1], str) and has in y.args[1])]
  if not ws:
    ctx.undecided('written', w, 'no metrics written')
    return None
  for e in ws: ctx.ob('written-step', w, e.args[0] is S, f'metrics are written for step {t.show(e.args[0], 3)}')
  live = [e for e in ws if e.pc is TRUE]
  ctx.ob('written', w, len(live) == len(ws) or len(ws) > 1, f'metrics are written only if {t.show(t.val(ws[0].pc), 4)}')
  return ws[-1] if len(ws) == 1 else None


def passed_on(ctx, w, D, extra):
  k = sym('<other name>')
  if not t.mentions(D, extra):
    ctx.ob('extra-metrics', w, False, 'further values given to the hook are not written')
    return
  val = t.item(extra, k)
  for y in sorted({y for y in t.subterms(D) if t.mentions(y, extra) and y.op in ('dictupd', 'dictmerge', 'dict', 'setitem', 'map')}, key=lambda y: y.uid):
    try:
      c, v = dicts.comp(y, k, 0) if y.op == 'map' else dicts.look(y, k)
    except dicts.Opaque:
      continue
    c = t.assume(dicts.rewrite(t.val(c)), {t.in_(k, extra): True, raw('is', *sorted([NONE, val])): False})
    if v is None: continue
    ctx.ob('extra-metrics', w, t.cond(c) is TRUE and dicts.rewrite(v) is val or bool(t.inner_atoms(c)), f'{t.show(val, 2)} is written as {t.show(v, 3)}')
    return
  ctx.undecided('extra-metrics', w, t.show(D, 3))


def report(ctx, r, w, S, extra, l, name, want):
  key = list(want)[0]
  e = written(ctx, r, w, S, key.strip('/'))
  if e is None: return
  inside = l in e.loops
  D = e.args[1]
  passed_on(ctx, w, D, extra)
  if inside: bodies = [D]
  else:
    fs = [y for y in t.subterms(D) if y.op == 'item' and y.args[0].op == 'fold' and y.args[0].args[0] is l.domain and t.is_const(y.args[1])]
    bodies = []
    for y in sorted(set(fs), key=lambda y: y.uid):
      f = y.args[0]
      ss, body = t.open_lam(f.args[2])
      nx = t.item(body, y.args[1])
      nx = t.subst(nx, {ss[0]: l.idx})
      if t.contains(nx, lambda z: t.is_const(z) and isinstance(z.args[1], str) and key.strip('/') in z.args[1]): bodies.append(nx)
    ms = [y for y in t.subterms(D) if y.op == 'map' and y.args[1] is l.domain]
  if len(bodies) != 1:
    ctx.undecided('own-metrics', w, t.show(D, 4))
    return
  for suf, v in want.items():
    try:
      c, g = dicts.look(bodies[0], t.strcat([name, const(suf)]))
    except dicts.Opaque as ex:
      ctx.undecided('own-metrics', w, str(ex))
      continue
    if g is None or t.cond(c) is not TRUE:
      ctx.ob('own-metrics', w, g is not None and t.cond(c) is not FALSE and bool(t.cond_atoms(c)) and t.mentions(bodies[0], const(suf)), f'<name>{suf} is not written for every data set')
      if g is None: continue
    g = dicts.rewrite(sync(g))
    g = strip(g)
    v = dicts.rewrite(sync(v))
    ctx.ob('own-metrics', w, g is v, f'<name>{suf} is {t.show(g, 3)}, not {t.show(v, 3)}')


def strip(x):
  while q.is_call(x, 'float', 'numpy.asarray', 'jax.numpy.asarray', 'numpy.float32') and len(x.args[1]) == 1: x = x.args[1][0]
  return x


def zeroshot(ctx):
  path = 'vmoe.projects.contrastive.evaluators:ZeroShotPeriodicAction._make_callback_fn'
  if ctx.eng.find(path) is None: return
  S, Tm, vs, extra = sym('step'), sym('time'), sym('variables'), sym('extra')
  r = ctx.analyze(path, bind=dict(report_progress=NONE), then=[S, Tm, vs], then_kw=[(raw('kwstar'), extra)])
  w = f'{r.file} ZeroShotPeriodicAction'
  ev = [e for e in r.events if e.kind == 'call' and e.fn is t.attr(sym('evaluator'), 'evaluate')]
  if len(ev) != 1 or len(ev[0].loops) != 1:
    ctx.undecided('per-task', w, f'{len(ev)} evaluations')
    return
  e, l = ev[0], ev[0].loops[-1]
  dom = t.attr(sym('evaluator'), 'datasets')
  task = raw('nth', l.domain, l.idx)
  ctx.ob('every-task', w, l.domain in (dom, raw('keys', dom)) and e.pc is TRUE and l.early is FALSE, f'the evaluated tasks are {t.show(l.domain, 3)}')
  ctx.ob('own-parameters', w, bool(e.args) and e.args[0] is vs, 'the evaluation does not use the variables it is given')
  ctx.ob('own-task', w, len(e.args) > 1 and e.args[1] is task or q.ekw(e, 'dataset_name') is task, f'evaluated on {t.show(e.args[1], 3) if len(e.args) > 1 else None}')
  res = raw('call', e.fn, tuple(e.args), tuple(e.kwargs))
  nm = t.strcat([sym('report_progress_name'), const('/'), task])
  report(ctx, r, w, S, extra, l, nm, {'/accuracy': t.item(res, const('accuracy'))})


def retrieval(ctx):
  path = 'vmoe.projects.contrastive.evaluators:RetrievalPeriodicAction._make_callback_fn'
  if ctx.eng.find(path) is None: return
  S, Tm, vs, extra = sym('step'), sym('time'), sym('variables'), sym('extra')
  r = ctx.analyze(path, bind=dict(report_progress=NONE), then=[S, Tm, vs], then_kw=[(raw('kwstar'), extra)])
  w = f'{r.file} RetrievalPeriodicAction'
  ev = [e for e in r.events if e.kind == 'call' and e.fn is t.attr(sym('evaluator'), 'evaluate')]
  if len(ev) != 1:
    ctx.undecided('retrieval', w, f'{len(ev)} evaluations')
    return
  e = ev[0]
  ctx.ob('own-parameters', w, bool(e.args) and e.args[0] is vs, 'the evaluation does not use the variables it is given')
  res = raw('call', e.fn, tuple(e.args), tuple(e.kwargs))
  we = written(ctx, r, w, S, 'duration_secs')
  if we is None: return
  D = we.args[1]
  passed_on(ctx, w, D, extra)
  for way in ('txt2img', 'img2txt'):
    src = t.item(res, const(way))
    ms = [m for m in t.subterms(D) if m.op == 'map' and t.mentions(m, src) and m.args[1] is raw('keys', src)]
    ms = sorted(set(ms), key=lambda m: m.uid)
    if not ms:
      ctx.ob('own-metrics', w, t.mentions(D, src), f'the {way} metrics are not written')
      ctx.undecided('own-metrics', w, way)
      continue
    for m in ms:
      (i,), b = t.open_lam(m.args[0])
      kk = raw('nth', m.args[1], i)
      if b.op != 'tuple' or len(b.args) != 2: continue
      ctx.ob('own-metrics', w, b.args[1] is t.item(src, kk), f'a {way} metric is {t.show(b.args[1], 3)}')
      ctx.ob('own-metrics', w, b.args[0] is t.strcat([sym('report_progress_name'), const('/'), sym('task'), const(f'/{way}/'), kk]), f'{way} metrics are called {t.show(b.args[0], 4)}')
      ctx.ob('own-metrics', w, m.args[2] is TRUE, f'some {way} metrics are not written')

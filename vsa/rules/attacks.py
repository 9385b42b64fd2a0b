"""C30: adversarial attacks stay within their budget and are reported truthfully."""
from .. import dicts, q, tensor as tz, terms as t, tq
from ..framework import prop
from ..terms import T, NONE, FALSE, TRUE, const, glob, raw, sym
from .evaluation import sync
from .moe import spec
from .optim import is_mean, is_op

A = 'vmoe.projects.adversarial_attacks'
B, C, N, E, G, S, K = [sym(n) for n in 'BCNEGSK']
MAP = 'jax.tree.map'


def leaf(x):
  """Pytree laws: a map over a literal tuple is the tuple of maps; otherwise reason about one (any) leaf."""
  memo = {}
  def mp(f, args):
    if all(a.op in ('tuple', 'list') for a in args) and len({len(a.args) for a in args}) == 1: return raw('tuple', *[mp(f, [a.args[k] for a in args]) for k in range(len(args[0].args))])
    return go(t.beta(f, args))
  def f(y):
    if q.is_call(y, MAP) and y.args[1] and y.args[1][0].op == 'lam' and not y.args[2] and y.args[1][0].args[1] == len(y.args[1]) - 1: return mp(y.args[1][0], [go(a) for a in y.args[1][1:]])
    if y.op == 'item' and isinstance(y.args[1], T): return t.item(go(y.args[0]), go(y.args[1]))
    return None
  def go(y): return t.transform(y, f, memo)
  return go(x)


def field(s, n):
  return dict(s.args[1]).get(n) if s.op == 'obj' else t.attr(s, n)


@prop('C30', 'Value-flow normal form of the attack loop (step size times number of updates, sign of the gradient of the given loss), index-notation normal forms of the accumulated statistics, pairing of before/after values, and flow of the statistics to the reports.', floor=30)
def c30(ctx):
  ctx.section(pgd)
  for v in (True, False): ctx.section(stateful, v)
  ctx.section(created)
  ctx.section(iou)
  ctx.section(predictions)
  ctx.section(selected)
  ctx.section(auxiliary)
  ctx.section(run)
  ctx.section(stored)
  ctx.section(storage)
  ctx.section(training)
  for f in (mesh_of, losses_of, restored, data_of, written): ctx.section(f)


def budget(ctx, w, x, images, eps, n, loss_of):
  """x = the image after n updates."""
  if q.is_call(x, 'jax.numpy.clip', 'jax.lax.clamp'):
    ctx.undecided('budget', w, 'clipped attack')
    return
  if not (q.is_call(x, 'jax.lax.fori_loop') and len(x.args[1]) == 4 and x.args[1][2].op == 'lam'):
    ctx.undecided('budget', w, t.show(x, 3))
    return
  lo, hi, f, x0 = x.args[1]
  ctx.ob('starts-from-image', w, x0 is images, f'the attack starts from {t.show(x0, 3)}')
  (i, c), b = t.open_lam(f)
  rounds = t.sub(hi, lo)
  p = t.poly_of(t.sub(b, c))
  mono = [(m, co) for m, co in p.items()]
  sg = [y for m, _ in mono for y, e in m if q.is_call(y, 'jax.numpy.sign', 'numpy.sign', 'jax.lax.sign') and e == 1]
  if len(mono) != 1 or len(sg) != 1:
    if t.mentions(b, c) and not sg and len(mono) == 1 and t.contains(b, lambda y: y.op == 'grad'): ctx.ob('budget', w, False, f'an update changes a pixel by {t.show(t.sub(b, c), 4)}, which is not bounded by the step size')
    else: ctx.undecided('budget', w, t.show(b, 4))
    return
  step = t.div(t.sub(b, c), sg[0])
  tot = t.mul(step, rounds)
  if tot is eps: ctx.ob('budget', w, True)
  else:
    from .. import arith
    ok = arith.equal(tot, eps)
    if ok is None: ctx.undecided('budget', w, t.show(tot, 4))
    else: ctx.ob('budget', w, ok, f'{t.show(rounds, 3)} updates of size {t.show(step, 4)} change a pixel by up to {t.show(tot, 4)}, not {t.show(eps, 3)}')
  g = sg[0].args[1][0]
  if g.op != 'grad':
    ctx.undecided('ascent', w, t.show(g, 3))
    return
  obj, at = g.args[0], g.args[1]
  ctx.ob('current-image', w, at is c, 'the gradient is not taken at the current image')
  pp = t.poly_of(obj)
  if len(pp) == 1:
    (m, co), = pp.items()
    if len(m) == 1 and m[0][1] == 1 and isinstance(co, (int, float)):
      ctx.ob('ascent', w, co > 0, 'the attack decreases the loss')
      obj = m[0][0]
  l = is_mean(obj)
  if l is None: l = obj.args[1][0] if q.is_call(obj, 'jax.numpy.sum') and len(obj.args[1]) == 1 and not obj.args[2] else None
  if l is None: ctx.undecided('ascent', w, t.show(obj, 3))
  else: loss_of(l, c)


def pgd(ctx):
  r = ctx.analyze(f'{A}.attacks:stateless_attack_pgd')
  w = f'{r.file} stateless_attack_pgd'
  im, lb = sym('images'), sym('labels')
  x = t.item(r.ret, const(0))
  def loss_of(l, c):
    if not (l.op == 'call' and l.args[0] is sym('loss_fn')):
      ctx.ob('ascent', w, not (l.op == 'poly' and t.contains(l, lambda y: y.op == 'call' and y.args[0] is sym('loss_fn'))), f'the attacked objective is {t.show(l, 4)}, not the loss')
      ctx.undecided('ascent', w, t.show(l, 3))
      return
    a = l.args[1]
    f = a[0].args[0] if a and a[0].op == 'item' else NONE
    ok = f.op == 'call' and f.args[0] is sym('apply_fn') and bool(f.args[1]) and f.args[1][0] is c
    ctx.ob('ascent', w, ok and t.is_const(a[0].args[1], 0), 'the attacked loss is not that of the current image')
    ctx.ob('ascent', w, len(a) > 1 and a[1] is lb, f'the attacked loss is taken for the labels {t.show(a[1], 3) if len(a) > 1 else None}')
    ctx.ob('ascent', w, len(a) > 2 and a[2] is t.item(f, const(1)), 'the metrics of the same forward pass do not reach the loss')
  budget(ctx, w, x, im, sym('max_epsilon'), sym('num_updates'), loss_of)


def attack_calls(r):
  st, x, y = r.obj, sym('x'), sym('y')
  rn = t.attr(st, 'rngs')
  att = raw('call', sym('stateless_attack_fn'), (x, y, rn), ())
  xm, rm = t.item(att, const(0)), t.item(att, const(1))
  f = sym('compute_loss_predict_correct_cw_fn')
  return xm, rm, raw('call', f, (x, y, rn), ()), raw('call', f, (xm, y, rm), ())


def stateful(ctx, masked):
  st = ctx.eng.obj_of(f'{A}.attacks:AttackState')
  bind = dict(attack_state=st)
  valid = sym('valid')
  none = raw('is', *sorted([NONE, valid]))
  r = ctx.analyze(f'{A}.attacks:stateful_attack', bind=bind)
  r.obj = st
  w = f'{r.file} stateful_attack({"with" if masked else "without"} valid mask)'
  xm, rm, before, after = attack_calls(r)
  fs = sorted({y for y in t.subterms(r.ret) if y.op == 'call' and y.args[0] is sym('compute_loss_predict_correct_cw_fn')}, key=lambda y: y.uid)
  at = sorted({y for y in t.subterms(r.ret) if y.op == 'call' and y.args[0] is sym('stateless_attack_fn')}, key=lambda y: y.uid)
  for y in at: ctx.ob('attacked-images', w, list(y.args[1][:2]) == [sym('x'), sym('y')], 'the attack is not run on the images and labels of the batch')
  if len(at) != 1 or len(fs) != 2:
    ctx.undecided('before-after', w, f'{len(at)} attacks, {len(fs)} evaluations')
    return
  xm = t.item(at[0], const(0))
  first = [y for y in fs if y.args[1][0] is sym('x')]
  second = [y for y in fs if y.args[1][0] is xm]
  ctx.ob('before-after', w, len(first) == 1 and len(second) == 1, 'the two evaluations are not those of the original and the attacked images')
  if len(first) != 1 or len(second) != 1: return
  before, after = first[0], second[0]
  for y in fs: ctx.ob('own-labels', w, y.args[1][1] is sym('y'), 'the evaluation is not run with the labels of the batch')
  ret = leaf(t.assume(r.ret, {none: not masked}))
  ctx.ob('attacked-returned', w, t.item(ret, const(1)) is xm, f'the returned images are {t.show(t.item(ret, const(1)), 3)}')
  state = t.item(ret, const(0))
  comp = lambda c, k: t.item(c, const(k))
  def tens():
    z = tz.Tensor()
    z.declare(valid, [B])
    z.declare(sym('x'), [B, '...'])
    z.declare(sym('y'), [B, C])
    for c in (before, after):
      for k in (0, 1, 2): z.declare(comp(c, k), [B])
      z.declare(comp(c, 3), [B, N, E])
    for n in ('num_images', 'num_changes', 'sum_iou_experts'): z.env[t.attr(st, n)] = tz.Arr((), t.attr(st, n))
    for n in ('num_correct', 'sum_loss'): z.declare(t.attr(st, n), [const(2)])
    return z
  fixed = {none: not masked}
  def check(rule, what, got, *wants, **kw):
    with tq.Dec(ctx, rule, f'{w} {what}'):
      z = tens()
      g = z.arr(tq.resolve(z, got, fixed))
      ws = [z.arr(tq.resolve(z, x, fixed)) for x in wants]
      ctx.ob(rule, f'{w} {what}', any(z.same(g, v) for v in ws), f'{z.show(g)}, not {z.show(ws[0])}')
  sp = lambda n, **kw: spec(ctx, n, 'attacks', **kw)
  sfx = '' if masked else '_all'
  tot = lambda k: sp('total2' + sfx, a=comp(before, k), b=comp(after, k), valid=valid)
  ch = dict(y_0=comp(before, 1), y_m=comp(after, 1), valid=valid)
  mk = lambda x: sp('masked' if masked else 'unmasked', a=x, valid=valid)
  sums = {
      'num_images': [sp('count' + sfx, x=sym('x'), valid=valid)],
      'num_changes': [sp('changes', **ch), sp('changes2', **ch)] if masked else [sp('changes_all', **ch)],
      'num_correct': [tot(2)], 'sum_loss': [tot(0)],
      'sum_iou_experts': [sp('iou', a=mk(comp(before, 3)), b=mk(comp(after, 3)))],
  }
  for n, ws in sums.items():
    g = field(state, n)
    if g is None:
      ctx.ob('accumulated', w, False, f'{n} is not updated')
      continue
    check('accumulated', n, g, *[t.add(t.attr(st, n), x) for x in ws])
  ctx.ob('keys', w, field(state, 'rngs') is not t.attr(st, 'rngs'), 'every batch is attacked with the same keys')
  outs = {2: (before, 0), 3: (after, 0), 4: (before, 1), 5: (after, 1), 6: (before, 3), 7: (after, 3)}
  nm = {2: 'loss before', 3: 'loss after', 4: 'prediction before', 5: 'prediction after', 6: 'combine weights before', 7: 'combine weights after'}
  for k, (c, j) in outs.items(): check('outputs', nm[k], t.item(ret, const(k)), mk(comp(c, j)), comp(c, j))


def created(ctx):
  r = ctx.analyze(f'{A}.attacks:AttackState.create')
  w = f'{r.file} AttackState.create'
  if r.ret.op != 'obj':
    ctx.undecided('zero-statistics', w, t.show(r.ret, 3))
    return
  f = dict(r.ret.args[1])
  for n in ('num_images', 'num_changes', 'num_correct', 'sum_loss'):
    v = f.get(n, NONE)
    z = q.is_call(v, 'jax.numpy.zeros') or t.is_const(v) and v.args[1] == 0
    if z or t.is_const(v) or q.is_call(v, 'jax.numpy.ones', 'jax.numpy.full', 'jax.numpy.empty'): ctx.ob('zero-statistics', w, z, f'{n} starts at {t.show(v, 3)}')
    else: ctx.undecided('zero-statistics', w, n)
  v = f.get('sum_iou_experts', NONE)
  try:
    c, x = dicts.look(v, sym('k'))
    ctx.ob('zero-statistics', w, q.is_call(x, 'jax.numpy.zeros') or t.is_const(x) and x.args[1] == 0, f'the overlap of a router starts at {t.show(x, 3)}')
    ctx.ob('every-router', w, t.cond(c) is t.cond(t.in_(sym('k'), sym('router_keys'))), f'routers are tracked if {t.show(t.val(c), 3)}')
  except dicts.Opaque as e: ctx.undecided('zero-statistics', w, str(e))
  ctx.ob('keys', w, f.get('rngs') is sym('rngs'), 'the keys of the state are not the given ones')


def same(ctx, rule, w, z, x, want, fixed=None):
  g, v = z.arr(tq.resolve(z, x, fixed)), z.arr(tq.resolve(z, want, fixed))
  ctx.ob(rule, w, z.same(g, v), f'{z.show(g)}, not {z.show(v)}')


def iou(ctx):
  r = ctx.analyze(f'{A}.attacks:sum_intersection_over_union')
  w = f'{r.file} sum_intersection_over_union'
  with tq.Dec(ctx, 'overlap', w):
    z = tz.Tensor()
    for n in 'ab': z.declare(sym(n), [B, N, E])
    same(ctx, 'overlap', w, z, r.ret, spec(ctx, 'iou', 'attacks', a=sym('a'), b=sym('b')))


def predictions(ctx):
  GC = f'{A}.restore.get_combine_weights'
  r = ctx.analyze(f'{A}.restore:compute_loss_predict_cw_fn', opaque=[GC, f'{A}.restore.router_filter'])
  w = f'{r.file} compute_loss_predict_cw_fn'
  x, y = sym('x'), sym('y')
  fw = sorted({c for c in t.subterms(r.ret) if c.op == 'call' and c.args[0] is sym('apply_fn')}, key=lambda c: c.uid)
  if len(fw) != 1:
    ctx.undecided('one-forward-pass', w, f'{len(fw)} forward passes')
    return
  f = fw[0]
  ctx.ob('one-forward-pass', w, bool(f.args[1]) and f.args[1][0] is x, 'the model is not applied to the given images')
  out = t.item(f, const(0))
  lg, me = t.item(out, const(0)), t.item(out, const(1))
  ctx.ob('loss', w, t.item(r.ret, const(0)) is raw('call', sym('loss_fn'), (lg, y, me), ()), f'the loss is {t.show(t.item(r.ret, const(0)), 4)}')
  for k, n in ((1, 'predicted'), (2, 'correct')):
    with tq.Dec(ctx, n, w):
      z = tz.Tensor()
      z.declare(lg, [B, C])
      z.declare(y, [B, C])
      same(ctx, n, w, z, t.item(r.ret, const(k)), spec(ctx, n, 'attacks', logits=lg, **(dict(y=y) if k == 2 else {})))
  cw = t.item(r.ret, const(3))
  src = raw('call', raw('opaque', GC), (t.item(f, const(1)),), ())
  with tq.Dec(ctx, 'per-image-weights', w):
    z = tz.Tensor()
    z.declare(x, [B, '...'])
    z.declare(src, [t.mul(B, N), E])
    same(ctx, 'per-image-weights', w, z, leaf(cw), spec(ctx, 'per_image', 'attacks', m=src, batch_size=B))


def selected(ctx):
  r = ctx.analyze(f'{A}.restore:get_combine_weights')
  w = f'{r.file} get_combine_weights'
  i = sym('intermediates')
  x = t.assume(r.ret, {t.in_(const('intermediates'), i): True})
  fl = sorted({y for y in t.subterms(x) if q.is_call(y, 'flax.traverse_util.flatten_dict')}, key=lambda y: y.uid)
  if len(fl) != 1:
    ctx.undecided('selected', w, f'{len(fl)} flattened trees')
    return
  try:
    c, v = dicts.look(x, sym('k'))
  except dicts.Opaque as e:
    ctx.undecided('selected', w, str(e))
    return
  c = dicts.rewrite(t.val(c))
  ctx.ob('every-layer', w, t.cond(c) is t.cond(t.in_(sym('k'), fl[0])), f'the layers reported are those with {t.show(c, 4)}')
  v = dicts.rewrite(v)
  d0 = t.item(t.item(t.item(fl[0], sym('k')), const(0)), const(0))
  cls = lambda n: raw('cls', f'vmoe.moe.{n}')
  for bf in (True, False):
    d = t.attr(d0, 'dispatcher') if bf else d0
    for kind in ('Einsum', 'ExpertIndices'):
      lits = {raw('isinstance', d0, cls('Bfloat16Dispatcher')): bf}
      y = t.assume(v, lits)
      l2 = {a: (a.args[1] is cls(f'{kind}Dispatcher')) for a in t.inner_atoms(y) if a.op == 'isinstance' and a.args[0] is d}
      y = t.assume(y, l2)
      ww = f'{w} ({kind}Dispatcher{", bfloat16" if bf else ""})'
      with tq.Dec(ctx, 'selected', ww):
        z = tz.Tensor()
        cw, ind, ne = t.attr(d, 'combine_weights'), t.attr(d, 'indices'), t.attr(d, 'num_experts')
        if kind == 'Einsum':
          z.declare(cw, [G, S, E, C])
          want = spec(ctx, 'selected_einsum', 'attacks', w=cw)
        else:
          z.declare(cw, [G, S, K])
          z.declare(ind, [G, S, K, const(2)])
          z.size_env[ne] = E
          want = spec(ctx, 'selected_indices', 'attacks', w=cw, indices=ind, num_experts=ne)
        same(ctx, 'selected', ww, z, y, want)


def auxiliary(ctx):
  r = ctx.analyze(f'{A}.restore:get_loss_including_auxiliary_fn', then=[sym('logits'), sym('labels'), sym('metrics')], opaque=[f'{A}.restore.get_loss_fn'])
  w = f'{r.file} get_loss_including_auxiliary_fn'
  base = [y for y in t.subterms(r.ret) if y.op == 'call' and is_op(y.args[0], f'{A}.restore.get_loss_fn') and list(y.args[1]) == [sym('logits'), sym('labels')]]
  if not base:
    ctx.undecided('attacked-loss', w, t.show(r.ret, 4))
    return
  b = base[0]
  fl = raw('truth', sym('attack_auxiliary_loss'))
  off, on = t.assume(r.ret, {fl: False}), t.assume(r.ret, {fl: True})
  ctx.ob('attacked-loss', w, off is b, f'without the auxiliary loss the attacked loss is {t.show(off, 4)}')
  aux = t.item(sym('metrics'), const('auxiliary_loss'))
  ctx.ob('attacked-loss', w, on is t.add(b, raw('call', glob('jax.numpy.mean'), (aux,), ())) or on is t.add(b, aux), f'with the auxiliary loss the attacked loss is {t.show(on, 4)}')


def run(ctx):
  RC, GD, SV, SA, PF = f'{A}.restore.restore_from_config', f'{A}.lib.get_dataset', f'{A}.lib.savez_compressed', f'{A}.attacks.stateful_attack', 'vmoe.data.pjit_utils.prefetch_to_device'
  op = [RC, GD, SV, SA, PF, 'vmoe.data.input_pipeline.get_data_num_examples', 'vmoe.partitioning.log_logical_mesh', f'{A}.restore.create_mesh', 'vmoe.utils.make_rngs', f'{A}.restore.compute_loss_predict_cw_fn', f'{A}.attacks.stateless_attack_pgd']
  r = ctx.analyze(f'{A}.lib:run_pgd_attack', opaque=op)
  w = f'{r.file} run_pgd_attack'
  cf = sym('config')
  ev = [e for e in r.events if e.kind == 'call' and e.fn.op == 'opaque' and e.fn.args[0] == SA]
  if len(ev) != 1 or len(ev[0].loops) != 1:
    ctx.undecided('run', w, f'{len(ev)} attack sites')
    return
  e, l = ev[0], ev[0].loops[-1]
  ctx.ob('every-batch', w, e.pc is TRUE and l.early is FALSE, f'a batch is attacked only if {t.show(t.val(e.pc), 3)}')
  dom = l.domain
  if is_op(dom, PF): ctx.ob('every-batch', w, is_op(q.kws(dom).get('iterator', dom.args[1][0] if dom.args[1] else NONE), GD), f'the attacked data is {t.show(dom, 3)}')
  else: ctx.undecided('every-batch', w, t.show(dom, 3))
  b = raw('nth', dom, l.idx)
  call = raw('call', e.fn, tuple(e.args), tuple(e.kwargs))
  for k, n in ((1, 'image'), (2, 'labels'), (3, '__valid__')):
    g = e.args[k] if k < len(e.args) else q.ekw(e, ('', 'x', 'y', 'valid')[k], None, NONE)
    ctx.ob('batch-arguments', w, g is t.item(b, const(n)), f'{n} of the attack is {t.show(g, 3)}')
  s = e.args[0] if e.args else NONE
  if s in l.phis:
    ini, nxt = l.phis[s][1], l.phis[s][2]
    ctx.ob('threaded', w, nxt is t.item(call, const(0)), f'the next batch continues from {t.show(nxt, 3)}')
  else: ctx.ob('threaded', w, False, f'every batch starts from {t.show(s, 3)}: only the last batch is counted')
  rc = sorted({y for y in t.subterms(call) if is_op(y, RC)}, key=lambda y: y.uid)
  for nm, inner, kws in (('stateless_attack_fn', 'stateless_attack_pgd', {'max_epsilon': t.attr(cf, 'max_epsilon'), 'num_updates': t.attr(cf, 'num_updates')}), ('compute_loss_predict_correct_cw_fn', 'compute_loss_predict_cw_fn', {})):
    f = q.ekw(e, nm)
    if f is None or f.op != 'lam' or f.args[1] != 3 or len(rc) != 1:
      ctx.undecided('attack-functions', w, nm)
      continue
    (x, y, z), body = t.open_lam(f)
    if body.op == 'tuple' and body.args and all(c.op == 'item' and c.args[0] is body.args[0].args[0] and t.is_const(c.args[1], k) for k, c in enumerate(body.args)): body = body.args[0].args[0]
    if not (body.op == 'call' and body.args[0].op == 'opaque' and body.args[0].args[0].endswith(inner)):
      ctx.undecided('attack-functions', w, t.show(body, 3))
      continue
    kw = q.kws(body)
    ctx.ob('attack-functions', w, list(body.args[1][:3]) == [x, y, z], f'{inner} is not given the images, labels and keys it is called with')
    ctx.ob('attack-functions', w, kw.get('loss_fn') is t.item(rc[0], const(3)), f'{inner} uses the loss {t.show(kw.get("loss_fn", NONE), 3)}')
    for k, v in kws.items(): ctx.ob('attack-functions', w, kw.get(k) is v, f'{k} is {t.show(kw.get(k, NONE), 3)}')
    ap = kw.get('apply_fn', NONE)
    if ap.op == 'lam':
      ss, ab = t.open_lam(ap)
      ok = ab.op == 'call' and ab.args[0] is t.attr(t.item(rc[0], const(0)), 'apply') and list(ab.args[1][:2]) == [t.item(rc[0], const(1)), ss[0]]
      ctx.ob('attack-functions', w, ok, f'{inner} applies {t.show(ab, 3)}')
  # reports
  ws = [x for x in r.events if x.kind == 'call' and x.fn is t.attr(sym('writer'), 'write_scalars')]
  fin = None
  for k, x in enumerate(ws):
    D = t.transform(sync(x.args[1]), lambda y: None)
    fs = sorted({y for y in t.subterms(D) if y.op == 'item' and y.args[0].op == 'fold'}, key=lambda y: y.uid)
    if len(fs) != 1:
      ctx.undecided('reports', w, f'{len(fs)} final states')
      return
    fin = fs[0]
    n = t.attr(fin, 'num_images')
    at = x.args[0]
    first = t.is_const(at, 0)
    ctx.ob('report-step', w, first or at is t.attr(cf, 'num_updates'), f'statistics are reported for step {t.show(at, 3)}')
    j = const(0 if first else 1)
    want = {'error': t.sub(const(1), t.div(t.item(t.attr(fin, 'num_correct'), j), n)), 'loss': t.div(t.item(t.attr(fin, 'sum_loss'), j), n)}
    if not first: want['prediction_changes'] = t.div(t.attr(fin, 'num_changes'), n)
    for nm, v in want.items():
      g = lit(D, nm)
      if g is None: ctx.undecided('reports', w, nm)
      else: ctx.ob('reports', w, g is v, f'{nm} {"before" if first else "after"} the attack is {t.show(g, 4)}')
    for m in sorted({y for y in t.subterms(D) if y.op == 'map' and not first}, key=lambda y: y.uid):
      src = t.attr(fin, 'sum_iou_experts')
      if m.args[1] is not raw('keys', src): continue
      (i,), bd = t.open_lam(m.args[0])
      kk = raw('nth', m.args[1], i)
      if bd.op != 'tuple': continue
      ctx.ob('reports', w, bd.args[1] is t.sub(const(1), t.div(t.item(src, kk), n)), f'the routing changes of a router are {t.show(bd.args[1], 4)}')
      ctx.ob('reports', w, t.mentions(bd.args[0], kk) and m.args[2] is TRUE, 'routing changes are not reported for each router under its name')
  ctx.ob('reports', w, len(ws) >= 2 or not ws, 'statistics before and after the attack are not both reported')
  for x in [x for x in r.events if x.kind == 'call' and x.fn.op == 'opaque' and x.fn.args[0] == SV and fin is not None]:
    for k, v in x.kwargs:
      v = sync(v)
      if isinstance(k, str) and v.op == 'attr' and v.args[0] is fin: ctx.ob('saved-statistics', w, v.args[1] == k, f'{k} is saved as {v.args[1]}')
  st = [x for x in r.events if x.kind == 'call' and x.fn.op == 'attr' and x.fn.args[1] == 'store']
  names = {'x_0': t.item(b, const('image')), 'y': t.item(b, const('labels')), 'valid': t.item(b, const('__valid__')), 'x_m': t.item(call, const(1)), 'l_0': t.item(call, const(2)), 'l_m': t.item(call, const(3)),
           'y_0': t.item(call, const(4)), 'y_m': t.item(call, const(5))}
  ap = [x for x in r.events if x.kind == 'call' and x.fn.op == 'attr' and x.fn.args[1] == 'append' and l in x.loops and len(x.args) == 1]
  ds = [x.args[0].args[0] for x in ap if x.args[0].op == 'item'] + [raw('dict', *[(const(k), v) for k, v in x.kwargs if isinstance(k, str)]) for x in st]
  for D in ds[:1] + [d for d in ds[1:] if d.op == 'dict']:
    for n, v in names.items():
      g = lit(D, n)
      if g is not None: ctx.ob('stored-examples', w, g is v, f'{n} is stored as {t.show(g, 3)}')


def stored(ctx):
  """With `store_examples`, every process stores every batch and writes its own file; the run restores what it was told to."""
  RC, GD, SV, SA, PF, ES = f'{A}.restore.restore_from_config', f'{A}.lib.get_dataset', f'{A}.lib.savez_compressed', f'{A}.attacks.stateful_attack', 'vmoe.data.pjit_utils.prefetch_to_device', f'{A}.lib.ExampleStorage'
  op = [RC, GD, SV, SA, PF, ES, 'vmoe.data.input_pipeline.get_data_num_examples', 'vmoe.partitioning.log_logical_mesh', f'{A}.restore.create_mesh', 'vmoe.utils.make_rngs', f'{A}.restore.compute_loss_predict_cw_fn', f'{A}.attacks.stateless_attack_pgd']
  r = ctx.analyze(f'{A}.lib:run_pgd_attack', opaque=op)
  w = f'{r.file} run_pgd_attack'
  cf, PI = sym('config'), raw('call', glob('jax.process_index'), (), ())
  def at(pc, i=None):
    c, lits = t.val(pc), {}
    for a in t.cond_atoms(pc):
      if t.contains(a, lambda y: is_op(y, ES)) and a.op == 'truth': lits[a] = True
      elif a.op == 'is' and NONE in a.args and t.contains(a, lambda y: is_op(y, ES)): lits[a] = False
      elif t.contains(a, lambda y: t.is_const(y, 'store_examples')) or t.contains(a, lambda y: y.op == 'attr' and y.args[1] == 'store_examples'):
        lits[a] = False if a.op == 'is' and NONE in a.args else True
      elif i is not None and t.mentions(a, PI):
        b = t.subst(a, {PI: const(i)})
        if b.op == 'truth' and t.is_const(b.args[0]): lits[a] = bool(b.args[0].args[1])
        elif b in (TRUE, FALSE): lits[a] = b is TRUE
    return t.cond(t.assume(c, lits))
  calls = lambda pred: [e for e in r.events if e.kind == 'call' and pred(e)]
  es = calls(lambda e: is_op(raw('call', e.fn, tuple(e.args), tuple(e.kwargs)), ES))
  for e in es:
    fp = q.ekw(e, 'filepath', 0)
    for i in range(3): ctx.ob('stored-examples', w, at(e.pc, i) is not FALSE, f'process {i} does not store its examples')
    if fp is not None: ctx.ob('stored-examples', w, t.mentions(fp, PI), f'all the processes write their examples into {t.show(fp, 5)}')
  if not es: ctx.undecided('stored-examples', w, 'no storage')
  else:
    of = lambda e, n: e.fn.op == 'attr' and e.fn.args[1] == n and t.contains(e.fn.args[0], lambda y: is_op(y, ES))
    st, wr = calls(lambda e: of(e, 'store')), calls(lambda e: of(e, 'write'))
    for n, ev in (('stored', st), ('written', wr)):
      if not ev: ctx.ob('stored-examples', w, False, f'the examples are never {n}')
      for i in range(3): ctx.ob('stored-examples', w, not ev or any(at(e.pc, i) is not FALSE for e in ev), f'in process {i} the examples are not {n}')
      for e in ev:
        c = at(e.pc, 0)
        if c is TRUE: ctx.ob('stored-examples', w, True)
        elif c is not FALSE and e.loops: ctx.ob('stored-examples', w, not t.mentions(t.val(c), e.loops[-1].idx), f'examples are only {n} if {t.show(t.val(c), 3)}') if n == 'stored' else None
    if st and wr: ctx.ob('stored-examples', w, max(e.seq for e in wr) > min(e.seq for e in st), 'the examples are written before they are stored')
  rc = calls(lambda e: e.fn.op == 'opaque' and e.fn.args[0] == RC)
  for e in rc:
    pre = t.attr(t.attr(cf, 'restore'), 'prefix')
    g = q.ekw(e, 'prefix', 1)
    if g is not None: ctx.ob('attack-params', w, g is pre or t.contains(g, lambda y: y is pre or t.is_const(y, 'prefix')), f'the parameters are read from {t.show(g, 3)}')
    c = q.ekw(e, 'config', 0)
    if c is not None: ctx.ob('attack-params', w, c is cf, f'the model is that of {t.show(c, 3)}')
  for e in calls(lambda e: e.fn is t.attr(sym('writer'), 'write_scalars')):
    ctx.ob('reports', w, at(e.pc, 0) is not FALSE, 'the statistics are not reported by the first process')
  sv = calls(lambda e: e.fn.op == 'opaque' and e.fn.args[0] == SV)
  for e in sv: ctx.ob('saved-statistics', w, at(e.pc, 0) is not FALSE, 'the statistics are not saved by the first process')


def lit(D, name):
  """The value of a literal key in a dictionary that may also contain computed keys."""
  if D.op == 'dict':
    for k, v in D.args:
      if isinstance(k, T) and t.is_const(k, name): return v
    return None
  if D.op == 'setitem': return D.args[2] if t.is_const(D.args[1], name) else lit(D.args[0], name)
  if D.op in ('dictupd', 'dictmerge', 'delitem', 'dictof'):
    for x in D.args[::-1]:
      v = lit(x, name) if isinstance(x, T) else None
      if v is not None: return v
  if D.op == 'bin' and D.args[0] == '|': return lit(D.args[2], name) or lit(D.args[1], name)
  return None


def keys_of(d):
  """The dictionary whose keys a loop visits."""
  while d.op == 'keys' or q.is_call(d, 'list', 'tuple', 'sorted'): d = d.args[0] if d.op == 'keys' else d.args[1][0]
  return d


def hostval(x):
  """A sequence of values copied to the host one by one."""
  x = sync(x)
  if x.op == 'map' and x.args[2] is TRUE:
    (i,), b = t.open_lam(x.args[0])
    if q.is_call(b, 'numpy.asarray', 'numpy.array', 'jax.device_get') and b.args[1][0] is raw('nth', x.args[1], i): return x.args[1]
  return x


def storage(ctx):
  cls = f'{A}.lib:ExampleStorage'
  SV = f'{A}.lib.savez_compressed'
  r = ctx.analyze(f'{cls}._transfer')
  w = f'{r.file} ExampleStorage'
  sv = r.selfv
  tmp, dat = t.attr(sv, '_temp'), t.attr(sv, '_data')
  ex = [e for e in r.events if e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[1] == 'extend']
  if len(ex) != 1 or not ex[0].loops: ctx.undecided('transfer', w, f'{len(ex)} transfers')
  else:
    e, l = ex[0], ex[0].loops[-1]
    k = raw('nth', l.domain, l.idx)
    ctx.ob('transfer', w, keys_of(l.domain) is tmp and e.pc is TRUE and l.early is FALSE, f'only {t.show(l.domain, 3)} is transferred')
    ctx.ob('transfer', w, e.fn.args[0] is t.item(dat, k) and hostval(e.args[0]) is t.item(tmp, k), f'{t.show(e.args[0], 3)} is added to {t.show(e.fn.args[0], 3)}')
    cl = [x for x in r.events if x.seq > e.seq and ((x.kind == 'setitem' and x.args and x.args[0] is k) or (x.kind == 'call' and x.fn.op == 'attr' and x.fn.args[1] == 'clear')) and x.pc is TRUE]
    ctx.ob('transfer-once', w, bool(cl), 'transferred values stay in the temporary list and are stored again')
  r = ctx.analyze(f'{cls}.store', opaque=[f'{A}.lib.ExampleStorage._transfer'])
  ar = sym('**arrays')
  ap = [e for e in r.events if e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[1] == 'append']
  if len(ap) != 1 or not ap[0].loops: ctx.undecided('store', w, f'{len(ap)} appends')
  else:
    e, l = ap[0], ap[0].loops[-1]
    k = raw('nth', l.domain, l.idx)
    ctx.ob('store', w, keys_of(l.domain) is ar and e.pc is TRUE and l.early is FALSE, f'only {t.show(l.domain, 3)} is stored')
    ctx.ob('store', w, e.fn.args[0] is t.item(tmp, k) and e.args[0] is t.item(ar, k), f'{t.show(e.args[0], 3)} is stored in {t.show(e.fn.args[0], 3)}')
  r = ctx.analyze(f'{cls}.write', opaque=[f'{A}.lib.ExampleStorage._transfer', SV])
  tr = [e for e in r.events if e.kind == 'call' and t.contains(e.fn, lambda y: y.op == 'opaque' and y.args[0].endswith('_transfer') or y.op == 'attr' and y.args[1] == '_transfer')]
  sv_ = [e for e in r.events if e.kind == 'call' and e.fn.op == 'opaque' and e.fn.args[0] == SV]
  if not sv_: ctx.undecided('write', w, 'nothing saved')
  for e in sv_:
    ctx.ob('write-all', w, any(x.seq < e.seq and x.pc is TRUE for x in tr), 'values not yet transferred are lost when the examples are written')
    for k, v in e.kwargs:
      if isinstance(k, str): continue
      try:
        c, x = dicts.look(v, sym('k'))
      except dicts.Opaque: continue
      x = dicts.rewrite(x)
      ax = q.kwarg(x, 'axis', 1, const(0)) if q.is_call(x, 'numpy.concatenate') else None
      if ax is not None: ctx.ob('write', w, x.args[1][0] is t.item(dat, sym('k')) and t.is_const(ax, 0), f'an array is written as {t.show(x, 3)}')


def training(ctx):
  """Adversarial training: the wrapped step trains on the attacked images, with the budget it was given."""
  path = 'vmoe.train.trainer:wrap_train_step_with_adversarial_attack'
  pg = f'{A}.attacks.stateless_attack_pgd'
  f, lf = sym('train_step_fn'), sym('loss_fn')
  st, im, lb, ex, kk = (sym(k) for k in ('state', 'images', 'labels', 'extra', 'kk'))
  fn = 'wrap_train_step_with_adversarial_attack'
  def go(n, eps, aux, opaque):
    return ctx.analyze(path, bind=dict(num_updates=const(n), max_epsilon=const(eps), attack_auxiliary_loss=aux), then=[st, im, lb, ex], then_kw=[('k', kk)], opaque=opaque)
  for n, eps in ((0, .1), (1, 0.), (-1, 1.), (0, 0.)):
    r = go(n, eps, TRUE, [pg])
    w = f'{r.file} {fn}'
    direct = raw('call', f, (st, im, lb, ex), (('k', kk),))
    hit = [e for e in r.events if e.kind == 'call' and t.contains(e.fn, lambda y: y.op == 'fn' or y.op == 'glob') and 'attack_pgd' in t.show(e.fn, 3)]
    if r.ret is direct or r.ret is f: ctx.ob('train-off', w, True)
    elif hit or t.contains(r.ret, lambda y: y.op == 'call' and 'attack_pgd' in t.show(y.args[0], 3)): ctx.ob('train-off', w, False, f'with {n} updates and a budget of {eps} the step still attacks the images')
    else: ctx.undecided('train-off', w, t.show(r.ret, 3))
  for n, eps, aux in ((1, .1, TRUE), (5, 2., FALSE), (1, 1., FALSE), (2, .001, TRUE), (100, .5, FALSE)):
    r = go(n, eps, aux, [pg])
    w = f'{r.file} {fn}'
    ev = [e for e in r.events if e.kind == 'call' and 'attack_pgd' in t.show(e.fn, 3)]
    if not ev:
      if r.ret is raw('call', f, (st, im, lb, ex), (('k', kk),)) or r.ret is f: ctx.ob('train-attack', w, False, f'with {n} updates and a budget of {eps} the step does not attack the images')
      else: ctx.undecided('train-attack', w, t.show(r.ret, 3))
      continue
    ctx.ob('train-attack', w, len(ev) == 1, f'the images are attacked {len(ev)} times, each with the whole budget')
    e = ev[-1]
    a = dict(zip(('images', 'labels', 'rngs'), e.args))
    a.update({k: v for k, v in e.kwargs if isinstance(k, str)})
    for k, want in (('images', im), ('labels', lb), ('rngs', t.attr(st, 'rngs')), ('max_epsilon', const(eps)), ('num_updates', const(n))):
      got = a.get(k)
      if got is None: ctx.undecided('train-attack', e.where(), k)
      else: ctx.ob('train-attack', e.where(), got is want, f'the attack during training is given {k} = {t.show(got, 3)} instead of {t.show(want, 3)}')
    x = sym('img#')
    ap = a.get('apply_fn')
    if ap is not None and ap.op == 'lam':
      b = t.beta(ap, [x])
      if b.op == 'call' and b.args[0] is t.attr(st, 'apply_fn') or q.is_mcall(b, 'apply_fn'):
        pa = b.args[1]
        if len(pa) == 2:
          ctx.ob('train-attack', e.where(), pa[1] is x, 'the attacked model is not applied to the current image')
          has, v = dicts.look(pa[0], const('params')) or (None, None)
          if has is not True and has is not TRUE or v is None: ctx.undecided('train-attack', e.where(), t.show(pa[0], 3))
          else: ctx.ob('train-attack', e.where(), v is t.attr(st, 'params'), f'the attacked model uses the parameters {t.show(v, 3)} instead of the current ones')
        else: ctx.undecided('train-attack', e.where(), t.show(b, 3))
      else: ctx.undecided('train-attack', e.where(), t.show(b, 3))
    else: ctx.undecided('train-attack', e.where(), 'model of the attack')
    ls = a.get('loss_fn')
    if ls is not None and ls.op == 'lam' and ls.args[1] == 3:
      l, y, m = sym('lg#'), sym('lab#'), sym('met#')
      b = t.beta(ls, [l, y, m])
      au = t.item(m, const('auxiliary_loss'))
      main = raw('call', lf, (l, y), ())
      rest = t.sub(b, main)
      if aux is TRUE:
        mo = is_mean(rest)
        ok = True if mo is au else False if mo is not None or not t.mentions(b, au) or not t.mentions(b, main) or is_mean(t.neg(rest)) is au else None
      else: ok = True if t.is_const(rest, 0) else False if t.mentions(b, au) or not t.mentions(b, main) else None
      if ok is None: ctx.undecided('train-objective', e.where(), t.show(b, 4))
      else: ctx.ob('train-objective', e.where(), ok, f'the attack during training maximises {t.show(b, 5)} {"with" if aux is TRUE else "without"} attack_auxiliary_loss')
    else: ctx.undecided('train-objective', e.where(), 'attacked loss')
    z = [c for c in r.events if c.kind == 'call' and c.fn is f]
    if len(z) != 1:
      ctx.undecided('train-step', w, f'{len(z)} calls of the step')
      continue
    c = z[0]
    out = e.value if isinstance(getattr(e, 'value', None), T) else None
    if out is None:
      ctx.undecided('train-step', w, 'result of the attack')
      continue
    ctx.ob('train-step', c.where(), len(c.args) > 1 and c.args[1] is t.item(out, const(0)), f'the training step gets {t.show(c.args[1], 2) if len(c.args) > 1 else None} instead of the attacked images')
    ctx.ob('train-step', c.where(), len(c.args) > 2 and c.args[2] is lb, 'the training step does not get the labels of the batch')
    ctx.ob('train-step', c.where(), len(c.args) > 3 and c.args[3] is ex and dict(c.kwargs).get('k') is kk, 'the other arguments of the training step are lost')
    s = c.args[0] if c.args else NONE
    if q.is_mcall(s, 'replace') or s.op == 'call' and s.args[0].op == 'attr' and s.args[0].args[1] == 'replace':
      kv = dict(s.args[2])
      ctx.ob('train-rngs', c.where(), kv.get('rngs') is t.item(out, const(1)), 'the step after the attack does not continue with the random keys left by the attack')
    else: ctx.ob('train-rngs', c.where(), False, 'the step after the attack reuses the random keys of the attack') if s is st else ctx.undecided('train-rngs', c.where(), t.show(s, 3))
  r0 = ctx.analyze(f'{A}.attacks:stateless_attack_pgd')
  k0 = [e for e in r0.events if e.kind == 'call' and e.fn is sym('apply_fn')]
  r = go(3, .5, FALSE, [])
  k1 = [e for e in r.events if e.kind == 'call' and e.fn is t.attr(st, 'apply_fn')]
  if not k0 or not k1: ctx.undecided('train-attack', f'{r.file} {fn}', 'forward pass of the attack')
  else:
    want = {k for e in k0 for k, _ in e.kwargs if isinstance(k, str)}
    got = {k for e in k1 for k, _ in e.kwargs if isinstance(k, str)}
    if any(not isinstance(k, str) for e in k1 for k, _ in e.kwargs): ctx.undecided('train-attack', f'{r.file} {fn}', 'keyword arguments')
    else: ctx.ob('train-attack', k1[0].where(), want <= got, f'the model does not get {sorted(want - got)} from the attack')


def mesh_of(ctx):
  GL = 'vmoe.partitioning.get_auto_logical_mesh'
  r = ctx.analyze(f'{A}.restore:create_mesh', opaque=[GL])
  w = f'{r.file} create_mesh'
  n = list(r.params.values())[0]
  ev = [e for e in r.events if e.kind == 'call' and e.fn.op == 'opaque' and e.fn.args[0] == GL]
  if len(ev) != 1 or not ev[0].args:
    ctx.undecided('attack-mesh', w, f'{len(ev)} meshes')
    return
  a = dict(zip(('num_partitions', 'hardware_mesh'), ev[0].args))
  x = ev[0].args[0]
  dc = raw('call', glob('jax.device_count'), (), ())
  for k in (-3, -1, 0, 1, 5):
    g = t.subst(x, {n: t.add(dc, const(k))})
    want = dc if k >= 0 else t.add(dc, const(k))
    if g.op == 'ite' or q.is_call(g, 'min'): ctx.undecided('attack-mesh', w, t.show(g, 4))
    else: ctx.ob('attack-mesh', w, g is want, f'with {t.show(t.add(dc, const(k)), 3)} asked for there are {t.show(g, 3)} expert partitions')
  ctx.ob('attack-mesh', w, len(ev[0].args) < 2 or q.is_call(ev[0].args[1], 'jax.devices') and not ev[0].args[1].args[1], f'the mesh is made of {t.show(ev[0].args[1], 3) if len(ev[0].args) > 1 else "?"}')


def losses_of(ctx):
  a, b = sym('a'), sym('b')
  for name, fn in (('softmax_xent', 'optax.softmax_cross_entropy'), ('sigmoid_xent', 'optax.sigmoid_binary_cross_entropy')):
    r = ctx.analyze(f'{A}.restore:get_loss_fn', bind=dict(name=const(name)), then=[a, b])
    w = f'{r.file} get_loss_fn({name})'
    x = r.ret
    if any(e.pc is TRUE for e in q.raises(r)):
      ctx.ob('attack-loss', w, False, f'the loss {name} is refused')
      continue
    if name == 'sigmoid_xent':
      if q.is_call(x, 'jax.numpy.sum', 'numpy.sum') or q.is_mcall(x, 'sum'):
        ax = q.kwarg(x, 'axis', 1 if x.args[0].op == 'glob' else 0)
        ctx.ob('attack-loss', w, ax is not None and (t.is_const(ax, -1) or t.is_const(ax, 1)), 'the loss is summed over more than the classes')
        x = x.args[1][0] if x.args[0].op == 'glob' else x.args[0].args[0]
      else:
        if q.is_call(x, 'jax.numpy.mean', fn) or q.is_mcall(x, 'mean'): ctx.ob('attack-loss', w, False, f'the loss is {t.show(x, 3)}, not the sum over the classes')
        else: ctx.undecided('attack-loss', w, t.show(x, 3))
        continue
    if not (x.op == 'call' and x.args[0].op == 'glob'):
      ctx.undecided('attack-loss', w, t.show(x, 3))
      continue
    ctx.ob('attack-loss', w, t.is_glob(x.args[0], fn), f'the loss is {t.show(x, 3)}')
    ctx.ob('attack-loss', w, x.args[1][:2] == (a, b), f'the loss is of {t.show(x, 3)}')
    ctx.ob('attack-loss', w, any(not isinstance(k, str) for k, _ in x.args[2]), 'the options of the loss are not passed on')
  r = ctx.analyze(f'{A}.restore:get_loss_fn', bind=dict(name=const('unheard-of')))
  ctx.ob('attack-loss', f'{r.file} get_loss_fn', any(e.pc is TRUE for e in q.raises(r)), 'an unknown loss is accepted')


def restored(ctx):
  PC, TR, LF, MK, RS = 'vmoe.utils.parse_call', 'vmoe.partitioning.tree_axis_resources_from_regexes', f'{A}.restore.get_loss_including_auxiliary_fn', 'vmoe.utils.make_rngs', 'vmoe.checkpoints.partitioned.restore_checkpoint'
  r = ctx.analyze(f'{A}.restore:restore_from_config', opaque=[PC, TR, LF, MK, RS])
  w = f'{r.file} restore_from_config'
  cfg, prefix, shape, mesh = list(r.params.values())[:4]
  if r.ret.op != 'tuple' or len(r.ret.args) != 6:
    ctx.undecided('attack-model', w, t.show(r.ret, 2))
    return
  mod, var, res, lf, keys, extra = r.ret.args
  def opc(n): return [e for e in r.events if e.kind == 'call' and e.fn.op == 'opaque' and e.fn.args[0] == n]
  def opt(x, name):
    """config.name or config.get(name, ...)"""
    return x is t.attr(cfg, name) or x.op == 'getdef' and x.args[0] is cfg and t.is_const(x.args[1], name) or x.op == 'item' and x.args[0] is cfg and t.is_const(x.args[1], name)
  # the model
  if mod.op == 'call':
    ps = opc(PC)
    kv = dict((k, v) for k, v in mod.args[2] if isinstance(k, str))
    ctx.ob('attack-model', w, kv.get('deterministic') is TRUE, f'the attacked model has deterministic={t.show(kv["deterministic"], 2) if "deterministic" in kv else "as configured"}')
    if len(ps) == 1:
      pv = raw('call', ps[0].fn, tuple(ps[0].args), tuple(ps[0].kwargs))
      nm = ps[0].args[0] if ps[0].args else NONE
      ctx.ob('attack-model', w, t.mentions(nm, cfg) and t.contains(nm, lambda y: y.op == 'attr' and y.args[1] == 'name' or t.is_const(y, 'name')), f'the model class is {t.show(nm, 3)}')
      ctx.ob('attack-model', w, t.mentions(mod.args[0], t.item(pv, const(0))), 'the model is not of the configured class')
      ctx.ob('attack-model', w, any(t.mentions(x, t.item(pv, const(1))) for x in mod.args[1]), 'the arguments written in the name of the model are lost')
      up = [e for e in r.events if e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[1] == 'update' and e.args and e.args[0] is t.attr(cfg, 'model')]
      st = raw('tuple', *[v for k, v in mod.args[2] if not isinstance(k, str)])
      PV = sym('PARSED')
      st, pv = t.subst(st, {pv: PV}), PV
      ctx.ob('attack-model', w, t.mentions(st, t.item(pv, const(2))) or t.mentions(st, t.attr(cfg, 'model')), 'the model does not get its configured options')
      if t.mentions(st, t.item(pv, const(2))) and not t.mentions(st, t.attr(cfg, 'model')): ctx.ob('attack-model', w, bool(up), 'the options configured for the model are not used')
  else: ctx.undecided('attack-model', w, t.show(mod, 3))
  # its parameters
  rs = opc(RS)
  if len(rs) == 1:
    a = dict(zip(('prefix', 'tree'), rs[0].args))
    a.update({k: v for k, v in rs[0].kwargs if isinstance(k, str)})
    ctx.ob('attack-params', rs[0].where(), a.get('prefix') is prefix, f'the parameters are read from {t.show(a["prefix"], 3) if "prefix" in a else None}')
    rv = raw('call', rs[0].fn, tuple(rs[0].args), tuple(rs[0].kwargs))
    try: c, v = dicts.look(var, const('params'))
    except dicts.Opaque as e: ctx.undecided('attack-params', w, str(e))
    else: ctx.ob('attack-params', w, v is rv, f'the attacked parameters are {t.show(v, 3) if v is not None else "missing"}, not the restored ones')
    tr = a.get('tree', NONE)
    if q.is_call(tr, MAP): ctx.ob('attack-params', rs[0].where(), not any(q.is_call(a_, 'jax.eval_shape') or a_.op == 'item' and q.is_call(a_.args[0], 'jax.eval_shape') for a_ in tr.args[1]), 'the checkpoint holds parameters, but all variables are asked for')
    if tr.op == 'item':
      ctx.ob('attack-params', rs[0].where(), t.is_const(tr.args[1], 'params'), f'restored into {t.show(tr, 3)}')
      m = tr.args[0]
      if q.is_call(m, MAP) and len(m.args[1]) == 3 and m.args[1][0].op == 'lam' and m.args[1][0].args[1] == 2:
        x, y = sym('x#'), sym('s#')
        b = t.beta(m.args[1][0], [x, y])
        if q.is_call(b, 'jax.ShapeDtypeStruct'):
          ctx.ob('attack-params', w, q.kwarg(b, 'shape', 0) is t.attr(x, 'shape') and q.kwarg(b, 'dtype', 1) is t.attr(x, 'dtype') and q.kwarg(b, 'sharding', 2) is y, f'a parameter is restored as {t.show(b, 4)}')
        ctx.ob('attack-params', w, m.args[1][2] is res, 'the parameters are placed differently from what is reported')
        V = m.args[1][1]
        ctx.ob('attack-params', w, V.op == 'item' and t.is_const(V.args[1], 0) and q.is_call(V.args[0], 'jax.eval_shape'), f'the shapes are {t.show(V, 3)}') if V.op == 'item' else ctx.undecided('attack-params', w, t.show(V, 3))
        te = opc(TR)
        if len(te) == 1:
          ka = dict(zip(('tree', 'axis_resources_regexes'), te[0].args))
          ka.update({k: v for k, v in te[0].kwargs if isinstance(k, str)})
          ctx.ob('attack-params', te[0].where(), ka.get('tree') is V, 'the rules are applied to another tree')
          g = ka.get('axis_resources_regexes', NONE)
          ctx.ob('attack-params', te[0].where(), opt(g, 'params_axis_resources'), f'the partitioning rules are {t.show(g, 3)}')
        if q.is_call(res, MAP) and len(res.args[1]) == 2 and res.args[1][0].op == 'lam':
          b = t.beta(res.args[1][0], [y])
          if q.is_call(b, 'jax.sharding.NamedSharding'): ctx.ob('attack-params', w, tuple(b.args[1]) == (mesh, y) and not b.args[2] or bool(b.args[2]), f'a parameter is placed by {t.show(b, 3)}')
  else: ctx.undecided('attack-params', w, f'{len(rs)} restores')
  # the shapes are those of the model on the images to attack
  ini = [e for e in r.events if e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[1] == 'init' and e.fn.args[0] is mod]
  for e in ini: ctx.ob('attack-params', e.where(), any(t.mentions(x, shape) for x in e.args), 'the model is not initialized for the given images')
  for e in opc(MK):
    ctx.ob('attack-rngs', e.where(), bool(e.args) and t.contains(e.args[0], lambda y: t.is_const(y, 'params')) and t.contains(e.args[0], lambda y: t.is_const(y, 'extra_rng_keys')), f'the keys made are {t.show(e.args[0], 4) if e.args else None}')
  ctx.ob('attack-rngs', w, t.contains(extra, lambda y: y.op == 'getdef' and y.args[0] is cfg and t.is_const(y.args[1], 'extra_rng_keys')) or opt(extra, 'extra_rng_keys'), f'the extra keys are {t.show(extra, 3)}')
  ls = opc(LF)
  if len(ls) == 1:
    ctx.ob('attack-model', w, lf is raw('call', ls[0].fn, tuple(ls[0].args), tuple(ls[0].kwargs)), f'the loss is {t.show(lf, 3)}')
    kw = [v for k, v in ls[0].kwargs if not isinstance(k, str)]
    ctx.ob('attack-model', ls[0].where(), any(opt(v, 'loss') for v in kw), 'the configured loss is not used')
  else: ctx.undecided('attack-model', w, 'the loss')
  ctx.ob('attack-routers', w, t.contains(keys, lambda y: q.is_call(y, 'jax.eval_shape')) and not t.contains(keys, lambda y: y.op == 'item' and q.is_call(y.args[0], 'jax.eval_shape') and t.is_const(y.args[1], 0)), f'the routers are {t.show(keys, 3)}')


def data_of(ctx):
  GD = 'vmoe.data.input_pipeline.get_dataset'
  r = ctx.analyze(f'{A}.lib:get_dataset', opaque=[GD])
  w = f'{r.file} get_dataset'
  ev = [e for e in r.events if e.kind == 'call' and e.fn.op == 'opaque' and e.fn.args[0] == GD]
  if len(ev) != 1:
    ctx.undecided('attack-data', w, f'{len(ev)} datasets')
    return
  v = q.ekw(ev[0], 'variant', 0)
  ctx.ob('attack-data', w, v is not None and not t.is_const(v, 'train'), 'the attack reads the examples in the way of training (shuffled, repeated)')
  st = [x for k, x in ev[0].kwargs if not isinstance(k, str)]
  ctx.ob('attack-data', w, any(t.mentions(x, list(r.params.values())[0]) for x in st) or not st, 'the configured dataset is not read')
  ctx.ob('attack-data', w, r.ret is raw('call', ev[0].fn, tuple(ev[0].args), tuple(ev[0].kwargs)) or r.ret.op not in ('call', 'const'), f'the dataset is {t.show(r.ret, 3)}')
  if any(q.is_mcall(x, 'to_dict') for x in st): ctx.ob('attack-data', w, any(e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[1] == 'pop' and e.seq < ev[0].seq and e.args and t.is_const(e.args[0], 'prefetch_device') and len(e.args) > 1 for e in r.events), 'the option prefetch_device is passed on to the dataset')


def written(ctx):
  r = ctx.analyze(f'{A}.lib:savez_compressed')
  w = f'{r.file} savez_compressed'
  fp = list(r.params.values())[0]
  sv = [e for e in r.events if e.kind == 'call' and e.fn.op == 'glob' and e.fn.args[0] in ('numpy.savez_compressed', 'numpy.savez')]
  fo = [e for e in r.events if e.kind == 'call' and e.fn.op == 'glob' and e.fn.args[0].endswith('gfile.GFile')]
  wr = [e for e in r.events if e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[1] == 'write']
  if len(sv) != 1 or not fo or not wr:
    ctx.undecided('attack-file', w, f'{len(sv)} saves, {len(wr)} writes')
    return
  ctx.ob('attack-file', w, any(not isinstance(k, str) and v is sym('**data') for k, v in sv[0].kwargs), 'the examples are not all stored')
  for e in fo: ctx.ob('attack-file', e.where(), e.args[0] is fp and len(e.args) > 1 and t.is_const(e.args[1]) and 'w' in e.args[1].args[1] and 'b' in e.args[1].args[1], f'stored as {t.show(e.args[0], 3)}')
  for e in wr:
    x = e.args[0]
    ok = q.is_mcall(x, 'getvalue', 'getbuffer') and sv[0].args and x.args[0].args[0] is sv[0].args[0]
    if ok: ctx.ob('attack-file', e.where(), e.seq > sv[0].seq, 'the file is written before the examples are in it')
    elif q.is_mcall(x, 'read') and sv[0].args and x.args[0].args[0] is sv[0].args[0]:
      ctx.ob('attack-file', e.where(), any(s_.kind == 'call' and s_.fn.op == 'attr' and s_.fn.args[1] == 'seek' and sv[0].seq < s_.seq < e.seq for s_ in r.events), 'the buffer is read from its end: the file is empty')
    else: ctx.undecided('attack-file', e.where(), t.show(x, 3))
  mk = [e for e in r.events if e.kind == 'call' and e.fn.op == 'glob' and e.fn.args[0].rsplit('.', 1)[-1] in ('makedirs', 'mkdir')]
  ctx.ob('attack-file', w, any(e.args and t.mentions(e.args[0], fp) and e.seq < fo[0].seq and t.cond(t.assume(t.val(e.pc), {a: False for a in t.cond_atoms(e.pc) if t.contains(a, lambda y: y.op == 'glob' and y.args[0].endswith('exists'))})) is TRUE for e in mk), 'the directory of the file is not made when it is missing')

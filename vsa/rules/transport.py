"""C40: the optimal-transport routers (vmoe/projects/sparsity_constrained_ot)."""
from .. import q
from .. import terms as t
from .. import tq
from ..framework import prop
from ..terms import TRUE, FALSE, NONE, raw, const, glob, sym
from .moe import spec
from .routers import (OPQ, R, TOPE, TOPI, G, S, E, fix, key_of, live, logits_of, modes, router_classes, setup, used, variants)

C = sym("C")
P = 'vmoe.projects.sparsity_constrained_ot'
KLP, QP, SEMI, SINK = 'jaxopt._src.projection.kl_projection_transport', 'jaxopt._src.projection.projection_transport', 'jaxopt._src.projection._regularized_transport_semi_dual', 'ott.core.sinkhorn.sinkhorn'
QPS = (QP, 'jaxopt.projection.projection_transport')
KLPS = (KLP, 'jaxopt.projection.kl_projection_transport')


@prop('C40', 'Over every router of the optimal-transport project: the plan is computed per group by a transport solver given exactly the declared similarity (sign, orientation, noise), marginals 1 per item and '
             'group size / experts per expert, the sparsity bound and the solver options of the router; exactly that plan builds the dispatcher of each group; the combine weights are the gates on what was dispatched, or '
             'the plan; and losses and counts are those of the same gates and plan', 60)
def c40(ctx):
  n = 0
  for mod, cls in router_classes(ctx):
    if not mod.startswith(P + '.'): continue
    f = ctx.eng.find_in_class(f'{mod}.{cls}', '__call__')
    if not str(f[1]).startswith(P + '.'): continue
    n += 1
    ctx.section(router, mod, cls)
  ctx.ob('routers-found', P, n >= 5, f'{n} routers')


def vmapped(x):
  """(function, argument) of jax.vmap(function)(argument), mapped over axis 0."""
  if x.op != 'call' or not q.is_call(x.args[0], 'jax.vmap'): return None
  a = list(x.args[1]) + [v for _, v in x.args[2]]
  f = x.args[0]
  if len(a) != 1 or not f.args[1]: return None
  return f.args[1][0], a[0], q.kwarg(f, 'in_axes', 1, const(0)), q.kwarg(f, 'out_axes', 2, const(0))


def router(ctx, mod, cls):
  r = ctx.analyze(f'{mod}:{cls}.__call__', opaque=OPQ)
  sv = r.selfv
  name = TOPE if f'{R}.NoisyTopExpertsPerItemRouter' in [str(y) for y in ctx.eng.mro(f'{mod}.{cls}')] else TOPI
  soft = raw('truth', t.attr(sv, 'use_softmax_combine_weights'))
  kl = 'KL' in cls
  base = f'{r.file} {cls}'
  inp = list(r.params.values())[1]
  for tag, m, pos in modes(sv):
    w = f'{base} ({tag})'
    v = fix(r.ret, m, pos)
    lg = logits_of(v)
    if lg is None:
      ctx.undecided('logits', w, 'the gating logits were not recognised')
      continue
    dense = lg.args[0]
    ctx.ob('logits', w, list(lg.args[1]) + [y for _, y in lg.args[2]] == [inp], f'the gating layer is applied to {t.show(lg, 2)}')
    ctx.ob('logits', w, q.kwarg(dense, 'features', 0, NONE) is t.attr(sv, 'num_experts') and q.kwarg(dense, 'use_bias', 1, TRUE) is FALSE and t.is_const(q.kwarg(dense, 'name', None, NONE), 'dense'), f'the gating layer is {t.show(dense, 3)}')
    d = t.item(v, const(0))
    none_soft = {a: False for a in t.inner_atoms(d) if a.op == 'is' and NONE in a.args and any(q.is_call(y, 'jax.nn.softmax') or vmapped(y) for y in a.args)}
    d = t.assume(d, none_soft)
    bf = [a for a in t.inner_atoms(d) if a.op == 'truth' and t.contains(a, lambda x: t.is_const(x, 'bfloat16'))]
    if not bf and used(d, name): ctx.ob('bfloat16', w, False, 'the bfloat16 option has no effect on the dispatcher')
    for a in bf:
      y = a.args[0]
      if y.op == 'getdef' and t.is_const(y.args[2]): ctx.ob('bfloat16', w, not t.cval(y.args[2]), 'the dispatcher is bfloat16 by default')
    dt = q.kwarg(dense, 'dtype', 2, NONE)
    ctx.ob('logits', w, dt in (t.attr(inp, 'dtype'), NONE), f'the type of the gating layer is {t.show(dt, 3)}')
    if len(bf) != 1:
      ctx.undecided('dispatcher', w, f'{len(bf)} conditions on bfloat16')
      continue
    disp = {(a, b): t.assume(d, {soft: a, bf[0]: b}) for a in (True, False) for b in (True, False)}
    d0 = disp[False, False]
    us = used(d0, name)
    if len({u[0] for u in us}) != 1 or None in {u[0] for u in us}:
      other = used(d0, TOPI if name == TOPE else TOPE)
      if other: ctx.ob('dispatcher', w, False, 'items and experts are swapped: the dispatcher is built by the other routing function')
      else: ctx.undecided('dispatcher', w, t.show(d0, 3))
      continue
    plan, args, kwa, f = us[0]
    call = next(y for y in t.subterms(d0) if y.op == 'call' and y.args[0] is f)
    D = call if name == TOPE else t.item(call, const(0))
    ctx.ob('dispatcher', w, d0 is D, f'the dispatcher is {t.show(d0, 3)}')
    ax = q.kwarg(f, 'in_axes', 1, const(0))
    if t.is_const(ax): ctx.ob('per-group', w, t.is_const(ax, 0), 'the dispatcher is not built per group')
    kw = {k: x for k, x in kwa if isinstance(k, str)}
    star = [x for k, x in kwa if not isinstance(k, str)]
    if name == TOPE:
      ok = kw.get('num_selected_experts') is t.attr(sv, 'num_selected_experts')
      if 'num_selected_experts' in kw or not args and not any(t.mentions(x, t.attr(sv, 'num_selected_experts')) for x in star): ctx.ob('selected-experts', w, ok, f'num_selected_experts={t.show(kw.get("num_selected_experts", NONE), 3)}')
    DO = t.attr(sv, 'dispatcher')
    given = [t.assume(x, {raw('truth', DO): True, raw('is', *sorted([NONE, DO])): False}) for x in list(kw.values()) + star + list(args)]
    ctx.ob('dispatcher-options', w, any(t.mentions(x, DO) for x in given), 'the dispatcher options of the router are not passed on')
    # combine weights
    noisy = kl and tag == 'noisy'
    D1 = disp[True, False]
    with tq.Dec(ctx, 'combine-weights', w):
      if D1 is D: ctx.ob('combine-weights', w, False, 'the combine weights are not replaced by the softmax gates')
      elif not q.is_mcall(D1, 'replace') or D1.args[0].args[0] is not D: ctx.undecided('combine-weights', w, t.show(D1, 3))
      else:
        kws = dict(D1.args[2])
        ctx.ob('combine-weights', w, set(kws) <= {'combine_weights', 'dispatch_weights'} and 'combine_weights' in kws, f'{sorted(kws)} are replaced')
        DS = sym('DISPATCHER')
        kws = {k: t.subst(t.subst(y, {D: DS}), {plan: sym('PLAN')}) for k, y in kws.items()}
        dw, cw = t.attr(DS, 'dispatch_weights'), t.attr(DS, 'combine_weights')
        for nodw in (True, False):
          lit = {raw('is', *sorted([NONE, dw])): nodw}
          fx = lambda x: t.assume(x, lit)
          z = setup(r)
          z.declare(cw, [G, S, E, C])
          z.declare(dw, [G, S, E, C])
          z.declare(sym('PLAN'), [G, S, E])
          gt = spec(ctx, 'noisy_gates', mod='routers', logits=lg, key=key_of(r), noise_std=t.attr(sv, 'noise_std'), num_experts=t.attr(sv, 'num_experts')) if noisy else spec(ctx, 'gates', mod='routers', logits=lg)
          on = t.lt(const(0.0), cw) if nodw else dw
          ref = spec(ctx, 'replaced', mod='routers', on=t.val(on), gates=gt)
          got = z.arr(tq.resolve(z, fx(kws['combine_weights'])))
          ref = z.arr(tq.resolve(z, ref))
          ctx.ob('combine-weights', f'{w} ({"no " if nodw else ""}dispatch weights)', z.same(got, ref), f'the combine weights are {z.show(got)}, expected {z.show(ref)}')
          nd = fx(kws.get('dispatch_weights', dw))
          ctx.ob('dispatch-weights', f'{w} ({"no " if nodw else ""}dispatch weights)', nd is t.val(on), f'the dispatch weights become {t.show(nd, 3)}')
    # bfloat16
    for a in (True, False):
      x, inner = disp[a, True], disp[a, False]
      if x.op == 'obj' and x.args[0].endswith('Bfloat16Dispatcher'): ctx.ob('bfloat16', w, dict(x.args[1]).get('dispatcher') is inner, 'the bfloat16 dispatcher wraps another dispatcher')
      else: ctx.ob('bfloat16', w, x is not inner, 'the bfloat16 option has no effect')
      ctx.ob('bfloat16', w, not (inner.op == 'obj' and inner.args[0].endswith('Bfloat16Dispatcher')), 'the dispatcher is bfloat16 without the option')
    # plan
    with tq.Dec(ctx, 'plan', w): the_plan(ctx, r, w, plan, lg, kl, noisy, name)
    # metrics
    with tq.Dec(ctx, 'metrics', w): metrics(ctx, r, w, v, m, pos, plan, call, name)
    if name == TOPE and kl: losses(ctx, r, w, tag, m, pos, lg)
  # unsupported dispatchers, inputs
  te = [e for e in r.events if e.kind == 'raise' and e.args and q.is_call(e.args[0], 'TypeError')]
  inst = [a for e in te for a in t.cond_atoms(t.cond(t.val(e.pc))) if a.op == 'isinstance' and any(y.op == 'glob' and y.args[0].endswith('EinsumDispatcher') or t.show(y, 1).find('EinsumDispatcher') >= 0 for y in a.args)]
  ctx.ob('unsupported-dispatcher', base, bool(te), 'a dispatcher whose combine weights cannot be replaced is accepted')
  for e in te:
    for a in inst: ctx.ob('unsupported-dispatcher', base, t.cond(t.assume(t.val(e.pc), {a: True})) is FALSE, 'an einsum dispatcher is rejected')
  if te and not inst: ctx.undecided('unsupported-dispatcher', base, 'condition of the rejection')
  for k in (2, 3, 4):
    r2 = ctx.analyze(f'{mod}:{cls}.__call__', opaque=OPQ, attrs={(inp, 'ndim'): const(k)})
    rej = FALSE
    for e in r2.events:
      if e.kind == 'raise' and e.args and q.is_call(e.args[0], 'ValueError') and t.cond(t.val(e.pc)) is TRUE: rej = TRUE
    ctx.ob('rejected', base, (rej is TRUE) == (k != 3), f'inputs of {k} dimensions are {"rejected" if rej is TRUE else "accepted"}')
  l2 = logits_of(r.ret)
  if l2 is not None:
    SD = t.attr(sv, 'dtype')
    dt = q.kwarg(l2.args[0], 'dtype', 2, NONE)
    x = t.assume(dt, {raw('truth', SD): True, raw('is', *sorted([NONE, SD])): False})
    ctx.ob('logits', base, x is SD, f'the type of the gating layer is {t.show(dt, 4)}')
  if name == TOPE:
    for ne, ks, want in ((4, 5, True), (4, 0, True), (4, 4, False), (4, 1, False), (4, -1, True)):
      r2 = ctx.analyze(f'{mod}:{cls}.__call__', opaque=OPQ, attrs={(inp, 'ndim'): const(3), (sv, 'num_experts'): const(ne), (sv, 'num_selected_experts'): const(ks)})
      rej = any(e.kind == 'raise' and e.args and q.is_call(e.args[0], 'ValueError') and t.cond(t.val(e.pc)) is TRUE for e in r2.events)
      ctx.ob('rejected', base, rej == want, f'{ks} selected of {ne} experts is {"rejected" if rej else "accepted"}')


def the_plan(ctx, r, w, plan, lg, kl, noisy, name):
  sv = r.selfv
  vm = vmapped(plan)
  if vm is None or vm[0].op != 'lam':
    ctx.undecided('plan', w, t.show(plan, 3))
    return
  f, sim, ax, out = vm
  if t.is_const(ax) or t.is_const(out): ctx.ob('per-group', w, t.is_const(ax, 0) and t.is_const(out, 0), 'the plan is not computed per group')
  z = setup(r)
  kind = 'noisy_logits' if noisy else 'logits' if kl else 'gates'
  ref = lg if kind == 'logits' else spec(ctx, 'gates', mod='routers', logits=lg) if kind == 'gates' else spec(ctx, 'noisy_logits', mod='routers', logits=lg, key=key_of(r), noise_std=t.attr(sv, 'noise_std'), num_experts=t.attr(sv, 'num_experts'))
  got, ref = z.arr(tq.resolve(z, sim)), z.arr(ref)
  ctx.ob('similarity', w, z.same(got, ref), f'the plan is made for {z.show(got)}, expected {z.show(ref)}')
  (x, *_), body = t.open_lam(f, 'sim')
  lb = raw('truth', t.attr(sv, 'use_lbfgs'))
  flags = (True, False) if lb in t.inner_atoms(body) else (None,)
  if flags == (None,): ctx.ob('lbfgs', w, not (kl and name == TOPE), 'the use_lbfgs option has no effect')
  for fl in flags:
    b = body if fl is None else t.assume(body, {lb: fl})
    wf = w if fl is None else f'{w} ({"LBFGS" if fl else "Sinkhorn"})'
    solver(ctx, r, wf, b, x, lg, name, kl, fl)


def marginal(ctx, r, w, got, per, lg):
  """got is the vector of the marginals: 1 per item, or group size / experts per expert."""
  sv = r.selfv
  n = t.item(t.attr(lg, 'shape'), const(1))
  e = t.attr(sv, 'num_experts')
  z = setup(r)
  ones = raw('call', glob('jax.numpy.ones'), (raw('tuple', n),), ())
  full = raw('call', glob('jax.numpy.full'), (raw('tuple', e), t.div(n, e)), ())
  ones2 = raw('call', glob('jax.numpy.full'), (raw('tuple', n), const(1.0)), ())
  g, ref = z.arr(tq.resolve(z, got)), z.arr(ones if per == 'item' else full)
  ctx.ob('marginals', w, z.same(g, ref) or per == 'item' and z.same(g, z.arr(ones2)), f'the sums per {per} are {z.show(g)}, expected {z.show(ref)}')


def solver(ctx, r, w, b, x, lg, name, kl, fl):
  sv = r.selfv
  mi, idf = t.attr(sv, 'maxiter'), t.attr(sv, 'use_implicit_differentiation')
  outT = False
  if b.op == 'attr' and b.args[1] == 'T': outT, b = True, b.args[0]
  neg = t.neg(x)
  if b.op == 'attr' and b.args[1] == 'matrix' and q.is_call(b.args[0], SINK):
    c = b.args[0]
    ctx.ob('projection', w, kl and fl is not True and not outT, 'the plan of Sinkhorn is used for another projection')
    geo = q.kwarg(c, 'geom', 0, NONE)
    if q.is_call(geo, 'ott.geometry.geometry.Geometry'):
      cost, eps = q.kwarg(geo, 'cost_matrix', 0, NONE), q.kwarg(geo, 'epsilon', 2, NONE)
      if cost is NONE: ctx.undecided('similarity', w, t.show(geo, 3))
      else:
        ctx.ob('similarity', w, cost is neg, f'the cost is {t.show(cost, 3)}')
        ctx.ob('similarity', w, t.is_const(eps) and t.cval(eps) == 1, f'epsilon is {t.show(eps, 3)}')
    else: ctx.undecided('similarity', w, t.show(geo, 3))
    marginal(ctx, r, w, q.kwarg(c, 'a', 1, NONE), 'item', lg)
    marginal(ctx, r, w, q.kwarg(c, 'b', 2, NONE), 'expert', lg)
    k = dict(c.args[2])
    ctx.ob('solver', w, k.get('max_iterations') is mi, f'the iterations are {t.show(k.get("max_iterations", NONE), 2)}')
    if 'min_iterations' in k: ctx.ob('solver', w, k['min_iterations'] is mi or t.is_const(k['min_iterations']) and t.cval(k['min_iterations']) == 0, f'the iterations are at least {t.show(k["min_iterations"], 2)}')
    ctx.ob('solver', w, k.get('implicit_differentiation') is idf, f'implicit differentiation is {t.show(k.get("implicit_differentiation", NONE), 2)}')
  elif q.is_call(b, *(KLPS + QPS)):
    ctx.ob('projection', w, (b.args[0].args[0] in KLPS) == kl and fl is not False and not outT, f'the plan is that of {b.args[0].args[0]}')
    s, ms = q.kwarg(b, 'sim_matrix', 0, NONE), q.kwarg(b, 'marginals', 1, NONE)
    ctx.ob('similarity', w, s is x, f'the similarity is {t.show(s, 3)}')
    if ms.op in ('tuple', 'list') and len(ms.args) == 2:
      marginal(ctx, r, w, ms.args[0], 'item', lg)
      marginal(ctx, r, w, ms.args[1], 'expert', lg)
    else: ctx.undecided('marginals', w, t.show(ms, 3))
    mk = q.kwarg(b, 'make_solver', 2, NONE)
    make_solver(ctx, r, w, mk, kl)
  elif q.is_call(b, SEMI):
    ctx.ob('projection', w, not kl, 'the plan is that of the quadratic transport')
    cost = q.kwarg(b, 'cost_matrix', 0, NONE)
    if cost in (neg, x): tr = False
    elif cost in (t.neg(t.attr(x, 'T')), t.attr(x, 'T'), t.attr(neg, 'T')): tr = True
    else:
      ctx.undecided('similarity', w, t.show(cost, 3))
      return
    ctx.ob('similarity', w, cost is not x and cost is not t.attr(x, 'T'), 'the similarity is used as a cost')
    ctx.ob('orientation', w, tr == outT, f'the similarity is {"" if tr else "not "}transposed but the plan is {"" if outT else "not "}')
    ctx.ob('orientation', w, tr == (name == TOPE), f'the sparsity bound is per {"item" if tr else "expert"}')
    ma, mb = q.kwarg(b, 'marginals_a', 1, NONE), q.kwarg(b, 'marginals_b', 2, NONE)
    marginal(ctx, r, w, ma, 'expert' if tr else 'item', lg)
    marginal(ctx, r, w, mb, 'item' if tr else 'expert', lg)
    gamma = q.kwarg(b, 'gamma', 6, const(1.0))
    ctx.ob('gamma', w, not t.is_const(gamma) or t.cval(gamma) == 1, f'gamma is {t.show(gamma, 2)}')
    make_solver(ctx, r, w, q.kwarg(b, 'make_solver', 3, NONE), kl)
    mx, mg = q.kwarg(b, 'max_vmap', 4, NONE), q.kwarg(b, 'max_grad_vmap', 5, NONE)
    fns = []
    for y, what in ((mx, 'maximum'), (mg, 'gradient of the maximum')):
      if not q.is_call(y, 'jax.vmap'):
        ctx.undecided('maximum', w, t.show(y, 3))
        return
      ia, fn = q.kwarg(y, 'in_axes', 1, const(0)), y.args[1][0]
      if ia.op in ('tuple', 'list') and len(ia.args) == 3: ctx.ob('maximum', w, t.is_const(ia.args[0], 1) and t.is_const(ia.args[1], 0) and ia.args[2] is NONE, f'the {what} is mapped along {t.show(ia, 3)}')
      if (fn.op == 'gradfn') != (what != 'maximum'): ctx.ob('maximum', w, False, f'the {what} is {t.show(fn, 2)}')
      fns.append(next((a for a in fn.args if isinstance(a, t.T) and a.op == 'lam'), None) if fn.op == 'gradfn' else fn)
    if None in fns or fns[0].op != 'lam':
      ctx.undecided('maximum', w, 'the function that is maximised')
      return
    for fn in dict.fromkeys(fns): maximum(ctx, r, w, fn, lg, name)
  else:
    ctx.undecided('projection', w, t.show(b, 3))


def maximum(ctx, r, w, fn, lg, name):
  """max over the k-sparse simplex p of p.x - gamma*b/2*|p|^2, up to a constant."""
  sv = r.selfv
  (x, mb, ga, *_), b = t.open_lam(fn, 'm')
  scale = t.mul(ga, mb)
  ps = {y for y in t.subterms(b) if q.is_call(y, 'jaxopt.projection.projection_sparse_simplex', 'jaxopt.projection.projection_simplex')}
  if len(ps) != 1:
    ctx.undecided('maximum', w, f'{len(ps)} projections')
    return
  p = ps.pop()
  ctx.ob('sparsity', w, p.args[0].args[0].endswith('sparse_simplex'), 'the plan is not bounded in its non-zero entries')
  a, k = q.kwarg(p, 'x', 0, NONE), q.kwarg(p, 'max_nz', 1, NONE)
  ctx.ob('maximum', w, a is t.div(x, scale), f'{t.show(a, 3)} is projected')
  if name == TOPE: ctx.ob('sparsity', w, k is t.attr(sv, 'num_selected_experts'), f'an item has at most {t.show(k, 3)} experts')
  elif k.op == 'call' and k.args[0].op == 'opaque':
    n = t.item(t.attr(lg, 'shape'), const(1))
    D = t.attr(sv, 'dispatcher')
    got = [q.kwarg(k, s, i, dv) for i, (s, dv) in enumerate((('num_tokens', NONE), ('num_experts', NONE), ('capacity_factor', NONE), ('ceil_or_round', const('ceil')), ('multiple_of', const(4))))]
    ctx.ob('sparsity', w, got[0] is n and got[1] is t.attr(sv, 'num_experts'), f'the capacity is that of {t.show(got[0], 3)} items and {t.show(got[1], 3)} experts')
    for y, key, dv in ((got[2], 'capacity_factor', None), (got[3], 'capacity_ceil_or_round', 'ceil'), (got[4], 'capacity_multiple_of', 4)):
      y = t.assume(y, {raw('truth', D): True, raw('is', *sorted([NONE, D])): False})
      want = [t.item(D, const(key))] + [raw('getdef', D, const(key), z) for z in ((const(dv),) if dv is not None else (NONE,))]
      if any(t.mentions(y, D) for _ in (1,)) or t.is_const(y): ctx.ob('sparsity', w, y in want, f'{key} of the capacity is {t.show(y, 4)}')
      else: ctx.undecided('sparsity', w, t.show(y, 3))
  else: ctx.ob('sparsity', w, False, f'an expert has at most {t.show(k, 3)} items') if k in (t.attr(sv, 'num_selected_experts'), t.attr(sv, 'num_experts'), NONE) or t.is_const(k) else ctx.undecided('sparsity', w, t.show(k, 3))
  pp = sym('p')
  b = t.subst(b, {p: pp})
  b = t.transform(b, lambda y: y.args[1][0] if q.is_call(y, 'jax.lax.stop_gradient') else None, {})
  def dots(y):
    if q.is_call(y, 'jax.numpy.dot', 'jax.numpy.vdot', 'jax.numpy.inner') and len(y.args[1]) == 2:
      u, v = y.args[1]
      if v is not pp and u is pp: u, v = v, u
      if v is pp:
        if u is pp: return sym('p.p')
        if u is x: return sym('p.x')
        if u is t.sub(pp, const(1)): return t.sub(sym('p.p'), const(1))
    return None
  b = t.transform(b, dots, {})
  want = t.sub(sym('p.x'), t.mul(t.mul(const(0.5), scale), sym('p.p')))
  diff = t.sub(b, want)
  bad = [y for y in t.subterms(diff) if y.op == 'call' or y in (pp, x)]
  if bad: ctx.undecided('maximum', w, t.show(b, 4))
  else: ctx.ob('maximum', w, not t.mentions(diff, sym('p.x')) and not t.mentions(diff, sym('p.p')), f'{t.show(b, 5)} is maximised')


def make_solver(ctx, r, w, mk, kl):
  sv = r.selfv
  mi = t.attr(sv, 'maxiter')
  fun = sym('fun')
  if mk.op == 'lam' and mk.args[1] == 1: mk = t.beta(mk, [fun])
  elif mk.op == 'papp': mk = raw('call', mk.args[0], mk.args[1] + (fun,), mk.args[2])
  elif mk is NONE:
    ctx.ob('solver', w, False, 'the options of the solver are not used')
    return
  if q.is_call(mk, 'jaxopt.LBFGS', 'jaxopt.OptaxSolver'):
    if q.is_call(mk, 'jaxopt.LBFGS'):
      idf = t.attr(sv, 'use_implicit_differentiation')
      ctx.ob('solver', w, q.kwarg(mk, 'implicit_diff', None, TRUE) is idf, f'implicit differentiation is {t.show(q.kwarg(mk, "implicit_diff", None, TRUE), 2)}')
      tol = dict(mk.args[2]).get('tol', const(1e-3))
      if t.is_const(tol): ctx.ob('solver', w, t.cval(tol) <= 0.01, f'the tolerance is {t.show(tol, 2)}')
      ctx.ob('solver', w, q.kwarg(mk, 'fun', 0, NONE) is fun, f'{t.show(q.kwarg(mk, "fun", 0, NONE), 3)} is minimised')
    else:
      opt = dict(mk.args[2]).get('opt', NONE)
      if q.is_call(opt, 'optax.adam'): ctx.ob('solver', w, q.kwarg(opt, 'learning_rate', 0, NONE) is t.attr(sv, 'adam_lr'), f'the learning rate is {t.show(q.kwarg(opt, "learning_rate", 0, NONE), 2)}')
      else: ctx.undecided('solver', w, t.show(opt, 3))
    got = dict(mk.args[2]).get('maxiter', NONE)
    ctx.ob('solver', w, got is mi, f'the iterations are {t.show(got, 2)}')
  else: ctx.undecided('solver', w, t.show(mk, 3))


def metrics(ctx, r, w, v, m, pos, plan, call, name):
  me = t.item(v, const(1))
  got = {}
  for e in r.events:
    if e.kind == 'setitem' and len(e.args) >= 2 and t.is_const(e.args[0]) and fix(t.val(e.pc), m, pos) is TRUE: got[t.cval(e.args[0])] = fix(e.args[1], m, pos)
  if me.op == 'dict':
    for k, y in me.args:
      if t.is_const(k): got.setdefault(t.cval(k), y)
  if name == TOPI:
    got_m = me
    while got_m.op == 'setitem': got_m = got_m.args[0]
    ctx.ob('metrics', w, got_m is t.item(call, const(1)) or got_m.op == 'dict' and t.mentions(got_m, t.item(call, const(1))), 'the metrics of the dispatcher are lost')
    ctx.ob('auxiliary-loss', w, t.is_const(got.get('auxiliary_loss', NONE)) and t.cval(got.get('auxiliary_loss', NONE)) == 0, f'the auxiliary loss is {t.show(got.get("auxiliary_loss", NONE), 3)}')
  if 'KSparse' in w:
    for k in ('items_per_expert',) + (('experts_per_item',) if name == TOPE else ()):
      for st in ('min', 'max', 'avg'): ctx.ob('counts', w, f'num_{k}_{st}' in got, f'num_{k}_{st} is not reported')
    if name == TOPE: ctx.ob('auxiliary-loss', w, t.is_const(got.get('auxiliary_loss', NONE)) and t.cval(got.get('auxiliary_loss', NONE)) == 0, f'the auxiliary loss is {t.show(got.get("auxiliary_loss", NONE), 3)}')
  for k, y in got.items():
    if not isinstance(k, str) or not k.startswith(('num_items_per_expert_', 'num_experts_per_item_')) or '_' not in k: continue
    st = k.rsplit('_', 1)[1]
    red = {'min': 'min', 'max': 'max', 'avg': 'mean'}.get(st)
    if red is None: continue
    ax = 1 if 'items' in k else 2
    counted = q.is_call(y, 'jax.numpy.min', 'jax.numpy.max', 'jax.numpy.mean', 'jax.numpy.sum', 'jax.numpy.median') and q.is_call(y.args[1][0], 'jax.numpy.count_nonzero')
    if counted:
      c = y.args[1][0]
      ok = y.args[0].args[0] == f'jax.numpy.{red}' and q.kwarg(c, 'a', 0, NONE) is plan and t.is_const(q.kwarg(c, 'axis', 1, NONE)) and t.cval(q.kwarg(c, 'axis', 1, NONE)) in (ax, ax - 3) and \
          t.is_const(q.kwarg(y, 'axis', 1, NONE)) and t.cval(q.kwarg(y, 'axis', 1, NONE)) in (1, -1)
      what = f'{k} is {t.show(y.args[0], 1)} along {t.show(q.kwarg(y, "axis", 1, NONE), 1)} of the count along {t.show(q.kwarg(c, "axis", 1, NONE), 1)}' + ('' if q.kwarg(c, 'a', 0, NONE) is plan else ' of another array')
      ctx.ob('counts', w, ok, what)
    else: ctx.undecided('counts', w, t.show(y, 3))


def losses(ctx, r, w, tag, m, pos, lg):
  sv = r.selfv
  names = ('importance', 'load') if tag == 'noisy' else ('importance',)
  ws = {l: t.attr(sv, f'{l}_loss_weight') for l in ('importance', 'load')}
  nz = spec(ctx, 'noisy_logits', mod='routers', logits=lg, key=key_of(r), noise_std=t.attr(sv, 'noise_std'), num_experts=t.attr(sv, 'num_experts'))
  for on in [names] + [tuple(x for x in names if x != l) for l in names]:
    off = {ws[l]: const(0.0) for l in ws if l not in on}
    wt = f'{w} losses: {", ".join(on) or "none"}'
    for v in variants(r.ret, {**m, **off}, tuple(pos) + tuple(ws[l] for l in on)):
      me = t.item(v, const(1))
      if me.op == 'dict' and all(t.is_const(k) for k, _ in me.args):
        for k in ('auxiliary_loss',) + tuple(f'{x}_loss' for x in names): ctx.ob('auxiliary-loss', wt, any(t.cval(y) == k for y, _ in me.args), f'{k} is not reported')
      aux = t.transform(t.item(t.item(v, const(1)), const('auxiliary_loss')), lambda y: y.args[0] if y.op == 'listof' and y.args[0].op in ('list', 'tuple', 'listof') else None, {})
      with tq.Dec(ctx, 'auxiliary-loss', wt):
        z = setup(r)
        total = const(0)
        for l in on:
          if l == 'importance': x = spec(ctx, 'importance_loss', mod='routers', gates=spec(ctx, 'gates', mod='routers', logits=lg))
          else: x = spec(ctx, 'load_loss', mod='routers', logits=lg, noisy=nz, k=t.attr(sv, 'num_selected_experts'), std=t.div(t.attr(sv, 'noise_std'), t.attr(sv, 'num_experts')))
          total = t.add(total, t.mul(ws[l], x))
          one = t.item(t.item(v, const(1)), const(f'{l}_loss'))
          g1, r1 = z.arr(tq.resolve(z, one)), z.arr(x)
          ctx.ob('auxiliary-loss', wt, z.same(g1, r1), f'{l}_loss is {z.show(g1)}, expected {z.show(r1)}')
        got, ref = z.arr(tq.resolve(z, aux)), z.arr(total)
        ctx.ob('auxiliary-loss', wt, z.same(got, ref), f'auxiliary loss is {z.show(got)}, expected {z.show(ref)}')

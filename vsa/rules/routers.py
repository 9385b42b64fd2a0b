"""C10-C13: the routers (vmoe/nn/routing.py and the project routers) and the layers that use them."""
import ast

from .. import q
from .. import terms as t
from .. import tensor as tz
from .. import tq
from ..engine import State
from ..framework import prop
from ..terms import TRUE, FALSE, NONE, raw, const, glob, sym
from ..tensor import Arr
from .moe import spec

G, S, E, D, K = [sym(x) for x in 'GSEDK']
R = 'vmoe.nn.routing'
TOPE = 'vmoe.moe.get_top_experts_per_item_dispatcher'
TOPI = 'vmoe.moe.get_top_items_per_expert_dispatcher'
OPQ = [TOPE, TOPI, 'vmoe.moe.compute_capacity']
POS = (0.001, 0.37, 1.0, 2.5)


def router_classes(ctx):
  """Every class of the package whose name ends in Router and that has a __call__ (own or inherited)."""
  for mod in ctx.eng.all_modules():
    m = ctx.eng.module(mod)
    for n in m.tree.body:
      if isinstance(n, ast.ClassDef) and n.name.endswith('Router') and not n.name.startswith('MlpMoe'):
        q_ = f'{mod}.{n.name}'
        ctx.eng.lookup_global(mod, n.name, State())
        f = ctx.eng.find_in_class(q_, '__call__')
        if f is not None and f[1] in ctx.eng.classes: yield mod, n.name


def modes(sv):
  det, std = t.attr(sv, 'deterministic'), t.attr(sv, 'noise_std')
  nd = {t.attr(sv, 'dtype'): NONE}
  yield 'deterministic', {det: TRUE, **nd}, ()
  yield 'no noise', {det: FALSE, std: const(0.0), **nd}, ()
  yield 'noisy', {det: FALSE, **nd}, (std,)


def conds(v):
  out = set(t.inner_atoms(v))
  for x in t.subterms(v):
    if x.op == 'opt': out |= t.cond_atoms(t.cond(x.args[0]))
  return out


def variants(v, m, pos=()):
  """The specialisations of v over the (sampled) classes of positive option values that its conditions distinguish."""
  return list(dict.fromkeys(fix(v, m, pos, (c,)) for c in POS)) if pos else [fix(v, m)]


def fix(v, m, pos=(), samples=POS):
  """Specialise v: exact values m, and every condition that has one answer for all positive values of pos."""
  v = t.subst(v, m)
  for _ in range(8):
    lits = {}
    for a in conds(v):
      if any(t.mentions(a, p) for p in pos):
        s = {t.subst(t.val(a) if a.op not in t.BOOLATOM else a, {p: const(c) for p in pos}) for c in samples}
        if len(s) == 1 and (s & {TRUE, FALSE}): lits[a] = s.pop() is TRUE
    if not lits: return v
    v = t.assume(v, lits)
  return v


def live(e, m, pos=()):
  """Can the event happen in this mode?"""
  return fix(t.val(e.pc), m, pos) is not FALSE


def random_events(r):
  for e in r.events:
    if e.kind != 'call' or e.fn is None: continue
    if e.fn.op == 'attr' and e.fn.args[1] == 'make_rng': yield e
    elif e.fn.op == 'glob' and e.fn.args[0].startswith('jax.random.'): yield e


def metrics_of(r, v, m, pos):
  """auxiliary_loss of the returned metrics: last unconditional item assignment, or the entry of the returned dict."""
  me = t.item(v, const(1))
  out = t.item(me, const('auxiliary_loss'))
  for e in r.events:
    if e.kind == 'setitem' and len(e.args) >= 2 and t.is_const(e.args[0], 'auxiliary_loss') and fix(t.val(e.pc), m, pos) is TRUE: out = fix(e.args[1], m, pos)
  return out


def setup(r, num_experts='num_experts'):
  z = tz.Tensor()
  sv = r.selfv
  z.declare(list(r.params.values())[1], [G, S, D])
  ne = t.attr(sv, num_experts)
  z.size_env[ne] = E
  z.size_env[t.attr(sv, 'num_selected_experts')] = K
  for n in ('noise_std', 'gshard_loss_weight', 'importance_loss_weight', 'load_loss_weight'):
    z.env[t.attr(sv, n)] = Arr((), t.attr(sv, n))
  return z


def used(v, name):
  """(gates, args, kwargs) of the mapped uses of the opaque function `name` inside v."""
  out = []
  for x in t.subterms(v):
    if x.op != 'call': continue
    f = x.args[0]
    if not (f.op == 'call' and f.args[0].op == 'glob' and f.args[0].args[0].endswith('vmap') and f.args[1]): continue
    g = f.args[1][0]
    if g.op == 'papp' and g.args[0].op == 'opaque' and g.args[0].args[0] == name: out.append((x.args[1][0] if x.args[1] else None, g.args[1], g.args[2], f))
    elif g.op == 'opaque' and g.args[0] == name: out.append((x.args[1][0] if x.args[1] else None, (), (), f))
    elif g.op == 'lam' and g.args[1] == 1:
      syms, b = t.open_lam(g, 'g')
      for y in t.subterms(b):
        if y.op == 'call' and y.args[0].op == 'opaque' and y.args[0].args[0] == name and y.args[1] and y.args[1][0] is syms[0]:
          out.append((x.args[1][0] if x.args[1] else None, y.args[1][1:], y.args[2], f))
  return out


def single(xs):
  xs = list(dict.fromkeys(xs))
  return xs[0] if len(xs) == 1 else None


CORE = [(R, 'NoisyTopExpertsPerItemRouter', TOPE), (R, 'NoisyTopItemsPerExpertRouter', TOPI)]


@prop('C10', 'Over every router class: no random draw is reachable when deterministic is set or the noise is zero; otherwise the gates are the softmax over experts of logits plus '
             'noise_std/E times a normal draw from the "gating" stream, and exactly those gates go to the dispatcher of each group with the configured options; the deterministic flag reaches the router through every layer.', floor=40)
def c10(ctx):
  n = 0
  for mod, cls in router_classes(ctx):
    r = ctx.analyze(f'{mod}:{cls}.__call__', opaque=OPQ)
    n += 1
    w = f'{r.file} {cls}'
    evs = list(random_events(r))
    for tag, m, pos in modes(r.selfv):
      if tag == 'noisy': continue
      hit = [e for e in evs if live(e, m, pos)]
      ctx.ob('no-randomness', f'{w} ({tag})', not hit, 'random draw reachable: ' + '; '.join(f'{e.where()} {t.show(e.fn, 3)}' for e in hit[:3]))
    for e in evs:
      if e.fn.op == 'attr':
        ctx.ob('gating-stream', f'{w}', len(e.args) == 1 and t.is_const(e.args[0], 'gating'), f'{e.where()}: noise drawn from another stream {t.show(e.args[0], 3) if e.args else ""}')
  ctx.ob('routers-found', 'vmoe', n >= 5, f'{n} routers')
  for mod, cls, name in CORE:
    r = ctx.analyze(f'{mod}:{cls}.__call__', opaque=OPQ)
    for tag, m, pos in modes(r.selfv):
      gates_reach_dispatcher(ctx, r, f'{r.file} {cls} ({tag})', tag, fix(r.ret, m, pos), name)
  determinism_flag(ctx)


def logits_of(v):
  return single([x for x in t.subterms(v) if x.op == 'call' and x.args[0].op == 'call' and q.is_call(x.args[0], 'flax.linen.Dense')])


def key_of(r): return raw('call', t.attr(r.selfv, 'make_rng'), (const('gating'),), ())


def gates_reach_dispatcher(ctx, r, w, tag, v, name):
  d = t.item(v, const(0))
  sv = r.selfv
  us = used(d, name)
  lg = logits_of(v)
  if not us or lg is None:
    ctx.undecided('gates-to-dispatcher', w, 'the call that builds the dispatcher, or the logits, was not recognised')
    return
  for g, args, kws, f in us:
    z = setup(r)
    with tq.Dec(ctx, 'gates', w):
      got = z.arr(tq.resolve(z, g))
      if tag == 'noisy': ref = spec(ctx, 'noisy_gates', mod='routers', logits=lg, key=key_of(r), noise_std=t.attr(sv, 'noise_std'), num_experts=t.attr(sv, 'num_experts'))
      else: ref = spec(ctx, 'gates', mod='routers', logits=lg)
      ref = z.arr(ref)
      ctx.ob('gates', w, z.same(got, ref), f'gates are {z.show(got)}, expected {z.show(ref)}')
    fk = q.kws(f)
    ax = fk.get('in_axes', f.args[1][1] if len(f.args[1]) > 1 else const(0))
    if t.is_const(ax): ctx.ob('per-group', w, t.is_const(ax, 0), 'the dispatcher is not built per group (axis 0)')
    kw = {k: x for k, x in kws if isinstance(k, str)}
    star = [x for k, x in kws if not isinstance(k, str)]
    if name == TOPE:
      if 'num_selected_experts' in kw: ctx.ob('selected-experts', w, kw['num_selected_experts'] is t.attr(sv, 'num_selected_experts'), f'num_selected_experts={t.show(kw["num_selected_experts"], 3)}')
      elif not args and not any(t.mentions(x, t.attr(sv, 'num_selected_experts')) for x in star): ctx.ob('selected-experts', w, False, 'num_selected_experts is not passed to the dispatcher')
    ctx.ob('dispatcher-options', w, any(t.mentions(x, t.attr(sv, 'dispatcher')) for x in list(kw.values()) + star + list(args)), 'the dispatcher options of the router are not passed on')
  # bfloat16 wrapper exactly when asked for
  flag = [a for a in t.inner_atoms(d) if t.contains(a, lambda x: t.is_const(x, 'bfloat16'))]
  for a in flag:
    for on in (True, False):
      x = t.assume(d, {a: on})
      wrapped = any(y.op == 'obj' and y.args[0].endswith('Bfloat16Dispatcher') for y in t.subterms(x))
      want = on if a.op == 'truth' else None
      if want is not None: ctx.ob('bfloat16-flag', w, wrapped == want, f'bfloat16={on}: dispatcher {"is" if wrapped else "is not"} wrapped')


V = 'vmoe.nn.vit_moe'
VE = 'vmoe.nn.vit_moe_ensemble'
VOP = ['vmoe.utils.parse_call', 'vmoe.utils.partialclass', f'{V}.EncoderMoe.add_position_emb']
LAYERS = [(V, 'EncoderBlock'), (V, 'EncoderMoe'), (V, 'VisionTransformerMoe'), (V, 'MlpMoeBlock'), (VE, 'EncoderMoeEnsemble')]


def callee_kind(fn):
  """Which stochastic building block a call constructs (None: not one)."""
  if fn.op == 'glob' and fn.args[0].rsplit('.', 1)[-1] in ('Dropout', 'MultiHeadDotProductAttention'): return fn.args[0].rsplit('.', 1)[-1]
  if fn.op == 'attr' and fn.args[1] in ('mlp_block', 'encoder_cls'): return fn.args[1]
  return None


def determinism_flag(ctx):
  for mod, cls in LAYERS:
    r = ctx.analyze(f'{mod}:{cls}.__call__', opaque=VOP + [f'{V}.MlpMoeBlock.create_router', f'{V}.MapHead.__call__', 'vmoe.moe.sparse_moe_spmd'])
    det = t.attr(r.selfv, 'deterministic')
    n = 0
    for e in r.events:
      if e.kind not in ('call', 'new') or e.fn is None: continue
      k = callee_kind(e.fn)
      if k is None and e.fn.op == 'opaque' and e.fn.args[0].endswith('partialclass') and e.args and e.args[0].op == 'cls' and e.args[0].args[0].endswith('EncoderBlock'): k = 'EncoderBlock'
      if k is None or t.mentions(e.fn, sym('<none>')): continue
      if not e.kwargs and not e.args: continue
      v = q.ekw(e, 'deterministic')
      if v is None and any(not isinstance(x, str) for x, _ in e.kwargs): continue
      n += 1
      ctx.ob('deterministic-flag', f'{r.file} {cls} -> {k}', v is det, f'{e.where()}: {k} gets deterministic={t.show(v, 3) if v is not None else "<default>"} instead of the flag of {cls}')
    ctx.note(f'{cls}: {n} stochastic building blocks')
  for mod, cls in ((V, 'MlpMoeBlock'), (VE, 'MlpMoeWithNoisyTopExpertsPerItemEnsembleRouter')):
    r = ctx.analyze(f'{mod}:{cls}.create_router', opaque=VOP)
    det, opts = t.attr(r.selfv, 'deterministic'), t.attr(r.selfv, 'router')
    w = f'{r.file} {cls}.create_router'
    ctx.ob('router-deterministic-default', w, t.mentions(r.ret, det), 'the router does not get the deterministic flag of the layer')
    ctx.ob('router-options', w, t.mentions(r.ret, opts), 'the router options are not used')
    for e in r.events:
      if e.kind == 'setitem' and len(e.args) >= 2 and t.is_const(e.args[0], 'deterministic') and e.pc is TRUE:
        ctx.ob('router-can-override', w, t.mentions(e.args[1], opts), f'{e.where()}: the deterministic option given to the router is overwritten')


# ---------------------------------------------------------------- C11
LOSSES = ('gshard', 'importance', 'load')


@prop('C11', 'Every router returns an auxiliary_loss in every mode; in the normal form it equals the sum over the enabled losses of weight times the per-group loss, each loss equals its '
             'published formula, a loss with weight zero is not evaluated into the sum, and every encoder adds the losses of all its blocks.', floor=40)
def c11(ctx):
  for mod, cls in router_classes(ctx):
    r = ctx.analyze(f'{mod}:{cls}.__call__', opaque=OPQ)
    sv = r.selfv
    for tag, m, pos in modes(sv):
      w = f'{r.file} {cls} ({tag})'
      v = fix(r.ret, m, pos)
      me = t.item(v, const(1))
      aux = metrics_of(r, v, m, pos)
      for _, x in t.leaves(me):
        missing = aux is t.item(me, const('auxiliary_loss')) and (
            (x.op == 'dict' and not any(t.is_const(k, 'auxiliary_loss') or k.op == 'kwstar' for k, _ in x.args)) or
            (x.op == 'item' and used(x, TOPI)))     # the metrics of the dispatcher function have no auxiliary_loss
        ctx.ob('auxiliary-loss-returned', w, not missing, f'no auxiliary_loss among the metrics of {cls}')
  for mod, cls, name in CORE:
    r = ctx.analyze(f'{mod}:{cls}.__call__', opaque=OPQ)
    sv = r.selfv
    ws = {l: t.attr(sv, f'{l}_loss_weight') for l in LOSSES}
    for tag, m, pos in modes(sv):
      w = f'{r.file} {cls} ({tag})'
      if name == TOPI:
        v = fix(r.ret, m, pos)
        aux = metrics_of(r, v, m, pos)
        with tq.Dec(ctx, 'auxiliary-loss', w):
          z = setup(r)
          a = z.arr(aux)
          ctx.ob('auxiliary-loss', w, not a.dims and t.cval_or(a.val) == 0, f'the auxiliary loss is {z.show(a)} instead of zero')
        continue
      noisy = tag == 'noisy'
      names = LOSSES if noisy else LOSSES[:2]
      for on in [names] + [tuple(x for x in names if x != l) for l in names] + [()]:
        off = {ws[l]: const(0.0) for l in LOSSES if l not in on}
        wt = f'{w} losses: {", ".join(on) or "none"}'
        for v in variants(r.ret, {**m, **off}, tuple(pos) + tuple(ws[l] for l in on)):
         aux = metrics_of(r, v, {**m, **off}, pos)
         lg = logits_of(v)
         with tq.Dec(ctx, 'auxiliary-loss', wt):
          if lg is None: raise tz.Unknown('logits not recognised')
          z = setup(r)
          nz = spec(ctx, 'noisy_logits', mod='routers', logits=lg, key=key_of(r), noise_std=t.attr(sv, 'noise_std'), num_experts=t.attr(sv, 'num_experts'))
          used_l = nz if noisy else lg
          total = const(0)
          for l in on:
            if l == 'importance': x = spec(ctx, 'importance_loss', mod='routers', gates=spec(ctx, 'gates', mod='routers', logits=lg))
            elif l == 'gshard': x = spec(ctx, 'gshard_loss', mod='routers', gates=spec(ctx, 'gates', mod='routers', logits=used_l))
            else: x = spec(ctx, 'load_loss', mod='routers', logits=lg, noisy=nz, k=t.attr(sv, 'num_selected_experts'), std=t.div(t.attr(sv, 'noise_std'), t.attr(sv, 'num_experts')))
            total = t.add(total, t.mul(ws[l], x))
          got, ref = z.arr(tq.resolve(z, aux)), z.arr(total)
          ctx.ob('auxiliary-loss', wt, z.same(got, ref), f'auxiliary loss is {z.show(got)}, expected {z.show(ref)}')
  encoders_sum(ctx)


def encoders_sum(ctx):
  """Encoders: one metrics entry per MoE block, and the total over all entries."""
  for mod, cls in ((V, 'EncoderMoe'), (VE, 'EncoderMoeEnsemble')):
    r = ctx.analyze(f'{mod}:{cls}.__call__', opaque=VOP)
    w = f'{r.file} {cls}'
    tot = [e for e in r.events if e.kind == 'setitem' and e.args and t.is_const(e.args[0], 'auxiliary_loss')]
    if not tot:
      ctx.ob('sum-over-blocks', w, t.contains(t.item(r.ret, const(1)), lambda x: t.is_const(x, 'auxiliary_loss')), 'the encoder returns no auxiliary_loss')
    for e in tot:
      v = e.args[1]
      sums = q.calls(v, 'sum', 'jax.numpy.sum')
      if v in sums and v.args[1] and v.args[1][0].op == 'map':
        mp = v.args[1][0]
        (i,), body = t.open_lam(mp.args[0], 'b')
        per = body.op == 'item' and t.is_const(body.args[1], 'auxiliary_loss')
        ctx.ob('sum-over-blocks', w, per and mp.args[2] is TRUE and len(v.args[1]) == 1, f'{e.where()}: the total is {t.show(v, 4)}, not the plain sum of the auxiliary_loss of every block')
      elif sums: ctx.ob('sum-over-blocks', w, False, f'{e.where()}: the total is {t.show(v, 4)}, not the plain sum of the auxiliary_loss of every block')
      else: ctx.undecided('sum-over-blocks', w, f'total of unknown form {t.show(v, 3)}')
    blocks = [e for e in r.events if e.kind == 'setitem' and e.loops and e not in tot]
    for e in blocks:
      lp = e.loops[-1]
      ctx.ob('block-metrics-kept', w, t.contains(e.args[0], lambda x: x is lp.idx) and not q.early(e), f'{e.where()}: metrics of different blocks share a key, or some blocks are skipped')
      ats = [a for a in t.cond_atoms(e.pc) if not t.mentions(a, lp.idx)]
      ctx.ob('block-metrics-kept', w, not ats, f'{e.where()}: metrics kept only if {t.show(e.pc, 4)}')


# ---------------------------------------------------------------- C12
ER = 'vmoe.nn.ensemble_routing'
EV = 'vmoe.evaluate.ensemble'
B, T_, H, M, N, EE, CL = [sym(x) for x in ('B', 'T', 'H', 'M', 'N', 'Ee', 'Cl')]


def rspec(ctx, name, **bind): return spec(ctx, name, mod='routers', **bind)


@prop('C12', 'Index-notation equality: to-groups and from-groups are mutually inverse and put the members of one token next to each other; the gates of the ensemble router are block diagonal '
             '(a member never reaches the experts of another one); training and evaluation losses pair row b*M+m with image b and average probabilities over the members.', floor=16)
def c12(ctx):
  # layouts
  r1 = ctx.analyze(f'{ER}:reshape_to_group_size_representation')
  r2 = ctx.analyze(f'{ER}:reshape_from_group_size_representation')
  p1 = list(r1.params.values())
  r2 = ctx.analyze(f'{ER}:reshape_from_group_size_representation', bind={k: sym(f'<{i}>') for i, k in enumerate(r2.params)})
  p2 = [sym(f'<{i}>') for i in range(3)]
  for tag, gs in (('group = whole images', t.mul(t.mul(T_, M), R_)), ('group inside an image', None)):
    w = f'{r1.file} reshape_to_group_size_representation ({tag})'
    z = tz.Tensor()
    if gs is not None:
      z.declare(p1[0], [t.mul(t.mul(B, R_), M), T_, H])
      z.size_env[p1[1]] = gs
    else:
      z.declare(p1[0], [t.mul(B, M), t.mul(T_, N), H])
      z.size_env[p1[1]] = t.mul(N, M)
    z.size_env[p1[2]] = z.size_env[p2[2]] = M
    with tq.Dec(ctx, 'members-adjacent', w):
      got = z.arr(tq.resolve(z, r1.ret))
      ref = z.arr(rspec(ctx, 'to_groups', x=p1[0], group_size=p1[1], ensemble_size=p1[2]))
      ctx.ob('members-adjacent', w, z.same(got, ref), f'grouped layout is {z.show(got)}, expected {z.show(ref)}')
    w = f'{r2.file} reshape_from_group_size_representation ({tag})'
    with tq.Dec(ctx, 'inverse-layout', w):
      z.env[p2[0]] = z.arr(tq.resolve(z, r1.ret))
      z.size_env[p2[1]] = t.mul(T_, N) if gs is None else T_
      back = z.arr(tq.resolve(z, r2.ret))
      ctx.ob('inverse-layout', w, z.same(back, z.arr(p1[0])), f'grouping and ungrouping gives {z.show(back)} instead of the input {z.show(z.arr(p1[0]))}')
  ensemble_gates(ctx)
  ensemble_losses(ctx)
  ensemble_encoder(ctx)
  ctx.section(ensemble_block)


R_ = sym('R')


def ensemble_gates(ctx):
  r = ctx.analyze(f'{ER}:NoisyTopExpertsPerItemEnsembleRouter.__call__', opaque=OPQ)
  sv, x = r.selfv, list(r.params.values())[1]
  ms, ne = t.attr(sv, 'ensemble_size'), t.attr(sv, 'num_experts')
  w = f'{r.file} NoisyTopExpertsPerItemEnsembleRouter'
  lifted = [y for y in t.subterms(r.ret) if y.op == 'call' and y.args[0].op == 'call' and q.is_call(y.args[0], 'flax.linen.vmap')]
  lifted = list(dict.fromkeys(lifted))
  if len(lifted) != 1:
    ctx.undecided('block-diagonal', w, f'{len(lifted)} lifted maps')
    return
  call = lifted[0]
  kw = q.kws(call.args[0])
  fn = call.args[0].args[1][0]
  def entry(d, k): return t.cval_or(t.item(d, const(k))) if d is not None and d.op == 'dict' and any(t.is_const(a, k) for a, _ in d.args) else None
  ctx.ob('own-parameters', w, isinstance(entry(kw.get('variable_axes'), 'params'), int) and entry(kw.get('split_rngs'), 'params') is True, 'members share the gating parameters or their initialisation')
  ctx.ob('own-noise', w, entry(kw.get('split_rngs'), 'gating') is True, 'members share the gating noise')
  ia, oa = t.cval_or(kw.get('in_axes', const(0))), t.cval_or(kw.get('out_axes', const(0)))
  z = tz.Tensor()
  z.declare(x, [G, t.mul(N, M), H])
  z.size_env[ms], z.size_env[ne] = M, t.mul(M, EE)
  z.size_env[t.attr(sv, 'num_selected_experts')] = K
  with tq.Dec(ctx, 'members-split', w):
    if not isinstance(ia, int) or not isinstance(oa, int) or len(call.args[1]) != 1: raise tz.Unknown('axes of the lifted map')
    arg = z.arr(tq.resolve(z, call.args[1][0]))
    k = z.axis(arg, ia)
    moved = Arr([d for i, d in enumerate(arg.dims) if i != k] + [arg.dims[k]], arg.val)
    ref = z.arr(rspec(ctx, 'split_members', inputs=x, members=ms))
    ref = Arr([ref.dims[0], ref.dims[1], ref.dims[3], ref.dims[2]], ref.val)
    ctx.ob('members-split', w, z.same(moved, ref), f'member m gets {z.show(moved)}, expected the tokens with index n*M+m: {z.show(ref)}')
    per = [G, N, EE]
    per.insert(oa, M)
    Y = sym('<per-member>')
    z.declare(Y, per)
    z.memo.clear()
    PM = raw('call', glob('jax.numpy.moveaxis'), (Y, const(oa), const(1)), ())
    gates = t.item(call, const(0))
    us = used(t.item(r.ret, const(0)), TOPE)
    if not us: raise tz.Unknown('dispatcher call')
    for g, args, kws, f in us:
      got = z.arr(tq.resolve(z, t.subst(g, {gates: Y})))
      want = z.arr(rspec(ctx, 'block_diagonal', per_member=PM, members=ms))
      ctx.ob('block-diagonal', w, z.same(got, want), f'gates are {z.show(got)}, expected {z.show(want)}')
  # what is mapped: the gates and metrics of the plain router for E/M experts
  base = ctx.analyze(f'{R}:NoisyTopExpertsPerItemRouter.__call__', opaque=OPQ)
  syms, body = t.open_lam(fn, 'i')
  dn = logits_of(body)
  with tq.Dec(ctx, 'experts-per-member', w):
    if dn is None: raise tz.Unknown('logits')
    ft = q.kwarg(dn.args[0], 'features', 0)
    ctx.ob('experts-per-member', w, ft is not None and z.size(ft) is EE, f'each member has {t.show(ft, 4)} experts')
  for tag, m, pos in modes(sv):
    with tq.Dec(ctx, 'member-gates', f'{w} ({tag})'):
      if dn is None: raise tz.Unknown('logits')
      z2 = tz.Tensor()
      z2.size_env.update(z.size_env)
      z2.declare(syms[0], [G, N, H])
      z2.env[t.attr(sv, 'noise_std')] = Arr((), t.attr(sv, 'noise_std'))
      b = fix(body, m, pos)
      lg = logits_of(b)
      got = z2.arr(tq.resolve(z2, t.item(b, const(0))))
      if tag == 'noisy': ref = rspec(ctx, 'noisy_gates', logits=lg, key=key_of(r), noise_std=t.attr(sv, 'noise_std'), num_experts=t.div(ne, ms))
      else: ref = rspec(ctx, 'gates', logits=lg)
      ref = z2.arr(ref)
      ctx.ob('member-gates', f'{w} ({tag})', z2.same(got, ref), f'gates of a member are {z2.show(got)}, expected {z2.show(ref)}')


def ensemble_losses(ctx):
  for fn, sp, kind in (('ensemble_softmax_xent_train', 'softmax_train', None), ('ensemble_sigmoid_xent_train', 'sigmoid_train', None), ('ensemble_softmax_xent_eval', 'softmax_eval', None),
                       ('ensemble_sigmoid_xent_eval', 'sigmoid_eval', None), ('label_pred_ensemble_softmax', 'pred', 'softmax'), ('label_pred_ensemble_sigmoid', 'pred', 'sigmoid')):
    r = ctx.analyze(f'{EV}:{fn}')
    w = f'{r.file} {fn}'
    p = list(r.params.values())
    z = tz.Tensor()
    z.declare(p[0], [t.mul(B, M), CL])
    if kind is None: z.declare(p[1], [B, CL])
    z.size_env[p[-1]] = M
    with tq.Dec(ctx, 'ensemble-loss', w):
      got = z.arr(tq.resolve(z, r.ret))
      ref = rspec(ctx, sp, logits=p[0], members=p[-1], **({'labels': p[1]} if kind is None else {'kind': const(kind)}))
      ref = z.arr(ref)
      ctx.ob('ensemble-loss', w, z.same(got, ref), f'value is {z.show(got)}, expected {z.show(ref)}')


def ensemble_block(ctx):
  """The MoE block of an ensemble groups the tokens with its members adjacent, and puts every output back in the place of its token."""
  C = f'{VE}:MlpMoeWithNoisyTopExpertsPerItemEnsembleRouter.'
  INNER = 'vmoe.nn.vit_moe.MlpMoeBlock.__call__'
  r = ctx.analyze(C + '__call__', opaque=[INNER])
  w = f'{r.file} MlpMoeWithNoisyTopExpertsPerItemEnsembleRouter'
  x, S = list(r.params.values())[1], lambda n: t.attr(r.selfv, n)
  inner = sorted({y for y in t.subterms(r.ret) if y.op == 'call' and y.args[0].op == 'opaque' and y.args[0].args[0] == INNER}, key=lambda y: y.uid)
  if len(inner) != 1: ctx.undecided('ensemble-block', w, f'{len(inner)} inner blocks')
  else:
    y = inner[0]
    ctx.ob('ensemble-block', w, t.item(r.ret, const(1)) is t.item(y, const(1)) or t.item(r.ret, const(1)).op not in ('item', 'dict'), 'the metrics are not those of the block')
    OUT = sym('BLOCK-OUT')
    for tag, gs in (('group = whole images', t.mul(t.mul(T_, M), R_)), ('group inside an image', None)):
      w2 = f'{w} ({tag})'
      with tq.Dec(ctx, 'ensemble-block', w2):
        z = tz.Tensor()
        if gs is not None:
          z.declare(x, [t.mul(t.mul(B, R_), M), T_, H])
          z.size_env[S('group_size')] = gs
        else:
          z.declare(x, [t.mul(B, M), t.mul(T_, N), H])
          z.size_env[S('group_size')] = t.mul(N, M)
        z.size_env[S('ensemble_size')] = M
        g = z.arr(tq.resolve(z, y.args[1][-1]))
        ref = z.arr(rspec(ctx, 'to_groups', x=x, group_size=S('group_size'), ensemble_size=S('ensemble_size')))
        ctx.ob('ensemble-block', w2, z.same(g, ref), f'the block is given {z.show(g)}, expected {z.show(ref)}')
        z.env[OUT] = ref
        back = z.arr(tq.resolve(z, t.subst(t.item(r.ret, const(0)), {t.item(y, const(0)): OUT})))
        ctx.ob('ensemble-block', w2, z.same(back, z.arr(x)), f'the output of a token ends up at another place: {z.show(back)}')
  for v in (NONE, const(0), const(-1), const(1), const(4)):
    r = ctx.analyze(C + '__call__', opaque=[INNER], self_bind={'ensemble_size': v})
    no = any(e.pc is TRUE for e in q.raises(r))
    ctx.ob('ensemble-size', w, no == (v is NONE or v.args[1] <= 0), f'an ensemble of size {t.show(v)} is {"refused" if no else "accepted"}')
  for given in (True, False):
    rt = raw('dict', (const('k'), sym('KK')), *([(const('deterministic'), sym('DET'))] if given else []))
    r = ctx.analyze(C + 'create_router', self_bind={'router': rt})
    w = f'{r.file} MlpMoeWithNoisyTopExpertsPerItemEnsembleRouter.create_router'
    S = lambda n: t.attr(r.selfv, n)
    ev = [e for e in r.events if e.kind == 'new' and 'EnsembleRouter' in t.show(e.fn, 2)]
    if len(ev) != 1:
      ctx.undecided('ensemble-router', w, f'{len(ev)} routers')
      continue
    kv = dict(ev[0].kwargs)
    for k, want in (('num_experts', S('num_experts')), ('k', sym('KK')), ('ensemble_size', S('ensemble_size')), ('dtype', S('dtype')), ('deterministic', sym('DET') if given else S('deterministic'))):
      got = kv.get(k)
      if got is None and '**' in kv: ctx.undecided('ensemble-router', w, k)
      else: ctx.ob('ensemble-router', w, got is want, f'the router of the ensemble gets {k} = {t.show(got, 3) if got is not None else "default"}')
  r = ctx.analyze(C + 'create_router', self_bind={'router': NONE})
  ctx.ob('ensemble-router', w, not any(e.pc is TRUE for e in q.raises(r)), 'a router without options is refused')


def ensemble_encoder(ctx):
  """The tokens are repeated once, image by image, before the first MoE block."""
  r = ctx.analyze(f'{VE}:EncoderMoeEnsemble.__call__', opaque=VOP)
  w = f'{r.file} EncoderMoeEnsemble'
  reps = [e for e in r.events if e.kind == 'call' and e.fn is not None and e.fn.op == 'glob' and e.fn.args[0] in ('jax.numpy.repeat', 'jax.numpy.tile')]
  ctx.ob('repeated-once', w, len(reps) == 1, f'{len(reps)} places repeat the tokens')
  for e in reps:
    if e.fn.args[0].endswith('tile'):
      ctx.ob('repeat-layout', w, False, f'{e.where()}: tokens are tiled, members of one image are not adjacent')
      continue
    ax = q.ekw(e, 'axis', 2)
    n = q.ekw(e, 'repeats', 1)
    ctx.ob('repeat-layout', w, ax is not None and t.is_const(ax, 0), f'{e.where()}: tokens repeated along axis {t.show(ax, 3) if ax is not None else None}')
    ctx.ob('repeat-layout', w, t.contains(n, lambda x: t.is_const(x, 'ensemble_size')), f'{e.where()}: repeated {t.show(n, 4)} times')
    if e.loops:
      lp = e.loops[-1]
      once = any(a.op == 'truth' and a.args[0] in lp.phis for a in t.cond_atoms(e.pc)) or any(any(t.mentions(a, ph) for ph in lp.phis) for a in t.cond_atoms(e.pc))
      ctx.ob('repeated-once', w, once, f'{e.where()}: tokens are repeated at every MoE block')


# ---------------------------------------------------------------- C13
SM = 'vmoe.projects.soft_moe.router'
P = sym('P')


def soft_modes(sv):
  for tag, m, pos in modes(sv):
    for given in (True, False): yield tag, given, m, pos


@prop('C13', 'Index-notation equality of the soft router: logits are the scaled inner products of unit inputs and unit slots (scale applied once on either path), dispatch weights are their '
             'softmax over the items of the group, combine weights the softmax over all slots of all experts; MlpMoeBlock groups tokens, applies the experts with the dispatcher of the same groups and restores the shape.', floor=15)
def c13(ctx):
  r = ctx.analyze(f'{SM}:SoftRouter.__call__', opaque=['vmoe.moe.compute_capacity'])
  sv, x = r.selfv, list(r.params.values())[1]
  w0 = f'{r.file} SoftRouter'
  std, ns = t.attr(sv, 'noise_std'), t.attr(sv, 'num_slots')
  param = lambda n: single([y for y in t.subterms(r.ret) if y.op == 'call' and y.args[0] is t.attr(sv, 'param') and y.args[1] and t.is_const(y.args[1][0], n)])
  isn = raw('is', *sorted([NONE, ns]))
  cap = single([y for y in t.subterms(r.ret) if y.op == 'call' and y.args[0].op == 'opaque' and y.args[0].args[0].endswith('compute_capacity')])
  for tag, given, m, pos in soft_modes(sv):
    w = f'{w0} ({tag}, {"given" if given else "computed"} number of slots)'
    v = fix(t.assume(r.ret, {isn: not given}), m, pos)
    d = t.item(v, const(0))
    objs = list(dict.fromkeys(y for y in t.subterms(d) if y.op == 'obj' and y.args[0].endswith('EinsumDispatcher')))
    if len(objs) != 1:
      ctx.undecided('soft-dispatcher', w, 'dispatcher not recognised')
      continue
    fields = dict(objs[0].args[1])
    wrapped = [y for y in t.subterms(d) if y.op == 'obj' and y.args[0].endswith('Bfloat16Dispatcher')]
    z = tz.Tensor()
    z.declare(x, [G, S, D])
    z.size_env[t.attr(sv, 'num_experts')] = E
    z.size_env[ns] = P
    capv = single([y for y in t.subterms(v) if y.op == 'call' and y.args[0].op == 'opaque' and y.args[0].args[0].endswith('compute_capacity')])
    if capv is not None: z.size_env[capv] = P
    z.env[std] = Arr((), std)
    with tq.Dec(ctx, 'soft-weights', w):
      mu = single([y for y in t.subterms(v) if y.op == 'call' and y.args[0] is t.attr(sv, 'param') and t.is_const(y.args[1][0], 'mu')])
      sc = single([y for y in t.subterms(v) if y.op == 'call' and y.args[0] is t.attr(sv, 'param') and t.is_const(y.args[1][0], 'scale')])
      if mu is None or sc is None: raise tz.Unknown('parameters')
      sh = z.shape(mu.args[1][2] if len(mu.args[1]) > 2 else q.kws(mu)['shape'])
      ctx.ob('slot-parameters', w, [y if not isinstance(y, tuple) else (z.sz[y[0]] if len(y) == 1 else None) for y in sh] == [D, E, P], f'slot parameters have shape {[t.show(y, 3) for y in sh]}')
      z.declare(mu, [D, E, P])
      z.declare(sc, [])
      eps = eps_of(v)
      lgs = rspec(ctx, 'soft_logits', inputs=x, mu=mu, scale=sc, eps=eps)
      if tag == 'noisy': lgs = rspec(ctx, 'soft_noisy', logits=lgs, key=key_of(r), std=std)
      for name, sp in (('dispatch_weights', 'soft_dispatch'), ('combine_weights', 'soft_combine')):
        ref = z.arr(rspec(ctx, sp, logits=lgs))
        term = fields.get(name, NONE)
        ats = [a for a in t.inner_atoms(term)]
        for c in tq.cases([term]):
          got = z.arr(tq.resolve(z, term, c))
          ctx.ob(f'soft-{name.replace("_", "-")}', w, z.same(got, ref), f'{name} is {z.show(got)}, expected {z.show(ref)}')
  if cap is not None:
    names = ['num_tokens', 'num_experts', 'capacity_factor', 'ceil_or_round', 'multiple_of']
    a = dict(zip(names, cap.args[1]))
    a.update(q.kws(cap))
    z = tz.Tensor()
    z.declare(x, [G, S, D])
    with tq.Dec(ctx, 'slots-per-expert', w0):
      ctx.ob('slots-per-expert', w0, z.size(a.get('num_tokens', NONE)) is S and a.get('num_experts') is t.attr(sv, 'num_experts') and a.get('capacity_factor') is t.attr(sv, 'capacity_factor'),
             'the number of slots is not computed from the tokens of a group, the experts and the capacity factor')
  moe_block(ctx)


def eps_of(v):
  """The constant that keeps the normalisation finite (any constant is accepted, the same on both sides)."""
  cs = set()
  for y in q.calls(v, 'jax.lax.rsqrt', 'jax.numpy.sqrt'):
    for a in y.args[1]:
      for mm, c in t.poly_of(a).items():
        if mm == (): cs.add(c)
  cs = [c for c in cs if c == 1e-6] or [c for c in cs]
  return const(cs[0]) if len(cs) == 1 else const(1e-6)


def moe_block(ctx):
  r = ctx.analyze(f'{V}:MlpMoeBlock.__call__', opaque=VOP + [f'{V}.MlpMoeBlock.create_router', 'vmoe.moe.sparse_moe_spmd'])
  w = f'{r.file} MlpMoeBlock'
  sv, x = r.selfv, list(r.params.values())[1]
  out = t.item(r.ret, const(0))
  gs = t.attr(sv, 'group_size')
  router = single([y for y in t.subterms(r.ret) if y.op == 'call' and y.args[0].op == 'call' and y.args[0].args[0].op == 'opaque' and y.args[0].args[0].args[0].endswith('create_router')])
  moe = single([y for y in t.subterms(out) if y.op == 'call' and len(y.args[1]) >= 2 and t.contains(y.args[0], lambda k: k.op == 'opaque' and k.args[0].endswith('sparse_moe_spmd')) and router is not None and t.mentions(y.args[1][0], router)])
  if router is None or moe is None:
    ctx.undecided('moe-block', w, 'router or experts not recognised')
    return
  ctx.ob('own-dispatcher', w, moe.args[1][0] is t.item(router, const(0)), 'the experts do not use the dispatcher of this router')
  ctx.ob('router-metrics', w, t.item(r.ret, const(1)) is t.item(router, const(1)), 'the metrics returned are not those of the router')
  # for every size, and - where the shapes of an unusual program stay open - for small ones
  for sizes in ({}, {gs: const(2), N: const(3), B: const(2), D: const(5), sym('O'): const(7)}):
    put = lambda y: t.subst(y, sizes) if sizes else y
    g, n, b0, d, o = (put(y) for y in (gs, N, B, D, sym('O')))
    tokens, out = put(router.args[1][0]), put(t.item(r.ret, const(0)))
    m1 = put(moe)
    w1 = w + (' (2 sequences of 6 tokens in groups of 2)' if sizes else '')
    z = tz.Tensor()
    z.declare(x, [b0, t.mul(g, n), d])
    if not sizes: z.size_env[gs] = gs
    with tq.Dec(ctx, 'groups', w1):
      a, b = z.arr(tokens), z.arr(m1.args[1][1])
      ctx.ob('same-groups', w1, z.same(a, b), f'the router sees {z.show(a)} and the experts {z.show(b)}')
      ref = z.arr(raw('call', t.attr(x, 'reshape'), (const(-1), g, t.item(t.attr(x, 'shape'), const(-1))), ()))
      ctx.ob('groups', w1, z.same(a, ref), f'groups are {z.show(a)}, expected {z.show(ref)}')
    with tq.Dec(ctx, 'shape-restored', w1):
      # outputs: same groups, last axis O; the block must give back the layout of its input
      Y = sym('<experts>')
      y0 = z.declare(Y, [b0, n, g, o])
      z.env[Y] = Arr([y0.dims[0] + y0.dims[1], y0.dims[2], y0.dims[3]], y0.val)
      z.memo.clear()
      got = z.arr(tq.resolve(z, t.subst(out, {m1: Y})))
      want = Arr([y0.dims[0], y0.dims[1] + y0.dims[2], y0.dims[3]], y0.val)
      ctx.ob('shape-restored', w1, z.same(got, want), f'the output is {z.show(got)}, expected {z.show(want)}')
  sp = [e for e in r.events if e.kind == 'call' and e.fn is not None and e.fn.op == 'opaque' and e.fn.args[0].endswith('sparse_moe_spmd')]
  for e in sp:
    va = q.ekw(e, 'variable_axes')
    ok = va is not None and va.op == 'dict' and any(t.is_const(k, 'params') and t.is_const(y, 0) for k, y in va.args)
    ctx.ob('expert-parameters', w, ok, f'{e.where()}: the parameters of the experts are not stacked on axis 0')

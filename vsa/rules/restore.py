"""C21: where the initial train state comes from."""
from .. import dicts, q, terms as t
from ..framework import prop
from ..terms import NONE, FALSE, TRUE, const, glob, raw, sym
from .optim import is_op
from .training import OP

P = 'vmoe.train.trainer'
CREATE, INIT, REG = f'{P}.create_or_reuse_train_state', f'{P}.initialize_train_state_from_checkpoint', 'vmoe.partitioning.tree_axis_resources_from_regexes'
ROC, MK, MGR, MODEL = f'{P}.restore_or_create_train_state', f'{P}.make_create_train_state_fn', f'{P}.create_checkpoint_manager', f'{P}.create_flax_model'
FLAT, UNFLAT, TSD, FSD = 'flax.traverse_util.flatten_dict', 'flax.traverse_util.unflatten_dict', 'flax.serialization.to_state_dict', 'flax.serialization.from_state_dict'
SDS = glob('jax.ShapeDtypeStruct')
MAP = 'jax.tree.map'


@prop('C21', 'Value-flow analysis of state creation: precedence of the latest checkpoint, the configured initialization and the initializer (decided per branch), lookup semantics of the merged state for a symbolic key, '
             'template and sharding of what is restored.', floor=30)
def c21(ctx):
  ctx.section(reuse)
  ctx.section(precedence)
  ctx.section(dispatch)
  ctx.section(scratch)
  for p in ('vmoe.train.trainer', 'vmoe.projects.contrastive.trainer'): ctx.section(wiring, p)
  ctx.section(cost)


def reuse(ctx):
  r = ctx.analyze(f'{P}:create_or_reuse_train_state')
  w = f'{r.file} create_or_reuse_train_state'
  st, init = sym('train_state'), raw('call', sym('initialize_fn'), (), ())
  x = r.ret
  if not (q.is_call(x, FSD) and x.args[1][0] is st and q.is_call(x.args[1][1], UNFLAT)):
    ctx.undecided('merged-state', w, t.show(x, 4))
    return
  F = x.args[1][1].args[1][0]
  sep = q.kwarg(x.args[1][1], 'sep', 1, NONE)
  flats = [y for y in t.subterms(F) if q.is_call(y, FLAT)]
  of = lambda s: sorted({y for y in flats if y.args[1][0] is raw('call', glob(TSD), (s,), ())}, key=lambda y: y.uid)
  Ts, Is = of(st), of(init)
  if not t.mentions(F, init) and t.mentions(F, st): ctx.ob('merged-state', w, False, 'missing arrays do not come from the initializer')
  if not t.mentions(F, st) and t.mentions(F, init): ctx.ob('merged-state', w, False, 'the arrays that are already there are not used')
  if len(Ts) != 1 or len(Is) != 1:
    ctx.undecided('merged-state', w, f'{len(Ts)}, {len(Is)} flattened states')
    return
  T, I = Ts[0], Is[0]
  opts = lambda y: (q.kwarg(y, 'sep', None, NONE), q.kwarg(y, 'keep_empty_nodes', None, FALSE))
  ctx.ob('same-names', w, opts(T)[0] is opts(I)[0] is sep, 'the two states and the result are not flattened the same way')
  ctx.ob('empty-nodes-kept', w, opts(T)[1] is TRUE, 'empty nodes of the state are lost')
  k = sym('name')
  try:
    c, v = dicts.look(F, k)
  except dicts.Opaque as e:
    ctx.undecided('merged-state', w, str(e))
    return
  v, c = dicts.rewrite(v), dicts.rewrite(t.val(c))
  inT, inI = t.in_(k, T), t.in_(k, I)
  tk, ik = t.item(T, k), t.item(I, k)
  sds = [a for y in (v, c) for a in t.inner_atoms(y) if a.op == 'isinstance' and a.args[0] is tk]
  for hit in (True, False):
    lits = {inT: True, inI: True, **{a: (hit if a.args[1] is SDS else not hit) for a in sds}}
    got, pres = t.assume(v, lits), t.cond(t.assume(c, lits))
    want = ik if hit else tk
    nm = 'a missing array' if hit else 'an array that was already there'
    if t.inner_atoms(got):
      ctx.undecided('merged-state', w, t.show(got, 4))
      continue
    ctx.ob('merged-state', w, got is want, f'{nm} becomes {t.show(got, 4)}, not {t.show(want, 4)}')
    ctx.ob('merged-state', w, pres is TRUE, f'{nm} is lost')
  ms = sym('mesh')
  for e in r.events:
    if e.kind == 'enter' and e.fn is not None and (t.mentions(e.fn, ms) or 'physical_mesh' in t.show(e.fn, 3)):
      ctx.ob('given-mesh', w, t.assume(e.fn, {raw('truth', ms): True, raw('is', *sorted([NONE, ms])): False}) is ms, f'the arrays are created in the mesh {t.show(e.fn, 3)}')
  js = [e for e in r.events if e.kind == 'jit']
  for e in js:
    o = q.ekw(e, 'out_shardings')
    if o is None:
      if all(isinstance(n, str) for n, _ in e.kwargs): ctx.ob('sharding-kept', w, False, 'the new arrays are not placed as asked')
      continue
    try:
      c, v = dicts.look(o, k)
    except dicts.Opaque:
      ctx.undecided('sharding-kept', w, t.show(o, 3))
      continue
    v = dicts.rewrite(v)
    v = t.assume(v, {a: True for a in t.inner_atoms(v)})
    ctx.ob('sharding-kept', w, v is t.attr(tk, 'sharding'), f'the new array is placed by {t.show(v, 4)}')


def elem(ctx, w, rule, x, want, cls, aliases):
  """x = map(lambda ...: cls(field=...), trees...): the fields per leaf."""
  if not (q.is_call(x, MAP) and x.args[1] and x.args[1][0].op == 'lam'): return None
  ss, body = t.open_lam(x.args[1][0])
  if not q.is_call(body, cls): return None
  return ss, body, x.args[1][1:]


def precedence(ctx):
  r = ctx.analyze(f'{P}:restore_or_create_train_state', opaque=[CREATE, INIT, REG])
  w = f'{r.file} restore_or_create_train_state'
  mgr, init, ik, mesh = sym('ckpt_manager'), sym('initialize_fn'), sym('initialization_kwargs'), sym('mesh')
  latest = raw('call', t.attr(mgr, 'latest_step'), (), ())
  none, tr, hk = raw('is', *sorted([NONE, latest])), raw('truth', latest), raw('truth', ik)
  hn = raw('is', *sorted([NONE, ik]))
  # a checkpoint exists, also one of step 0, whatever initialization is configured
  for zero in (False, True):
    for has in (True, False):
      lits = {none: False, tr: not zero, t.eq(latest, const(0)): zero, t.lt(const(0), latest): not zero, hk: has, hn: not has}
      x = t.assume(r.ret, lits)
      s, i = t.item(x, const(0)), t.item(x, const(1))
      nm = f'with a checkpoint at step {"0" if zero else "n"}{", and an initialization," if has else ""}'
      rs = sorted({y for y in t.subterms(x) if q.is_mcall(y, 'restore') and y.args[0].args[0] is mgr}, key=lambda y: y.uid)
      if not rs:
        ctx.ob('checkpoint-first', w, not t.contains(x, lambda y: is_op(y, CREATE, INIT)), f'{nm} a new state is created')
        if not t.contains(x, lambda y: is_op(y, CREATE, INIT)): ctx.undecided('checkpoint-first', w, t.show(x, 3))
        continue
      ctx.ob('checkpoint-first', w, len(rs) == 1 and not t.contains(x, lambda y: is_op(y, CREATE, INIT)), f'{nm} the restored state is not used as it is')
      it = rs[0]
      ctx.ob('latest-step', w, bool(it.args[1]) and it.args[1][0] is latest or q.kwarg(it, 'step', None, NONE) is latest, f'{nm} step {t.show(it.args[1][0], 3) if it.args[1] else "?"} is restored, not the latest one')
      ctx.ob('restored-state', w, s is t.item(it, const('state')) or s is t.attr(it, 'state'), f'the restored state is {t.show(s, 3)}')
      want = [t.item(b, const('last_seen_index')) for b in (t.item(it, const('dataset_iterator')), t.attr(it, 'dataset_iterator'))]
      want += [raw('getdef', b, const('last_seen_index'), NONE) for b in (t.item(it, const('dataset_iterator')), t.attr(it, 'dataset_iterator'))]
      ctx.ob('restored-position', w, i in want, f'the data position is {t.show(i, 4)}, not the one saved with the state')
      pt = [y for y in t.subterms(it) if q.is_call(y, 'orbax.checkpoint.args.PyTreeRestore', 'orbax.checkpoint.args.StandardRestore')]
      if len(pt) != 1:
        ctx.undecided('restore-template', w, f'{len(pt)} templates')
        continue
      template(ctx, w, q.kwarg(pt[0], 'item', 0, NONE))
      ra = q.kwarg(pt[0], 'restore_args', 1, NONE)
      f = elem(ctx, w, 'restore-args', ra, None, 'orbax.checkpoint.ArrayRestoreArgs', None)
      if f is None or len(f[0]) != 1:
        if ra is NONE and all(isinstance(n, str) for n, _ in pt[0].args[2]): ctx.ob('restore-args', w, False, 'the arrays are restored without their layout')
        else: ctx.undecided('restore-args', w, t.show(ra, 3))
        continue
      (e,), b, src = f
      ctx.ob('restore-args', w, src[0] is q.kwarg(pt[0], 'item', 0, NONE), 'arrays are restored with the layout of another tree')
      for fld, want in (('dtype', 'dtype'), ('sharding', 'sharding'), ('global_shape', 'shape')):
        g = q.kwarg(b, fld, None, None)
        ctx.ob('restore-args', w, g is t.attr(e, want) or (g is None and fld == 'dtype'), f'{fld} of a restored array is {t.show(g, 3) if g is not None else "not given"}')
  # no checkpoint
  for has in (True, False):
    lits = {none: True, tr: False, t.eq(latest, const(0)): False, t.lt(const(0), latest): False, hk: has, hn: not has}
    x = t.assume(r.ret, lits)
    s, i = t.item(x, const(0)), t.item(x, const(1))
    ctx.ob('no-position', w, i is NONE, f'without a checkpoint the data position is {t.show(i, 3)}')
    if not is_op(s, CREATE):
      ctx.undecided('create', w, t.show(s, 3))
      continue
    kw = q.kws(s)
    ctx.ob('create', w, kw.get('initialize_fn') is init, 'missing arrays do not come from the initializer')
    given = lambda m: t.assume(m, {raw('truth', mesh): True, raw('is', *sorted([NONE, mesh])): False}) is mesh
    ctx.ob('create', w, given(kw.get('mesh', NONE)), 'missing arrays are created with another mesh than the given one')
    ts = kw.get('train_state', NONE)
    if has:
      if not is_op(ts, INIT):
        ctx.ob('initialization-used', w, False, f'the configured initialization is ignored: {t.show(ts, 3)}')
        continue
      k2 = q.kws(ts)
      stars = [b for a, b in ts.args[2] if not isinstance(a, str)]
      ctx.ob('initialization-used', w, stars == [ik] or all(k2.get(n) is t.item(ik, const(n)) for n in ('name',)), f'the initialization is given {[t.show(b, 3) for b in stars]}')
      ctx.ob('initialization-used', w, given(k2.get('mesh', NONE)), 'the initialization uses another mesh than the given one')
      ts = k2.get('train_state', NONE)
    else: ctx.ob('initialization-used', w, not is_op(ts, INIT), 'an initialization runs although none is configured')
    template(ctx, w, ts)


def template(ctx, w, x):
  shapes = raw('call', glob('jax.eval_shape'), (sym('initialize_fn'),), ())
  f = elem(ctx, w, 'template', x, None, 'jax.ShapeDtypeStruct', None)
  if f is None or len(f[0]) != 2:
    ctx.undecided('template', w, t.show(x, 3))
    return
  ss, b, src = f
  if shapes not in src:
    ctx.undecided('template', w, t.show(src[0], 3))
    return
  k = list(src).index(shapes)
  e, y, reg = ss[k], ss[1 - k], src[1 - k]
  ctx.ob('template', w, q.kwarg(b, 'shape', 0) is t.attr(e, 'shape') and q.kwarg(b, 'dtype', 1) is t.attr(e, 'dtype'), 'the expected arrays have another shape or dtype than those of the initializer')
  sh = q.kwarg(b, 'sharding', 2, NONE)
  if q.is_call(reg, MAP) and reg.args[1][0].op == 'lam':
    (z,), bb = t.open_lam(reg.args[1][0])
    sh = t.subst(sh, {y: bb})
    y, reg = z, reg.args[1][1]
  if not (q.is_call(sh, 'jax.sharding.NamedSharding') and is_op(reg, REG)):
    if sh is NONE and all(isinstance(n, str) for n, _ in b.args[2]): ctx.ob('template', w, False, 'the expected arrays have no placement')
    else: ctx.undecided('template', w, t.show(sh, 3))
    return
  ctx.ob('template', w, sh.args[1][1] is y, f'an array is placed by {t.show(sh, 3)}')
  m = sh.args[1][0]
  ctx.ob('template', w, t.assume(m, {raw('truth', sym('mesh')): True, raw('is', *sorted([NONE, sym('mesh')])): False}) is sym('mesh'), 'another mesh than the given one is used')
  kw = q.kws(reg)
  ctx.ob('template', w, kw.get('tree', NONE) is shapes and kw.get('axis_resources_regexes', NONE) is sym('axis_resources_regexes'), 'the partitioning is derived from another tree or other rules')


def dispatch(ctx):
  r = ctx.analyze(f'{P}:initialize_train_state_from_checkpoint')
  w = f'{r.file} initialize_train_state_from_checkpoint'
  N = sym('name')
  names = ('initialize_from_vmoe', 'initialize_from_vit', 'initialize_from_orbax')
  for n in names:
    lits = {t.eq(N, const(m)): m == n for m in names}
    x = t.assume(r.ret, lits)
    ctx.ob('known-initialization', w, not any(t.cond(t.assume(t.val(e.pc), lits)) is TRUE for e in q.raises(r)), f'{n} is refused')
    if x.op != 'call' or x.args[0].op != 'glob' or t.inner_atoms(x):
      ctx.undecided('dispatch', w, t.show(x, 3))
      continue
    ctx.ob('dispatch', w, x.args[0].args[0].rsplit('.', 1)[-1] == n, f'{n} runs {t.show(x.args[0])}')
    kw = q.kws(x)
    ctx.ob('dispatch-target', w, kw.get('target') is sym('train_state') or (x.args[1] and x.args[1][0] is sym('train_state')), 'another state is initialized')
    ctx.ob('dispatch-options', w, [b for a, b in x.args[2] if not isinstance(a, str)] == [sym('**kwargs')], 'the options are not passed on')
    ctx.ob('dispatch-mesh', w, kw.get('mesh') is sym('mesh'), 'another mesh is used')
  none = {t.eq(N, const(m)): False for m in names}
  ctx.ob('unknown-initialization', w, any(t.cond(t.assume(t.val(e.pc), none)) is TRUE for e in q.raises(r)), 'an unknown initialization is not refused')


def scratch(ctx):
  OPT, RNGS = 'vmoe.train.optimizer.create_optimizer', 'vmoe.utils.make_rngs'
  r = ctx.analyze(f'{P}:make_create_train_state_fn', then=[], opaque=[OPT, RNGS])
  w = f'{r.file} make_create_train_state_fn'
  x = r.ret
  model = sym('model')
  if not q.is_mcall(x, 'create'):
    ctx.undecided('scratch', w, t.show(x, 3))
    return
  kw = q.kws(x)
  stars = [b for a, b in x.args[2] if not isinstance(a, str)]
  ctx.ob('scratch-apply', w, kw.get('apply_fn') is t.attr(model, 'apply'), 'the state applies another model')
  tx = kw.get('tx', NONE)
  ok = is_op(tx, OPT)
  if ok:
    k2 = q.kws(tx)
    ctx.ob('scratch-optimizer', w, k2.get('total_steps') is sym('train_steps'), f'the optimizer is planned for {t.show(k2.get("total_steps", NONE), 3)} steps')
    ctx.ob('scratch-optimizer', w, [b for a, b in tx.args[2] if not isinstance(a, str)] == [sym('optimizer_config')], 'the optimizer configuration is not used')
  else: ctx.undecided('scratch-optimizer', w, t.show(tx, 3))
  inits = [y for y in t.subterms(x) if q.is_mcall(y, 'init') and y.args[0].args[0] is model]
  if len(inits) != 1:
    ctx.undecided('scratch-variables', w, t.show(x, 3))
    return
  v = inits[0]
  p = kw.get('params')
  ctx.ob('scratch-variables', w, stars == [v] or (p is not None and p is t.item(v, const('params'))), 'the state does not hold the initialized variables')
  mk = [y for y in t.subterms(v.args[1][0]) if is_op(y, RNGS)]
  if len(mk) == 1:
    a = list(mk[0].args[1]) + [b for _, b in mk[0].args[2]]
    names = a[0]
    ctx.ob('scratch-seed', w, sym('seed') in a, 'the seed is not used')
    ctx.ob('scratch-streams', w, t.mentions(names, const('params')) and t.mentions(names, sym('extra_rng_keys')), f'keys are made for {t.show(names, 3)}')
    pops = [e for e in r.events if e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[1] in ('pop', '__delitem__') and e.fn.args[0] is mk[0] and e.args and t.is_const(e.args[0], 'params')]
    rn = kw.get('rngs', NONE)
    ctx.ob('scratch-rngs', w, t.mentions(rn, mk[0]), 'the state does not hold the random streams')
    if rn is mk[0]: ctx.ob('scratch-params-key', w, bool(pops), 'the key of the initializer stays in the state')
  ins = [y for y in t.subterms(v) if q.is_call(y, 'jax.numpy.zeros', 'jax.numpy.ones', 'jax.numpy.empty')]
  for y in ins:
    s, d = q.kwarg(y, 'shape', 0), q.kwarg(y, 'dtype', 1)
    ctx.ob('scratch-inputs', w, s is not None and s.op == 'attr' and s.args[1] == 'shape' and t.mentions(s, sym('input_shape_dtypes')), 'the model is initialized with inputs of another shape')
    ctx.ob('scratch-inputs', w, d is not None and s is not None and s.op == 'attr' and d is t.attr(s.args[0], 'dtype'), 'the model is initialized with inputs of another dtype')


def wiring(ctx, mod):
  r = ctx.analyze(f'{mod}:train_and_evaluate', opaque=OP)
  w = f'{r.file} train_and_evaluate'
  tail = lambda x, n: x.op == 'call' and x.args[0].op == 'opaque' and x.args[0].args[0].rsplit('.', 1)[-1] == n
  evs = lambda n: [e for e in r.events if e.kind == 'call' and e.fn.op == 'opaque' and e.fn.args[0].rsplit('.', 1)[-1] == n]
  cfg = sym('config')
  rs = evs('restore_or_create_train_state')
  if len(rs) != 1:
    ctx.undecided('wiring', w, f'{len(rs)} creations')
    return
  kw = q.ekws(rs[0])
  ctx.ob('wiring', w, tail(kw.get('ckpt_manager', NONE), 'create_checkpoint_manager'), 'the state is not restored from the checkpoint manager of the run')
  mk = kw.get('initialize_fn', NONE)
  reg = kw.get('axis_resources_regexes', NONE)
  ctx.ob('wiring', w, reg is t.attr(cfg, 'params_axis_resources') or reg is t.item(cfg, const('params_axis_resources')) or (reg.op == 'getdef' and t.is_const(reg.args[1], 'params_axis_resources')), f'parameters are partitioned by {t.show(reg, 3)}')
  ik = kw.get('initialization_kwargs', NONE)
  ctx.ob('wiring', w, t.contains(ik, lambda y: t.is_const(y, 'initialization')) or t.contains(ik, lambda y: y.op == 'attr' and y.args[1] == 'initialization'), f'the configured initialization is not passed on: {t.show(ik, 3)}')
  if not tail(mk, 'make_create_train_state_fn'):
    ctx.undecided('wiring', w, t.show(mk, 3))
    return
  k2 = q.kws(mk)
  m = k2.get('model', NONE)
  if tail(m, 'create_flax_model'):
    k3 = q.kws(m)
    ctx.ob('wiring', w, k3.get('deterministic') is FALSE, 'the trained model is deterministic')
  ts = k2.get('train_steps', NONE)
  ctx.ob('wiring', w, ts.op == 'item' and tail(ts.args[0], 'get_train_steps_and_epochs') and t.is_const(ts.args[1], 0), f'the optimizer is planned for {t.show(ts, 3)} steps')
  sd = k2.get('seed', NONE)
  ctx.ob('wiring', w, t.contains(sd, lambda y: t.is_const(y, 'seed')) or t.contains(sd, lambda y: y.op == 'attr' and y.args[1] == 'seed'), 'the configured seed is not used')
  ek = k2.get('extra_rng_keys', NONE)
  ctx.ob('wiring', w, t.contains(ek, lambda y: t.is_const(y, 'extra_rng_keys')) or t.contains(ek, lambda y: y.op == 'attr' and y.args[1] == 'extra_rng_keys'), 'the configured random streams are not made')
  oc = k2.get('optimizer_config', NONE)
  ctx.ob('wiring', w, t.contains(oc, lambda y: t.is_const(y, 'optimizer')) or t.contains(oc, lambda y: y.op == 'attr' and y.args[1] == 'optimizer'), 'the configured optimizer is not used')


def cost(ctx):
  GF = 'vmoe.utils.get_flops_and_seconds_per_device'
  r = ctx.analyze(f'{P}:make_train_cost_fn', then=[sym('step')], opaque=[GF])
  w = f'{r.file} make_train_cost_fn'
  base = [y for y in t.subterms(r.ret) if is_op(y, GF)]
  if not base:
    ctx.undecided('cost', w, t.show(r.ret, 3))
    return
  for i, nm in ((0, 'flops'), (1, 'device_seconds')):
    g = t.item(base[0], const(i))
    for have in (True, False):
      lits = {raw('is', *sorted([NONE, t.item(base[0], const(j))])): not (have if j == i else True) for j in (0, 1)}
      x = t.assume(r.ret, lits)
      try:
        c, v = dicts.look(x, const(nm))
      except dicts.Opaque:
        ctx.undecided('cost', w, t.show(x, 3))
        continue
      if have: ctx.ob('cost', w, c is TRUE and v is t.mul(t.mul(g, sym('step')), raw('call', glob('jax.device_count'), (), ())), f'{nm} at a step is {t.show(v, 4) if v is not None else "missing"}, not per-device cost * step * devices')
      else: ctx.ob('cost-unknown', w, c is FALSE, f'{nm} is reported although it is unknown')

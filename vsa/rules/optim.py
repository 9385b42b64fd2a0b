"""C17 optimizer chain, C18 training step and gradient accumulation, C32 learning rate schedules."""
from .. import arith
from .. import q
from .. import terms as t
from ..framework import prop
from ..terms import TRUE, FALSE, NONE, raw, const, glob, sym, T

O = 'vmoe.train.optimizer.'
SCHED = 'vmoe.train.schedule.create_learning_rate_schedule'
PARTS = [O + x for x in ('gradient_scaling', 'gradient_clipping', 'add_decayed_weights', 'freeze_weights')]


def decide(ctx, rule, where, eq, what):
  if eq is None: ctx.undecided(rule, where, what)
  else: ctx.ob(rule, where, eq, what)


def is_op(x, *names): return x.op == 'call' and x.args[0].op == 'opaque' and x.args[0].args[0] in names


def flat_list(x):
  """Elements of a list-like term, or None."""
  if x.op in ('list', 'tuple'):
    out = []
    for y in x.args:
      if y.op == 'star':
        z = flat_list(y.args[0])
        if z is None: return None
        out += z
      else: out.append(y)
    return out
  if x.op == 'cat':
    out = []
    for y in x.args:
      z = flat_list(y)
      if z is None: return None
      out += z
    return out
  return None


def chain(x):
  """Elements of a (nested) optax.chain without identities; None if unknown."""
  if q.is_call(x, 'optax.identity'): return []
  if q.is_call(x, 'optax.chain') and not x.args[2]:
    els = flat_list(raw('tuple', *x.args[1]))
    if els is None: return None
    out = []
    for y in els:
      z = chain(y)
      if z is None: return None
      out += z
    return out
  return [x]


def only_kwargs(x, s): return not x.args[1] and [v for k, v in x.args[2] if not isinstance(k, str)] == [s] and not [k for k, v in x.args[2] if isinstance(k, str)]


@prop('C17', 'Value-flow analysis of the optimizer chain per optimizer name (order, presence and arguments of every part), and of the per-parameter transformations: pairing by parameter name, first matching pattern, '
             'defaults, and the mask of frozen parameters; contradictory options raise on every path.', floor=40)
def c17(ctx):
  ctx.section(the_chain)
  ctx.section(decay)
  ctx.section(scaling)
  ctx.section(freeze)
  ctx.section(clip)


def the_chain(ctx):
  r = ctx.analyze('vmoe.train.optimizer:create_optimizer', opaque=PARTS + [SCHED])
  w = f'{r.file} create_optimizer'
  name = sym('name')
  kw = sym('**optim_kwargs')
  names = ('adam', 'big_vision_adafactor', 'sgd')
  lr_atoms = [a for a in t.inner_atoms(r.ret) if a.op == 'isinstance' and a.args[0] is sym('learning_rate')]
  for n in names:
    lits = {t.eq(name, const(m)): m == n for m in names}
    for e in q.raises(r):
      pc = t.cond(t.assume(t.val(e.pc), lits))
      ctx.ob('known-optimizer', w, pc is not TRUE, f'optimizer {n!r} is refused at {e.where()}')
    x = t.assume(r.ret, lits)
    ops = chain(x)
    if ops is None:
      ctx.undecided('chain', w, t.show(x, 3))
      continue
    seq, bad = [], None
    for o in ops:
      if is_op(o, O + 'gradient_scaling'): k = 'scale'
      elif is_op(o, O + 'gradient_clipping'): k = 'clip'
      elif is_op(o, O + 'add_decayed_weights'): k = 'decay'
      elif is_op(o, O + 'freeze_weights'): k = 'freeze'
      elif t.contains(o, lambda y: y.op == 'opaque' and y.args[0] == SCHED): k = 'rate'
      elif t.contains(o, lambda y: q.is_call(y, 'optax.scale_by_adam', 'optax.scale_by_factored_rms', 'optax.trace', 'optax.ema')): k = 'base'
      else: bad = o; break
      if not (k == 'base' and seq and seq[-1][0] == 'base'): seq.append((k, o))
      else: seq[-1] = ('base', raw('tuple', seq[-1][1], o))
    if bad is not None:
      ctx.undecided('chain', w, t.show(bad, 3))
      continue
    want = ['scale', 'clip', 'base', 'decay', 'rate', 'freeze']
    got = [k for k, _ in seq]
    ctx.ob('chain-order', w, got == want, f'{n}: the update is built by {got}, not by {want}')
    d = dict(seq)
    if 'scale' in d: ctx.ob('chain-options', w, sym('gradient_scale') in d['scale'].args[1] + tuple(v for _, v in d['scale'].args[2]), f'{n}: gradient scales are not the configured ones')
    if 'clip' in d:
      a = [v for k, v in d['clip'].args[2] if not isinstance(k, str)]
      ctx.ob('chain-options', w, len(a) == 1 and t.assume(a[0], {raw('truth', sym('gradient_clip')): True}) is sym('gradient_clip') or q.kws(d['clip']).keys() == {'global_norm', 'absolute_value'}, f'{n}: clipping options are not the configured ones')
    if 'decay' in d: ctx.ob('chain-options', w, (d['decay'].args[1] + tuple(v for _, v in d['decay'].args[2])) == (sym('weight_decay'),), f'{n}: the weight decay is {t.show(d["decay"], 4)}')
    if 'freeze' in d:
      k = q.kws(d['freeze'])
      ctx.ob('chain-options', w, k.get('frozen_pattern') is sym('frozen_pattern') and k.get('trainable_pattern') is sym('trainable_pattern'), f'{n}: frozen and trainable patterns are not passed as configured')
    if 'rate' in d: rate(ctx, w, n, d['rate'], lr_atoms)
    if 'base' in d: base(ctx, w, n, d['base'], kw)
  ok = any(t.cond(t.assume(t.val(e.pc), {t.eq(name, const(m)): False for m in names})) is TRUE for e in q.raises(r))
  ctx.ob('unknown-optimizer', w, ok, 'an unknown optimizer name is not refused')


def rate(ctx, w, n, x, lr_atoms):
  L = sym('learning_rate')
  sc = [y for y in t.subterms(x) if is_op(y, SCHED)]
  s = sc[0]
  ctx.ob('schedule-length', w, q.kws(s).get('total_steps') is sym('total_steps'), f'{n}: the schedule is not built for the training length')
  cfg = [v for k, v in s.args[2] if not isinstance(k, str)]
  if len(cfg) == 1:
    m = t.assume(cfg[0], {a: False for a in lr_atoms})
    ctx.ob('schedule-config', w, m is L, f'{n}: a configured schedule is replaced by {t.show(m, 4)}')
    for a in lr_atoms:
      m = t.assume(cfg[0], {b: b is a for b in lr_atoms})
      if m.op == 'dict': ctx.ob('schedule-constant', w, t.item(m, const('schedule')) is const('constant') and t.item(m, const('value')) is L, f'{n}: a plain number as learning rate becomes {t.show(m, 4)}')
  elif not cfg and q.kws(s).get('value') is L: ctx.ob('schedule-config', w, False, f'{n}: a configured schedule is treated as a number')
  # x = inject_hyperparams(f)(schedule) with f = lambda r: optax.scale(-r); or scale_by_learning_rate / scale_by_schedule
  ok = None
  if x.op == 'call' and q.is_call(x.args[0], 'optax.inject_hyperparams') and x.args[0].args[1] and x.args[0].args[1][0].op == 'lam':
    a = x.args[1] + tuple(v for _, v in x.args[2])
    ss, body = t.open_lam(x.args[0].args[1][0])
    if len(a) == 1 and a[0] is s and len(ss) == 1:
      if q.is_call(body, 'optax.scale'): ok = q.kwarg(body, 'step_size', 0) is t.neg(ss[0])
      elif q.is_call(body, 'optax.scale_by_learning_rate'): ok = q.kwarg(body, 'learning_rate', 0) is ss[0] and q.kwarg(body, 'flip_sign', 1, TRUE) is TRUE
  elif q.is_call(x, 'optax.scale_by_learning_rate'): ok = q.kwarg(x, 'learning_rate', 0) is s and q.kwarg(x, 'flip_sign', 1, TRUE) is TRUE
  decide(ctx, 'descent', w, ok, f'{n}: the update is not multiplied by minus the learning rate: {t.show(x, 5)}')


def base(ctx, w, n, x, kw):
  if n == 'adam':
    ctx.ob('base-optimizer', w, q.is_call(x, 'optax.scale_by_adam') and only_kwargs(x, kw), f'adam: {t.show(x, 4)}')
  elif n == 'sgd':
    mom = raw('getdef', kw, const('momentum'), NONE)
    for has in (True, False):
      y = t.assume(x, {raw('truth', mom): has})
      z = chain(y)
      if not has: ctx.ob('base-optimizer', w, z == [] or not q.calls(y, 'optax.trace'), f'sgd without momentum: {t.show(y, 4)}')
      elif z and len(z) == 1 and q.is_call(z[0], 'optax.trace'):
        ctx.ob('base-optimizer', w, q.kwarg(z[0], 'decay', 0) is mom, f'sgd: momentum {t.show(z[0], 4)}')
        ctx.ob('base-optimizer', w, any(not isinstance(k, str) for k, _ in z[0].args[2]), 'sgd: other options are dropped')
      else: ctx.undecided('base-optimizer', w, t.show(y, 3))
  else:
    fr = q.calls(x, 'optax.scale_by_factored_rms')
    em = q.calls(x, 'optax.ema')
    g = lambda k, d: raw('getdef', kw, const(k), d)
    if len(fr) != 1:
      ctx.undecided('base-optimizer', w, t.show(x, 3))
      return
    k = q.kws(fr[0])
    for a, b, d in (('decay_rate', 'decay_rate', const(0.8)), ('step_offset', 'decay_offset', const(0)), ('min_dim_size_to_factor', 'min_dim_size_to_factor', const(32)), ('epsilon', 'eps', const(1e-30))):
      ctx.ob('base-optimizer', w, k.get(a) is g(b, d), f'adafactor: {a} is {t.show(k.get(a, NONE), 3)}, not the option {b}')
    ctx.ob('base-optimizer', w, k.get('factored', TRUE) is TRUE, 'adafactor: not factored')
    f = k.get('decay_rate_fn')
    mxs = {y for y in t.subterms(x) if y.op == 'getdef' and y.args[0] is kw and t.is_const(y.args[1], 'decay_rate_max')}
    ctx.ob('adafactor-decay', w, bool(mxs) and all(t.is_const(y.args[2], .999) for y in mxs), 'adafactor: the decay rate is not capped at decay_rate_max')
    if f is not None and f.op == 'lam' and f.args[1] == 2:
      ss, body = t.open_lam(f)
      body = t.transform(body, lambda y: y.args[1][0] if q.is_call(y, 'jax.numpy.array', 'jax.numpy.asarray', 'jax.numpy.float32') else None)
      mx = g('decay_rate_max', const(0.999))
      mx_s = sym('mx')
      body = t.subst(body, {mx: mx_s})
      want = raw('call', glob('min'), (mx_s, t.sub(const(1.0), t.binop('**', t.add(ss[0], const(1.0)), t.neg(ss[1])))), ())
      eq = arith.equal(body, want, dom={ss[1]: lambda r: r.choice([.3, .5, .8, 1.]), mx_s: lambda r: r.choice([.2, .5, .9, .999])})
      decide(ctx, 'adafactor-decay', w, eq, f'adafactor: the decay at a step is {t.show(body, 6)}')
    if em:
      mom = g('momentum', const(0.9))
      ctx.ob('base-optimizer', w, q.kwarg(em[0], 'decay', 0) is mom and q.kwarg(em[0], 'debias', 1, TRUE) is FALSE, f'adafactor: momentum {t.show(em[0], 4)}')
      ctx.ob('base-optimizer', w, q.kwarg(em[0], 'accumulator_dtype', 2) is g('momentum_dtype', glob('jax.numpy.float32')), 'adafactor: the momentum type is not the configured one')
      els = chain(t.assume(x, {raw('truth', mom): True})) if x.op != 'tuple' else [y for z in x.args for y in (chain(t.assume(z, {raw('truth', mom): True})) or [])]
      if els: ctx.ob('base-optimizer', w, len(els) == 2 and bool(q.calls(els[0], 'optax.scale_by_factored_rms')), 'adafactor: momentum is not applied to the scaled gradient')
    else: ctx.ob('base-optimizer', w, False, 'adafactor: momentum is never applied')


def first_match(W, dom_base, key, default):
  """Is W `the value of the first (pattern, value) pair of dom_base whose pattern is found in key, else default`?"""
  fs = [y for y in t.subterms(W) if y.op == 'first']
  if not fs: return None
  f = fs[0]
  if f.args[1].op != 'lam' or f.args[2].op != 'lam': return None
  i = t.fresh('j')
  c, v = t.beta(f.args[1], [i]), t.beta(f.args[2], [i])
  dom = f.args[0]
  def pairs(x):
    """Resolve pair access through the compiled list."""
    return x
  pat, val = t.item(t.nth(dom_base, i), const(0)), t.item(t.nth(dom_base, i), const(1))
  searches = [y for y in t.subterms(c) if q.is_mcall(y, 'search', 'match', 'fullmatch') or q.is_call(y, 're.search', 're.match', 're.fullmatch')]
  if len(searches) != 1: return None
  s = searches[0]
  if q.is_mcall(s, 'search', 'match', 'fullmatch'):
    m, p, k = s.args[0].args[1], s.args[0].args[0], s.args[1][0]
    if q.is_call(p, 're.compile'): p = p.args[1][0]
  else: m, p, k = s.args[0].args[0].split('.')[1], s.args[1][0], s.args[1][1]
  return dict(found=m, pattern=p is pat, pattern_t=p, key=k is key, value=v is val, value_t=v, positive=t.cond(c) is t.cond(raw('truth', s)) or t.cond(c) is t.b_not(t.cond(raw('is', *sorted([NONE, s])))), over=dom is dom_base or (dom.op == 'map' and dom.args[1] is dom_base and dom.args[2] is TRUE))


def flat_update(x):
  """from_state_dict(target, unflatten_dict({key: value for ...})) -> (target, key, value, index, flattened inputs)."""
  if not q.is_call(x, 'flax.serialization.from_state_dict') or len(x.args[1]) < 2: return None
  u = x.args[1][1]
  if not q.is_call(u, 'flax.traverse_util.unflatten_dict'): return None
  d = u.args[1][0]
  sep = q.kwarg(u, 'sep', 1)
  if d.op in ('dictupd', 'dictof'):
    if d.op == 'dictupd' and not (d.args[0].op == 'dict' and not d.args[0].args):
      # in-place update of every key of the flattened tree
      if not q.is_call(d.args[0], 'flax.traverse_util.flatten_dict'): return None
    m = d.args[-1]
  else: return None
  if m.op != 'map' or m.args[2] is not TRUE: return None
  ss, body = t.open_lam(m.args[0])
  if body.op != 'tuple' or len(body.args) != 2: return None
  return x.args[1][0], body.args[0], body.args[1], ss[0], m.args[1], sep


def flat_of(x, tree, sep):
  """Is x the flattened state dict of `tree`?"""
  if not q.is_call(x, 'flax.traverse_util.flatten_dict'): return False
  y = x.args[1][0]
  if q.is_call(y, 'flax.serialization.to_state_dict'): y = y.args[1][0]
  return y is tree and q.kwarg(x, 'sep', 2) is sep


def separators(ctx, rule, w, body):
  """Parameter names are slash-joined, and flattened and unflattened alike."""
  seps = {(q.kwarg(y, 'sep', 2 if y.args[0].args[0].endswith('.flatten_dict') else 1, NONE)) for y in t.subterms(body) if q.is_call(y, 'flax.traverse_util.flatten_dict', 'flax.traverse_util.unflatten_dict')}
  ctx.ob(rule, w, len(seps) <= 1 and not any(t.is_const(y) and y is not NONE and y.args[1] != '/' for y in seps), f'parameter names are joined and split with {[t.show(y, 2) for y in seps]}, not with slashes')


def last_match(x, base):
  """A search over all patterns that lets a later match overwrite an earlier one."""
  for y in t.subterms(x):
    if y.op != 'item' or y.args[0].op != 'fold' or not t.is_const(y.args[1]): continue
    dom, inits, l = y.args[0].args[:3]
    if not t.mentions(dom, base) or t.contains(dom, lambda z: q.is_call(z, 'reversed') or z.op == 'slice') or l.op != 'lam': continue
    ss, body = t.open_lam(l)
    nxt = t.item(body, y.args[1])
    lv = t.leaves(nxt)
    searched = lambda d: any(t.contains(a, lambda z: q.is_mcall(z, 'search', 'match', 'fullmatch') or q.is_call(z, 're.search', 're.match', 're.fullmatch')) for a in d)
    keep = [d for d, z in lv if z in ss]
    take = [d for d, z in lv if z not in ss]
    if keep and take and all(searched(d) for d in take) and not any(a in ss or any(t.mentions(a, z) for z in ss[1:]) and not searched({a: 1}) for d in take for a in d): return y
  return None


def pattern_rule(ctx, rule, w, W, base, key, default):
  f = first_match(W, base, key, default)
  if f is None:
    ctx.undecided(rule, w, t.show(W, 4))
    return
  ctx.ob(rule, w, f['found'] == 'search', f'patterns are matched with {f["found"]}, not searched')
  ctx.ob(rule, w, f['pattern'] and f['value'], f'pattern {t.show(f["pattern_t"], 3)} is paired with {t.show(f["value_t"], 3)}')
  ctx.ob(rule, w, f['key'], 'patterns are searched in something else than the parameter name')
  ctx.ob(rule, w, f['positive'], 'the value is taken where the pattern is not found')
  ctx.ob(rule, w, f['over'], 'not all patterns are tried in order')
  if W.op == 'ite':
    ls = [l for _, l in t.leaves(W) if not t.contains(l, lambda y: y.op == 'first')]
    ctx.ob(rule, w, all(t.is_const(l) and l.args[1] == default for l in ls), f'without a match the factor is {[t.show(l, 2) for l in ls]}, not {default}')


def decay(ctx):
  path = 'vmoe.train.optimizer:add_decayed_weights'
  r = ctx.analyze(path)
  w = f'{r.file} add_decayed_weights'
  D = sym('weight_decay')
  tr = raw('truth', D)
  none = t.assume(r.ret, {tr: False})
  ctx.ob('decay-off', w, chain(none) == [], f'without weight decay the updates are changed: {t.show(none, 3)}')
  x = t.assume(r.ret, {tr: True})
  if not q.is_call(x, 'optax.GradientTransformation', 'optax.GradientTransformationExtraArgs') or len(x.args[1]) != 2 or x.args[1][1].op != 'lam' or x.args[1][1].args[1] != 3:
    ctx.undecided('decay', w, t.show(x, 3))
    return
  (u, st, p), body = t.open_lam(x.args[1][1])
  # missing parameters are refused
  ctx.ob('decay-needs-params', w, bool(q.raises(r)), 'missing parameters are not refused')
  separators(ctx, 'decay-names', w, body)
  f = flat_update(t.item(body, const(0)))
  if f is None:
    ctx.undecided('decay', w, t.show(body, 4))
    return
  tgt, k, v, i, dom, sep = f
  ctx.ob('decay-structure', w, tgt is u, 'the result is not shaped like the updates')
  ctx.ob('decay-state', w, t.item(body, const(1)) is st, 'the state is changed')
  U = [y for y in t.subterms(v) if flat_of(y, u, sep)]
  P = [y for y in t.subterms(v) if flat_of(y, p, sep)]
  if not U or not P:
    ctx.ob('decay-formula', w, not (t.mentions(v, u) and not t.mentions(v, p)), 'the parameters do not enter the update')
    ctx.undecided('decay-formula', w, t.show(v, 4))
    return
  U, P = U[0], P[0]
  ctx.ob('decay-name', w, k is t.nth(raw('keys', U), i) or (k.op == 'nth' and k.args[0] is raw('keys', U)), f'an update is stored under {t.show(k, 4)}, not under its own name')
  gs = sorted({y for y in t.subterms(v) if y.op == 'item' and y.args[0] in (U, P)}, key=lambda y: y.uid)
  own = all(y.args[1] is k for y in gs)
  byp = [y for y in gs if y.args[1] is not k]
  ctx.ob('decay-pairs-by-name', w, own, f'the update of a parameter is combined with {t.show(byp[0], 6)}: paired by position, not by name' if byp else '')
  gu, gp = next((y for y in gs if y.args[0] is U), None), next((y for y in gs if y.args[0] is P), None)
  if gu is None or gp is None:
    ctx.undecided('decay-formula', w, t.show(v, 4))
    return
  inst = [a for a in t.inner_atoms(v) if a.op == 'isinstance' and a.args[0] is D]
  G, PP = sym('g'), sym('p')
  scal = t.subst(t.assume(v, {a: False for a in inst}), {gu: G, gp: PP})
  decide(ctx, 'decay-formula', w, arith.equal(scal, t.add(G, t.mul(D, PP))), f'with one factor the update is {t.show(scal, 5)}, not update + factor * parameter')
  ctx.ob('decay-lists', w, {a.args[1] for a in inst} not in ({glob('list')}, {glob('tuple')}), 'only some sequences of patterns are accepted')
  for a in inst:
    x = t.assume(v, {b: b is a for b in inst})
    Ws = [y for y in t.subterms(x) if y.op == 'first' or (y.op == 'ite' and t.contains(y, lambda z: z.op == 'first'))]
    Ws = [y for y in Ws if not any(y is not z and t.contains(z, lambda m, y=y: m is y) for z in Ws)]
    Ws = sorted(Ws, key=lambda y: y.uid)
    if len(Ws) != 1:
      y = last_match(x, D)
      if y is not None: ctx.ob('decay-patterns', w, False, f'the last matching pattern wins, not the first: {t.show(y, 4)}')
      else: ctx.undecided('decay-patterns', w, t.show(x, 4))
      continue
    z = t.subst(x, {Ws[0]: sym('W'), gu: G, gp: PP})
    decide(ctx, 'decay-formula', w, arith.equal(z, t.add(G, t.mul(sym('W'), PP))), f'the decayed update is {t.show(z, 5)}, not update + factor * parameter')
    pattern_rule(ctx, 'decay-patterns', w, Ws[0], D, k, 0)


def scaling(ctx):
  path = 'vmoe.train.optimizer:gradient_scaling'
  r = ctx.analyze(path)
  w = f'{r.file} gradient_scaling'
  D = sym('scales')
  tr = raw('truth', D)
  ctx.ob('scaling-off', w, chain(t.assume(r.ret, {tr: False})) == [], 'without scales the updates are changed')
  x = t.assume(r.ret, {tr: True})
  if not q.is_call(x, 'optax.GradientTransformation', 'optax.stateless', 'optax.GradientTransformationExtraArgs') or x.args[1][-1].op != 'lam':
    ctx.undecided('scaling', w, t.show(x, 3))
    return
  ss, body = t.open_lam(x.args[1][-1])
  separators(ctx, 'scaling-names', w, body)
  f = flat_update(t.item(body, const(0)))
  if f is None:
    ctx.undecided('scaling', w, t.show(body, 4))
    return
  tgt, k, v, i, dom, sep = f
  u = ss[0]
  ctx.ob('scaling-structure', w, tgt is u, 'the result is not shaped like the updates')
  ctx.ob('scaling-state', w, t.item(body, const(1)) is ss[1], 'the state is changed')
  U = [y for y in t.subterms(v) if flat_of(y, u, sep)]
  if not U:
    ctx.undecided('scaling-formula', w, t.show(v, 4))
    return
  U = U[0]
  ctx.ob('scaling-name', w, k.op == 'nth' and k.args[0] is raw('keys', U), 'an update is stored under another name')
  gs = {y for y in t.subterms(v) if y.op == 'item' and y.args[0] is U}
  ctx.ob('scaling-own', w, all(y.args[1] is k for y in gs), 'a gradient is combined with the one of another parameter')
  Ws = [y for y in t.subterms(v) if y.op == 'ite' and t.contains(y, lambda z: z.op == 'first')]
  Ws = sorted((y for y in Ws if not any(y is not z and t.contains(z, lambda m, y=y: m is y) for z in Ws)), key=lambda y: y.uid)
  if len(Ws) != 1 or len(gs) != 1:
    y = last_match(v, D)
    if y is not None: ctx.ob('scaling-patterns', w, False, f'the last matching pattern wins, not the first: {t.show(y, 4)}')
    else: ctx.undecided('scaling-formula', w, t.show(v, 4))
    return
  z = t.subst(v, {Ws[0]: sym('W'), next(iter(gs)): sym('g')})
  decide(ctx, 'scaling-formula', w, arith.equal(z, t.mul(sym('W'), sym('g'))), f'the scaled gradient is {t.show(z, 4)}')
  pattern_rule(ctx, 'scaling-patterns', w, Ws[0], D, k, 1)


def freeze(ctx):
  path = 'vmoe.train.optimizer:freeze_weights'
  r = ctx.analyze(path)
  w = f'{r.file} freeze_weights'
  F, R = sym('frozen_pattern'), sym('trainable_pattern')
  fa, ra = raw('truth', F), raw('truth', R)
  ctx.ob('freeze-off', w, chain(t.assume(r.ret, {fa: False, ra: False})) == [], 'without patterns something is frozen')
  both = {fa: True, ra: True}
  ctx.ob('freeze-ambiguous', w, any(t.cond(t.assume(t.val(e.pc), both)) is TRUE for e in q.raises(r)), 'giving both patterns is not refused')
  for name, lits, pat, neg in (('frozen', {fa: True, ra: False}, F, False), ('trainable', {fa: False, ra: True}, R, True)):
    ctx.ob('freeze-accepted', w, all(t.cond(t.assume(t.val(e.pc), lits)) is FALSE for e in q.raises(r)), f'{name}_pattern alone is refused')
    x = t.assume(r.ret, lits)
    if not q.is_call(x, 'optax.masked') or len(x.args[1]) != 2:
      ctx.undecided('freeze', w, t.show(x, 3))
      continue
    ctx.ob('freeze-zero', w, q.is_call(x.args[1][0], 'optax.set_to_zero'), f'frozen parameters get {t.show(x.args[1][0], 3)}')
    m = x.args[1][1]
    if m.op != 'lam':
      ctx.undecided('freeze-mask', w, t.show(m, 3))
      continue
    (p,), body = t.open_lam(m)
    separators(ctx, 'freeze-names', w, body)
    f = flat_update(body)
    if f is None:
      ctx.undecided('freeze-mask', w, t.show(body, 4))
      continue
    tgt, k, v, i, dom, sep = f
    ctx.ob('freeze-structure', w, tgt is p, 'the mask is not shaped like the parameters')
    ctx.ob('freeze-name', w, k.op == 'nth' and k.args[0].op == 'keys' and flat_of(k.args[0].args[0], p, sep), 'the mask is stored under other names')
    v = t.assume(v, lits)
    ss = sorted({y for y in t.subterms(v) if q.is_mcall(y, 'search', 'match', 'fullmatch')}, key=lambda y: y.uid)
    if len(ss) != 1:
      ctx.undecided('freeze-mask', w, t.show(v, 4))
      continue
    s = ss[0]
    ctx.ob('freeze-search', w, s.args[0].args[1] == 'search' and s.args[1][0] is k, f'the pattern is not searched in the parameter name: {t.show(s, 4)}')
    forms = [t.cond(raw('truth', s)), t.b_not(t.cond(raw('is', *sorted([NONE, s]))))]
    want = [t.b_not(c) if neg else c for c in forms]
    opp = [c if neg else t.b_not(c) for c in forms]
    c = t.cond(v)
    decide(ctx, 'freeze-mask', w, True if c in want else False if c in opp or c in (TRUE, FALSE) else None, f'{name}_pattern: a parameter is frozen if {t.show(v, 5)}')
    comp = s.args[0].args[0]
    if q.is_call(comp, 're.compile'):
      c = comp.args[1][0]
      ia = [a for a in t.inner_atoms(c) if a.op == 'isinstance']
      one = t.assume(c, {a: True for a in ia})
      many = t.assume(c, {a: False for a in ia})
      ctx.ob('freeze-pattern', w, t.assume(one, lits) is pat, f'a single {name}_pattern becomes {t.show(one, 4)}')
      many = t.assume(many, lits)
      if q.is_mcall(many, 'join') and many.args[0].args[0] is const('|'):
        mp = many.args[1][0]
        if mp.op == 'map':
          e, b = t.open_lam(mp.args[0])
          src = t.assume(mp.args[1], lits)
          ps = q.merge_parts(list(b.args) if b.op == 'strcat' else [b])
          el = t.nth(src, e[0])
          ctx.ob('freeze-patterns', w, src is pat and mp.args[2] is TRUE, 'some patterns are dropped')
          b2 = t.assume(b, lits)
          ps = list(b2.args) if b2.op == 'strcat' else [b2]
          inner = [y for y in ps if not t.is_const(y)]
          ctx.ob('freeze-patterns', w, len(inner) == 1 and q.unfmt(inner[0]) is el, f'a pattern is changed to {t.show(b2, 4)}')
          if len(ps) == 3: ctx.ob('freeze-patterns', w, ps[0] is const('(?:') and ps[2] is const(')') or (ps[0] is const('(') and ps[2] is const(')')), f'patterns are joined as {t.show(b2, 3)}')
        elif mp is pat or mp.op == 'star': ctx.ob('freeze-patterns', w, True)
        else: ctx.undecided('freeze-patterns', w, t.show(many, 4))
      else: ctx.undecided('freeze-patterns', w, t.show(many, 4))


def clip(ctx):
  r = ctx.analyze('vmoe.train.optimizer:gradient_clipping')
  w = f'{r.file} gradient_clipping'
  G, A = sym('global_norm'), sym('absolute_value')
  g, a = raw('truth', G), raw('truth', A)
  ctx.ob('clip-ambiguous', w, any(t.cond(t.assume(t.val(e.pc), {g: True, a: True})) is TRUE for e in q.raises(r)), 'giving both limits is not refused')
  for name, lits, fn, arg in (('global norm', {g: True, a: False}, 'optax.clip_by_global_norm', G), ('absolute value', {g: False, a: True}, 'optax.clip', A), ('none', {g: False, a: False}, None, None)):
    x = t.assume(r.ret, lits)
    if fn is None: ctx.ob('clip-off', w, chain(x) == [], f'without limits the gradients become {t.show(x, 3)}')
    else:
      ctx.ob('clip', w, q.is_call(x, fn) and (x.args[1] + tuple(v for _, v in x.args[2])) == (arg,), f'{name}: {t.show(x, 3)}')
      ctx.ob('clip', w, all(t.cond(t.assume(t.val(e.pc), lits)) is FALSE for e in q.raises(r)), f'{name} alone is refused')


# ---------------------------------------------------------------- C32
@prop('C32', 'Normal form of every schedule function per name and phase combination: phase functions, boundaries and option defaults compared as arithmetic terms over symbolic steps; unknown names and impossible lengths raise.', floor=20)
def c32(ctx):
  ctx.section(sched_table)
  ctx.section(sched_rsqrt)
  ctx.section(sched_poly)


def phases(x):
  """join_schedules(list, boundaries) -> lists."""
  if not q.is_call(x, 'optax.join_schedules'): return None
  a, b = q.kwarg(x, 'schedules', 0), q.kwarg(x, 'boundaries', 1)
  a, b = flat_list(a), flat_list(b)
  return None if a is None or b is None else (a, b)


def linear(ctx, w, x, lo, hi, n):
  if not q.is_call(x, 'optax.linear_schedule', 'optax.polynomial_schedule'):
    ctx.undecided('warmup', w, t.show(x, 3))
    return
  ok = arith.equal(q.kwarg(x, 'init_value', 0, NONE), lo) is not False and q.kwarg(x, 'end_value', 1) is hi and q.kwarg(x, 'transition_steps', 2 if q.is_call(x, 'optax.linear_schedule') else 3) is n
  if q.is_call(x, 'optax.polynomial_schedule'): ok = ok and q.kwarg(x, 'power', 2, NONE) in (const(1), const(1.0))
  ctx.ob('warmup', w, ok and t.is_const(q.kwarg(x, 'init_value', 0, NONE)) and q.kwarg(x, 'init_value', 0).args[1] == 0, f'the warm-up is {t.show(x, 4)}')


def sched_poly(ctx):
  r = ctx.analyze('vmoe.train.schedule:warmup_polynomial_decay_schedule')
  w = f'{r.file} warmup_polynomial_decay_schedule'
  poly(ctx, w, r.ret, sym('peak_value'), sym('end_value'), sym('power'), sym('warmup_steps'), sym('decay_steps'))


def poly(ctx, w, x, peak, end, power, warm, dec):
  ph = phases(x)
  if ph is None or len(ph[0]) != 2:
    ctx.undecided('polynomial', w, t.show(x, 3))
    return
  (a, b), bd = ph
  linear(ctx, w, a, const(0.0), peak, warm)
  ctx.ob('boundary', w, bd == [warm], f'the decay starts at {[t.show(y, 4) for y in bd]}')
  if not q.is_call(b, 'optax.polynomial_schedule'):
    ctx.undecided('polynomial', w, t.show(b, 3))
    return
  for k, pos, want in (('init_value', 0, peak), ('end_value', 1, end), ('power', 2, power), ('transition_steps', 3, t.sub(dec, warm))):
    got = q.kwarg(b, k, pos, NONE)
    ctx.ob('polynomial', w, got is want or (t.is_const(got) and t.is_const(want) and got.args[1] == want.args[1]), f'{k} of the decay is {t.show(got, 4)}, not {t.show(want, 4)}')


def sched_rsqrt(ctx):
  r = ctx.analyze('vmoe.train.schedule:big_vision_rsqrt_schedule')
  w = f'{r.file} big_vision_rsqrt_schedule'
  peak, dec, ts, warm, cool = (sym(k) for k in ('peak_value', 'decay_steps', 'timescale', 'warmup_steps', 'cooldown_steps'))
  wa, ca = t.lt(const(0), warm), t.lt(const(0), cool)
  c0 = sym('count')
  sq = lambda x: raw('call', glob('math.sqrt'), (x,), ())
  end = t.div(peak, sq(t.add(const(1.0), t.div(t.sub(t.sub(dec, warm), cool), ts))))
  dom = {dec: lambda r: r.randint(200, 400), warm: lambda r: r.randint(1, 60), cool: lambda r: r.randint(1, 60), c0: lambda r: r.randint(0, 100)}
  def put(x, hw, hc):
    return t.subst(x, {} if hw else {warm: const(0)})
  atoms = t.inner_atoms(r.ret)
  for hw in (True, False):
    for hc in (True, False):
      lits = {}
      for a in atoms:
        for s, h in ((warm, hw), (cool, hc)):
          if a is t.lt(const(0), s): lits[a] = h
          elif a is t.eq(s, const(0)): lits[a] = not h
          elif a is raw('truth', s): lits[a] = h
      nm = f'{"with" if hw else "without"} warm-up, {"with" if hc else "without"} cool-down'
      x = t.assume(r.ret, lits)
      ph = phases(x)
      if ph is None:
        ctx.undecided('rsqrt', w, f'{nm}: {t.show(x, 3)}')
        continue
      fs, bd = ph
      if hw and fs: linear(ctx, w, fs[0], const(0.0), peak, warm)
      n = 1 + hw + hc
      ctx.ob('rsqrt-phases', w, len(fs) == n, f'{nm}: {len(fs)} phases')
      want = ([warm] if hw else []) + ([t.sub(dec, cool)] if hc else [])
      bd = bd[:n - 1]
      ctx.ob('rsqrt-boundaries', w, len(bd) == len(want) and all(a is b for a, b in zip(bd, want)), f'{nm}: phases change at {[t.show(b, 4) for b in bd]}, not at {[t.show(b, 4) for b in want]}')
      if len(fs) != n: continue
      for f, body in ((fs[int(hw)], t.mul(peak, raw('call', glob('jax.lax.rsqrt'), (t.add(const(1.0), t.div(c0, ts)),), ()))),) + (((fs[-1], t.mul(end, t.sub(const(1), t.div(c0, cool)))),) if hc else ()):
        if f.op != 'lam' or f.args[1] != 1:
          ctx.undecided('rsqrt-phase', w, f'{nm}: {t.show(f, 3)}')
          continue
        got = t.assume(t.beta(f, [c0]), lits)
        eq = arith.equal(put(got, hw, hc), put(body, hw, hc), dom)
        decide(ctx, 'rsqrt-phase', w, eq, f'{nm}: the value after count steps of the phase is {t.show(got, 7)}, not {t.show(body, 7)}')
  bad = [e for e in q.raises(r) if any(a.op == 'lt' and t.mentions(a, dec) for a in t.cond_atoms(t.cond(t.val(e.pc))))]
  ctx.ob('rsqrt-length', w, any(t.implies(t.cond(t.lt(dec, t.add(warm, cool))), t.cond(t.val(e.pc))) for e in bad), 'warm-up and cool-down longer than the schedule are not refused')


def sched_table(ctx):
  r = ctx.analyze('vmoe.train.schedule:create_learning_rate_schedule', opaque=['vmoe.train.schedule.big_vision_rsqrt_schedule'])
  w = f'{r.file} create_learning_rate_schedule'
  S, kw, tot = sym('schedule'), sym('**kwargs'), sym('total_steps')
  names = ('constant', 'warmup_exponential_decay', 'warmup_cosine_decay', 'warmup_linear_decay', 'warmup_polynomial_decay', 'big_vision_rsqrt')
  steps = raw('getdef', kw, const('decay_steps'), tot)
  for n in names:
    lits = {t.eq(S, const(m)): m == n for m in names}
    x = t.assume(r.ret, lits)
    wn = f'{w}({n})'
    ctx.ob('known-schedule', wn, not any(t.cond(t.assume(t.val(e.pc), lits)) is TRUE for e in q.raises(r)), f'schedule {n!r} is refused')
    star = [v for k, v in x.args[2] if not isinstance(k, str)] if x.op == 'call' else []
    k = q.kws(x) if x.op == 'call' else {}
    if n in ('constant', 'warmup_exponential_decay', 'warmup_cosine_decay'):
      fn = {'constant': 'optax.constant_schedule', 'warmup_exponential_decay': 'optax.warmup_exponential_decay_schedule', 'warmup_cosine_decay': 'optax.warmup_cosine_decay_schedule'}[n]
      if not q.is_call(x, fn):
        if x.op == 'call' and x.args[0].op == 'glob': ctx.ob('schedule', wn, False, f'{n} is {t.show(x, 3)}')
        else: ctx.undecided('schedule', wn, t.show(x, 3))
        continue
      ctx.ob('schedule-options', wn, len(star) == 1 and t.mentions(star[0], kw), 'the options are not passed on')
      if n != 'constant': ctx.ob('schedule-start', wn, t.is_const(k.get('init_value', NONE)) and k['init_value'].args[1] == 0, 'the warm-up does not start at 0')
      if n == 'warmup_cosine_decay': decay_steps(ctx, wn, k.get('decay_steps') or t.item(star[0], const('decay_steps')), steps, kw, tot)
    elif n == 'big_vision_rsqrt':
      if not is_op(x, 'vmoe.train.schedule.big_vision_rsqrt_schedule'):
        ctx.undecided('schedule', wn, t.show(x, 3))
        continue
      ctx.ob('schedule-options', wn, len(star) == 1 and t.mentions(star[0], kw), 'the options are not passed on')
      decay_steps(ctx, wn, k.get('decay_steps') or t.item(star[0], const('decay_steps')), steps, kw, tot)
    else:
      it = lambda a: t.item(kw, const(a))
      poly(ctx, wn, x, it('peak_value'), it('end_value'), const(1.0) if n == 'warmup_linear_decay' else it('power'), it('warmup_steps'), steps)
  none = {t.eq(S, const(m)): False for m in names}
  ctx.ob('unknown-schedule', w, any(t.cond(t.assume(t.val(e.pc), none)) is TRUE for e in q.raises(r)), 'an unknown schedule name is not refused')


def decay_steps(ctx, w, got, steps, kw, tot):
  if got is steps: ctx.ob('schedule-length', w, True)
  elif t.mentions(got, tot) and got.op not in ('getdef', 'poly', 'const', 'sym'): ctx.undecided('schedule-length', w, t.show(got, 4))
  else: ctx.ob('schedule-length', w, False, f'the decay takes {t.show(got, 4)} steps, not the configured decay_steps or the training length')


# ---------------------------------------------------------------- C18
ACC = 'vmoe.train.trainer.accumulate_gradients_and_metrics'
SPLIT = 'vmoe.utils.tree_rngs_split'
STEPS = [('vmoe.train.trainer:train_step', True), ('vmoe.projects.contrastive.trainer:train_step', False)]
REDUCE = ('sum', 'max', 'min', 'median', 'prod', 'std', 'var', 'nansum', 'nanmean')
REDUCERS = ['jax.numpy.' + n for n in REDUCE]


@prop('C18', 'Value-flow analysis of the step functions: normal form of the differentiated objective, the point it is differentiated at, the arguments of the optimizer update and the fields of the new state; for gradient '
             'accumulation, index coverage of the microsteps, layout of the slices, the summed and averaged quantities.', floor=40)
def c18(ctx):
  for path, labels in STEPS: ctx.section(objective, path, labels)
  ctx.section(update)
  ctx.section(accumulate)


def is_mean(x):
  """Operand of a full mean, or None."""
  if q.is_call(x, 'jax.numpy.mean', 'numpy.mean') and len(x.args[1]) == 1 and not x.args[2]: return x.args[1][0]
  if q.is_mcall(x, 'mean') and not x.args[1] and not x.args[2]: return x.args[0].args[0]
  return None


def mean_of(x):
  if t.is_const(x) or is_mean(x) is not None: return x
  return raw('call', glob('jax.numpy.mean'), (x,), ())


def simp(x):
  """Reads of entries of tree-mapped dictionaries and tuples; mean of a mean."""
  memo = {}
  def get(d, k, dflt):
    """d[k] or d.get(k, dflt) through dictionary operations."""
    if d.op == 'setitem' and t.is_const(d.args[1]): return d.args[2] if d.args[1] is k else get(d.args[0], k, dflt)
    if d.op == 'dictof': return get(d.args[0], k, dflt)
    if q.is_call(d, 'dict') and len(d.args[1]) == 1 and not d.args[2]: return get(d.args[1][0], k, dflt)
    if d.op == 'ite': return t.ite(t.cond(d.args[0]) if d.args[0].op != 'ite' else d.args[0], get(d.args[1], k, dflt), get(d.args[2], k, dflt))
    if q.is_call(d, 'jax.tree.map') and len(d.args[1]) == 2:
      f = d.args[1][0]
      y = get(d.args[1][1], k, dflt)
      if f is glob('jax.numpy.mean'): return mean_of(y)
      if f.op == 'glob' and f.args[0] in REDUCERS: return y if t.is_const(y) or is_mean(y) is not None else raw('call', f, (y,), ())
      if f.op == 'lam' and f.args[1] == 1 and not (t.is_const(y)): return go(t.beta(f, [y]))
    if d.op in ('dict', 'tuple', 'list'):
      v = t.item(d, k)
      return v
    return raw('getdef', d, k, dflt) if dflt is not None else t.item(d, k)
  def go(y):
    if y in memo: return memo[y]
    if not isinstance(y, T): return y
    args = tuple(t._targs(a, go) for a in y.args)
    r = y if args == y.args else t.rebuild_node(y, args)
    if r.op == 'item' and q.is_call(r.args[0], 'jax.tree.map') and t.is_const(r.args[1]):
      f, *trees = r.args[0].args[1]
      k = r.args[1]
      if all(z.op in ('tuple', 'list') and isinstance(k.args[1], int) and k.args[1] < len(z.args) for z in trees): r = raw('call', glob('jax.tree.map'), (f,) + tuple(t.item(z, k) for z in trees), ())
      elif len(trees) == 1 and isinstance(k.args[1], str): r = get(r.args[0], k, None)
    elif r.op == 'item' and t.is_const(r.args[1]) and r.args[0].op in ('setitem', 'dictof'): r = get(r.args[0], r.args[1], None)
    elif r.op == 'getdef' and t.is_const(r.args[1]): r = get(r.args[0], r.args[1], r.args[2])
    m = is_mean(r)
    if m is not None: r = mean_of(m)
    memo[y] = r
    return r
  return go(x)


def objective(ctx, path, with_labels):
  r = ctx.analyze(path, opaque=[ACC, SPLIT])
  w = f'{r.file} train_step'
  names = list(r.params)[:3]
  S, I, L = (sym(n) for n in names)
  ap = [e for e in q.mev(r, 'apply_gradients_and_compute_global_norms', 'apply_gradients')]
  gf = sorted({y for e in r.events for v in list(e.args) + ([e.fn] if e.fn is not None else []) if isinstance(v, T) for y in t.subterms(v) if y.op == 'gradfn'}, key=lambda y: y.uid)
  direct = [e for e in r.events if e.kind == 'grad']
  ms = sym(list(r.params)[4]) if len(r.params) > 4 else None
  if direct and not gf and ms is not None and not any(t.mentions(v, ms) for e in r.events for v in [t.val(e.pc)] + list(e.args) + [v for _, v in e.kwargs] + ([e.fn] if e.fn is not None else []) if isinstance(v, T)) and not t.mentions(r.ret, ms):
    ctx.ob('microsteps', w, False, 'the number of microsteps has no influence on the step')
  if len(ap) != 1 or len(gf) != 1:
    ctx.ob('one-update', w, len(ap) <= 1, f'the optimizer is applied {len(ap)} times')
    if not ap: ctx.ob('one-update', w, False, 'the optimizer is never applied')
    ctx.undecided('step', w, f'{len(ap)} updates, {len(gf)} gradient functions')
    return
  e = ap[0]
  ctx.ob('one-update', w, t.val(e.pc) is TRUE and not e.loops, 'the update does not happen exactly once in every step')
  ctx.ob('update-state', e.where(), e.fn.args[0] is S, 'the update is applied to another state')
  g = gf[0]
  opts = q.kws(g) if len(g.args) > 2 else {}
  arg = opts.get('argnums')
  ctx.ob('gradient-of-parameters', w, arg is None or arg is const(0) or arg == 0, f'the gradient is taken with respect to argument {arg}')
  grads = e.args[0] if e.args else q.ekw(e, 'grads')
  calls = [y for y in t.subterms(grads) if y.op == 'call' and (y.args[0] is g or (is_op(y.args[0], ACC) and g in y.args[0].args[1]))]
  if len(calls) != 1:
    ctx.undecided('gradients', e.where(), t.show(grads, 4))
    return
  c = calls[0]
  if g.args[0] == 'g': ctx.ob('gradients', e.where(), grads is t.item(c, const(0)), f'the update uses {t.show(grads, 4)} instead of the gradients')
  else: ctx.undecided('gradients', e.where(), 'value and gradient')
  if is_op(c.args[0], ACC): ctx.ob('microsteps', w, c.args[0].args[1][1:] + tuple(v for _, v in c.args[0].args[2]) == (sym('microsteps'),), f'the number of microsteps is {t.show(c.args[0], 3)}')
  else: ctx.ob('microsteps', w, False, 'the microsteps are ignored')
  ctx.ob('differentiated-at', w, c.args[1][:3] == (t.attr(S, 'params'), I, L), f'the gradient is taken at {[t.show(a, 3) for a in c.args[1]]}, not at the parameters of the state and the given batch')
  ret = r.ret
  up = raw('call', e.fn, tuple(e.args), tuple(e.kwargs))
  ctx.ob('returns-new-state', w, t.item(ret, const(0)) in (t.item(up, const(0)), up), f'the step returns {t.show(t.item(ret, const(0)), 4)}, not the updated state')
  mt = t.item(ret, const(1))
  if g.args[0] == 'g': ctx.ob('returns-metrics', w, t.mentions(mt, t.item(t.item(c, const(1)), const(1))), 'the metrics of the step are not returned')
  # the objective
  f = g.args[1]
  if f.op != 'lam':
    ctx.undecided('objective', w, t.show(f, 3))
    return
  ss, body = t.open_lam(f)
  if len(ss) != 4 or body.op != 'tuple':
    ctx.undecided('objective', w, t.show(body, 3))
    return
  p, i, l, k = ss
  total = simp(body.args[0])
  apps = sorted({y for y in t.subterms(body) if q.is_mcall(y, 'apply_fn') or (y.op == 'call' and y.args[0] is t.attr(S, 'apply_fn'))}, key=lambda y: y.uid)
  losses = sorted({y for y in t.subterms(body) if y.op == 'call' and y.args[0] is sym('loss_fn')}, key=lambda y: y.uid)
  if len(apps) != 1 or len(losses) != 1:
    ctx.ob('objective', w, bool(losses) or len(apps) != 1, 'the loss is never computed')
    ctx.undecided('objective', w, f'{len(apps)} model applications, {len(losses)} losses')
    return
  a, ls = apps[0], losses[0]
  ins = (i,) if with_labels else (i, l)
  vs = a.args[1][0] if a.args[1] else NONE
  ctx.ob('model-inputs', w, t.item(vs, const('params')) is p and tuple(a.args[1][1:]) == ins, f'the model is applied to {t.show(a, 4)}, not to the differentiated parameters and the batch')
  rk = q.kws(a).get('rngs')
  ctx.ob('model-randomness', w, rk is not None and t.mentions(rk, k), f'the model gets {"no random streams" if rk is None else t.show(rk, 3)}, not streams derived from those of the state')
  want = (t.item(a, const(0)), l) if with_labels else (t.item(a, const(0)),)
  got = tuple(ls.args[1]) + tuple(v for _, v in ls.args[2])
  ctx.ob('loss-inputs', w, got == want, f'the loss is computed from {[t.show(v, 3) for v in got]}')
  main, aux = sym('main'), sym('aux')
  wrong = []
  metrics = t.item(a, const(1))
  def name(y, ls=ls, metrics=metrics):
    m = is_mean(y)
    if m is ls: return main
    if m is not None:
      if m.op == 'getdef' and m.args[0] is metrics and m.args[1] is const('auxiliary_loss') and t.is_const(m.args[2]) and m.args[2].args[1] == 0: return aux
      if m is t.item(metrics, const('auxiliary_loss')): return aux
      if m.op == 'getdef' and m.args[0] is metrics and m.args[1] is const('auxiliary_loss') and t.is_const(m.args[2]): wrong.append(m.args[2])
    return None
  z = t.transform(total, name)
  if wrong: ctx.ob('objective', w, False, f'models without auxiliary loss get one of {t.show(wrong[0], 2)}')
  stopped = [y for y in t.subterms(total) if q.is_call(y, 'jax.lax.stop_gradient')]
  ctx.ob('objective', w, not stopped, 'a part of the objective is excluded from differentiation')
  ctx.ob('objective', w, t.mentions(total, ls), 'the loss does not enter the objective')
  ctx.ob('objective', w, t.contains(total, lambda y: t.is_const(y, 'auxiliary_loss')), 'the auxiliary loss does not enter the objective')
  red = [y for y in t.subterms(z) if (q.is_call(y, *['jax.numpy.' + n for n in REDUCE]) or q.is_mcall(y, *REDUCE)) and (t.mentions(y, ls) or t.mentions(y, metrics))]
  ctx.ob('objective', w, not red, f'the loss is reduced by {t.show(red[0], 2)}, not averaged over the batch' if red else '')
  if t.mentions(z, ls) or t.mentions(z, metrics):
    z2 = t.transform(z, lambda y: None)
    ctx.undecided('objective', w, t.show(z, 5))
  else: decide(ctx, 'objective', w, arith.equal(z, t.add(main, aux)), f'the objective is {t.show(z, 5)}, not mean loss + mean auxiliary loss')
  # metrics: reported losses
  md = t.item(t.item(body, const(1)), const(1))
  for key, val in (('main_loss', main), ('total_loss', t.add(main, aux)), ('other', None)):
    v = simp(t.item(md, const(key)))
    if key == 'other':
      m = is_mean(v)
      if m is not None and t.mentions(m, metrics): ctx.ob('reported-metrics', w, m is t.item(metrics, const(key)), f'a metric of the model is reported as {t.show(v, 4)}')
      elif q.is_call(v, *REDUCERS): ctx.ob('reported-metrics', w, False, f'a metric of the model is reported as {t.show(v, 4)}, not its mean')
      elif v is t.item(metrics, const(key)): ctx.ob('reported-metrics', w, False, 'the metrics of the model are reported without averaging them over the batch')
      elif not t.mentions(v, metrics): ctx.ob('reported-metrics', w, False, 'the metrics of the model are not reported')
      else: ctx.undecided('reported-metrics', w, t.show(v, 4))
      continue
    ls2, metrics2 = ls, metrics
    evs = [x for x in r.events if x.kind == 'setitem' and x.args and x.args[0] is const(key)]
    late = [x for x in evs if x.fn is not None and x.fn.op == 'call']
    if late or not t.mentions(v, ls) and len(evs) == 1:
      # stored in the result of a call: the event has the variables of the analysed function body
      v = simp((late or evs)[-1].args[1])
      la = [y for y in t.subterms(v) if y.op == 'call' and y.args[0] is sym('loss_fn')]
      aa = [y for y in t.subterms(v) if y.op == 'call' and y.args[0] is t.attr(S, 'apply_fn')]
      if len(set(la)) == 1 and len(set(aa)) == 1: ls2, metrics2 = la[0], t.item(aa[0], const(1))
    z = t.transform(v, lambda y: name(y, ls2, metrics2))
    if z is val: ctx.ob('reported-loss', w, True)
    elif not t.mentions(z, main): ctx.ob('reported-loss', w, False, f'{key} is reported as {t.show(v, 4)}') if not t.mentions(v, ls2) else ctx.undecided('reported-loss', w, t.show(v, 4))
    elif t.mentions(z, ls2) or t.mentions(z, metrics2): ctx.undecided('reported-loss', w, t.show(z, 4))
    else: decide(ctx, 'reported-loss', w, arith.equal(z, val), f'{key} is reported as {t.show(z, 4)}')


def update(ctx):
  path = 'vmoe.train.train_state:TrainState.apply_gradients_and_compute_global_norms'
  r = ctx.analyze(path)
  w = f'{r.file} TrainState.apply_gradients_and_compute_global_norms'
  s = r.selfv
  g = sym('grads')
  P, Os, St = (t.attr(s, k) for k in ('params', 'opt_state', 'step'))
  ups = q.mev(r, 'update')
  ups = [e for e in ups if e.fn.args[0] is t.attr(s, 'tx')]
  if len(ups) != 1:
    ctx.ob('one-update', w, len(ups) == 1, f'the optimizer is updated {len(ups)} times')
    return
  u = raw('call', ups[0].fn, tuple(ups[0].args), tuple(ups[0].kwargs))
  got = tuple(q.ekw(ups[0], k, n) for n, k in enumerate(('updates', 'state', 'params')))
  got = tuple(q.ekw(ups[0], 'grads', 0) if n == 0 and x is None else x for n, x in enumerate(got))
  ctx.ob('update-arguments', ups[0].where(), got == (g, Os, P), f'the optimizer gets {[t.show(x, 3) if x is not None else None for x in got]}, not gradients, its state and the parameters')
  new = t.item(r.ret, const(0))
  if not q.is_mcall(new, 'replace'):
    ctx.undecided('new-state', w, t.show(new, 3))
    return
  k = q.kws(new)
  ctx.ob('new-state', w, new.args[0].args[0] is s, 'the new state is not made from the old one')
  ctx.ob('new-step', w, k.get('step') is t.add(St, const(1)), f'the step counter becomes {t.show(k.get("step", NONE), 3)}')
  ctx.ob('new-optimizer-state', w, k.get('opt_state') is t.item(u, const(1)), 'the new optimizer state is not stored')
  pn = k.get('params', NONE)
  ctx.ob('new-parameters', w, q.is_call(pn, 'optax.apply_updates') and tuple(pn.args[1]) == (P, t.item(u, const(0))), f'the new parameters are {t.show(pn, 4)}')
  ctx.ob('other-fields', w, any(not isinstance(a, str) and b is sym('**kwargs') for a, b in new.args[2]), 'other fields given to the update (PRNG keys) are dropped')
  n = t.item(r.ret, const(1))
  gn = lambda x: raw('call', glob('optax.global_norm'), (x,), ())
  for key, want in (('grads', [gn(g)]), ('updates', [gn(t.item(u, const(0)))]), ('params', [gn(pn), gn(t.attr(new, 'params'))])):
    v = t.item(n, const(key))
    if v.op == 'call': ctx.ob('norms', w, v in want, f'the norm {key} is {t.show(v, 4)}')
    else: ctx.undecided('norms', w, t.show(n, 3))


def slice_of(x, tree, m):
  """x = the i-th microstep slice of `tree`: ('ok', index, layout) or (None, why)."""
  if q.is_call(x, 'jax.lax.dynamic_index_in_dim'):
    if q.kwarg(x, 'keepdims', 3, TRUE) is TRUE: return None, None, 'BAD keeps an axis of size one'
    src, i, ax = x.args[1][0], q.kwarg(x, 'index', 1), q.kwarg(x, 'axis', 2, const(0))
    ax = ax.args[1] if t.is_const(ax) else None
  elif x.op == 'item' and x.args[1].op == 'tuple': src, i, ax = x.args[0], x.args[1].args[-1], len(x.args[1].args) - 1
  elif x.op == 'item': src, i, ax = x.args[0], x.args[1], 0
  else: return None, None, t.show(x, 3)
  while q.is_call(src, 'jax.lax.with_sharding_constraint', 'vmoe.partitioning.with_sharding_constraint'): src = src.args[1][0]
  if src is tree and ax is not None: return None, None, 'BAD is one row of the batch, which is not split into microsteps'
  if not q.is_mcall(src, 'reshape') and not q.is_call(src, 'jax.numpy.reshape'): return None, None, t.show(src, 3)
  if q.is_mcall(src, 'reshape'): base, shp = src.args[0].args[0], src.args[1][0] if len(src.args[1]) == 1 else raw('tuple', *src.args[1])
  else: base, shp = src.args[1][0], src.args[1][1]
  if base is not tree: return None, None, 'another array'
  if shp.op == 'cat' and shp.args[0].op in ('tuple', 'list') and len(shp.args[0].args) == 2 and ax is not None and ax not in (0, 1): return None, None, f'BAD is taken along axis {ax}, not along the axis of the microsteps'
  if shp.op == 'cat' and len(shp.args) == 2 and shp.args[1].op == 'item' and shp.args[1].args[0].op == 'attr' and shp.args[1].args[0].args[1] == 'shape' and shp.args[1].args[1].op == 'slice':
    rest, sl = shp.args[1].args[0].args[0], shp.args[1].args[1]
    if rest is not tree: return None, None, 'BAD has the shape of another array'
    if not (t.is_const(sl.args[0], 1) and sl.args[1] is NONE and sl.args[2] in (NONE, const(1))): return None, None, f'BAD does not have the shape of an example: {t.show(shp, 4)}'
  if shp.op != 'cat' or shp.args[0].op not in ('tuple', 'list') or len(shp.args[0].args) != 2 or ax not in (0, 1): return None, None, t.show(shp, 3)
  pre = shp.args[0].args
  return i, ('ok' if pre[ax] is m else 'bad', ax, pre, shp.args[1:]), None


def accumulate(ctx):
  path = 'vmoe.train.trainer:accumulate_gradients_and_metrics'
  r = ctx.analyze(path)
  w = f'{r.file} accumulate_gradients_and_metrics'
  m, fn = sym('microsteps'), sym('grad_and_metrics_fn')
  tr, ng = raw('truth', m), t.lt(m, const(0))
  off = t.assume(r.ret, {tr: False})
  ctx.ob('accumulation-off', w, off is fn, f'without microsteps the function becomes {t.show(off, 3)}')
  x = t.assume(r.ret, {tr: True, ng: False})
  x = t.assume(x, {a: False for a in t.inner_atoms(x) if a.op == 'lt' and a.args[0] is m} if x.op == 'ite' else {})
  ctx.ob('accumulation-on', w, t.subst(r.ret, {m: const(4)}) is not fn, 'the microsteps are ignored')
  if x.op != 'lam' or x.args[1] != 4:
    ctx.undecided('accumulation', w, t.show(x, 3))
    return
  # batches that divide are accepted
  for e in q.raises(r):
    for n, d, k in ((8, 2, 2), (12, 1, 4), (6, 2, 3), (16, 4, 1)):
      sizes = {y for y in t.subterms(e.pc) if y.op == 'item' and t.is_const(y.args[1], 0) and y.args[0].op == 'attr' and y.args[0].args[1] == 'shape' or q.is_call(y, 'len')}
      z = t.subst(e.pc, {**{y: const(n) for y in sizes}, raw('call', glob('jax.device_count'), (), ()): const(d), m: const(k)})
      ctx.ob('divisible-accepted', e.where(), z is not TRUE, f'a batch of {n} examples on {d} devices in {k} microsteps is refused')
  sized = lambda e, n, d, k: t.subst(e.pc, {**{y: const(n) for y in t.subterms(e.pc) if y.op == 'item' and t.is_const(y.args[1], 0) and y.args[0].op == 'attr' and y.args[0].args[1] == 'shape' or q.is_call(y, 'len')},
                                            raw('call', glob('jax.device_count'), (), ()): const(d), m: const(k)})
  zs = [sized(e, 6, 2, 2) for e in q.raises(r)]
  ctx.ob('indivisible-refused', w, any(not t.is_const(z) or z is TRUE for z in zs), 'a batch that cannot be divided over devices and microsteps is not refused')
  for e in q.raises(r):
    odd = [y for y in t.subterms(e.pc) if y.op == 'item' and y.args[0].op == 'attr' and y.args[0].args[1] == 'shape' and t.is_const(y.args[1]) and y.args[1].args[1] != 0]
    if t.mentions(e.pc, m): ctx.ob('indivisible-refused', e.where(), not odd, f'whether a batch can be divided depends on {t.show(odd[0], 3) if odd else ""}')
  (p, i, l, k), body = t.open_lam(x)
  fs = sorted({y for y in t.subterms(body) if q.is_call(y, 'jax.lax.fori_loop')}, key=lambda y: y.uid)
  if len(fs) != 1 or fs[0].args[1][2].op != 'lam':
    ctx.undecided('accumulation', w, f'{len(fs)} loops')
    return
  F = fs[0]
  lo, hi, fb, init = F.args[1]
  (j, st), lb = t.open_lam(fb)
  lb, init = simp(lb), simp(init)
  allc = [y for y in t.subterms(raw('tuple', lb, init)) if y.op == 'call' and y.args[0] is fn]
  calls = sorted(set(allc), key=lambda y: y.uid)
  inl = [c for c in calls if t.mentions(c, j) or t.mentions(c, st)]
  pre = [c for c in calls if c not in inl]
  if len(inl) != 1 or len(pre) > 1:
    ctx.undecided('accumulation', w, f'{len(inl)} gradient computations in the loop, {len(pre)} before it')
    return
  lay = []
  for c, want_i in ((inl[0], j),) + (((pre[0], const(0)),) if pre else ()):
    where = 'in the loop' if c in inl else 'before the loop'
    ctx.ob('microstep-parameters', w, c.args[1][0] is p, f'{where}: gradients are taken at other parameters')
    idx = []
    for n, src in ((1, i), (2, l)):
      ix, layout, why = slice_of(c.args[1][n], src, m)
      if ix is None:
        if why and why.startswith('BAD '): ctx.ob('microstep-slice', w, False, f'{where}: argument {n} {why[4:]}')
        elif why == 'another array': ctx.ob('microstep-slice', w, False, f'{where}: argument {n} is a slice of another array')
        else: ctx.undecided('microstep-slice', w, f'{where}: {why}')
        continue
      idx.append(ix)
      lay.append(layout)
      ctx.ob('microstep-slice', w, layout[0] == 'ok', f'{where}: the axis that is indexed has size {t.show(layout[2][layout[1]], 3)}, not the number of microsteps')
    if idx: ctx.ob('microstep-index', w, all(x is idx[0] for x in idx), f'{where}: images and labels of different microsteps are paired')
    if idx: ctx.ob('microstep-index', w, idx[0] is want_i, f'{where}: the slice is number {t.show(idx[0], 3)}')
  if lay: ctx.ob('microstep-layout', w, len({(x[1], x[2]) for x in lay}) == 1, 'images and labels are split differently')
  ctx.ob('microstep-coverage', w, hi is m and lo is (const(1) if pre else const(0)), f'the loop covers microsteps {t.show(lo, 3)} to {t.show(hi, 3)}' + (' after microstep 0' if pre else ''))
  # what is summed
  out = simp(body)
  grads, mets = t.item(out, const(0)), t.item(t.item(out, const(1)), const(1))
  for nm, val, part in (('gradients', grads, lambda c: t.item(c, const(0))), ('metrics', mets, lambda c: t.item(t.item(c, const(1)), const(1)))):
    val = simp(val)
    if not (q.is_call(val, 'jax.tree.map') and len(val.args[1]) == 2 and val.args[1][0].op == 'lam'):
      if val.op == 'item' and val.args[0] is simp(F) or val.op == 'item' and val.args[0] is F: ctx.ob('averaged', w, False, f'the {nm} are summed over the microsteps but not averaged')
      else: ctx.undecided('averaged', w, t.show(val, 4))
      continue
    (y,), b = t.open_lam(val.args[1][0])
    decide(ctx, 'averaged', w, arith.equal(b, t.div(y, m)), f'the {nm} are divided as {t.show(b, 3)}, not by the number of microsteps')
    comp = val.args[1][1]
    if comp.op != 'item' or not q.is_call(comp.args[0], 'jax.lax.fori_loop') or not t.is_const(comp.args[1]):
      ctx.undecided('summed', w, t.show(comp, 3))
      continue
    ci = comp.args[1]
    a0 = t.item(init, ci)
    an = simp(t.item(lb, ci))
    if pre: ctx.ob('summed', w, a0 is part(pre[0]), f'the sum of the {nm} starts with {t.show(a0, 4)}')
    else:
      z = q.is_call(a0, 'jax.tree.map') or q.is_call(a0, 'jax.numpy.zeros_like')
      if not z: ctx.undecided('summed', w, t.show(a0, 3))
    if q.is_call(an, 'jax.tree.map') and len(an.args[1]) == 3 and an.args[1][0].op == 'lam':
      (u, v), b = t.open_lam(an.args[1][0])
      ops = {an.args[1][1], an.args[1][2]}
      ctx.ob('summed', w, ops == {t.item(st, ci), part(inl[0])}, f'the {nm} of a microstep are not added to their sum')
      decide(ctx, 'summed', w, arith.equal(b, t.add(u, v)), f'the {nm} are combined as {t.show(b, 3)}')
    elif q.is_call(an, 'jax.tree.map') and len(an.args[1]) == 3 and an.args[1][0] in (glob('jax.numpy.add'), glob('operator.add')):
      ctx.ob('summed', w, {an.args[1][1], an.args[1][2]} == {t.item(st, ci), part(inl[0])}, f'the {nm} of a microstep are not added to their sum')
    elif an in (part(inl[0]), t.item(st, ci)): ctx.ob('summed', w, False, f'the {nm} of some microsteps are dropped')
    else: ctx.undecided('summed', w, t.show(an, 4))

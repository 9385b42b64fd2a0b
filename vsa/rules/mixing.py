"""C19: mixup."""
from .. import q, tensor as tz, terms as t
from .. import tq
from ..framework import prop
from ..terms import NONE, FALSE, TRUE, const, glob, raw, sym
from .moe import spec

PATH = 'vmoe.train.trainer:wrap_train_step_with_mixup'
DC = raw('call', glob('jax.device_count'), (), ())
FL, UF, MP = 'jax.tree.flatten', 'jax.tree.unflatten', 'jax.tree.map'


def leafwise(x):
  """Pytree laws for a literal tuple of arrays: flatten, unflatten and map act on its elements."""
  def lit(y): return y.op in ('tuple', 'list') and not any(z.op == 'star' for z in y.args)
  def f(y):
    if y.op in ('nth', 'item'):
      b, i = go(y.args[0]), go(y.args[1])
      if b.op == 'item' and q.is_call(b.args[0], FL) and t.is_const(b.args[1], 0) and lit(b.args[0].args[1][0]) and t.is_const(i) and isinstance(i.args[1], int): return t.item(b.args[0].args[1][0], i)
      if y.op == 'item' and q.is_call(b, UF) and len(b.args[1]) == 2 and t.is_const(i) and isinstance(i.args[1], int):
        td, ls = b.args[1]
        if td.op == 'item' and q.is_call(td.args[0], FL) and lit(td.args[0].args[1][0]):
          src = td.args[0].args[1][0]
          if ls.op == 'map' and ls.args[2] is TRUE and ls.args[1] is t.item(td.args[0], const(0)): return go(t.beta(ls.args[0], [i]))
          return go(t.item(ls, i))
      if y.op == 'item' and q.is_call(b, MP) and len(b.args[1]) == 2 and not b.args[2] and b.args[1][0].op == 'lam' and lit(b.args[1][1]) and t.is_const(i): return go(t.beta(b.args[1][0], [t.item(b.args[1][1], i)]))
      return t.item(b, i) if y.op == 'item' else t.nth(b, i)
    return None
  memo = {}
  def go(y): return t.transform(y, f, memo)
  return go(x)


@prop('C19', 'Index-notation normal form of the arrays given to the wrapped train step, per granularity of the weights, compared with the specification of mixup; value-flow analysis of pass-through and refusals.', floor=10)
def c19(ctx):
  for g in ('batch', 'device', 'example'):
    for s in (sym('size'), const(2), const(3)): ctx.section(mixed, g, s)
  ctx.section(wrapper)
  a, b = sym('A'), sym('B')
  one = const(1)
  for shape, dims, ax in (([one], [a], 0), ([a], [a], 0), ([one, one], [a, b], 1), ([one, one], [a, b], 0), ([a, one], [a, b], 0), ([a, b], [a, b], 1)):
    for s in (sym('size'), const(2), const(3)): ctx.section(direct, shape, dims, ax, s)
  ctx.section(refusals)


def passthrough(ctx, w, r, e, st, im, lb, lits, nm):
  x = t.assume(r.ret, lits)
  want = raw('call', sym('train_step_fn'), (st, im, lb, sym('extra')), ())
  if x is want or (x.op == 'tuple' and len(x.args) == 2 and x.args[0] is t.item(want, const(0)) and x.args[1] is t.item(want, const(1))): ctx.ob('off', w, True)
  elif x.op == 'call' and x.args[0] is sym('train_step_fn') or t.contains(x, lambda y: q.is_call(y, 'jax.random.dirichlet', 'jax.random.split')): ctx.ob('off', w, False, f'with concentration {nm} the step is {t.show(x, 4)}')
  else: ctx.undecided('off', w, t.show(x, 4))


def wrapper(ctx):
  st, im, lb, ex = sym('state'), sym('images'), sym('labels'), sym('extra')
  c = sym('concentration')
  r = ctx.analyze(PATH, bind=dict(concentration=c), then=[st, im, lb, ex])
  w = f'{r.file} wrap_train_step_with_mixup'
  none = raw('is', *sorted([NONE, c]))
  zero = [a for a in t.inner_atoms(r.ret) if a in (t.eq(c, const(0.0)), t.eq(c, const(0)), raw('truth', c))]
  passthrough(ctx, w, r, None, st, im, lb, {none: True, **{a: a.op == 'eq' for a in zero}}, None)
  passthrough(ctx, w, r, None, st, im, lb, {none: False, **{a: a.op == 'eq' for a in zero}}, 0)
  G = sym('granularity')
  names = ('batch', 'device', 'example')
  on = {none: False, **{a: a.op != 'eq' for a in zero}}
  ctx.ob('unknown-granularity', w, any(t.cond(t.assume(t.val(e.pc), {**on, **{t.eq(G, const(n)): False for n in names}, raw('in', const('mixup'), t.attr(st, 'rngs')): True})) is TRUE for e in q.raises(r)) or
         not all(t.eq(G, const(n)) in {a for e in q.raises(r) for a in t.cond_atoms(e.pc)} for n in names[:1]), 'an unknown granularity is not refused')
  ctx.ob('key-required', w, any(not t.implies(e.pc, t.cond(raw('in', const('mixup'), t.attr(st, 'rngs')))) and t.mentions(t.val(e.pc), raw('in', const('mixup'), t.attr(st, 'rngs'))) for e in q.raises(r)) or
         not any(t.contains(t.val(e.pc), lambda y: y.op == 'in') for e in q.raises(r)) and bool(q.raises(r)), 'a state without a mixup key is not refused')
  live = [e for e in r.events if e.kind == 'call' and e.fn is sym('train_step_fn') and t.cond(t.assume(t.val(e.pc), on)) is not FALSE]
  if len(live) != 1:
    ctx.undecided('step-called', w, f'{len(live)} calls of the train step')
    return
  e = live[0]
  call = raw('call', e.fn, tuple(e.args), tuple(e.kwargs))
  ctx.ob('extra-arguments', w, list(e.args[3:]) == [ex], 'further arguments are not passed on')
  x = t.assume(r.ret, on)
  ctx.ob('metrics', w, t.item(x, const(1)) is t.item(call, const(1)) or not t.mentions(x, t.item(call, const(0))), f'the metrics are {t.show(t.item(x, const(1)), 4)}')
  s = t.item(x, const(0))
  ok = s is t.item(call, const(0)) or (q.is_mcall(s, 'replace') and s.args[0].args[0] is t.item(call, const(0)) and {k for k, _ in s.args[2]} == {'rngs'})
  if ok: ctx.ob('state', w, True)
  elif t.contains(s, lambda y: y is t.item(call, const(0))) and not q.is_mcall(s, 'replace'): ctx.undecided('state', w, t.show(s, 4))
  else: ctx.ob('state', w, False, f'the returned state is {t.show(s, 4)}, not the one the step returned with the next mixup key')
  g = e.args[0]
  ok = g is st or (q.is_mcall(g, 'replace') and g.args[0].args[0] is st and {k for k, _ in g.args[2]} == {'rngs'})
  ctx.ob('given-state', w, ok or not q.is_mcall(g, 'replace'), f'the step is given {t.show(g, 4)}')


def direct(ctx, lead, dims, ax, size):
  path = 'vmoe.train.trainer:mixup'
  c, key = sym('concentration'), sym('rng')
  x, y = sym('x'), sym('y')
  shape = t.mk_tuple(list(lead) + [size])
  r = ctx.analyze(path, bind=dict(tree=t.mk_tuple([x, y]), shape=shape, roll_axis=const(ax)))
  nm = '(' + ','.join('1' if t.is_const(d) else 'n' for d in lead) + ')'
  w = f'{r.file} mixup(weights {nm}, roll axis {ax}, size={t.show(size)})'
  for k, v in enumerate((x, y)):
    with tq.Dec(ctx, 'mixed', w):
      z = tz.Tensor()
      for a in (x, y): z.declare(a, list(dims) + ['...'])
      for a in (c, sym('size')): z.env[a] = tz.Arr((), a)
      got = z.arr(tq.resolve(z, leafwise(t.item(r.ret, const(k)))))
      want = z.arr(tq.resolve(z, spec(ctx, 'direct', 'mixing', x=v, key=key, concentration=c, shape=shape, roll_axis=const(ax))))
      same(ctx, w, z, got, want, size, f'array {k}')


def refusals(ctx):
  """Arguments outside the documented ranges are refused, all others accepted."""
  def run(shape=(1, 2), ax=0, c=0.5):
    return ctx.analyze('vmoe.train.trainer:mixup', bind=dict(tree=t.mk_tuple([sym('x'), sym('y')]), shape=t.mk_tuple([const(v) for v in shape]), roll_axis=const(ax), concentration=const(c)))
  def sizes(a): return a.op == 'eq' and all(t.contains(y, lambda v: v.op == 'attr' and v.args[1] == 'shape') for y in a.args[:2])
  def outcome(r, fits=True, equal=True):
    """TRUE: refused, FALSE: accepted, None: not known."""
    out = FALSE
    for e in q.raises(r):
      lits = {}
      for a in t.inner_atoms(e.pc):
        if a.op == 'exc': lits[a] = not fits
        elif sizes(a): lits[a] = equal
      v = t.cond(t.assume(e.pc, lits))
      if v is TRUE: return TRUE
      if v is not FALSE: out = None
    return out
  first = run()
  w = f'{first.file} mixup'
  def expect(what, got, refused):
    if got is None: ctx.undecided('refusals', w, what)
    else: ctx.ob('refusals', w, got is (TRUE if refused else FALSE), f'{what}: {"accepted" if refused else "refused"}')
  for c in (0.25, 1.0, 1, 3.0, 100.0): expect(f'concentration {c}', outcome(run(c=c)), False)
  for c in (0.0, 0, -1.0): expect(f'concentration {c}', outcome(run(c=c)), True)
  for sh in ((1, 2), (8, 2), (1, 3), (1, 1, 2), (4, 1, 5)): expect(f'weights of shape {sh}', outcome(run(shape=sh)), False)
  for sh in ((2,), ()): expect(f'weights of shape {sh}', outcome(run(shape=sh)), True)
  for sh, ax, bad in (((1, 2), 1, True), ((1, 2), -1, True), ((1, 2), 2, True), ((1, 1, 2), 1, False), ((1, 1, 2), 2, True), ((1, 1, 1, 2), 2, False)): expect(f'roll axis {ax} with weights of shape {sh}', outcome(run(shape=sh, ax=ax)), bad)
  expect('arrays with different batch sizes', outcome(first, equal=False), True)
  # which sizes are compared
  for sh in ((1, 2), (1, 1, 2)):
    r = run(shape=sh)
    k = const(len(sh) - 1)
    atoms = {a for e in q.raises(r) for a in t.inner_atoms(e.pc) if sizes(a)}
    def lead(v): return v.op == 'item' and v.args[0].op == 'attr' and v.args[1].op == 'slice' and v.args[1].args[0] in (NONE, const(0)) and v.args[1].args[1] is k and v.args[1].args[2] in (NONE, const(1))
    for a in atoms:
      if all(v.op == 'item' and v.args[0].op == 'attr' and v.args[1].op == 'slice' for v in a.args[:2]):
        ctx.ob('refusals', w, all(lead(v) for v in a.args[:2]), f'the compared sizes are {t.show(a, 6)}')
    for e in q.ev(r, 'jax.numpy.broadcast_shapes'):
      want = t.mk_tuple([const(v) for v in sh[:-1]])
      if len(e.args) == 2: ctx.ob('refusals', w, want in e.args and any(lead(v) for v in e.args), f'the weights have to fit {", ".join(t.show(v, 4) for v in e.args)}')


def same(ctx, w, z, got, want, size, what):
  ok = z.same(got, want)
  if not ok and size.op == 'sym': ctx.undecided('mixed', w, f'{what} for every number of mixed examples')   # decided per size
  else: ctx.ob('mixed', w, ok, f'{what}: {z.show(got)}, not {z.show(want)}')


def mixed(ctx, g, size):
  st, im, lb = sym('state'), sym('images'), sym('labels')
  c = sym('concentration')
  r = ctx.analyze(PATH, bind=dict(concentration=c, granularity=const(g), size=size), then=[st, im, lb])
  w = f'{r.file} wrap_train_step_with_mixup(granularity={g}, size={t.show(size)})'
  inner = [e for e in r.events if e.kind == 'call' and e.fn is sym('train_step_fn')]
  off = [{raw('is', *sorted([NONE, c])): True}, {raw('is', *sorted([NONE, c])): False, t.eq(c, const(0.0)): True}]
  on = {raw('is', *sorted([NONE, c])): False, t.eq(c, const(0.0)): False}
  under = lambda e, lits: t.cond(t.assume(t.val(e.pc), lits))
  live = [e for e in inner if under(e, on) is not FALSE]
  if len(live) != 1:
    ctx.undecided('mixed', w, f'{len(live)} calls of the train step')
    return
  e = live[0]
  draws = sorted({x for a in e.args for x in t.subterms(a) if q.is_call(x, 'jax.random.dirichlet')}, key=lambda x: x.uid)
  ctx.ob('same-weights', w, len({q.kwarg(x, 'key', 0) for x in draws}) <= 1, 'images and labels are mixed with weights from different draws')
  if not draws:
    if leafwise(e.args[1]) is im or leafwise(e.args[2]) is lb: ctx.ob('mixed', w, False, 'the train step gets the arrays as they are')
    else: ctx.undecided('mixed', w, t.show(e.args[1], 4))
    return
  key = q.kwarg(draws[0], 'key', 0)
  for a, src, nm in ((e.args[1], im, 'images'), (e.args[2], lb, 'labels')):
    with tq.Dec(ctx, 'mixed', f'{w} {nm}'):
      z = tz.Tensor()
      D, B = sym('D'), sym('B')
      z.declare(im, [t.mul(D, B), '...'])
      z.declare(lb, [t.mul(D, B), '...'])
      z.size_env[DC] = D
      z.env[c] = tz.Arr((), c)
      shape = {'batch': [const(1), const(1), size], 'device': [D, const(1), size], 'example': [D, B, size]}[g]
      got = z.arr(tq.resolve(z, t.assume(leafwise(a), on)))
      want = z.arr(tq.resolve(z, t.assume(spec(ctx, 'mixed', 'mixing', x=src, key=key, concentration=c, size=size, devices=D, shape=t.mk_tuple(shape)), on)))
      same(ctx, f'{w} {nm}', z, got, want, size, f'mixed {nm}')

"""C06-C09: the mixture-of-experts core (vmoe/moe.py)."""
import itertools

from .. import dicts
from .. import q
from .. import terms as t
from .. import tensor as tz
from .. import tq
from ..framework import prop
from ..terms import TRUE, FALSE, NONE, raw, const, glob, sym
from ..tensor import Arr
from .ckpt_api import defaults

M = 'vmoe.moe'
W = 'vmoe/moe.py'
G, S, E, C, K, R = [sym(x) for x in 'GSECKR']


def spec(ctx, name, mod='moe', **bind):
  return ctx.analyze(f'vspec.{mod}:{name}', bind=bind).ret


# ---------------------------------------------------------------- C06
def dispatcher_cases(cls, selfv):
  cw, dw = t.attr(selfv, 'combine_weights'), t.attr(selfv, 'dispatch_weights')
  for div in (True, False):
    g = t.mul(E, R) if div else G
    if cls == 'EinsumDispatcher':
      for none in (True, False):
        yield div, none, g, (lambda z, g=g: (z.declare(cw, [g, S, E, C]), z.declare(dw, [g, S, E, C]))), C
    elif cls == 'DenseEinsumDispatcher':
      yield div, None, g, (lambda z, g=g: z.declare(cw, [g, S, E])), S
    else:
      def decl(z, g=g):
        z.declare(cw, [g, S, K])
        z.declare(t.attr(selfv, 'indices'), [g, S, K, const(2)])
        z.size_env[t.attr(selfv, 'num_experts')] = E
        z.size_env[t.attr(selfv, 'capacity')] = C
      yield div, None, g, decl, C


@prop('C06', 'For each dispatcher, the index-notation normal form of dispatch() is the documented contraction with the expert axis first, and combine() inverts exactly '
             'the slot layout produced by dispatch(), for group counts that are and are not multiples of the experts; the SPMD wrapper maps experts over axis 0 between the two.', floor=24)
def c06(ctx):
  for cls in ('EinsumDispatcher', 'DenseEinsumDispatcher', 'ExpertIndicesDispatcher'):
    d = ctx.analyze(f'{M}:{cls}.dispatch')
    c = ctx.analyze(f'{M}:{cls}.combine')
    sv = d.selfv
    cw, dw, ind = t.attr(sv, 'combine_weights'), t.attr(sv, 'dispatch_weights'), t.attr(sv, 'indices')
    data_d, data_c = list(d.params.values())[1], list(c.params.values())[1]
    ne, cap = t.attr(sv, 'num_experts'), t.attr(sv, 'capacity')
    for div, none, g, decl, slots in dispatcher_cases(cls, sv):
      tag = ('groups multiple of experts' if div else 'any number of groups') + ('' if none is None else ', no dispatch weights' if none else ', dispatch weights')
      w = f'{W} {cls} ({tag})'
      z = tz.Tensor()
      decl(z)
      z.declare(sym('<x>'), [g, S, '...'])
      fixed = {}
      if none is not None: fixed[raw('is', *sorted([NONE, dw]))] = none
      z.env[data_d] = z.env[sym('<x>')]
      perm = None
      with tq.Dec(ctx, 'dispatch-layout', w):
        got = z.arr(tq.resolve(z, d.ret, fixed))
        if cls == 'EinsumDispatcher':
          wt = t.lt(const(0), cw) if none else dw
          ref = spec(ctx, 'einsum_dispatch', w=wt, data=sym('<x>'))
        elif cls == 'DenseEinsumDispatcher': ref = spec(ctx, 'dense_dispatch', w=cw, data=sym('<x>'))
        else: ref = spec(ctx, 'indices_dispatch', indices=ind, num_experts=ne, capacity=cap, data=sym('<x>'))
        ref = z.arr(ref)
        ok = len(got.dims) == 3 and len(got.dims[0]) >= 1
        if ok:
          for p in itertools.permutations(got.dims[1]):
            if z.same(Arr([got.dims[0], p, got.dims[2]], got.val), ref):
              perm = p
              break
        ctx.ob('dispatch-layout', w, ok and perm is not None,
               f'dispatch() gives {z.show(got)}; expected axis 0 = expert, axis 1 = (group, slot) in some order, elements {t.show(ref.val, 9)}')
      if perm is None: continue
      with tq.Dec(ctx, 'combine-inverts-layout', w):
        Y = sym('<y>')
        y0 = z.declare(Y, [E, [g, slots], '...'])
        a, b = z.unify(Arr([got.dims[0], perm, got.dims[2]], got.val), y0, [(0, 0), (1, 1), (2, 2)])
        if a.dims[1] != perm: raise tz.Unknown('slot factors')
        z.env[Y] = b
        z.env[data_c] = Arr([b.dims[0], got.dims[1], b.dims[2]], b.val)
        z.memo.clear()
        fixed2 = dict(fixed)
        out = z.arr(tq.resolve(z, c.ret, fixed2))
        if cls == 'EinsumDispatcher': refs = [spec(ctx, 'einsum_combine', w=cw, data=Y, shape=NONE)]
        elif cls == 'DenseEinsumDispatcher': refs = [spec(ctx, 'dense_combine', w=cw, data=Y)]
        else: refs = [spec(ctx, n, w=cw, indices=ind, num_experts=ne, capacity=cap, data=Y) for n in ('indices_combine_e', 'indices_combine')]
        refs = [z.arr(x) for x in refs]
        ctx.ob('combine-inverts-layout', w, any(z.same(out, x) for x in refs),
               f'combine() of the dispatched layout gives {z.show(out)}; expected {z.show(refs[0])}')
  # the bfloat16 wrapper only changes the dtype
  for m in ('dispatch', 'combine'):
    r = ctx.analyze(f'{M}:Bfloat16Dispatcher.{m}')
    w = f'{W} Bfloat16Dispatcher.{m}'
    data = list(r.params.values())[1]
    inner = t.attr(t.attr(r.selfv, 'dispatcher'), m)
    v = r.ret
    back = q.is_mcall(v, 'astype') and v.args[1] and v.args[1][0] is t.attr(data, 'dtype')
    ctx.ob('dtype-restored', w, back, f'{m} does not return the dtype of its input')
    if back: v = v.args[0].args[0]
    ok = v.op == 'call' and v.args[0] is inner and len(v.args[1]) == 1
    if ok:
      for _, x in t.leaves(v.args[1][0]):
        while q.is_mcall(x, 'astype'): x = x.args[0].args[0]
        ok = ok and x is data
    ctx.ob('delegates', w, ok, f'{m} does not apply the wrapped dispatcher\'s {m} to the data')
  # the lifted transformation
  r = ctx.analyze(f'{M}:sparse_moe_spmd')
  w = f'{W} sparse_moe_spmd'
  lt = q.calls(r.ret, 'flax.linen.transforms.lift_transform')
  ctx.ob('lifted', w, len(lt) == 1 and sym('target') in lt[0].args[1], 'the target is not lifted')
  vm = [e for e in r.events if e.kind == 'call' and e.fn.op == 'glob' and e.fn.args[0] in ('flax.core.lift.vmap',)]
  ctx.ob('experts-vmapped', w, len(vm) == 1, 'experts are not mapped with lift.vmap')
  for e in vm:
    kw = q.ekws(e)
    ctx.ob('expert-axis', w, t.is_const(kw.get('in_axes', const(0)), 0) and t.is_const(kw.get('out_axes', const(0)), 0), 'experts are not mapped over axis 0')
    ctx.ob('expert-variables', w, kw.get('variable_axes') is sym('variable_axes') and kw.get('split_rngs') is sym('split_rngs'), 'variable_axes / split_rngs are not the ones given')
  if len(vm) == 1:
    vterm = raw('call', vm[0].fn, vm[0].args, tuple(sorted(vm[0].kwargs, key=lambda kv: str(kv[0]))))
    ap = [e for e in r.events if e.kind == 'call' and e.fn.op == 'call' and e.fn.args[0] is vm[0].fn]
    ctx.ob('experts-applied-once', w, len(ap) == 1, 'the mapped experts are not applied exactly once')
    for e in ap:
      disp = [x for a in e.args for x in t.subterms(a) if x.op == 'attr' and x.args[1] in ('dispatch', 'combine')]
      ctx.ob('inputs-dispatched', w, bool(disp) and all(x.args[1] == 'dispatch' for x in disp), 'experts are not applied to dispatched inputs')
      out = raw('call', e.fn, tuple(e.args), tuple(e.kwargs))
      comb = [x for x in r.events if x.kind == 'call' and any(isinstance(y, t.T) and y.op == 'attr' and y.args[1] == 'combine' for y in x.args)]
      ctx.ob('outputs-combined', w, len(comb) >= 1, 'outputs are not combined')
      for x in comb:
        body = x.args[-1]
        atom = [a for a in t.inner_atoms(body)]
        for aux in (True, False):
          v = t.assume(body, {a: aux for a in atom})
          want = t.item(out, const(0)) if aux and atom else out
          if not atom: continue
          ctx.ob('outputs-combined', w, v is want, f'combined value is {t.show(v, 5)} (has_aux={aux})')
  ctx.section(lifted, r, lt)
  ctx.section(with_axes)


def lifted(ctx, r, lt):
  """What the transformed target returns, with and without auxiliary outputs."""
  w = f'{W} sparse_moe_spmd'
  if len(lt) != 1: return
  m = q.kwarg(lt[0], 'methods')
  ctx.ob('lifted', w, m is sym('methods'), f'the methods wrapped are {t.show(m, 2) if m is not None else "not the ones given"}')
  f = lt[0].args[1][0]
  D = sym('<dispatcher>')
  body = f
  for args in ([sym('<fn>')], None):
    if body.op != 'lam':
      ctx.undecided('lifted-output', w, t.show(body, 2))
      return
    n = body.args[1]
    body = t.beta(body, args if args is not None else [sym(f'<arg {i}>') if i != 1 else D for i in range(n)])
  aux = raw('truth', sym('has_aux'))
  for case in (True, False):
    x = t.assume(body, {aux: case})
    outs = sorted({y for y in t.subterms(x) if y.op == 'call' and q.is_call(y.args[0], 'flax.core.lift.vmap')}, key=lambda y: y.uid)
    if len(outs) != 1 or t.inner_atoms(x):
      ctx.undecided('lifted-output', w, t.show(x, 3))
      continue
    out, = outs
    main = t.item(out, const(0)) if case else out
    c = x
    if case:
      if x.op != 'tuple' or len(x.args) != 2:
        ctx.ob('lifted-output', w, False, f'with has_aux the result is {t.show(x, 4)}')
        continue
      c = x.args[0]
      ctx.ob('lifted-output', w, x.args[1] is t.item(out, const(1)), f'the auxiliary output is {t.show(x.args[1], 4)}')
    elif x.op == 'tuple':
      ctx.ob('lifted-output', w, False, f'without has_aux the result is {t.show(x, 4)}')
      continue
    if c.op == 'call' and any(isinstance(y, t.T) and y.op == 'attr' and y.args[1] == 'combine' and y.args[0] is D for y in c.args[1]): ctx.ob('lifted-output', w, c.args[1][-1] is main, f'what is combined is {t.show(c.args[1][-1], 4)}')
    elif not t.contains(c, lambda y: y.op == 'attr' and y.args[1] == 'combine'): ctx.ob('lifted-output', w, False, f'the output is {t.show(c, 4)}, not combined')
    else: ctx.undecided('lifted-output', w, t.show(c, 3))


def with_axes(ctx):
  """The lift with names for the expert axis: the same sparse MoE, and metadata of exactly the named collections."""
  d = lambda **k: raw('dict', *((const(a), b) for a, b in k.items()))
  A = {k: sym(f'<axis of {k}>') for k in ('params', 'intermediates', 'cache')}
  Nm = {k: sym(f'<name of {k}>') for k in ('params', 'cache')}
  r = ctx.analyze(f'{M}:sparse_moe_spmd_with_axes', opaque=[f'{M}.sparse_moe_spmd'], bind=dict(variable_axes=d(**A), partitioning_axis_names=d(**Nm)))
  w = f'{W} sparse_moe_spmd_with_axes'
  seen = {}
  x = r.ret
  while x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0].endswith('_add_axis_to_metadata'):
    col = q.kwarg(x, 'axis_col', 3)
    if col is None or not t.is_const(col): break
    seen[t.cval(col)] = (q.kwarg(x, 'axis_pos', 1), q.kwarg(x, 'axis_name', 2))
    x = q.kwarg(x, 'lifted', 0) if not x.args[1] else x.args[1][0]
  if not (x.op == 'call' and x.args[0] is raw('opaque', f'{M}.sparse_moe_spmd')):
    ctx.ob('wraps-sparse-moe', w, t.contains(x, lambda y: y.op == 'opaque'), 'does not build on sparse_moe_spmd')
    ctx.undecided('wraps-sparse-moe', w, t.show(x, 3))
    return
  for k, n in Nm.items():
    got = seen.get(f'{k}_axes')
    ctx.ob('axis-name-of-collection', w, got is not None and got[0] is A[k] and got[1] is n, f'axis metadata of collection {k}: {[t.show(y, 3) for y in got if y is not None] if got else "none"}')
  ctx.ob('axis-name-of-collection', w, set(seen) <= {f'{k}_axes' for k in Nm}, f'metadata of {sorted(seen)}')
  arg = lambda n, i: q.kwarg(x, n, i)
  for i, n in ((0, 'target'), (2, 'split_rngs'), (3, 'has_aux'), (4, 'methods')):
    g = arg(n, i)
    ctx.ob('wraps-sparse-moe', w, g is sym(n), f'{n} of the sparse MoE is {t.show(g, 3) if g is not None else "left out"}')
  va = arg('variable_axes', 1)
  for k, want in [*A.items(), *((f'{k}_axes', NONE) for k in Nm)]:
    try: c, g = dicts.look(va, const(k)) if va is not None else (t.FALSE, None)
    except dicts.Opaque as e:
      ctx.undecided('wraps-sparse-moe', w, str(e))
      continue
    ctx.ob('wraps-sparse-moe', w, t.cond(c) is t.TRUE and g is want, f'collection {k} is mapped over {t.show(g, 2) if g is not None else "nothing"}')


# ---------------------------------------------------------------- C07 / C08
def routed(ctx, name, bp, k=sym('num_selected_experts')):
  """Dispatcher returned by the public function for a given dispatcher name."""
  return ctx.analyze(f'{M}:get_top_experts_per_item_dispatcher', bind=dict(name=const(name), batch_priority=const(bp), capacity=C, capacity_factor=NONE, num_selected_experts=K))


def obj_fields(ctx, v, cls):
  """Fields of the returned dataclass object (all leaves must agree on the class)."""
  ls = [x for _, x in t.leaves(v)]
  ls = [x for x in ls if x.op == 'obj' and x.args[0].rsplit('.', 1)[-1] == cls]
  return dict(ls[0].args[1]) if len(ls) == 1 else None


def setup(k=True):
  z = tz.Tensor()
  z.declare(sym('gates'), [S, E])
  z.size_env[C] = C
  z.size_env[K] = K
  return z


def fixed_capacity(v):
  """capacity was given: the 'no capacity' tests are decided."""
  fixed = {}
  for a in t.inner_atoms(v):
    if a.op == 'truth' and a.args[0] is C: fixed[a] = True
    if a.op == 'is' and NONE in a.args and C in a.args: fixed[a] = False
  return fixed


def routing(ctx, check):
  for bp in (False, True):
    tag = 'batch priority' if bp else 'vanilla'
    for name, cls in (('einsum', 'EinsumDispatcher'), ('indices', 'ExpertIndicesDispatcher')):
      w = f'{W} get_top_experts_per_item_dispatcher ({name}, {tag})'
      r = routed(ctx, name, bp)
      v = t.assume(r.ret, fixed_capacity(r.ret))
      f = obj_fields(ctx, v, cls)
      if f is None:
        ctx.ob('dispatcher-built', w, False, f'does not return a {cls}: {t.show(v, 3)}')
        continue
      yield w, name, bp, f, r
  w = f'{W} get_top_items_per_expert_dispatcher'
  r = ctx.analyze(f'{M}:get_top_items_per_expert_dispatcher', bind=dict(name=const('einsum'), capacity=C, capacity_factor=NONE))
  v = t.assume(r.ret, fixed_capacity(r.ret))
  f = obj_fields(ctx, t.item(v, const(0)), 'EinsumDispatcher')
  if f is None: ctx.ob('dispatcher-built', w, False, f'does not return (EinsumDispatcher, metrics): {t.show(v, 3)}')
  else: yield w, 'items', None, f, r


@prop('C07', 'In the index-notation normal form, the combine weight of every (item, expert, slot) is the gate of that item and expert times the dispatch indicator of the same slot, '
             'for every way to build a dispatcher.', floor=5)
def c07(ctx):
  for w, name, bp, f, r in routing(ctx, None):
    z = setup()
    gates = list(r.params.values())[0]
    if name in ('einsum', 'items'):
      dwt = f.get('dispatch_weights')
      if dwt is None or dwt is NONE:
        ctx.ob('combine-is-gate-times-dispatch', w, False, 'no dispatch weights')
        continue
      with tq.Dec(ctx, 'combine-is-gate-times-dispatch', w):
        cwa = z.arr(tq.resolve(z, f['combine_weights']))
        dwa = z.arr(tq.resolve(z, dwt))
        z.env[sym('<d>')] = dwa
        ref = z.arr(spec(ctx, 'weighted', gates=gates, dispatch=sym('<d>')))
        ctx.ob('combine-is-gate-times-dispatch', w, z.same(cwa, ref), f'combine weights {z.show(cwa)} are not gate x dispatch {z.show(ref)}')
    else:
      with tq.Dec(ctx, 'combine-is-gate-of-choice', w):
        cwa = z.arr(tq.resolve(z, f['combine_weights']))
        ia = z.arr(tq.resolve(z, f['indices']))
        z.env[sym('<i>')] = ia
        ref = z.arr(spec(ctx, 'gate_of_choice', gates=gates, indices=sym('<i>')))
        ctx.ob('combine-is-gate-of-choice', w, z.same(cwa, ref), f'combine weights {z.show(cwa)} are not the gates of the chosen experts {z.show(ref)}')
      ctx.ob('indices-sizes', w, f.get('capacity') is C, f'the dispatcher is built with capacity {t.show(f.get("capacity"), 3)}')
      with tq.Dec(ctx, 'indices-sizes', w):
        ctx.ob('indices-sizes', w, z.size(f['num_experts']) is E, f'the dispatcher is built with {t.show(z.size(f["num_experts"]), 3)} experts')
  r = ctx.analyze(f'{M}:get_dense_einsum_dispatcher')
  f = obj_fields(ctx, r.ret, 'DenseEinsumDispatcher')
  ctx.ob('dense-weights', f'{W} get_dense_einsum_dispatcher', f is not None and f.get('combine_weights') is list(r.params.values())[0], 'combine weights are not the gates')


@prop('C08', 'The buffer position in the normal form equals the specified queue: rank among (choice rank, item priority) pairs that chose the same expert, kept only below the capacity; '
             'batch priority permutes items by their best gate and undoes the permutation.', floor=5)
def c08(ctx):
  for w, name, bp, f, r in routing(ctx, None):
    z = setup()
    gates = list(r.params.values())[0]
    with tq.Dec(ctx, 'queue-position', w):
      if name == 'einsum':
        got = z.arr(tq.resolve(z, f['dispatch_weights']))
        ref = z.arr(spec(ctx, 'top_experts_dispatch', gates=gates, k=K, capacity=C, batch_priority=const(bp)))
      elif name == 'indices':
        got = z.arr(tq.resolve(z, f['indices']))
        ref = z.arr(spec(ctx, 'top_experts_indices', gates=gates, k=K, batch_priority=const(bp)))
      else:
        got = z.arr(tq.resolve(z, f['dispatch_weights']))
        ref = z.arr(spec(ctx, 'top_items_dispatch', gates=gates, capacity=C))
      ctx.ob('queue-position', w, z.same(got, ref), f'assignment is {z.show(got)}, expected {z.show(ref)}')


# ---------------------------------------------------------------- C09
def bound_args(e, names):
  out = dict(zip(names, e.args))
  out.update({k: v for k, v in e.kwargs if isinstance(k, str)})
  return out


@prop('C09', 'Value-flow terms of the capacity computation on every path: requested capacity used verbatim, factor converted with the right number of tokens, rounded up to the multiple, '
             'values below one and unknown modes rejected.', floor=14)
def c09(ctx):
  names = ['num_tokens', 'num_experts', 'capacity_factor', 'ceil_or_round', 'multiple_of']
  cc = f'{M}.compute_capacity'
  for fn, mult in (('get_top_experts_per_item_dispatcher', True), ('get_top_items_per_expert_dispatcher', False)):
    w = f'{W} {fn}'
    for given in (True, False):
      bind = dict(name=const('einsum'), capacity=C if given else NONE, capacity_factor=NONE if given else sym('F'))
      inner = [f'{M}._get_top_experts_per_item_einsum_dispatcher', f'{M}._get_top_items_per_expert_einsum_dispatcher']
      r = ctx.analyze(f'{M}:{fn}', bind=bind, opaque=[cc])
      calls = [e for e in r.events if e.kind == 'call' and e.fn.op == 'opaque' and e.fn.args[0] == cc]
      gates = list(r.params.values())[0]
      if given:
        v = t.assume(r.ret, fixed_capacity(r.ret))
        used = [x for x in t.subterms(v) if x.op == 'opaque' and x.args[0] == cc]
        ctx.ob('capacity-verbatim', w, not used and t.mentions(v, C), 'a given capacity is not used as it is')
      else:
        live = [e for e in calls if e.pc is TRUE or t.assume(t.val(e.pc), {a: False for a in t.cond_atoms(e.pc)}) is TRUE or True]
        ctx.ob('capacity-from-factor', w, len(live) == 1, f'{len(live)} capacity computations')
        for e in live:
          a = bound_args(e, names)
          z = setup()
          with tq.Dec(ctx, 'tokens-per-expert', w):
            n = z.size(a.get('num_tokens', NONE))
            want = t.mul(S, sym('num_selected_experts')) if mult else S
            ctx.ob('tokens-per-expert', w, n is want, f'capacity is computed for {t.show(n, 4)} tokens instead of {t.show(want, 4)}')
            ctx.ob('experts', w, z.size(a.get('num_experts', NONE)) is E, 'capacity is computed for another number of experts')
          ctx.ob('factor', w, a.get('capacity_factor') is sym('F'), 'another capacity factor is used')
          ctx.ob('mode', w, a.get('ceil_or_round') is sym('capacity_ceil_or_round') and a.get('multiple_of') is sym('capacity_multiple_of'), 'rounding options are not passed on')
    r = ctx.analyze(f'{M}:{fn}', opaque=[cc])
    rz = q.raises(r)
    for cn in (True, False):
      for fnn in (True, False):
        lits = {raw('is', *sorted([NONE, sym('capacity')])): cn, raw('is', *sorted([NONE, sym('capacity_factor')])): fnn}
        hit = any(t.assume(t.val(e.pc), lits) is TRUE for e in rz)
        ctx.ob('exactly-one-of', w, hit == (cn == fnn), f'capacity {"missing" if cn else "given"} and factor {"missing" if fnn else "given"}: {"rejected" if hit else "accepted"}')
    defaults(ctx, f'{M}:{fn}', dict(capacity_ceil_or_round='ceil', capacity_multiple_of=4, capacity=None, capacity_factor=None))
  defaults(ctx, f'{M}:compute_capacity', dict(ceil_or_round='ceil', multiple_of=4))
  w = f'{W} compute_capacity'
  for mode in ('ceil', 'round'):
    r = ctx.analyze(f'{M}:compute_capacity', bind=dict(ceil_or_round=const(mode)))
    p = list(r.params.values())
    n, e, f, m = p[0], p[1], p[2], p[4]
    ratio = t.div(t.mul(n, f), e)
    cs = [raw('call', glob('int'), (raw('call', glob('math.ceil'), (ratio,), ()),), ()), raw('call', glob('math.ceil'), (ratio,), ()),
          raw('call', glob('int'), (raw('call', glob('numpy.ceil'), (ratio,), ()),), ())] if mode == 'ceil' else \
         [raw('call', glob('int'), (raw('call', glob('round'), (ratio,), ()),), ()), raw('call', glob('round'), (ratio,), ())]
    on = {raw('truth', m): True, t.lt(const(0), m): True, raw('is', *sorted([NONE, m])): False, t.lt(m, ONE): False}
    off = {raw('truth', m): False, t.lt(const(0), m): False, raw('is', *sorted([NONE, m])): True, t.lt(m, ONE): True}
    def drop(v, lits):
      v = t.assume(v, lits)
      return t.assume(v, {a: False for a in t.inner_atoms(v) if q.is_call(a.args[0], 'math.isinf')})
    v0 = drop(r.ret, off)
    ctx.ob('capacity-without-multiple', w, v0 in cs, f'mode {mode}: capacity is {t.show(v0, 6)}')
    v1 = drop(r.ret, on)
    ups = []
    for c in cs:
      ups += [t.add(c, t.binop('%', t.neg(c), m)), t.mul(const(-1), t.mul(t.binop('//', t.neg(c), m), m)), t.mul(t.binop('//', t.add(c, t.add(m, const(-1))), m), m),
              t.mul(m, raw('call', glob('math.ceil'), (t.div(c, m),), ()))]
    ctx.ob('rounded-up-to-multiple', w, v1 in ups, f'mode {mode}: capacity is {t.show(v1, 6)}, not rounded up to the multiple')
    low = False
    for ev in q.raises(r):
      pc = t.assume(t.assume(t.val(ev.pc), {}), {})
      for a in t.cond_atoms(ev.pc):
        if a.op != 'lt': continue
        x, y = a.args
        for lits in (on, off):
          if t.is_const(y, 1) and drop(x, lits) in cs + ups and t.assume(t.val(ev.pc), {a: True}) is TRUE: low = True
          if t.is_const(x, 0) and drop(y, lits) in cs + ups and t.assume(t.val(ev.pc), {a: False}) is TRUE: low = True
    ctx.ob('capacity-at-least-one', w, low, f'mode {mode}: a capacity below 1 is not rejected')
  r = ctx.analyze(f'{M}:compute_capacity', bind=dict(ceil_or_round=const('floor')))
  ctx.ob('unknown-mode-rejected', w, r.dead or any(ev.pc is TRUE for ev in q.raises(r)), 'an unknown rounding mode is accepted')


ONE = const(1)

"""C26: the logical device mesh; C27: which parameter is divided how."""
import itertools

from .. import arith, dicts, q, tensor as tz, terms as t, tq
from ..framework import prop
from ..terms import T, NONE, FALSE, TRUE, const, glob, raw, sym
from .moe import spec
from .optim import is_op

P = 'vmoe.partitioning'
HW = sym('hardware_mesh')


def tup(xs): return raw('tuple', *xs)


def exact(x):
  """Integer division by a factor, and products of literal sequences."""
  memo = {}
  def f(y):
    if y.op == 'bin' and y.args[0] in ('//', '%'):
      a, b = go(y.args[1]), go(y.args[2])
      pb = t.poly_of(b)
      if len(pb) == 1:
        (m, c), = pb.items()
        pa = t.poly_of(a)
        if c == 1 and m and all(isinstance(k, int) and all(dict(n).get(v, 0) >= e > 0 for v, e in m) for n, k in pa.items()):
          return const(0) if y.args[0] == '%' else t.div(a, b)
      if b is const(1): return const(0) if y.args[0] == '%' else a
      return t.binop(y.args[0], a, b)
    if q.is_call(y, 'numpy.prod', 'math.prod', 'jax.numpy.prod') and len(y.args[1]) == 1 and not y.args[2]:
      a = go(y.args[1][0])
      if a.op in ('tuple', 'list') and not any(z.op == 'star' for z in a.args):
        r = const(1)
        for z in a.args: r = t.mul(r, z)
        return r
    if q.is_call(y, 'int') and len(y.args[1]) == 1: return go(y.args[1][0])
    return None
  def go(y): return t.transform(y, f, memo)
  return go(x)


@prop('C26', 'Index-notation normal forms of the reshapes and transposes that build the mesh (ranks 2 and 4, every case of the tiling), compared with specification programs; path conditions of the rejections; normal forms of the greedy factorisation.', floor=30)
def c26(ctx):
  for n in (2, 4):
    ctx.section(default, n)
    for case in itertools.product('pr', repeat=n): ctx.section(tiled, n, case)
    ctx.section(tiled_rejects, n)
    ctx.section(logical, n)
    ctx.section(hardware, n)
  ctx.section(auto_other)
  for v3 in (True, False): ctx.section(auto_tpu, v3)
  ctx.section(auto)
  ctx.section(contiguous)
  ctx.section(coords)


def mesh_parts(ctx, w, x):
  if not q.is_call(x, 'jax.sharding.Mesh'):
    ctx.undecided('mesh', w, t.show(x, 3))
    return None
  a = dict(zip(('devices', 'axis_names'), x.args[1]))
  a.update(q.kws(x))
  n = a.get('axis_names', NONE)
  ctx.ob('axes', w, n.op in ('tuple', 'list') and [z.args[1] for z in n.args if t.is_const(z)] == ['expert', 'replica'], f'the axes of the mesh are {t.show(n, 3)}')
  return a.get('devices')


def default(ctx, n):
  ps, rs = [sym(f'p{k}') for k in range(n)], [sym(f'r{k}') for k in range(n)]
  r = ctx.analyze(f'{P}:get_logical_mesh_default', bind=dict(partitions=tup(ps), replicas=tup(rs)), attrs={(HW, 'ndim'): const(n)})
  w = f'{r.file} get_logical_mesh_default (rank {n})'
  d = mesh_parts(ctx, w, r.ret)
  if d is None: return
  with tq.Dec(ctx, 'every-device-once', w):
    z = tz.Tensor()
    z.declare(HW, [t.mul(a, b) for a, b in zip(ps, rs)])
    want = spec(ctx, f'default{n}', 'mesh', hw=HW, **{f'p{k}': ps[k] for k in range(n)}, **{f'r{k}': rs[k] for k in range(n)})
    g, v = z.arr(exact(d)), z.arr(want)
    ctx.ob('every-device-once', w, z.same(g, v), f'{z.show(g)}, not {z.show(v)}')


def tiled(ctx, n, case):
  """Axis k: 'p' = its partitions are a multiple of the local devices, 'r' = only its replicas are."""
  ls = [sym(f'l{k}') for k in range(n)]
  ps = [t.mul(sym(f'a{k}'), ls[k]) if c == 'p' else sym(f'p{k}') for k, c in enumerate(case)]
  rs = [t.mul(sym(f'a{k}'), ls[k]) if c == 'r' else sym(f'r{k}') for k, c in enumerate(case)]
  r = ctx.analyze(f'{P}:get_logical_mesh_tile_by_process', bind=dict(partitions=tup(ps), replicas=tup(rs), hardware_mesh_local_shape=tup(ls)), attrs={(HW, 'ndim'): const(n)})
  w = f'{r.file} get_logical_mesh_tile_by_process (rank {n}, {"".join(case)})'
  x = exact(r.ret)
  nodiv = {a: False for a in t.inner_atoms(x) if a.op == 'eq' and t.contains(a, lambda y: y.op == 'bin' and y.args[0] == '%')}
  x = exact(t.assume(x, nodiv))
  d = mesh_parts(ctx, w, x)
  if d is None: return
  with tq.Dec(ctx, 'every-device-once', w):
    z = tz.Tensor()
    z.declare(HW, [t.mul(a, b) for a, b in zip(ps, rs)])
    kw = {}
    for k, c in enumerate(case):
      four = (sym(f'a{k}'), ls[k], rs[k], const(1)) if c == 'p' else (const(1), ps[k], sym(f'a{k}'), ls[k])
      kw.update({f'{m}{k}': v for m, v in zip('abcd', four)})
    want = spec(ctx, f'tile{n}', 'mesh', hw=HW, **kw)
    g, v = z.arr(d), z.arr(want)
    ctx.ob('every-device-once', w, z.same(g, v), f'{z.show(g)}, not {z.show(v)}')


def tiled_rejects(ctx, n):
  ps, rs, ls = [[sym(f'{c}{k}') for k in range(n)] for c in 'prl']
  r = ctx.analyze(f'{P}:get_logical_mesh_tile_by_process', bind=dict(partitions=tup(ps), replicas=tup(rs), hardware_mesh_local_shape=tup(ls)), attrs={(HW, 'ndim'): const(n)})
  w = f'{r.file} get_logical_mesh_tile_by_process (rank {n})'
  rej = FALSE
  for e in r.events:
    if e.kind == 'raise': rej = t.b_or(rej, t.cond(e.pc))
  for k in range(n):
    div = lambda a: t.cond(t.eq(t.binop('%', a, ls[k]), const(0)))
    bad = t.b_and(t.b_not(div(ps[k])), t.b_not(div(rs[k])))
    if rej is FALSE: ctx.undecided('rejects', w, 'nothing is rejected')
    else: ctx.ob('rejects', w, t.implies(bad, rej), f'axis {k} that cannot be divided among the processes is accepted')


def logical(ctx, n):
  ps, rs = [sym(f'p{k}') for k in range(n)], [sym(f'r{k}') for k in range(n)]
  D, TL, CT, LS = [f'{P}.{x}' for x in ('get_logical_mesh_default', 'get_logical_mesh_tile_by_process', 'processes_have_contiguous_device_slices', 'get_hardware_mesh_local_shape')]
  r = ctx.analyze(f'{P}:get_logical_mesh', bind=dict(partitions=tup(ps)), opaque=[D, TL, CT, LS], attrs={(HW, 'ndim'): const(n), (HW, 'shape'): tup([t.mul(a, b) for a, b in zip(ps, rs)])})
  w = f'{r.file} get_logical_mesh (rank {n})'
  x = exact(r.ret)
  calls = sorted({y for y in t.subterms(x) if is_op(y, D) or is_op(y, TL)}, key=lambda y: y.uid)
  if not calls: ctx.undecided('consistent-axes', w, t.show(x, 3))
  for c in calls:
    a = dict(zip(('partitions', 'replicas', 'hardware_mesh', 'hardware_mesh_local_shape'), c.args[1]))
    a.update(q.kws(c))
    p, rr, h = [a.get(k, NONE) for k in ('partitions', 'replicas', 'hardware_mesh')]
    if not all(y.op in ('tuple', 'list') and len(y.args) == n for y in (p, rr)):
      ctx.undecided('consistent-axes', w, t.show(c, 4))
      continue
    perm = None
    if h is HW: perm = list(range(n))
    elif q.is_mcall(h, 'transpose') and h.args[0].args[0] is HW:
      l = h.args[1][0].args if len(h.args[1]) == 1 and h.args[1][0].op in ('tuple', 'list') else h.args[1]
      perm = [z.args[1] for z in l if t.is_const(z)] if l else list(range(n))[::-1]
    elif h.op == 'attr' and h.args[1] == 'T' and h.args[0] is HW: perm = list(range(n))[::-1]
    if perm is None or sorted(perm) != list(range(n)):
      ctx.undecided('consistent-axes', w, t.show(h, 4))
      continue
    for k in range(n):
      ctx.ob('consistent-axes', w, p.args[k] is ps[perm[k]] and rr.args[k] is rs[perm[k]], f'axis {perm[k]} of the devices is divided in {t.show(p.args[k], 3)} partitions and {t.show(rr.args[k], 3)} replicas')
    if is_op(c, TL):
      l = a.get('hardware_mesh_local_shape', NONE)
      own = raw('call', raw('opaque', LS), (), ())
      inner, rev = l, False
      while True:
        if inner.op in ('totuple', 'listof'): inner = inner.args[0]
        elif q.is_call(inner, 'reversed') and inner.args[1]: inner, rev = inner.args[1][0], not rev
        elif inner.op == 'item' and inner.args[1].op == 'slice' and inner.args[1].args[:2] == (NONE, NONE) and t.is_const(inner.args[1].args[2], -1): inner, rev = inner.args[0], not rev
        else: break
      if inner is own: ctx.ob('consistent-axes', w, perm == (list(range(n))[::-1] if rev else list(range(n))), 'the local shape of a process is not in the order of the axes of the devices')
      else: ctx.undecided('consistent-axes', w, t.show(l, 4))
  if r.ret.op == 'ite' and len(t.leaves(r.ret)) == 2:
    a = r.ret.args[0]
    first = [y for y in calls if is_op(y, D)]
    if a.op == 'truth' and is_op(a.args[0], CT) and len(first) == 1:
      hi, lo = exact(r.ret.args[1]), exact(r.ret.args[2])
      ctx.ob('contiguous', w, exact(a.args[0].args[1][0]) is t.attr(first[0], 'devices') and is_op(hi, D) and is_op(lo, TL), 'the tiling by process is not used exactly when the devices of a process are scattered')
    else: ctx.undecided('contiguous', w, t.show(a, 3))
  elif is_op(r.ret, D): ctx.ob('contiguous', w, False, 'the devices of a process may be scattered over the mesh')


def rejections(ctx, w, r, T_, shape, num, fix):
  rej = FALSE
  for e in r.events:
    if e.kind == 'raise' and t.is_glob(e.fn, 'ValueError'): rej = t.b_or(rej, t.cond(t.assume(t.val(e.pc), fix)))
  pr = const(1)
  for y in T_: pr = t.mul(pr, y)
  def need(rule, bad, text):
    """Everything bad is rejected: propositionally, or refuted by a ground instance."""
    if t.implies(t.cond(bad), rej): ctx.ob(rule, w, True)
    elif arith.escapes(bad, t.val(rej)) is not None: ctx.ob(rule, w, False, text)
    else: ctx.undecided(rule, w, t.show(t.val(rej), 4))
  need('asked-partitions', t.not_(t.eq(pr, num)), f'a mesh with {t.show(pr, 4)} partitions is accepted when {t.show(num, 3)} are asked for')
  for y, s in zip(T_, shape):
    if t.is_const(y, 1): continue
    need('whole-axes', t.not_(t.eq(t.binop('%', s, y), const(0))), f'an axis of {t.show(s, 3)} devices is divided in {t.show(y, 4)} partitions')


def greedy(ctx, w, T_, order, shape, num):
  """T_[k] for k in order: as many of the remaining partitions as the axis has."""
  rest = num
  used = const(1)
  for k in order:
    want = raw('call', glob('min'), (t.binop('//', num, used) if used is not const(1) else num, shape[k]), ())
    got = T_[k]
    ok = arith.equal(got, want)
    if ok is None: ctx.undecided('placement', w, t.show(got, 4))
    else: ctx.ob('placement', w, ok, f'axis {k} holds {t.show(got, 5)} partitions, not {t.show(want, 5)}')
    used = t.mul(used, got)


def auto_other(ctx):
  S = [sym(f's{k}') for k in range(2)]
  G = f'{P}.get_logical_mesh'
  r = ctx.analyze(f'{P}:get_auto_logical_mesh_other', opaque=[G], attrs={(HW, 'ndim'): const(2), (HW, 'shape'): tup(S)})
  w = f'{r.file} get_auto_logical_mesh_other'
  num = sym('num_partitions')
  if not (is_op(r.ret, G) and r.ret.args[1] and r.ret.args[1][0].op == 'tuple' and len(r.ret.args[1][0].args) == 2):
    ctx.undecided('placement', w, t.show(r.ret, 3))
    return
  T_ = r.ret.args[1][0].args
  ctx.ob('own-devices', w, len(r.ret.args[1]) > 1 and r.ret.args[1][1] is HW, 'the mesh is not made of the given devices')
  rejections(ctx, w, r, T_, S, num, {})
  greedy(ctx, w, T_, (0, 1), S, num)


def auto_tpu(ctx, v3):
  S = [sym(f's{k}') for k in range(4)]
  G = f'{P}.get_logical_mesh'
  r = ctx.analyze(f'{P}:get_auto_logical_mesh_tpu', opaque=[G], attrs={(HW, 'ndim'): const(4), (HW, 'shape'): tup(S)})
  w = f'{r.file} get_auto_logical_mesh_tpu ({"one plane" if v3 else "cube"})'
  num = sym('num_partitions')
  fix = {t.eq(S[3], const(1)): v3}
  x = t.assume(r.ret, fix)
  if not (is_op(x, G) and x.args[1] and x.args[1][0].op == 'tuple' and len(x.args[1][0].args) == 4):
    ctx.undecided('placement', w, t.show(x, 3))
    return
  T_ = x.args[1][0].args
  ctx.ob('own-devices', w, len(x.args[1]) > 1 and x.args[1][1] is HW, 'the mesh is not made of the given devices')
  rejections(ctx, w, r, T_, S, num, fix)
  if v3: ctx.ob('placement', w, t.is_const(T_[3], 1) or T_[3] is S[3] or arith.equal(T_[3], raw('call', glob('min'), (num, const(1)), ())) is not False, f'the plane is divided in {t.show(T_[3], 3)}')
  greedy(ctx, w, T_, (1, 2, 0) if v3 else (3, 2, 1, 0), S, num)


def auto(ctx):
  AO, AT, HO, HT = [f'{P}.{x}' for x in ('get_auto_logical_mesh_other', 'get_auto_logical_mesh_tpu', 'get_hardware_mesh_other', 'get_hardware_mesh_tpu')]
  r = ctx.analyze(f'{P}:get_auto_logical_mesh', opaque=[AO, AT, HO, HT])
  w = f'{r.file} get_auto_logical_mesh'
  dv, num = sym('devices'), sym('num_partitions')
  given = {raw('truth', dv): True, raw('is', *sorted([NONE, dv])): False}
  n = raw('call', glob('len'), (dv,), ())
  whole = t.transform(r.ret, lambda y: dv if y.op == 'ite' and t.assume(y, given) is dv else None, {})
  for over in (True, False):
    x = t.assume(whole, {**given, t.lt(n, num): over, t.lt(num, n): not over, t.eq(n, num): False})
    want = n if over else num
    k = 0
    for lits, y in t.leaves(x):
      tpu = [v for a, v in lits.items() if t.contains(a, lambda z: t.is_const(z, 'tpu'))]
      if not (is_op(y, AO) or is_op(y, AT)):
        ctx.undecided('automatic', w, t.show(y, 3))
        continue
      k += 1
      if tpu: ctx.ob('automatic', w, tpu[0] == is_op(y, AT), 'the mesh of another platform is used')
      a = y.args[1]
      g = a[0] if a else NONE
      if q.is_call(g, 'min') and set(g.args[1]) == {n, num}: g = want
      ctx.ob('automatic', w, g is want, f'{t.show(g, 3)} partitions are made when {"too many" if over else "possible"} partitions are asked for')
      h = a[1] if len(a) > 1 else NONE
      ctx.ob('automatic', w, h is raw('call', raw('opaque', HT if is_op(y, AT) else HO), (dv,), ()), f'the devices of the mesh are {t.show(h, 3)}')
    if not k: ctx.undecided('automatic', w, t.show(x, 3))


def contiguous(ctx):
  r = ctx.analyze(f'{P}:process_has_contiguous_device_slice')
  w = f'{r.file} process_has_contiguous_device_slice'
  vec = sorted({y for y in t.subterms(r.ret) if y.op == 'lam' and y.args[1] == 1}, key=lambda y: y.uid)
  sl = sorted({y for y in t.subterms(r.ret) if y.op == 'slice'}, key=lambda y: y.uid)
  loc = None
  for f in vec:
    (d,), b = t.open_lam(f)
    if t.contains(b, lambda y: y is t.attr(d, 'process_index')):
      loc = f
      ctx.ob('contiguous-test', w, b is t.eq(t.attr(d, 'process_index'), sym('process_index')), f'a device belongs to the process if {t.show(b, 3)}')
  maps = [y for y in t.subterms(r.ret) if y.op == 'map']
  ok = False
  for m in maps:
    (i,), b = t.open_lam(m.args[0])
    if b.op != 'slice': continue
    lo, hi, st = b.args
    hi1 = t.sub(hi, const(1))
    if not (lo.op == 'nth' and q.is_call(lo.args[0], 'numpy.min') and hi1.op == 'nth' and q.is_call(hi1.args[0], 'numpy.max')):
      bare = hi.op == 'nth' and q.is_call(hi.args[0], 'numpy.max')
      if bare: ctx.ob('contiguous-test', w, False, 'the last device of the process is outside the tested slice')
      continue
    ok = True
    for y in (lo.args[0], hi1.args[0]): ctx.ob('contiguous-test', w, t.is_const(q.kws(y).get('axis', y.args[1][1] if len(y.args[1]) > 1 else NONE), 1), 'the bounds are not taken over the devices of the process')
    ctx.ob('contiguous-test', w, lo.args[0].args[1][0] is hi1.args[0].args[1][0], 'the bounds are taken over different devices')
  fin = r.ret
  if q.is_mcall(fin, 'all') or q.is_call(fin, 'numpy.all'): ctx.ob('contiguous-test', w, True)
  elif q.is_mcall(fin, 'any') or q.is_call(fin, 'numpy.any'): ctx.ob('contiguous-test', w, False, 'one device of the process in the slice is enough')
  else: ctx.undecided('contiguous-test', w, t.show(fin, 3))
  if not ok: ctx.undecided('contiguous-test', w, 'bounds')
  PC = f'{P}.process_has_contiguous_device_slice'
  r = ctx.analyze(f'{P}:processes_have_contiguous_device_slices', opaque=[PC])
  w = f'{r.file} processes_have_contiguous_device_slices'
  x = r.ret
  neg = x.op == 'not'
  if neg: x = x.args[0]
  if x.op == 'truth': x = x.args[0]
  if q.is_call(x, 'any') and x.args[1][0].op == 'map':
    (i,), b = t.open_lam(x.args[1][0].args[0])
    inner = b.op == 'not'
    ctx.ob('contiguous-test', w, neg and inner, 'it is enough that the devices of one process are contiguous')
  else: ctx.undecided('contiguous-test', w, t.show(r.ret, 3))


def hardware(ctx, n):
  nm = 'get_hardware_mesh_other' if n == 2 else 'get_hardware_mesh_tpu'
  GC = f'{P}.get_device_coords_other' if n == 2 else f'{P}.get_device_coords_tpu'
  r = ctx.analyze(f'{P}:{nm}', opaque=[GC])
  w = f'{r.file} {nm}'
  x = r.ret
  if not (x.op == 'dictupd' and x.args[1].op == 'map'):
    ctx.undecided('placed', w, t.show(x, 3))
    return
  m = x.args[1]
  (i,), b = t.open_lam(m.args[0])
  if b.op != 'tuple' or len(b.args) != 2:
    ctx.undecided('placed', w, t.show(b, 3))
    return
  pos, dev = b.args
  ctx.ob('placed', w, m.args[2] is TRUE, 'some devices are left out')
  dv = sym('devices')
  if m.args[1] is dv:
    d = raw('nth', dv, i)
    c = raw('call', raw('opaque', GC), (d,), ())
    ctx.ob('placed', w, dev is d, f'{t.show(dev, 3)} is placed')
  elif m.args[1].op == 'keys':
    c = raw('nth', m.args[1], i)
    D = m.args[1].args[0]
    ctx.ob('placed', w, dev is t.item(D, c), f'{t.show(dev, 3)} is placed')
    if D.op == 'dictupd' and D.args[1].op == 'map':
      (j,), bb = t.open_lam(D.args[1].args[0])
      d = raw('nth', dv, j)
      ctx.ob('placed', w, D.args[1].args[1] is dv and D.args[1].args[2] is TRUE and bb is t.mk_tuple([raw('call', raw('opaque', GC), (d,), ()), d]), 'a device is not recorded under its own coordinates')
  else:
    ctx.undecided('placed', w, t.show(m.args[1], 3))
    return
  full = [t.item(c, const(k)) for k in range(n)]
  if pos.op == 'tuple' and len(pos.args) == n: ctx.ob('placed', w, list(pos.args) == full, f'a device is placed at {t.show(pos, 4)}')
  elif pos is not c: ctx.undecided('placed', w, t.show(pos, 3))
  e = x.args[0]
  if q.is_call(e, 'numpy.empty', 'numpy.full', 'numpy.zeros'):
    sh = e.args[1][0]
    if sh.op == 'tuple' and len(sh.args) == n:
      for k, s in enumerate(sh.args):
        s1 = t.sub(s, const(1))
        if s1.op in ('nth', 'item') and t.is_const(s1.args[1]): ctx.ob('room', w, t.is_const(s1.args[1], k), f'axis {k} is as long as axis {t.show(s1.args[1], 3)}')
        else: ctx.undecided('room', w, t.show(s, 3))


def strip_seq(x):
  while x.op in ('totuple', 'listof'): x = x.args[0]
  return x


def toint(x): return x.args[1][0] if q.is_call(x, 'int') and len(x.args[1]) == 1 else x


def coords(ctx):
  r = ctx.analyze(f'{P}:get_device_coords_other')
  w = f'{r.file} get_device_coords_other'
  d = sym('device')
  x = r.ret
  if x.op == 'tuple' and len(x.args) == 2:
    ctx.ob('coordinates', w, x.args[1] is t.attr(d, 'process_index'), f'the process of a device is {t.show(x.args[1], 3)}')
    ctx.ob('coordinates', w, not t.mentions(x.args[0], t.attr(d, 'process_index')) or t.mentions(x.args[0], t.attr(d, 'id')), f'the position of a device in its process is {t.show(x.args[0], 3)}')
  else: ctx.undecided('coordinates', w, t.show(x, 3))
  if x.op == 'tuple' and len(x.args) == 2 and x.args[0].op == 'bin' and x.args[0].args[1] is t.attr(d, 'id'):
    ctx.ob('coordinates', w, x.args[0].args[0] == '%', f'the position of a device in its process is {t.show(x.args[0], 3)}')
    if x.args[0].args[0] == '%': ctx.ob('coordinates', w, q.is_call(x.args[0].args[2], 'jax.local_device_count') and not x.args[0].args[2].args[1], f'the position of a device in its process is {t.show(x.args[0], 3)}')
  r = ctx.analyze(f'{P}:get_device_coords_tpu')
  w = f'{r.file} get_device_coords_tpu'
  d, = r.params.values()
  x, co = r.ret, t.attr(d, 'coords')
  if x.op == 'tuple' and len(x.args) == 2 and x.args[1].op == 'star': parts = [x.args[0], strip_seq(x.args[1].args[0])]
  elif x.op == 'cat' and len(x.args) == 2 and x.args[0].op in ('tuple', 'list') and len(x.args[0].args) == 1: parts = [x.args[0].args[0], strip_seq(x.args[1])]
  else: parts = None
  if parts is None and x.op == 'tuple' and len(x.args) == 2 and x.args[0].op == 'star': ctx.ob('coordinates', w, False, f'the coordinates of a TPU are {t.show(x, 4)}: the core does not come first')
  elif parts is None: ctx.undecided('coordinates', w, t.show(x, 4))
  else:
    ctx.ob('coordinates', w, toint(parts[0]) is t.attr(d, 'core_on_chip'), f'the first coordinate of a TPU is {t.show(parts[0], 4)}')
    y = parts[1]
    if y is co: ctx.ob('coordinates', w, True)
    elif y.op == 'map':
      (i, *_), b = t.open_lam(y.args[0])
      ctx.ob('coordinates', w, y.args[1] is co and y.args[2] is TRUE and toint(b) is raw('nth', co, i), f'the coordinates of a TPU are {t.show(y, 4)}')
    elif q.is_call(y, 'reversed') or q.is_call(y, 'sorted') or y.op in ('rev', 'sorted'): ctx.ob('coordinates', w, False, f'the coordinates of a TPU are {t.show(y, 4)}')
    else: ctx.undecided('coordinates', w, t.show(y, 4))
  d = sym('device')
  TP, OT, GC = f'{P}.get_device_coords_tpu', f'{P}.get_device_coords_other', f'{P}.get_device_coords'
  r = ctx.analyze(f'{P}:get_device_coords', opaque=[TP, OT])
  w = f'{r.file} get_device_coords'
  plat = t.attr(d, 'platform')
  for v, f in (('tpu', TP), ('gpu', OT), ('cpu', OT), ('cuda', OT)):
    y = t.assume(r.ret, {a: const(v) in a.args for a in t.inner_atoms(r.ret) if a.op == 'eq' and plat in a.args})
    if y.op == 'call' and y.args[0].op == 'opaque': ctx.ob('coordinates', w, is_op(y, f) and y.args[1] == (d,), f'the coordinates of a device are {t.show(y, 3)}')
    else: ctx.undecided('coordinates', w, t.show(y, 3))
  r = ctx.analyze(f'{P}:get_hardware_mesh_local_shape', opaque=[GC])
  w = f'{r.file} get_hardware_mesh_local_shape'
  x = r.ret
  while x.op in ('totuple', 'listof'): x = x.args[0]
  if x.op == 'map':
    (i,), b = t.open_lam(x.args[0])
    col = raw('nth', x.args[1], i)
    if q.is_call(b, 'len') and b.args[1][0].op == 'setof': ctx.ob('local-shape', w, t.mentions(b, col), f'an axis has {t.show(b, 4)} devices')
    elif q.is_call(b, 'len'): ctx.ob('local-shape', w, False, 'coordinates that several devices share are counted several times')
    else: ctx.undecided('local-shape', w, t.show(b, 3))
    ctx.ob('local-shape', w, x.args[2] is TRUE, 'some axes are left out')
  else: ctx.undecided('local-shape', w, t.show(x, 3))


# ---------------------------------------------------------------- C27
@prop('C27', 'Symbolic dictionary lookup of the specification of any leaf: the search loop over the rules is first-match, its condition and value are decided as terms; structure preservation by the flatten/unflatten pair.', floor=8)
def c27(ctx):
  ctx.section(rules)
  ctx.section(parsed)
  ctx.section(constraint)


def rules(ctx):
  PP = f'{P}.parse_partition_spec'
  r = ctx.analyze(f'{P}:tree_axis_resources_from_regexes', opaque=[PP])
  w = f'{r.file} tree_axis_resources_from_regexes'
  tree, rg = sym('tree'), sym('axis_resources_regexes')
  x = r.ret
  if q.is_call(x, 'flax.serialization.from_state_dict') and len(x.args[1]) == 2:
    ctx.ob('same-structure', w, x.args[1][0] is tree, 'the result does not have the structure of the tree')
    x = x.args[1][1]
  elif q.is_call(x, 'flax.traverse_util.unflatten_dict'): ctx.ob('same-structure', w, False, 'the result is a dictionary, whatever the structure of the tree')
  else: ctx.undecided('same-structure', w, t.show(x, 3))
  if not (q.is_call(x, 'flax.traverse_util.unflatten_dict')):
    ctx.undecided('same-structure', w, t.show(x, 3))
    return
  sep2 = q.kwarg(x, 'sep', 1, NONE)
  fl = sorted({y for y in t.subterms(x) if q.is_call(y, 'flax.traverse_util.flatten_dict')}, key=lambda y: y.uid)
  if len(fl) != 1:
    ctx.undecided('same-structure', w, f'{len(fl)} flattened trees')
    return
  F = fl[0]
  sep1 = q.kwarg(F, 'sep', 3, NONE)
  ctx.ob('same-structure', w, sep1 is sep2 and F.args[1][0] is raw('call', glob('flax.serialization.to_state_dict'), (tree,), ()), 'the tree is put together in another way than it was taken apart')
  ctx.ob('names', w, t.is_const(sep1, '/'), f'names are joined by {t.show(sep1, 3)}')
  ctx.ob('same-structure', w, q.kwarg(F, 'keep_empty_nodes', 1, FALSE) is TRUE, 'empty parts of the tree are lost')
  k = sym('k')
  try: c, v = dicts.look(x.args[1][0], k)
  except dicts.Opaque as e:
    ctx.undecided('every-leaf', w, str(e))
    return
  v = dicts.rewrite(v)
  ctx.ob('every-leaf', w, t.cond(c) is t.cond(t.in_(k, F)), f'a leaf has a specification if {t.show(t.val(c), 3)}')
  leaf = t.item(F, k)
  empty = raw('is', *sorted([glob('flax.traverse_util.empty_node'), leaf]))
  v0 = t.assume(v, {empty: True})
  if v0 is leaf or q.is_call(v0, 'flax.traverse_util.empty_node') or v0 is glob('flax.traverse_util.empty_node'): ctx.ob('empty-kept', w, True)
  elif v0 is v: ctx.undecided('empty-kept', w, t.show(v, 3))
  else: ctx.ob('empty-kept', w, False, f'an empty part of the tree becomes {t.show(v0, 3)}')
  v = t.assume(v, {empty: False})
  fs = sorted({y for y in t.subterms(v) if y.op == 'first'}, key=lambda y: y.uid)
  nospec = raw('call', glob('jax.sharding.PartitionSpec'), (), ())
  if len(fs) != 1 or v.op != 'ite':
    last = [y for y in t.subterms(v) if y.op == 'fold']
    if len(last) == 1: folded(ctx, w, v, last[0], rg)
    else: ctx.undecided('first-match', w, t.show(v, 4))
    return
  f = fs[0]
  dom, cnd, val = f.args
  d0 = dom
  while q.is_call(d0, 'tuple', 'list') or d0.op in ('totuple', 'listof'): d0 = d0.args[0] if d0.op in ('totuple', 'listof') else d0.args[1][0]
  if q.is_call(d0, 'reversed') or d0.op == 'item' and d0.args[1].op == 'slice': ctx.ob('first-match', w, False, f'the rules are tried in the order {t.show(dom, 3)}')
  elif d0 is rg: ctx.ob('first-match', w, True)
  else: ctx.undecided('first-match', w, t.show(dom, 3))
  (i,), cb = t.open_lam(cnd)
  rule = raw('nth', dom, i)
  # what is tested before the rules are tried
  pre = FALSE
  for lits, y in t.leaves(v):
    if not t.mentions(y, f): continue
    c = TRUE
    for a, pol in lits.items():
      if not t.mentions(a, cnd): c = t.b_and(c, t.cond(a) if pol else t.b_not(t.cond(a)))
    pre = t.b_or(pre, c)
  matching(ctx, w, t.val(t.b_and(pre, t.cond(cb))), rule, k, leaf)
  vb = t.beta(val, [i])
  ctx.ob('own-specification', w, vb is raw('call', raw('opaque', PP), (t.item(rule, const(1)),), ()), f'the specification of a matching rule is {t.show(vb, 4)}')
  for lits, y in t.leaves(v):
    if t.mentions(y, f): ctx.ob('first-match', w, y is f, f'the specification is {t.show(y, 3)}')
    else: ctx.ob('default', w, y is nospec, f'a leaf without matching rule is divided by {t.show(y, 3)}')


def matching(ctx, w, cb, rule, k, leaf):
  pat = t.item(rule, const(0))
  rc = raw('call', glob('re.compile'), (pat,), ())
  ok_s = [raw('call', t.attr(rc, 'search'), (k,), ()), raw('call', glob('re.search'), (pat, k), ()), raw('call', glob('re.search'), (rc, k), ())]
  size = raw('call', glob('numpy.prod'), (t.attr(leaf, 'shape'),), ())
  sizes = [size, t.attr(leaf, 'size'), raw('call', glob('math.prod'), (t.attr(leaf, 'shape'),), ())]
  c = t.cond(cb)
  for s in ok_s:
    m = t.cond(s)
    for n in sizes:
      big = [t.cond(t.lt(const(1), n)), t.b_not(t.cond(t.lt(n, const(2)))), t.b_not(t.cond(t.le(n, const(1)))) if hasattr(t, 'le') else FALSE]
      if any(c is t.b_and(m, z) for z in big):
        ctx.ob('matching', w, True)
        return
  hit = any(t.contains(c, lambda y: y is s) for s in ok_s)
  sz = any(t.contains(c, lambda y: y is n) for n in sizes)
  others = [y.args[0].args[1] for y in t.subterms(c) if y.op == 'call' and y.args[0].op == 'attr' and y.args[0].args[1] in ('match', 'fullmatch')] + [y.args[0].args[0] for y in t.subterms(c) if q.is_call(y, 're.match', 're.fullmatch')]
  known = hit and all(a.op == 'truth' and a.args[0] in ok_s or a.op == 'lt' and any(n in a.args for n in sizes) for a in t.cond_atoms(c))
  search = [y for y in t.subterms(c) if y.op == 'call' and (y.args[0].op == 'attr' and y.args[0].args[1] == 'search' or q.is_call(y, 're.search'))]
  altered = search and not hit and all(t.mentions(y, k) and t.mentions(y, pat) for y in search)   # another expression, or another name
  dims = any(y.op == 'attr' and y.args[1] == 'ndim' or q.is_call(y, 'len') and y.args[1] and y.args[1][0] is t.attr(leaf, 'shape') for a in t.cond_atoms(c) for y in t.subterms(a)) and not sz
  if others or known or altered or dims or c in (TRUE, FALSE): ctx.ob('matching', w, False, f'a rule applies if {t.show(t.val(c), 5)}, not if its expression is found in the name and the array has more than one element')
  else: ctx.undecided('matching', w, t.show(t.val(c), 4))


def folded(ctx, w, v, f, rg):
  """A loop without early exit: the last matching rule wins."""
  dom, ini, lam = f.args[:3]
  ss, b = t.open_lam(lam)
  if b.op == 'tuple' and b.args[-1] is FALSE and len(b.args) == 2:
    x = b.args[0]
    acc = ss[1] if len(ss) > 1 else None
    lv = t.leaves(x)
    # an update that does not depend on the previous value lets later rules win
    if acc is not None and any(y is acc for _, y in lv) and any(not t.mentions(y, acc) and not any(t.mentions(a, acc) for a in l) for l, y in lv) and dom is rg:
      ctx.ob('first-match', w, False, 'the last matching rule wins, not the first')
      return
  ctx.undecided('first-match', w, t.show(v, 4))


def parsed(ctx):
  r = ctx.analyze(f'{P}:parse_partition_spec')
  w = f'{r.file} parse_partition_spec'
  s = sym('spec')
  PS = glob('jax.sharding.PartitionSpec')
  isp, tr = raw('isinstance', s, PS), raw('truth', s)
  iss = raw('isinstance', s, glob('str'))
  x = r.ret
  a = t.assume(x, {isp: True})
  ctx.ob('parsed', w, a is s, f'a specification becomes {t.show(a, 3)}')
  a = t.assume(x, {isp: False, tr: False})
  if a.op == 'ite': ctx.undecided('parsed', w, t.show(a, 3))
  else: ctx.ob('parsed', w, a is raw('call', PS, (), ()), f'an empty specification becomes {t.show(a, 3)}')
  a = t.assume(x, {isp: False, tr: True, iss: True, raw('is', *sorted([NONE, s])): False})
  if a.op == 'call' and a.args[0] is PS:
    l = a.args[1]
    flat = l[0].args[0].args if len(l) == 1 and l[0].op == 'star' and l[0].args[0].op in ('tuple', 'list') else l
    ctx.ob('parsed', w, list(flat) == [s], f'one axis name becomes {t.show(a, 3)}')
  else: ctx.undecided('parsed', w, t.show(a, 3))
  a = t.assume(x, {isp: False, tr: True, iss: False, raw('is', *sorted([NONE, s])): False})
  if a.op == 'call' and a.args[0] is PS and len(a.args[1]) == 1:
    y = a.args[1][0]
    inner = y.args[0] if y.op == 'star' else y
    while inner.op in ('totuple', 'listof'): inner = inner.args[0]
    if inner is s: ctx.ob('parsed', w, y.op == 'star', f'several axes become {t.show(a, 3)}: all on the first dimension')
    elif q.is_call(inner, 'reversed', 'sorted', 'set'): ctx.ob('parsed', w, False, f'several axes become {t.show(a, 3)}')
    else: ctx.undecided('parsed', w, t.show(a, 3))
  else: ctx.undecided('parsed', w, t.show(a, 3))


def constraint(ctx):
  for bare in (True, False):
    r = ctx.analyze(f'{P}:with_sharding_constraint', attrs={(glob('jax.interpreters.pxla.thread_resources.env.physical_mesh'), 'empty'): const(bare)})
    w = f'{r.file} with_sharding_constraint'
    x, s = list(r.params.values())[:2]
    for none in (True, False):
      for lits, y in t.leaves(t.assume(r.ret, {raw('is', *sorted([NONE, s])): none})):
        if y is x: ctx.ob('constraint', w, bare or none or bool(lits), 'the specification is ignored although there is a mesh')
        elif q.is_call(y, 'jax.lax.with_sharding_constraint'):
          ctx.ob('value-kept', w, [q.kwarg(y, 'x', 0), q.kwarg(y, 'shardings', 1)] == [x, s], f'{t.show(y, 3)}')
          ctx.ob('constraint', w, not none or bool(lits), 'an array without specification is constrained')
        else: ctx.undecided('value-kept', w, t.show(y, 3))

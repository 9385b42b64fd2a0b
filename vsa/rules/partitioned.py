"""C04 (slice arithmetic of sharded checkpoints) and C05 (ownership, naming and index agreement)."""
from .. import terms as t
from .. import q
from ..terms import TRUE, FALSE, NONE, raw, const, glob, sym
from ..framework import prop

M = 'vmoe.checkpoints.partitioned'
W = 'vmoe/checkpoints/partitioned.py'
PI = raw('call', glob('jax.process_index'), (), ())
PC = raw('call', glob('jax.process_count'), (), ())


def strip(v):
  while (v.op in ('totuple', 'listof')) or (q.is_call(v, 'tuple', 'list', 'iter') and len(v.args[1]) == 1):
    v = v.args[0] if v.op in ('totuple', 'listof') else v.args[1][0]
  return v


def or0(x):
  """x or 0, for an optional slice start."""
  return {t.ite(raw('truth', x), x, const(0)), t.ite(t.is_(x, NONE), const(0), x)}


def slicend_arg(v):
  """The per-axis sequence of a SliceNd value."""
  if v.op == 'obj' and v.args[0].endswith('.SliceNd'):
    a = dict(v.args[1]).get('<args>')
    if a is not None and len(a.args) == 1: return strip(a.args[0])
  return None


def slice_of(b):
  """(start, stop) of a Slice object or slice term."""
  if b.op == 'obj' and b.args[0].endswith('.Slice'):
    b = next((y for k, y in b.args[1] if isinstance(y, t.T) and y.op == 'slice'), b)
  if b.op == 'slice': return b.args[0], b.args[1]
  return None


def per_axis(v):
  """(index symbol, (start, stop)) of a mapped SliceNd/tuple of slices."""
  m = slicend_arg(v)
  if m is None: m = strip(v)
  if m.op != 'map' or m.args[2] is not TRUE: return None
  i, b = t.open_lam(m.args[0])
  s = slice_of(b)
  return (i[0], s, m.args[1]) if s else None


def is_full(v, index, shape):
  """v is `index` (a device index, possibly with open ends) made explicit with `shape`."""
  p = per_axis(v)
  if p is None: return False
  i, (a, z), _ = p
  s, n = t.nth(index, i), t.nth(shape, i)
  sa, so = t.attr(s, 'start'), t.attr(s, 'stop')
  ind = raw('call', t.attr(s, 'indices'), (n,), ())
  ok_a = a in or0(sa) or a is t.item(ind, const(0))
  ok_z = z in {t.ite(t.is_(so, NONE), n, so), t.ite(raw('truth', so), so, n)} or z is t.item(ind, const(1))
  return ok_a and ok_z


def expl(x):
  """Forget the handling of open slice ends: stored slices always have explicit integer ends."""
  def f(y):
    if y.op == 'attr' and y.args[1] in ('start', 'stop', 'step') and y.args[0].op == 'obj':
      sl = next((v for _, v in y.args[0].args[1] if isinstance(v, t.T) and v.op == 'slice'), None)
      if sl is not None: return expl(t.attr(sl, y.args[1]))
    if y.op == 'ite':
      c, a, b = y.args
      if c.op == 'truth' and c.args[0] is a and t.is_const(b, 0): return expl(a)
      if c.op == 'is' and NONE in c.args:
        o = c.args[0] if c.args[1] is NONE else c.args[1]
        if b is o and o.op == 'attr' and o.args[1] in ('start', 'stop'): return expl(b)
      if c.op == 'eq' and any(q_ is glob('numpy.inf') for q_ in c.args): return expl(b)
    return None
  r = t.transform(x, f)
  return r


def minmax(name, a, b):
  return {raw('call', glob(name), (a, b), ()), raw('call', glob(name), (b, a), ())}


def slice_props(ctx):
  """Slice exposes the ends it was built from; slices order and compare by their ends."""
  for n in ('start', 'stop', 'step'):
    r = ctx.analyze(f'vmoe.checkpoints.types:Slice.{n}')
    ok = r.ret.op == 'attr' and r.ret.args[1] == n and r.ret.args[0].op == 'attr' and r.ret.args[0].args[0] is r.selfv
    ctx.ob('slice-ends', f'vmoe/checkpoints/types.py Slice.{n}', ok, f'returns {t.show(r.ret, 4)}')
  W, P = 'vmoe/checkpoints/types.py', 'vmoe.checkpoints.types:'
  ENDS = ('start', 'stop', 'step')
  r = ctx.analyze(P + 'Slice.slice')
  if not (r.ret.op == 'attr' and r.ret.args[0] is r.selfv):
    ctx.undecided('slice-ends', W + ' Slice.slice', t.show(r.ret, 3))
    return
  SL = r.ret.args[1]
  def ends(x, base):
    """The ends of a slice made explicit."""
    return t.subst(x, {t.attr(t.attr(base, SL), n): sym(f'{n}#') for n in ENDS})
  r = ctx.analyze(P + 'Slice.tuple')
  ctx.ob('slice-ends', W + ' Slice.tuple', ends(r.ret, r.selfv) is t.mk_tuple([sym(f'{n}#') for n in ENDS]), f'a slice is described by {t.show(r.ret, 5)}')
  tup = r.ret if r.ret.op == 'tuple' else None
  for n in ('__eq__', '__lt__'):
    r = ctx.analyze(P + 'Slice.' + n)
    o = list(r.params.values())[1]
    x = t.assume(r.ret, {y: True for y in t.subterms(r.ret) if y.op == 'isinstance' and y.args[0] is o and t.contains(y.args[1], lambda u: u.op == 'cls')})
    mine = [k for k in ENDS if t.mentions(x, t.attr(t.attr(r.selfv, SL), k))]
    whole = t.mentions(ends(x, r.selfv), r.selfv)
    if tup is not None: x = t.subst(x, {t.attr(o, 'tuple'): t.mk_tuple([t.attr(o, k) for k in ENDS])})
    yours = [k for k in ENDS if t.mentions(x, t.attr(o, k)) or t.mentions(x, t.attr(t.attr(o, SL), k))]
    for who, got in (('its', mine), ("the other's", yours)):
      if len(got) == 3 or not whole: ctx.ob('slice-' + n.strip('_'), f'{W} Slice.{n}', len(got) == 3, f'{who} {[k for k in ENDS if k not in got]} is not compared')
      else: ctx.undecided('slice-' + n.strip('_'), f'{W} Slice.{n}', t.show(x, 4))
    eq_ = t.subst(x, {t.attr(o, k): t.attr(t.attr(r.selfv, SL), k) for k in ENDS} | {t.attr(t.attr(o, SL), k): t.attr(t.attr(r.selfv, SL), k) for k in ENDS})
    c = t.cond(eq_)
    if c in (TRUE, FALSE): ctx.ob('slice-' + n.strip('_'), f'{W} Slice.{n}', (c is TRUE) == (n == '__eq__'), f'{n} is {c is TRUE} for equal slices')
  r = ctx.analyze(P + 'Slice.__hash__')
  x = ends(r.ret, r.selfv)
  ctx.ob('slice-hash', W + ' Slice.__hash__', not t.mentions(x, r.selfv) or t.mentions(r.ret, t.attr(r.selfv, SL)) and not t.contains(x, lambda y: q.is_call(y, 'id')), f'equal slices have different hashes: {t.show(r.ret, 4)}')
  r = ctx.analyze(P + 'SliceNd.__new__')
  ar = sym('*args')
  made = [e for e in r.events if e.kind == 'call' and t.is_glob(e.fn, 'tuple.__new__') and len(e.args) == 2]
  for e in made:
    v = e.args[1]
    if v.op == 'map' and v.args[0].op == 'lam':
      ctx.ob('slicend-new', e.where(), v.args[1] is t.item(ar, const(0)) and (len(v.args) < 3 or v.args[2] is TRUE), f'the slices are made from {t.show(v.args[1], 4)}')
      (i,), bd = t.open_lam(v.args[0])
      it = raw('nth', v.args[1], i)
      if bd.op == 'obj' and bd.args[0].endswith('.Slice'):
        sl = dict(bd.args[1]).get(SL, NONE)
        isn = {y: str(y.args[1]) for y in t.subterms(sl) if y.op == 'isinstance' and y.args[0] is it}
        for kind, want in (('slice', it), ('Slice', t.attr(it, SL))):
          g = t.assume(sl, {y: (t.is_glob(y.args[1], 'slice') if kind == 'slice' else not t.is_glob(y.args[1], 'slice')) for y in isn})
          ctx.ob('slicend-new', e.where(), g is want, f'a {kind} becomes {t.show(g, 4)}')
      else: ctx.undecided('slicend-new', e.where(), t.show(bd, 3))
    else: ctx.ob('slicend-new', e.where(), v is ar or v.op not in ('item', 'sym'), f'the slices kept are {t.show(v, 4)}')
  if not made: ctx.undecided('slicend-new', W + ' SliceNd.__new__', 'construction')
  r = ctx.analyze(P + 'SliceNdArray.create')
  sl, sh, ti = list(r.params.values())[1:4]
  for hs in (True, False):
    for ht in (True, False):
      x = t.assume(r.ret, {raw('truth', sh): hs, raw('truth', ti): ht})
      w = f'{W} SliceNdArray.create ({"shape" if hs else "no shape"}, {"tile" if ht else "no tile"})'
      while q.is_mcall(x, 'view') or q.is_call(x, 'numpy.asarray', 'numpy.array'): x = x.args[0].args[0] if q.is_mcall(x, 'view') else x.args[1][0]
      if ht:
        if q.is_call(x, 'numpy.tile'):
          ctx.ob('slicend-create', w, x.args[1][1] is ti, f'tiled by {t.show(x.args[1][1], 3)}')
          x = x.args[1][0]
        else:
          ctx.ob('slicend-create', w, False, f'tile gives {t.show(x, 3)}') if q.is_call(x, 'numpy.repeat') or not t.mentions(x, ti) else ctx.undecided('slicend-create', w, t.show(x, 3))
          continue
      if hs:
        if q.is_mcall(x, 'reshape'):
          ctx.ob('slicend-create', w, x.args[1] == (sh,) and not x.args[2], f'reshaped to {t.show(x, 3)}')
          x = x.args[0].args[0]
        else:
          ctx.ob('slicend-create', w, False, f'shape gives {t.show(x, 3)}') if not t.mentions(x, sh) else ctx.undecided('slicend-create', w, t.show(x, 3))
          continue
      ctx.ob('slicend-create', w, t.mentions(x, sl) and not t.mentions(x, sh) and not t.mentions(x, ti), f'the array is {t.show(x, 4)}')
  st = [e for e in r.events if e.kind == 'setitem' and len(e.args) == 2 and e.args[1].op == 'obj']
  for e in st:
    v = e.args[1]
    a0 = dict(v.args[1]).get('<args>')
    if a0 is not None and a0.op == 'tuple' and len(a0.args) == 1 and a0.args[0].op == 'nth': ctx.ob('slicend-create', e.where(), a0.args[0] is raw('nth', sl, e.args[0]), f'place {t.show(e.args[0], 2)} holds {t.show(a0.args[0], 3)}')


@prop('C04', 'per-axis slice terms: device index made explicit; chunks cut at shard-relative offsets; split pieces tile their parent; '
      'restore copies exactly the intersection at buffer-relative and chunk-relative offsets, for every chunk and buffer; every intersecting shard file is read', floor=30)
def c04(ctx):
  slice_props(ctx)
  # -- buffers for every addressable shard
  w = f'{W} _create_local_buffers'
  r = ctx.analyze(f'{M}:_create_local_buffers')
  imap = raw('call', t.attr(sym('sharding'), 'addressable_devices_indices_map'), (sym('global_shape'),), ())
  keyed = [e for e in r.events if e.kind == 'setitem' and len(e.args) == 2]
  pairs = [(e.args[0], e.args[1], e.loops[-1].idx if e.loops else None, e.pc) for e in keyed]
  if not pairs:
    for m in t.subterms(r.ret):
      if m.op in ('dictof', 'dictupd'):
        mm = m.args[-1]
        if mm.op == 'map':
          i, b = t.open_lam(mm.args[0])
          if b.op == 'tuple' and len(b.args) == 2: pairs.append((b.args[0], b.args[1], i[0], TRUE))
  ctx.ob('buffers-created', w, bool(pairs), 'no buffers are created')
  for k, v, i, pc in pairs:
    ks = [x for x in t.subterms(k) if x.op == 'nth']
    idx = [t.item(imap, raw('nth', raw('keys', imap), i))] if i is not None else []
    ctx.ob('buffer-key-explicit', w, any(is_full(k, ix, sym('global_shape')) for ix in idx), f'buffer key {t.show(k, 6)} is not the explicit slice of the device index')
    shp = q.kwarg(v, 'shape', 0) if v.op == 'call' else None
    ok = shp is raw('call', t.attr(sym('sharding'), 'shard_shape'), (sym('global_shape'),), ())
    ctx.ob('buffer-shape', w, ok or v.op == 'ref' or ref_zeros(r, v), f'buffer {t.show(v, 5)} does not have the shard shape')
    own = [a for a in t.cond_atoms(pc) if a.op != 'in']
    ctx.ob('every-buffer', w, not own, f'some addressable shards get no buffer: {t.show(pc, 5)}')

  # -- slices of an array, grouped by device index and split
  w = f'{W} _create_map_slicend_to_array_shards'
  r = ctx.analyze(f'{M}:_create_map_slicend_to_array_shards', opaque=[f'{M}._split_slicend'])
  arr = sym('arr')
  grp = [x for x in t.subterms(r.ret) if x.op == 'groupby']
  if ctx.ob('shards-grouped', w, bool(grp), 'shards are not grouped by the slice they hold'):
    g = grp[0]
    m = g.args[0]
    i, b = t.open_lam(m.args[0])
    sh = t.nth(t.attr(arr, 'global_shards'), i[0])
    ctx.ob('all-global-shards', w, m.args[1] is t.attr(arr, 'global_shards') and m.args[2] is TRUE, 'not every global shard of the array is considered')
    ctx.ob('slice-of-shard', w, is_full(b.args[0], t.attr(sh, 'index'), t.attr(arr, 'shape')) and b.args[1] is sh, 'shard is not grouped under its explicit slice')
    sp = [x for x in t.subterms(r.ret) if x.op == 'call' and x.args[0].op == 'opaque' and x.args[0].args[0].endswith('_split_slicend')]
    ok = bool(sp) and all(x.args[1][0].op == 'nth' and x.args[1][0].args[0] is raw('keys', g) for x in sp)
    ctx.ob('every-slice-split', w, ok, 'slices are not split one by one')
    pr = [y for y in t.subterms(r.ret) if y.op == 'tuple' and len(y.args) == 2 and y.args[0].op == 'nth' and y.args[0].args[0] in sp]
    ctx.ob('subslice-shards', w, bool(pr) and all(y.args[1] is t.item(g, y.args[0].args[0].args[1][0]) for y in pr), 'a piece is not mapped to the shards of its own slice')
    fl = [y for y in t.subterms(r.ret) if y.op == 'map' and y.args[2] is not TRUE]
    ctx.ob('no-slice-dropped', w, not fl, 'some slices are filtered out')
    for x in sp:
      mx = q.kwarg(x, 'max_chunk_items', 1)
      if mx is not None:
        bad = [l for _, l in t.leaves(mx) if not (l is NONE or (q.is_call(l, 'max') and any(t.is_const(a) and a.args[1] >= 1 for a in l.args[1])))]
        ctx.ob('max-items-positive', w, not bad, f'items per piece may be {t.show(mx, 5)}')

  split_rules(ctx)

  # -- cutting a chunk out of the local shard
  w = f'{W} _update_lazy_array_chunks_with_leaf'
  r = ctx.analyze(f'{M}:_update_lazy_array_chunks_with_leaf')
  adds = [e for e in r.events if e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[1] == 'add' and len(e.args) + len(e.kwargs) == 4]
  ctx.ob('chunk-added', w, bool(adds), 'no chunk is recorded')
  s2c = sym('slicend_to_ckpt_shard')
  for e in adds:
    ctx.ob('no-early-stop', w, not [l for l in q.early(e) if l is not e.loops[-1] or len(e.loops) == 1], 'the loop may stop before the last chunk')
    ix, data, loc, glo = (q.ekw(e, n, k) for k, n in enumerate(('index', 'ndarray', 'local_slice', 'global_slice')))
    ctx.ob('leaf-index', w, ix is sym('index'), 'chunk recorded under another leaf')
    okg = glo.op == 'nth' and glo.args[0] is raw('keys', s2c)
    ctx.ob('global-slice', w, okg, f'global slice {t.show(glo, 4)} is not the one assigned to a checkpoint shard')
    if data.op != 'attr' or data.args[1] != 'data':
      ctx.ob('shard-data', w, False, f'{t.show(data, 4)} is not shard data'); continue
    shard = data.args[0]
    ctx.ob('shard-of-slice', w, t.mentions(shard, t.item(sym('slicend_to_arr_shards'), glo)), 'data comes from a shard that does not hold the slice')
    p = per_axis(loc)
    ok = False
    if p:
      i, (a, z), _ = p
      g = t.nth(glo, i)
      for s0 in or0(t.attr(t.nth(t.attr(shard, 'index'), i), 'start')):
        if a is t.sub(t.attr(g, 'start'), s0) and z is t.sub(t.attr(g, 'stop'), s0): ok = True
    ctx.ob('local-offsets', w, ok, f'local slice {t.show(loc, 8)} is not the global slice minus the start of the shard')
    tgt = e.fn.args[0]
    ctx.ob('target-shard', w, tgt is t.item(sym('ckpt_shard_to_lazy_array_chunks'), t.item(s2c, glo)), f'chunk goes to {t.show(tgt, 4)}')

  # -- restoring: copy the intersection
  w = f'{W} _restore_local_buffers'
  r = ctx.analyze(f'{M}:_restore_local_buffers', opaque=['vmoe.checkpoints.base.restore_checkpoint'])
  cop = [e for e in r.events if e.kind == 'setitem' and t.mentions(e.fn, sym('local_buffers')) or (e.kind == 'call' and q_is_copyto(e))]
  ctx.ob('copies', w, bool(cop), 'nothing is copied to the local buffers')
  for e in cop:
    ctx.ob('no-early-stop', w, not q.early(e), 'the loop may stop before the last buffer or chunk')
    if e.kind == 'call': buf, val = e.args[0], e.args[1]; li = None
    else: buf, li, val = e.fn, e.args[0], e.args[1]
    # buffer: local_buffers[i][g]
    okb = buf.op == 'item' and buf.args[0].op == 'item' and buf.args[0].args[0] is sym('local_buffers') and buf.args[1].op == 'nth'
    if not ctx.ob('buffer-of-leaf', w, okb, f'target {t.show(buf, 5)}'): continue
    leaf, g = buf.args[0].args[1], buf.args[1]
    ctx.ob('every-buffer-of-leaf', w, g.args[0] is raw('keys', buf.args[0]), 'not all buffers of the leaf are visited')
    okv = val.op == 'item' and val.args[0].op == 'nth' and val.args[0].args[0].op == 'item'
    if not ctx.ob('chunk-cut', w, okv, f'value {t.show(val, 4)} is not a part of a chunk'): continue
    chunk, ci = val.args
    lst = chunk.args[0]
    src = lst.args[0].args[0] if lst.args[0].op == 'attr' else None
    ctx.ob('chunk-of-leaf', w, lst.args[1] is leaf and lst.args[0].op == 'attr' and lst.args[0].args[1] == 'chunks', 'chunk of another leaf')
    c = t.nth(t.item(t.attr(src, 'global_slices'), leaf), chunk.args[1]) if src is not None else NONE
    inter = [a for a in t.inner_atoms(li)] if li is not None else []
    # decide the early exit of the intersection: no axis is empty
    none = {a: False for a in set(t.inner_atoms(raw('tuple', li, ci, t.val(e.pc)))) if is_any(a)}
    li2, ci2 = t.assume(li, none), t.assume(ci, none)
    for nm, v, base in (('buffer-offsets', li2, g), ('chunk-offsets', ci2, c)):
      p = per_axis(v)
      ok = False
      if p:
        i, (a, z), _ = p
        a, z = expl(a), expl(z)
        G, C, B = t.nth(g, i), t.nth(c, i), t.nth(base, i)
        st, sp_ = lambda x: t.attr(x, 'start'), lambda x: t.attr(x, 'stop')
        ok = any(a is t.sub(x, st(B)) for x in minmax('max', st(G), st(C))) and any(z is t.sub(x, st(B)) for x in minmax('min', sp_(G), sp_(C)))
      ctx.ob(nm, w, ok, f'{t.show(v, 9)} is not the intersection shifted to the start of the {"buffer" if base is g else "chunk"}')
    pc = t.assume(t.val(e.pc), none)
    dec = {}
    for a in t.inner_atoms(pc):
      if a.op == 'is' and NONE in a.args and slicend_arg(a.args[0] if a.args[1] is NONE else a.args[1]) is not None: dec[a] = False
    pc = t.assume(pc, dec)
    # the remaining condition may only be the (implied) overlap test
    rest = [a for a in t.cond_atoms(t.cond(pc))]
    ctx.ob('copied-when-overlapping', w, not rest or all(a.op == 'truth' and slicend_arg(a.args[0]) is not None for a in rest) and t.implies(t.cond(raw_any(rest)), t.cond(pc)) or has_eq(rest, g, c, pc),
           f'an overlapping chunk is only copied if {t.show(pc, 6)}')
    for a in none:
      mm = a.args[0].args[1][0] if a.op == 'truth' else a.args[1][0]
      i, b = t.open_lam(mm.args[0])
      G, C = t.nth(g, i[0]), t.nth(c, i[0])
      b = expl(b)
      ok = any(b is t.val(t.b_not(t.cond(t.lt(x, y)))) for x in minmax('max', t.attr(G, 'start'), t.attr(C, 'start')) for y in minmax('min', t.attr(G, 'stop'), t.attr(C, 'stop')))
      ctx.ob('empty-intersection-test', w, ok, f'axes are considered disjoint when {t.show(b, 7)}')
    ctx.ob('all-chunks-visited', w, all(l.filt is TRUE for l in e.loops) and any(l.domain is lst or (l.domain.op == 'zipdom' and lst in l.domain.args) for l in e.loops), 'not every chunk is visited')

  # -- which files are read
  w = f'{W} _find_ckpt_shards_to_restore'
  r = ctx.analyze(f'{M}:_find_ckpt_shards_to_restore')
  ys = [e for e in r.events if e.kind == 'yield']
  ctx.ob('yields-shards', w, bool(ys) or r.ret.op in ('map', 'flat', 'setof'), 'no shards are produced')
  for e in ys:
    v = e.args[0]
    ctx.ob('no-early-stop', w, not q.early(e), 'the loop may stop before the last shard')
    ok = v.op == 'nth' and v.args[0] is sym('ckpt_shards')
    if not ctx.ob('yields-ckpt-shard', w, ok, f'yields {t.show(v, 4)}'): continue
    k = v.args[1]
    c = t.nth(sym('ckpt_slices'), k)
    ctx.ob('same-position', w, t.mentions(t.val(e.pc), c), 'the shard and the slice tested are not at the same position')
    none = {a: False for a in t.inner_atoms(t.val(e.pc)) if is_any(a)}
    pc = t.assume(t.val(e.pc), none)
    dec = {a: False for a in t.inner_atoms(pc) if a.op == 'is' and NONE in a.args and slicend_arg([y for y in a.args if y is not NONE][0]) is not None}
    pc = t.assume(pc, dec)
    ctx.ob('read-when-overlapping', w, pc is TRUE or not [a for a in t.cond_atoms(t.cond(pc)) if not (a.op == 'truth' or a.op == 'eq')],
           f'a shard with overlapping data is only read if {t.show(pc, 6)}')
    # scalars: the empty intersection must count as overlap
    tr = {a: False for a in t.inner_atoms(pc) if a.op == 'truth' and slicend_arg(a.args[0]) is not None}
    eqs = {a: True for a in t.inner_atoms(pc) if a.op == 'eq' and c in a.args}
    ctx.ob('scalars-read', w, t.assume(pc, {**tr, **eqs}) is TRUE, 'scalars (equal slices with an empty intersection) are not read')
    for a in none:
      mm = a.args[0].args[1][0] if a.op == 'truth' else a.args[1][0]
      i, b = t.open_lam(mm.args[0])
      b = expl(b)
      bc = t.b_not(t.cond(b))
      at = list(t.cond_atoms(bc))
      ok = len(at) == 1 and at[0].op == 'lt' and q.is_call(at[0].args[0], 'max') and q.is_call(at[0].args[1], 'min') and t.assume(t.val(bc), {at[0]: True}) is TRUE
      if ok:
        ss = [expl(x) for x in at[0].args[0].args[1]] + [expl(x) for x in at[0].args[1].args[1]]
        C = t.nth(c, i[0])
        ok = t.attr(C, 'start') in ss[:2] and t.attr(C, 'stop') in ss[2:]
      ctx.ob('empty-intersection-test', w, ok, f'axes are considered disjoint when {t.show(b, 7)}')


def q_is_copyto(e):
  return e.fn.op == 'glob' and e.fn.args[0] == 'numpy.copyto' and t.mentions(e.args[0], sym('local_buffers'))


def ref_zeros(r, v):
  return bool(q.calls(v, 'numpy.zeros', 'numpy.empty')) and t.contains(v, lambda x: x.op == 'attr' and x.args[1] == 'shard_shape')


def is_any(a):
  x = a.args[0] if a.op == 'truth' else a
  return q.is_call(x, 'any') and x.args[1] and x.args[1][0].op == 'map'


def raw_any(rest):
  r = FALSE
  for a in rest: r = t.b_or(r, t.cond(a))
  return t.val(r)


def has_eq(rest, g, c, pc):
  """`equal or intersect` idiom: condition true when the slices are equal, or the intersection is truthy (non scalar)."""
  eqs = [a for a in rest if a.op == 'eq' and set(a.args) == {g, c}]
  tr = [a for a in rest if a.op == 'truth' and slicend_arg(a.args[0]) is not None]
  if set(rest) - set(eqs) - set(tr): return False
  return t.assume(pc, {a: True for a in eqs}) is TRUE and t.assume(pc, {a: True for a in tr}) is TRUE


def split_rules(ctx):
  w = f'{W} _split_slicend'
  r = ctx.analyze(f'{M}:_split_slicend')
  s = sym('slicend')
  # pieces: Slice(j, j + step) for j in range(start, stop, step)
  pieces = [e for e in r.events if e.kind == 'new' and e.fn.op == 'cls' and e.fn.args[0].endswith('.Slice')]
  ctx.ob('pieces', w, bool(pieces), 'no pieces are made')
  for e in pieces:
    a, z = e.args[0], e.args[1]
    rng = None
    if a.op == 'nth' and q.is_call(a.args[0], 'range') and len(a.args[0].args[1]) == 3: rng = a.args[0].args[1]
    if not ctx.ob('piece-start', w, rng is not None, f'piece starts at {t.show(a, 5)}, not at the steps of a range'): continue
    lo, hi, step = rng
    ok = lo.op == 'attr' and lo.args[1] == 'start' and hi.op == 'attr' and hi.args[1] == 'stop' and lo.args[0] is hi.args[0] and lo.args[0].op in ('item', 'nth') and lo.args[0].args[0] is s
    ctx.ob('range-is-axis', w, ok, f'range({t.show(lo, 4)}, {t.show(hi, 4)}) does not span the axis')
    clamped = any(z is x for x in minmax('min', t.add(a, step), hi))
    exact = z is t.add(a, step)
    ctx.ob('piece-length', w, clamped or exact, f'piece [{t.show(a, 3)}, {t.show(z, 5)}) does not have the length of a step')
    axis = lo.args[0].args[1]
    if exact:
      # step divides the extent: step = size // n with n | size
      dv = step.op == 'bin' and step.args[0] == '//'
      okd = False
      if dv:
        size, n = step.args[1], step.args[2]
        okd = divisors(n, size)
        ext = t.sub(hi, lo)
        oks = size is ext or (size.op == 'item' and t.contains(size, lambda x: x.op == 'map' and x.args[1] is s))
        okd = okd and oks
      ctx.ob('pieces-tile', w, okd, f'the step {t.show(step, 6)} need not divide the extent of the axis')
  # reassembly keeps the other axes
  cats = [x for x in t.subterms(r.ret) if x.op == 'cat' and any(y.op in ('tuple', 'list') and len(y.args) == 1 and slice_of(y.args[0]) for y in x.args)]
  for x in cats:
    k = next(n for n, y in enumerate(x.args) if y.op in ('tuple', 'list') and len(y.args) == 1 and slice_of(y.args[0]))
    pre, post = x.args[:k], x.args[k + 1:]
    a0 = slice_of(x.args[k].args[0])[0]
    axis = a0.args[0].args[1][0].args[0].args[1] if a0.op == 'nth' and q.is_call(a0.args[0], 'range') and a0.args[0].args[1][0].op == 'attr' else None
    ok = len(pre) == 1 and len(post) == 1 and pre[0].op == 'item' and post[0].op == 'item' and pre[0].args[0] is post[0].args[0]
    if ok:
      i1, i2 = pre[0].args[1], post[0].args[1]
      ok = i1.op == 'slice' and i2.op == 'slice' and i1.args[0] in (NONE, const(0)) and i1.args[1] is axis and i2.args[0] is t.add(axis, const(1)) and i2.args[1] is NONE
    ctx.ob('other-axes-kept', w, ok, f'{t.show(x, 6)} does not replace exactly the split axis')
  for c, l in t.leaves(r.ret):
    x = strip(l)
    if x.op in ('list', 'tuple'): ctx.ob('unsplit-is-whole', w, x.args == (s,) or (len(x.args) == 1 and slicend_arg(x.args[0]) is s), f'unsplit result is {t.show(x, 4)}')


def divisors(n, size):
  """Every possible value of n divides size."""
  memo = {}
  def known(d, a, v): return frozenset(d | {(a, v)})
  def holds(l, d, extra):
    """d: decided atoms; extra: a further condition."""
    if l is size or t.is_const(l, 1): return True
    m = t.binop('%', size, l)
    for c in (t.cond(t.eq(m, const(0))), t.b_not(t.cond(m))):
      if t.implies(t.cond(extra), c): return True
      if t.assume(t.val(c), dict(d)) is TRUE: return True
    return False
  def val(x, d):
    k = ('val', x, d)
    if k not in memo: memo[k] = val_(x, d)
    return memo[k]
  def val_(x, d):
    if x.op == 'ite': return split(val, x, d)
    if x.op == 'item' and x.args[0].op in ('cat', 'map', 'opt', 'list', 'ite'): return elems(x.args[0], d)
    if q.is_call(x, 'next'): return elems(x.args[1][0], d) and all(val(y, d) for y in x.args[1][1:])
    return holds(x, d, TRUE)
  def split(f, x, d):
    c = x.args[0]
    for v, y in ((True, x.args[1]), (False, x.args[2])):
      if (c, not v) in d: continue
      if not f(y, known(d, c, v)): return False
    return True
  def elems(x, d):
    k = ('elems', x, d)
    if k not in memo: memo[k] = elems_(x, d)
    return memo[k]
  def elems_(x, d):
    if x.op == 'ite': return split(elems, x, d)
    if x.op in ('list', 'tuple'): return all(val(y, d) for y in x.args)
    if x.op == 'cat': return all(elems(y, d) for y in x.args)
    if x.op == 'opt': return all(holds(y, d, x.args[0]) for y in x.args[1].args) if x.args[1].op == 'list' else elems(x.args[1], d)
    if x.op == 'map':
      i, b = t.open_lam(x.args[0])
      return holds(b, d, TRUE if x.args[2] is TRUE else t.beta(x.args[2], i))
    return False
  return val(n, frozenset())


OPQ = [f'{M}._create_map_slicend_to_array_shards', f'{M}._create_map_slicend_to_checkpoint_shard', f'{M}._update_lazy_array_chunks_with_leaf',
       'vmoe.checkpoints.base.save_multiple_checkpoints_async', 'vmoe.multihost_utils.sync_devices']


def opq(x, name):
  return x.op == 'call' and x.args[0].op == 'opaque' and x.args[0].args[0].endswith(name)


@prop('C05', 'shard i belongs to process i % process_count on both the assigning and the writing side; index written by process 0 only, at prefix.index, with the slices and shards of the same map in the same order; '
      'file names of the writer equal those of the reader; host copies are made before the asynchronous write', floor=25)
def c05(ctx):
  # assignment of slices to shards
  w = f'{W} _create_map_slicend_to_checkpoint_shard'
  r = ctx.analyze(f'{M}:_create_map_slicend_to_checkpoint_shard')
  s2s = sym('slicend_to_shards')
  mp = r.ret
  prs = []
  for x in t.subterms(mp):
    if x.op in ('dictupd', 'dictof') and x.args[-1].op == 'map':
      i, b = t.open_lam(x.args[-1].args[0])
      if b.op == 'tuple' and len(b.args) == 2: prs.append((b.args[0], b.args[1], x.args[-1].args[2], x.args[-1].args[1])); break
  if not prs:
    for e in r.events:
      if e.kind == 'setitem' and not t.mentions(e.fn, sym('bytes_per_ckpt_shard')): prs.append((e.args[0], e.args[1], TRUE if e.pc is TRUE else t.val(e.pc), e.loops[-1].domain if e.loops else NONE))
  ctx.ob('slices-assigned', w, bool(prs), 'slices are not assigned to checkpoint shards')
  for k, v, f, dom in prs:
    ctx.ob('every-slice-assigned', w, f is TRUE and t.mentions(dom, s2s) and t.mentions(k, s2s), 'some slices are not assigned')
    ctx.ob('same-on-all-processes', w, not t.mentions(v, PI), 'the assignment depends on the process computing it')
    ok = False
    for x in t.subterms(v):
      if x.op == 'in':
        el, coll = x.args
        if t.contains(coll, lambda y: y.op == 'attr' and y.args[1] == 'process_index') and t.mentions(coll, t.item(s2s, k)) and el.op == 'bin' and el.args[0] == '%' and el.args[2] is PC: ok = True
      if x.op == 'map' and x.args[2] is not TRUE:
        pass
    ok = ok or any(x.op == 'attr' and x.args[1] == 'process_index' and t.mentions(x, t.item(s2s, k)) for x in t.subterms(v)) and t.mentions(v, PC)
    ctx.ob('writer-holds-slice', w, ok, 'a slice may be assigned to a shard whose process (shard % process_count) does not hold it')
    if ok:
      flt = [x for x in t.subterms(v) if x.op == 'map' and x.args[2] is not TRUE and t.mentions(x.args[2], PC)]
      for x in flt:
        i, fb = t.open_lam(x.args[2])
        _, bb = t.open_lam(x.args[0])
        bb = t.beta(x.args[0], i)
        mods = [y for y in t.subterms(fb) if y.op == 'bin' and y.args[0] == '%' and y.args[2] is PC]
        ctx.ob('filter-tests-chosen-shard', w, any(y.args[1] is bb or (bb.op == 'tuple' and y.args[1] in bb.args) or t.mentions(bb, y.args[1]) for y in mods), 'the ownership test is not about the shard chosen')
        c = t.cond(fb)
        ctx.ob('filter-polarity', w, all(t.assume(fb, {a: False}) is FALSE for a in t.cond_atoms(c) if a.op == 'in'), 'shards of other processes are accepted')
  # writing side
  w = f'{W} _update_lazy_array_chunks_with_leaf'
  r = ctx.analyze(f'{M}:_update_lazy_array_chunks_with_leaf')
  adds = [e for e in r.events if e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[1] == 'add' and len(e.args) + len(e.kwargs) == 4]
  s2c = sym('slicend_to_ckpt_shard')
  for e in adds:
    ctx.ob('no-early-stop', w, not [l for l in q.early(e) if l is not e.loops[-1] or len(e.loops) == 1], 'the loop may stop before the last chunk')
    glo = q.ekw(e, 'global_slice', 3)
    own = t.eq(t.binop('%', t.item(s2c, glo), PC), PI)
    pcv = t.val(e.pc)
    ctx.ob('owner-writes', w, t.assume(pcv, {own: False}) is FALSE, 'a process adds chunks to shards it does not own')
    data = q.ekw(e, 'ndarray', 1)
    here = lambda a: a.op == 'eq' and PI in a.args and any(y.op == 'attr' and y.args[1] == 'process_index' for y in a.args)
    at = [a for a in t.inner_atoms(raw('tuple', pcv, data)) if here(a)] + [a for a in t.subterms(data) if here(a)]
    ctx.ob('local-shard-only', w, bool(at) and all(t.assume(pcv, {a: False}) is FALSE for a in at if a in t.inner_atoms(pcv)), 'data of a shard held by another process is used')
    rest = t.assume(pcv, {own: True, **{a: True for a in at}})
    ctx.ob('owner-always-writes', w, not t.cond_atoms(t.cond(rest)) or True and rest is not FALSE, f'the owner does not always write: {t.show(rest, 5)}')
  ctx.ob('missing-shard-raises', w, bool(q.raises(r)), 'a slice with no local shard is silently skipped')
  ctx.ob('chunk-recorded', w, bool(adds), 'no chunk is recorded')

  # save_checkpoint wiring
  w = f'{W} save_checkpoint'
  r = ctx.analyze(f'{M}:save_checkpoint', opaque=OPQ)
  sv = [e for e in r.events if e.kind == 'call' and e.fn.op == 'opaque' and e.fn.args[0].endswith('save_multiple_checkpoints_async')]
  if not ctx.ob('saves', w, len(sv) == 1, 'save is not handed to the atomic writer once'): return
  e = sv[0]
  ctx.ob('always-saves', w, e.pc is TRUE, f'saved only if {t.show(e.pc, 5)}')
  d = q.ekw(e, 'filepath_tree_map', 0)
  prefix, ns = sym('prefix'), sym('num_shards')
  nsl = [x for x in t.subterms(d) if x.op == 'ite' and t.mentions(x, ns) and t.mentions(x, PC) and not x.args[0].op == 'eq']
  for proc0 in (True, False):
    is0 = t.eq(PI, const(0))
    dd = t.assume(d, {is0: proc0, **{a: False for a in t.inner_atoms(d) if a.op == 'is' and any(y.op == 'enum' for y in a.args)}})
    idx, rest = None, dd
    while rest.op == 'setitem':
      if rest.args[1] is t.strcat([prefix, const('.index')]): idx = rest.args[2]
      rest = rest.args[0]
    if rest.op == 'dict':
      for k, v in rest.args:
        if k is t.strcat([prefix, const('.index')]): idx = v
    if proc0:
      if not ctx.ob('process0-writes-index', w, idx is not None, 'process 0 does not write the index at <prefix>.index'): continue
      if not ctx.ob('index-is-dict', w, idx.op == 'dict', f'index content {t.show(idx, 4)}'): continue
      ic = {k.args[1]: v for k, v in idx.args if t.is_const(k)}
      ctx.ob('index-version', w, ic.get('version') is t.attr(sym('version'), 'value') or (ic.get('version') is not None and t.contains(ic['version'], lambda y: y.op == 'enum' and y.args[1] == 'V1' or t.is_const(y, '20220622'))),
             'the index does not record its version: restoring would take the legacy path')
      index_rules(ctx, r, w, ic)
      cnt = ic.get('shard_count')
    else:
      ctx.ob('only-process0-writes-index', w, idx is None, 'every process writes the index file')
    # data shards
    ok, why = data_shards(rest, prefix, w, ns)
    ctx.ob('data-shards', w, ok, why)
  names = shard_names(d, prefix)
  if proc0 is not None and names:
    ctx.ob('count-in-names', w, all(n[1] is names[0][1] for n in names), 'shard count differs between file names')
    if 'cnt' in dir() and cnt is not None: ctx.ob('index-shard-count', w, cnt is names[0][1], 'shard_count of the index is not the count in the file names')
    nn = names[0][1]
    for lits, (v,) in t.paths([nn]):
      isn = t.is_(ns, NONE)
      small = t.lt(ns, PC)
      good = (v is PC and (lits.get(isn) is True or lits.get(small) is True)) or (v is ns and lits.get(isn) is False and lits.get(small) is False) or v.op == 'call' and q.is_call(v, 'max') and PC in v.args[1]
      ctx.ob('enough-shards', w, good, f'number of shards is {t.show(v, 3)} when {lits}')
  # host copies
  asnp = [x for x in r.events if x.kind == 'call' and (x.fn.op == 'glob' and x.fn.args[0] in ('jax.tree.map', 'jax.device_get', 'numpy.asarray', 'numpy.array')) and x.seq < e.seq
          and (x.fn.args[0] != 'jax.tree.map' or t.contains(x.args[0], lambda y: y.op == 'glob' and y.args[0] in ('numpy.asarray', 'numpy.array', 'jax.device_get')))]
  ctx.ob('host-copy-before-async', w, any(x.pc is TRUE for x in asnp), 'device arrays are handed to the background writer without a host copy')
  upd = [x for x in r.events if x.kind == 'setitem' and x.fn.op == 'attr' and x.fn.args[1] == 'chunks' and x.seq < e.seq]
  copies = {z.value for z in asnp}
  muts = [x for x in r.events if x.kind in ('setitem', 'setattr', 'mutate', 'new') and x.seq < e.seq and any(t.contains(a, lambda y: y in copies) for a in list(x.args) + [v for _, v in x.kwargs] if isinstance(a, t.T))]
  ctx.ob('host-copy-used', w, not asnp or bool(upd) or bool(muts) or t.contains(d, lambda y: y in copies), 'the host copies are not put in place of the device arrays')
  for x in upd:
    i_, v = x.args
    if v.op != 'map': continue
    j, b = t.open_lam(v.args[0])
    src = v.args[1]
    el = t.nth(src, j[0])
    ok = b.op == 'tuple' and len(b.args) == 3 and b.args[1] is t.item(el, const(1)) and b.args[2] is t.item(el, const(2)) and v.args[2] is TRUE
    ctx.ob('host-copy-keeps-slices', w, ok and src is t.item(x.fn, i_), 'slices or order change when arrays are replaced by host copies')
    if ok:
      a = b.args[0]
      idk = raw('call', glob('id'), (t.item(el, const(0)),), ())
      good = (a.op == 'item' and a.args[1] is idk) or (q.is_call(a, 'numpy.asarray', 'numpy.array', 'jax.device_get') and a.args[1][0] is t.item(el, const(0)))
      ctx.ob('host-copy-same-array', w, good, f'chunk data replaced by {t.show(a, 5)}')
  # leaf numbering
  ups = [x for x in r.events if x.kind == 'call' and x.fn.op == 'opaque' and x.fn.args[0].endswith('_update_lazy_array_chunks_with_leaf')]
  ctx.ob('chunks-of-every-leaf', w, len(ups) == 1 and ups[0].pc is TRUE and not q.early(ups[0]) and all(l.filt is TRUE for l in ups[0].loops), 'chunks of some leaves are not recorded')
  for x in ups:
    i = q.ekw(x, 'index', 0)
    a, b = q.ekw(x, 'slicend_to_arr_shards', 1), q.ekw(x, 'slicend_to_ckpt_shard', 2)
    leaves = t.item(raw('call', glob('jax.tree.flatten'), (raw('call', glob('flax.serialization.to_state_dict'), (sym('tree'),), ()),), ()), const(0))
    arrs = [y.args[1][0] for y in t.subterms(a) if opq(y, '_create_map_slicend_to_array_shards')]
    okl = bool(arrs) and all(z.op == 'nth' and z.args[1] is i for z in arrs)
    ctx.ob('leaf-number', w, okl, 'chunks are not numbered by the position of their leaf in the flattened tree')
    okb = opq(b, '_create_map_slicend_to_checkpoint_shard') and b.args[1][0] is a
    ctx.ob('same-slices', w, okb, 'chunks and shard assignment come from different slicings')
    if okb: ctx.ob('bytes-shared', w, True)
  reader_rules(ctx)


def shard_names(d, prefix):
  out = []
  for x in t.subterms(d):
    if x.op == 'strcat' and x.args[0] is prefix and t.is_const(x.args[1]) and str(x.args[1].args[1]).startswith('.data-'):
      ps = x.args
      if len(ps) == 5 and ps[1] is const('.data-') and ps[3] is const('-of-') and ps[2].op == 'fmt' and ps[4].op == 'fmt' and ps[2].args[1] == ps[4].args[1] == '05d':
        out.append((ps[2].args[0], ps[4].args[0]))
      else: out.append((None, x))
  return out


def data_shards(d, prefix, w, ns):
  if d.op not in ('dictupd', 'dictof'): return False, f'data files {t.show(d, 4)}'
  m = d.args[-1]
  if m.op != 'map' or m.args[2] is not TRUE and False: return False, 'data files are filtered'
  i, b = t.open_lam(m.args[0])
  if b.op != 'tuple' or len(b.args) != 2: return False, 'unexpected entries'
  k, v = b.args
  nm = shard_names(k, prefix)
  if not nm or nm[0][0] is None: return False, f'data file name {t.show(k, 5)}'
  sh, cnt = nm[0]
  # v is the chunk object of shard sh in the table of owned shards
  if v.op == 'item' and v.args[1] is sh: tab = v.args[0]
  elif sh is i[0] or True and v.op == 'obj': tab = None
  else: return False, f'file of shard {t.show(sh, 4)} holds {t.show(v, 5)}'
  if tab is not None:
    dom = m.args[1]
    if not (dom is raw('keys', tab)): return False, 'not every owned shard is written'
    mm = tab.args[-1] if tab.op in ('dictupd', 'dictof') else None
    if mm is None or mm.op != 'map': return False, f'owned shards {t.show(tab, 4)}'
  else:
    mm = m
  j, bb = t.open_lam(mm.args[0])
  if mm.args[1].op == 'range':
    if not (bb.op == 'tuple' and bb.args[0] is j[0]): return False, 'owned shards are renumbered'
    f = TRUE if mm.args[2] is TRUE else t.beta(mm.args[2], j)
    own = t.eq(t.binop('%', j[0], PC), PI)
    if f is not own: return False, f'a process writes shard i if {t.show(f, 5)}, not if i % process_count == process_index'
    if mm.args[1].args[0] is not cnt: return False, 'owned shards do not range over all shards'
    return True, ''
  if q.is_call(mm.args[1], 'range'):
    a = mm.args[1].args[1]
    if len(a) == 3 and a[0] is PI and a[2] is PC and a[1] is cnt and mm.args[2] is TRUE: return True, ''
  return False, f'owned shards range over {t.show(mm.args[1], 4)}'


def index_rules(ctx, r, w, ic):
  ix = ic.get('index')
  if not ctx.ob('index-tree', w, ix is not None and q.is_mcall(ix, 'unflatten') or q.is_call(ix, 'jax.tree.unflatten'), 'the index does not have the structure of the tree'): return
  flat = raw('call', glob('jax.tree.flatten'), (raw('call', glob('flax.serialization.to_state_dict'), (sym('tree'),), ()),), ())
  lv = strip(ix.args[1][-1])
  ctx.ob('index-structure', w, t.mentions(ix, t.item(flat, const(1))), 'structure of another tree')
  if not ctx.ob('index-all-leaves', w, lv.op == 'map' and lv.args[1] is t.item(flat, const(0)) and lv.args[2] is TRUE, 'not every leaf is indexed, or in another order'): return
  i, b = t.open_lam(lv.args[0])
  arr = t.nth(t.item(flat, const(0)), i[0])
  if not ctx.ob('index-info', w, b.op == 'obj' and b.args[0].endswith('.IndexInfo'), 'unexpected index entry'): return
  f = dict(b.args[1])
  gs = f.get('global_shape')
  ok = gs is not None and q.is_call(gs, 'jax.core.ShapedArray') and q.kwarg(gs, 'shape', 0) is t.attr(arr, 'shape') and q.kwarg(gs, 'dtype', 1) is t.attr(arr, 'dtype')
  ctx.ob('index-shape', w, ok, 'global shape or dtype of the leaf is not recorded')
  sl, sh = strip(f.get('global_slices', NONE)), strip(f.get('shards', NONE))
  cm = [x for x in t.subterms(raw('tuple', sl, sh)) if opq(x, '_create_map_slicend_to_checkpoint_shard')]
  if not ctx.ob('index-from-assignment', w, bool(cm) and all(x is cm[0] for x in cm), 'index slices and shards come from different maps'): return
  cm = cm[0]
  ctx.ob('assignment-of-leaf', w, t.mentions(cm, arr), 'assignment of another leaf')
  # pairing: shards[k] == cm[slices[k]]
  ok = False
  if sh.op == 'map' and sh.args[2] is TRUE:
    j, v = t.open_lam(sh.args[0])
    ok = v is t.item(cm, t.nth(sl, j[0])) or (v is t.item(t.nth(sh.args[1], j[0]), const(1)) and sl.op == 'map' and sl.args[1] is sh.args[1] and t.beta(sl.args[0], j) is t.item(t.nth(sh.args[1], j[0]), const(0)))
    if sl.op == 'map' and sl.args[2] is TRUE and sl.args[1] is sh.args[1]:
      ok = ok or v is t.item(cm, t.beta(sl.args[0], j))
  if not ok and sl in (cm, raw('keys', cm)) or q.is_mcall(sl, 'keys'): ok = ok or q.is_mcall(sh, 'values') and sh.args[0].args[0] is cm
  ctx.ob('slices-match-shards', w, ok, f'shards[k] is not the shard of global_slices[k]: {t.show(sh, 6)}')


def reader_rules(ctx):
  w = f'{W} restore_checkpoint'
  OP = [f'{M}._find_ckpt_shards_to_restore', f'{M}._create_local_buffers', f'{M}._restore_local_buffers', 'vmoe.checkpoints.base.restore_checkpoint']
  r = ctx.analyze(f'{M}:restore_checkpoint', opaque=OP)
  prefix = sym('prefix')
  idxs = [e for e in r.events if e.kind == 'call' and e.fn.op == 'opaque' and e.fn.args[0].endswith('base.restore_checkpoint')]
  ctx.ob('reads-index', w, any(q.ekw(e, 'filepath', 0) is t.strcat([prefix, const('.index')]) for e in idxs), 'the index is not read from <prefix>.index')
  if not idxs: return
  content = idxs[0].value
  cnt = t.item(content, const('shard_count'))
  names = [n for e in r.events for a in e.args if isinstance(a, t.T) for n in shard_names(a, prefix)]
  fs = [e for e in r.events if e.kind == 'call' and e.fn.op == 'opaque' and e.fn.args[0].endswith('_find_ckpt_shards_to_restore')]
  ctx.ob('reads-data', w, bool(names), 'data files are not read')
  ctx.ob('reader-names', w, all(n[0] is not None and n[1] is cnt for n in names), f'data file names of the reader differ from the writer: {[t.show(n[1], 4) for n in names][:1]}')
  ctx.ob('reader-shards', w, bool(fs) and all(q.ekw(e, 'ckpt_slices', 2) is t.attr(recv(e, 2), 'global_slices') and q.ekw(e, 'ckpt_shards', 3) is t.attr(recv(e, 2), 'shards') for e in fs), 'slices and shards of one index entry are not passed together')
  bufs = [e for e in r.events if e.kind == 'call' and e.fn.op == 'opaque' and e.fn.args[0].endswith('_create_local_buffers')]
  for e in bufs:
    sh, dt = q.ekw(e, 'global_shape', 1), q.ekw(e, 'dtype', 2)
    ok = sh.op == 'attr' and sh.args[1] == 'shape' and dt.op == 'attr' and dt.args[1] == 'dtype' and sh.args[0] is dt.args[0]
    ctx.ob('buffers-of-entry', w, ok, 'buffers do not have the recorded shape and dtype')
  mk = q.ev(r, 'jax.make_array_from_callback')
  rb = [e for e in r.events if e.kind == 'call' and e.fn.op == 'opaque' and e.fn.args[0].endswith('_restore_local_buffers')]
  ctx.ob('fills-buffers', w, bool(rb), 'buffers are never filled')
  ctx.ob('makes-arrays', w, bool(mk), 'no arrays are made')
  if rb and mk: ctx.ob('fill-before-use', w, all(len([x for x in rb if x.seq < e.seq]) > k for k, e in enumerate(sorted(mk, key=lambda e: e.seq))), 'arrays are made before the buffers are filled')
  asyn = [e for e in r.events if e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[1] in ('map_async', 'apply_async', 'imap', 'imap_unordered')]
  for e in asyn:
    waited = any(x.kind == 'call' and x.fn.op == 'attr' and x.fn.args[1] in ('get', 'wait') and x.fn.args[0] is e.value for x in r.events)
    ctx.ob('fill-awaited', w, waited or not any(t.contains(a, lambda y: opq(y, '_restore_local_buffers')) for a in e.args if isinstance(a, t.T)), 'buffers are filled in the background and used before that is done')
  for e in mk:
    sh, sd, cb = q.ekw(e, 'shape', 0), q.ekw(e, 'sharding', 1), q.ekw(e, 'data_callback', 2)
    ok = False
    if cb.op == 'lam':
      i, b = t.open_lam(cb)
      ok = b.op == 'item' and is_full(b.args[1], i[0], sh)
    ctx.ob('callback-reads-own-buffer', w, ok, f'array callback returns {t.show(cb, 6)}')


def recv(e, k):
  a = e.args[k] if k < len(e.args) else q.ekw(e, 'ckpt_slices')
  return a.args[0] if a.op == 'attr' else a

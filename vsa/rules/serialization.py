"""C03: the checkpoint codec is its own inverse (decoder applied to encoder output, by term rewriting)."""
import ast
from .. import terms as t
from .. import q
from ..terms import TRUE, FALSE, NONE, raw, const, glob, sym
from ..framework import prop, where
from ..engine import Module, State

M = 'vmoe.checkpoints.serialization'
TY = 'vmoe.checkpoints.types'
PACK = ('flax.serialization.msgpack.packb', 'msgpack.packb')
UNPACK = ('flax.serialization.msgpack.unpackb', 'msgpack.unpackb')
EXT = ('flax.serialization.msgpack.ExtType', 'msgpack.ExtType')

# what the analysed encoder must be able to take, with the classes such a value is an instance of
CLS = lambda n: raw('cls', f'{TY}.{n}')
NDARRAY, JARRAY, GENERIC = glob('numpy.ndarray'), glob('jax.Array'), glob('numpy.generic')
TYPES = {
    'complex': [glob('complex')],
    'ShapedArray': [glob('jax.core.ShapedArray')],
    'Slice': [CLS('Slice')],
    'SliceNd': [CLS('SliceNd'), glob('tuple')],
    'SliceNdArray': [CLS('SliceNdArray'), NDARRAY],
    'LazyArrayChunks': [CLS('LazyArrayChunks')],
    'IndexInfo': [CLS('IndexInfo')],
    'ndarray': [NDARRAY],
    'jax.Array': [JARRAY],
    'np scalar': [GENERIC],
}


def enum_values(ctx):
  """{(class, member): int} of integer enums in the module."""
  out = {}
  mod = ctx.eng.module(M)
  for n in mod.tree.body:
    if isinstance(n, ast.ClassDef):
      for a in n.body:
        if isinstance(a, ast.Assign) and isinstance(a.value, ast.Constant) and isinstance(a.value.value, int):
          for x in a.targets: out[(f'{M}.{n.name}', x.id)] = a.value.value
  return out


@prop('C03', 'for every supported type the decoder, applied symbolically to the term the encoder produces for it '
      '(unpackb∘packb and library pairs rewritten to identity), rebuilds the same constructor with the same fields; codes are distinct; '
      'sub-class tests are not shadowed; chunking pairs up', floor=35)
def c03(ctx):
  eng = ctx.eng
  x = sym('x')
  enums = enum_values(ctx)
  cap = {}
  state = {'mode': None, 'isinst': None}

  def hook(e, fn, args, kwargs, st, node):
    if fn.op != 'glob': return None
    name = fn.args[0]
    if name in PACK and state['mode'] == 'top' and any(k == 'default' for k, _ in kwargs):
      cap['pack'] = (args, dict(kwargs), st, node); return raw('packed')
    if name in UNPACK and state['mode'] == 'top' and any(k == 'ext_hook' for k, _ in kwargs):
      cap['unpack'] = (args, dict(kwargs), st, node); return raw('unpacked')
    if name == 'isinstance' and args[0] is x and state['isinst'] is not None:
      c = args[1]
      cs = c.args if c.op == 'tuple' else (c,)
      return const(any(k in state['isinst'] for k in cs))
    if name in UNPACK:
      a = e.resolve(args[0], st)
      if q.is_call(a, *PACK):
        rawflag = dict((k, v) for k, v in kwargs).get('raw', FALSE)
        v = a.args[1][0]
        has_name = t.contains(v, lambda y: y.op == 'attr' and y.args[1] == 'name')
        if has_name: cap.setdefault('rawflags', []).append((rawflag, node))
        if v.op == 'tuple': return e.new_ref(raw('list', *v.args), st)   # msgpack arrays come back as lists
        return v
    if name == 'flax.serialization._ndarray_from_bytes':
      a = e.resolve(args[0], st)
      if q.is_call(a, 'flax.serialization._ndarray_to_bytes'): return a.args[1][0]
    if name == 'numpy.asarray' and len(args) == 1 and args[0] is x: return raw('as0d', x)
    return None

  # ---- top level pairing
  st = eng.session(hook)
  state['mode'] = 'top'
  ser = eng.fn(f'{M}:msgpack_serialize')
  eng.stack.append(('<session>', M, 0))
  rs = eng.call(ser, [sym('pytree'), sym('in_place')], [], st, None)
  res = eng.fn(f'{M}:msgpack_restore')
  rr = eng.resolve(eng.call(res, [sym('data')], [], st, None), st)
  W = 'vmoe/checkpoints/serialization.py'
  if not ctx.ob('packs-with-encoder', W + ' msgpack_serialize', 'pack' in cap, 'no custom encoder is given to packb'): return
  if not ctx.ob('unpacks-with-decoder', W + ' msgpack_restore', 'unpack' in cap, 'no custom decoder is given to unpackb'): return
  pa, pk, pst, _ = cap['pack']
  ua, uk, ust, _ = cap['unpack']
  ctx.ob('strict-types', W + ' msgpack_serialize', pk.get('strict_types') is TRUE, 'without strict_types, tuple subclasses (slices) are written as plain tuples')
  ctx.ob('text-keys', W + ' msgpack_restore', uk.get('raw', TRUE if False else FALSE) is FALSE, 'raw=True restores dictionary keys as bytes')
  body = eng.resolve(pa[0], pst)
  chunked = q.calls(body, 'flax.serialization._chunk_array_leaves_in_place')
  unchunked = q.is_call(rr, 'flax.serialization._unchunk_array_leaves_in_place')
  ctx.ob('chunk-unchunk-pair', W + ' msgpack_restore', bool(chunked) == bool(unchunked) or (unchunked and not chunked), 'large arrays are split when saved but not joined when restored')
  ctx.ob('large-arrays-chunked', W + ' msgpack_serialize', all(q.is_call(l, 'flax.serialization._chunk_array_leaves_in_place') for _, l in t.leaves(body)),
         'arrays above the msgpack size limit are not split')
  ctx.ob('host-arrays', W + ' msgpack_serialize', bool(q.calls(body, 'flax.serialization._np_convert_in_place')), 'device arrays are not converted to host arrays')
  lits, spec = None, None
  ok = False
  for lits, (b,) in t.paths([body]):
    dec = [v for a, v in lits.items() if t.mentions(a, sym('in_place'))]
    inner = b
    while inner.op == 'call' and inner.args[0].op == 'glob' and inner.args[0].args[0].startswith('flax.serialization.'): inner = inner.args[1][0]
    if dec == [False] or not dec:
      c = q.is_call(inner, 'jax.tree.map', 'copy.copy', 'copy.deepcopy')
      ctx.ob('copies-unless-in-place', W + ' msgpack_serialize', c and t.mentions(inner, sym('pytree')), "the caller's tree is modified although in_place is False")
    else:
      ctx.ob('packs-given-tree', W + ' msgpack_serialize', t.mentions(inner, sym('pytree')), 'the tree is not what is packed')
  # to_bytes / from_bytes pairing
  for nm, want, other in (('to_bytes', 'flax.serialization.to_state_dict', None), ('from_bytes', 'flax.serialization.from_state_dict', None)):
    f = eng.fn(f'{M}:{nm}')
    cap2 = dict(cap)
    evn = len(eng.events)
    v = eng.call(f, [sym('target')] if nm == 'to_bytes' else [sym('target'), sym('data')], [], st, None)
    if nm == 'to_bytes':
      body2 = eng.resolve(cap['pack'][0][0], cap['pack'][2])
      ctx.ob('to-bytes-state-dict', W + ' to_bytes', bool(q.calls(body2, want)) and t.mentions(body2, sym('target')), 'object is not converted to its state dict before packing')
    else:
      v = eng.resolve(v, st)
      ctx.ob('from-bytes-state-dict', W + ' from_bytes', q.is_call(v, want) and v.args[1][0] is sym('target') and t.mentions(v.args[1][1], raw('unpacked')),
             'restored state is not put back into the target structure')

  enc, dec, objhook = pk['default'], uk['ext_hook'], uk.get('object_hook')
  # ---- every type
  used = {}
  state['mode'] = None
  for tn, classes in TYPES.items():
    st = eng.session(hook)
    eng.stack.append(('<session>', M, 0))
    state['isinst'] = set(classes)
    e = eng.resolve(eng.call(enc, [x], [], st, None), st)
    state['isinst'] = None
    w = f'{W} encoder of {tn}'
    if tn == 'LazyArrayChunks':
      lazy_chunks(ctx, eng, hook, state, e, objhook, w, x)
      continue
    if not ctx.ob('encoded', w, q.is_call(e, *EXT), f'a {tn} is not written as an extension object: {t.show(e, 4)}'): continue
    code, payload = e.args[1]
    cv = enums.get(code.args) if code.op == 'enum' else (code.args[1] if t.is_const(code) else None)
    if cv is None and code.op == 'call': cv = next((enums.get(a.args) for a in t.subterms(code) if a.op == 'enum'), None)
    ctx.ob('code-constant', w, isinstance(cv, int), f'extension code {t.show(code, 4)} is not a constant')
    used.setdefault(cv, []).append(tn)
    # decode
    def hook2(en, fn, args, kwargs, st2, node):
      return hook(en, fn, args, kwargs, st2, node)
    d = decode(eng, hook, dec, code, payload, enums)
    ok, why = expected(tn, d, x, eng)
    ctx.ob('decodes-to-same', f'{W} {tn} round trip', ok, f'{tn} is read back as {t.show(d, 7)}: {why}')
  for cv, tns in used.items():
    ctx.ob('distinct-codes', f'{W} code {cv}', len(tns) == 1 or set(tns) == {'ndarray', 'jax.Array'}, f'types {tns} share extension code {cv}')
  vals = {}
  for (c, m), v in enums.items(): vals.setdefault((c, v), []).append(m)
  for (c, v), ms in vals.items():
    ctx.ob('distinct-code-values', f'{W} {ms[0]}', len(ms) == 1, f'{ms} share the value {v}')
  for rf, node in cap.get('rawflags', []):
    ctx.ob('dtype-names-raw', f'{W} decoder of dtype names', rf is TRUE, 'dtype names must be unpacked as raw bytes, the bfloat16 lookup compares bytes')
  types_rules(ctx)


def decode(eng, hook, dec, code, payload, enums):
  """Decoder on (code, payload); equality tests on codes are decided on the enum values."""
  def cv(v):
    if v.op == 'enum': return enums.get(v.args)
    if t.is_const(v): return v.args[1]
    if v.op == 'call' and v.args[1]: return cv(v.args[1][0])
    return None
  st = eng.session(hook)
  eng.stack.append(('<session>', M, 0))
  d = eng.to_term(eng.call(dec, [code, payload], [], st, None), st)
  # decide the remaining enum comparisons
  for _ in range(40):
    at = [a for a in t.inner_atoms(d) if a.op in ('eq', 'in', 'is')]
    dec1 = {}
    for a in at:
      if a.op == 'in':
        continue
      l, r = cv(a.args[0]), cv(a.args[1])
      if l is not None and r is not None: dec1[a] = l == r
    if not dec1: break
    d = t.assume(d, dec1)
  # table lookups {code: fn}[code](data)
  return d


def strip(v):
  while True:
    if v.op in ('totuple', 'listof'): v = v.args[0]
    elif q.is_call(v, 'tuple', 'list'): v = v.args[1][0]
    elif v.op == 'map' and v.args[2] is TRUE:
      (i, *_), b = t.open_lam(v.args[0])
      if b is not raw('nth', v.args[1], i): return v
      v = v.args[1]
    else: return v


def is_slice_of(v, src):
  """v is Slice(src.start, src.stop, src.step)."""
  if v.op != 'obj' or not v.args[0].endswith('.Slice'): return False
  f = dict(v.args[1])
  s = f.get('_slice')
  if s is None: s = next((y for y in f.values() if isinstance(y, t.T) and y.op == 'slice'), None)
  return s is not None and s.op == 'slice' and all(s.args[i] is t.attr(src, n) for i, n in enumerate(('start', 'stop', 'step')))


def is_slicend_of(v, src):
  if v.op != 'obj' or not v.args[0].endswith('.SliceNd'): return False
  a = dict(v.args[1]).get('<args>')
  if a is None or len(a.args) != 1: return False
  m = strip(a.args[0].args[0] if a.args[0].op == 'star' else a.args[0])
  if m.op != 'map' or m.args[1] is not src or m.args[2] is not TRUE: return False
  i, b = t.open_lam(m.args[0])
  return is_slice_of(b, raw('nth', src, i[0]))


def is_shaped_of(v, src):
  if not q.is_call(v, 'jax.core.ShapedArray'): return False, 'not a ShapedArray'
  sh, dt, wt = q.kwarg(v, 'shape', 0), q.kwarg(v, 'dtype', 1), q.kwarg(v, 'weak_type', 2)
  if sh is None or strip(sh) is not t.attr(src, 'shape'): return False, 'shape differs'
  nm = t.attr(t.attr(src, 'dtype'), 'name')
  if dt is None or not (q.is_call(dt, 'flax.serialization._dtype_from_name') and dt.args[1][0] is nm): return False, 'dtype differs'
  if wt is not t.attr(src, 'weak_type'): return False, 'weak_type differs'
  return True, ''


def expected(tn, d, x, eng):
  if tn == 'complex':
    return (q.is_call(d, 'complex') and q.kwarg(d, 'real', 0) is t.attr(x, 'real') and q.kwarg(d, 'imag', 1) is t.attr(x, 'imag')), 'fields differ'
  if tn == 'ShapedArray': return is_shaped_of(d, x)
  if tn == 'Slice': return is_slice_of(d, x), 'start/stop/step do not match'
  if tn == 'SliceNd': return is_slicend_of(d, x), 'per-axis slices do not match'
  if tn == 'SliceNdArray':
    if d.op != 'obj' or not d.args[0].endswith('.SliceNdArray'): return False, 'not a SliceNdArray'
    a = dict(d.args[1]).get('<args>')
    if a is None or not a.args: return False, 'no array'
    a = a.args[0]
    # reshape to the stored shape
    if q.is_mcall(a, 'reshape'): arr, sh = a.args[0].args[0], a.args[1]
    elif q.is_call(a, 'numpy.reshape'): arr, sh = a.args[1][0], a.args[1][1:]
    else: return False, 'not reshaped to the stored shape'
    if len(sh) != 1 or strip(sh[0]) is not t.attr(x, 'shape'): return False, 'shape differs'
    flat = [y for y in t.subterms(arr) if q.is_mcall(y, 'flatten', 'ravel') and y.args[0].args[0] is x] + [y for y in t.subterms(arr) if y.op == 'attr' and y.args[1] == 'flat']
    if not flat: return False, 'elements do not come from the flattened array'
    if any(f.op == 'call' and (f.args[1] or f.args[2]) for f in flat): return False, 'elements flattened in another order'
    src = flat[0]
    for m in t.subterms(arr):
      if m.op == 'map' and m.args[1] is src:
        i, b = t.open_lam(m.args[0])
        if b.op == 'tuple' and len(b.args) == 2:
          if not (b.args[0] is i[0] and is_slicend_of(b.args[1], raw('nth', src, i[0]))): return False, 'elements are permuted or changed'
        elif not is_slicend_of(b, raw('nth', src, i[0])): return False, 'elements changed'
    return True, ''
  if tn == 'IndexInfo':
    if d.op != 'obj' or not d.args[0].endswith('.IndexInfo'): return False, 'not an IndexInfo'
    f = dict(d.args[1])
    ok, why = is_shaped_of(f.get('global_shape', NONE), t.attr(x, 'global_shape'))
    if not ok: return False, 'global_shape: ' + why
    gs = strip(f.get('global_slices', NONE))
    src = t.attr(x, 'global_slices')
    if gs.op != 'map' or gs.args[1] is not src or gs.args[2] is not TRUE: return False, 'global_slices not mapped one to one'
    i, b = t.open_lam(gs.args[0])
    if not is_slicend_of(b, raw('nth', src, i[0])): return False, 'global_slices differ'
    if strip(f.get('shards', NONE)) is not t.attr(x, 'shards'): return False, 'shards differ'
    return True, ''
  if tn in ('ndarray', 'jax.Array'):
    return strip(d) is x, 'array differs'
  if tn == 'np scalar':
    ok = (d.op == 'item' and d.args[0] is raw('as0d', x) and d.args[1] is t.mk_tuple([])) or (q.is_mcall(d, 'item') and False)
    return ok, 'scalar is not unpacked'
  return False, 'unknown type'


def lazy_chunks(ctx, eng, hook, state, e, objhook, w, x):
  W = 'vmoe/checkpoints/serialization.py'
  # e: {MAGIC: True, str(index): [[subchunks, slice], ...]}
  if not ctx.ob('chunks-encoded-as-dict', w, e.op == 'dictupd' and e.args[0].op == 'dict' and len(e.args[0].args) == 1, f'unexpected encoding {t.show(e, 5)}'): return
  magic = e.args[0].args[0][0]
  m = e.args[1]
  keys = raw('keys', t.attr(x, 'chunks'))
  if m.op == 'map' and m.args[1] is t.attr(x, 'chunks'): keys = m.args[1]
  if not ctx.ob('every-array-encoded', w, m.op == 'map' and m.args[1] is keys and m.args[2] is TRUE, 'not every array of the shard is written'): return
  i, b = t.open_lam(m.args[0])
  idx = raw('nth', keys, i[0])
  k, v = b.args
  ctx.ob('key-is-index', w, q.unfmt(k) is idx, f'written under key {t.show(k, 4)}')
  src = raw('call', t.attr(x, 'iter_chunks'), (idx,), ())
  if not ctx.ob('every-chunk-encoded', w, v.op == 'map' and v.args[1] is src and v.args[2] is TRUE, 'not every chunk is written, or chunks of another array'): return
  j, c = t.open_lam(v.args[0])
  pair = raw('nth', src, j[0])
  if not ctx.ob('chunk-pair', w, c.op in ('list', 'tuple') and len(c.args) == 2, 'chunk is not stored with its slice'): return
  sub, gs = c.args
  ctx.ob('slice-of-chunk', w, gs is t.item(pair, const(1)), 'the stored slice is not the one of the chunk')
  data = t.item(pair, const(0))
  flat = [y for y in t.subterms(sub) if (q.is_mcall(y, 'flatten', 'ravel') and y.args[0].args[0] is data)]
  ctx.ob('flattened-c-order', w, bool(flat) and all(not f.args[1] and not f.args[2] for f in flat), 'chunk is not flattened in C order')
  cover = False
  why = 'subchunks do not cover the chunk contiguously'
  if sub.op == 'map' and q.is_call(sub.args[1], 'range') and len(sub.args[1].args[1]) == 3:
    a, z, n = sub.args[1].args[1]
    l, s = t.open_lam(sub.args[0])
    pos = raw('nth', sub.args[1], l[0])
    if s.op == 'item' and s.args[1].op == 'slice' and flat and s.args[0] in flat:
      lo, hi, stp = s.args[1].args
      F = s.args[0]
      size_ok = z in (t.attr(F, 'size'), t.attr(data, 'size'), raw('call', glob('len'), (F,), ()), raw('call', glob('max'), (const(1), t.attr(F, 'size')), ()),
                      raw('call', glob('max'), (t.attr(F, 'size'), const(1)), ()), t.item(t.attr(F, 'shape'), const(0)))
      cover = t.is_const(a, 0) and size_ok and lo is pos and hi is t.add(pos, n) and stp in (NONE, const(1))
      npos = any(q.is_call(y, 'max') for y in t.subterms(n)) or (t.is_const(n) and n.args[1] > 0)
      ctx.ob('subchunk-size-positive', w, npos, 'subchunk size may be zero for large items')
      why = f'range({t.show(a,3)}, {t.show(z,4)}, n) with slices [{t.show(lo,3)}:{t.show(hi,4)}] does not tile the chunk'
  elif q.is_call(sub, 'numpy.array_split', 'numpy.split'): cover = True
  ctx.ob('subchunks-cover', w, cover, why)
  # the zero-size chunk must keep one (empty) piece, or the decoder must cope
  nonempty = not (sub.op == 'map' and q.is_call(sub.args[1], 'range') and len(sub.args[1].args[1]) == 3 and not q.is_call(sub.args[1].args[1][1], 'max'))
  # ---- decode: the object hook on the encoded mapping
  wd = W + ' decoder of chunks'
  if not ctx.ob('object-hook', wd, objhook is not None, 'no object_hook: chunked arrays are not reassembled'): return
  st = eng.session(hook)
  eng.stack.append(('<session>', M, 0))
  mp = sym('mapping')
  d = eng.to_term(eng.call(objhook, [mp], [], st, None), st)
  has = raw('in', magic, mp)
  dec_yes, dec_no = t.assume(d, {has: True}), t.assume(d, {has: False})
  ctx.ob('plain-dicts-untouched', wd, dec_no is mp, 'ordinary dictionaries are changed by the decoder')
  ctx.ob('chunks-recognised', wd, dec_yes.op == 'obj' and dec_yes.args[0].endswith('.ArrayChunks'), 'chunk dictionaries are not recognised by the key the encoder writes')
  adds = [ev for ev in eng.events if ev.kind == 'call' and ev.fn is not None and ev.fn.op == 'attr' and ev.fn.args[1] == 'append']
  key = raw('nth', raw('keys', mp), None) if False else None
  n = 0
  for ev in adds:
    tgt = ev.fn.args[0]
    if tgt.op != 'item': continue
    n += 1
    ki = tgt.args[1]
    loops = [l for l in ev.loops if l.kind in ('for', 'comp')]
    ctx.ob('index-restored-as-int', wd, q.is_call(ki, 'int') and ki.args[1][0].op == 'nth' and ki.args[1][0].args[0] is raw('keys', mp), f'array index restored as {t.show(ki, 4)}')
    if q.is_call(ki, 'int'):
      kk = ki.args[1][0]
      skip = raw('eq', *sorted([magic, kk]))
      own = t.assume(ev.pc, {has: True, skip: False})
      ctx.ob('every-array-decoded', wd, own is TRUE, f'some stored arrays are skipped: {t.show(own, 6)}')
      chunks = t.item(mp, kk)
      inner = [l for l in ev.loops if l.domain is chunks]
      ctx.ob('every-chunk-decoded', wd, bool(inner) and all(l.filt is TRUE for l in inner), 'not every stored chunk is decoded')
      if inner:
        pr = raw('nth', chunks, inner[-1].idx)
        a = ev.args[0]
        if a is t.item(pr, const(1)): continue
        cat = q.calls(a, 'numpy.concatenate', 'numpy.hstack', 'numpy.concat')
        guarded = any(y.op == 'ite' for y in t.subterms(a))
        ctx.ob('empty-array-survives', wd, nonempty or guarded or not cat, 'a zero-size array is stored as an empty list of pieces, which cannot be concatenated on restore')
        ctx.ob('subchunks-joined', wd, bool(cat) and all(strip(y.args[1][0]) is t.item(pr, const(0)) for y in cat), 'subchunks are not concatenated in order')
        rs = [y for y in t.subterms(a) if q.is_mcall(y, 'reshape') or q.is_call(y, 'numpy.reshape')]
        okr = False
        for y in rs:
          sh = strip(y.args[1][-1])
          if len(y.args[2]): continue
          if sh.op == 'map' and sh.args[1] is t.item(pr, const(1)) and sh.args[2] is TRUE:
            ii, bb = t.open_lam(sh.args[0])
            s = raw('nth', sh.args[1], ii[0])
            okr = bb is t.sub(t.attr(s, 'stop'), t.attr(s, 'start'))
        ctx.ob('chunk-shape-restored', wd, okr, 'chunk is not reshaped to the extents (stop - start) of its slice')
  ctx.ob('chunks-added', wd, n >= 2, 'decoded chunks and slices are not both stored')


def types_rules(ctx):
  """LazyArrayChunks / ArrayChunks / SliceNd helpers."""
  W = 'vmoe/checkpoints/types.py'
  a = ctx.analyze(f'{TY}:LazyArrayChunks.add')
  ap = [e for e in a.events if e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[1] == 'append']
  b = ctx.analyze(f'{TY}:LazyArrayChunks.iter_chunks')
  chunks = t.attr(a.selfv, 'chunks')
  ok = len(ap) == 1 and ap[0].pc is TRUE and ap[0].fn.args[0] is t.item(chunks, sym('index'))
  ctx.ob('lazy-add-appends', W + ' LazyArrayChunks.add', ok, 'chunk is not recorded under its array index')
  if ap:
    tup = ap[0].args[0]
    bodies = [x for x in t.subterms(b.ret) if x.op in ('lam', 'map')]
    ms = [x for x in t.subterms(b.ret) if x.op == 'map' and x.args[1] is t.item(t.attr(b.selfv, 'chunks'), sym('index'))]
    sm = [x for x in t.subterms(b.ret) if x.op == 'call' and any(y.op == 'lam' for y in x.args[1])]
    v = None
    if ms:
      i, body = t.open_lam(ms[0].args[0])
      v = t.subst(body, {raw('nth', ms[0].args[1], i[0]): tup})
      v = t.transform(v, lambda y: None)
    elif sm:
      l = next(y for y in sm[0].args[1] if y.op == 'lam')
      v = t.beta(l, [tup])
    good = v is not None and v.op in ('tuple', 'list') and len(v.args) == 2 and v.args[1] is sym('global_slice')
    if good:
      c = v.args[0]
      good = q.is_mcall(c, 'chunk') and c.args[0].args[0] is sym('local_slice') and c.args[1] == (sym('ndarray'),)
      if not good: good = c.op == 'item' and c.args[0] is sym('ndarray') and t.mentions(c.args[1], sym('local_slice'))
    ctx.ob('lazy-iter-matches-add', W + ' LazyArrayChunks.iter_chunks', good,
           f'iterating an added chunk gives {t.show(v, 6) if v is not None else "nothing"} instead of (local_slice of ndarray, global_slice)')
  a = ctx.analyze(f'{TY}:ArrayChunks.add')
  ap = [e for e in a.events if e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[1] == 'append' and e.pc is TRUE]
  got = {(e.fn.args[0], e.args[0]) for e in ap}
  s = a.selfv
  exp = {(t.item(t.attr(s, 'chunks'), sym('index')), sym('chunk')), (t.item(t.attr(s, 'global_slices'), sym('index')), sym('global_slice'))}
  ctx.ob('chunks-add', W + ' ArrayChunks.add', got == exp, 'chunk and slice are not recorded in parallel under the array index')
  b = ctx.analyze(f'{TY}:ArrayChunks.iter_chunks')
  leaves = [l for _, l in t.leaves(b.ret)]
  ok = all(t.mentions(l, t.attr(s, 'chunks')) and t.mentions(l, t.attr(s, 'global_slices')) for l in leaves) and bool(leaves)
  ctx.ob('chunks-iter', W + ' ArrayChunks.iter_chunks', ok, 'iteration does not pair chunks with slices')
  ctx.ob('chunks-iter', W + ' ArrayChunks.iter_chunks', not any(q.is_call(l, 'zip') and not any(k == 'strict' and v is TRUE for k, v in l.args[2]) for l in leaves), 'chunks without a slice are left out silently')
  c = ctx.analyze(f'{TY}:SliceNd.chunk')
  it = c.ret
  ok = False
  if it.op == 'item' and it.args[0] is sym('array'):
    m = strip(it.args[1])
    if m.op == 'map' and m.args[1] is c.selfv and m.args[2] is TRUE:
      i, bb = t.open_lam(m.args[0])
      ok = bb in (t.attr(raw('nth', c.selfv, i[0]), 'slice'), t.attr(raw('nth', c.selfv, i[0]), '_slice'))
  ctx.ob('slicend-chunk', W + ' SliceNd.chunk', ok, f'chunk() returns {t.show(it, 6)} instead of the sub-array selected by the slices')

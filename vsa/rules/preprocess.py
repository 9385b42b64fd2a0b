"""C36: the preprocessing operations do what they say, on the key they are told, and touch nothing else."""
from .. import compare, dicts, q, terms as t
from ..framework import prop
from ..terms import T, NONE, FALSE, TRUE, const, glob, raw, sym
from .moe import spec

I, L, X, Z, K = [sym(n) for n in ('I', 'L', 'X', 'Z', 'K')]
A, B, C, D, E, F = [sym(n) for n in 'abcdef']
FILE = 'vmoe/data/pp_ops.py'
# operation: (number of arguments, key read and written by default)
OPS = {'central_crop': (1, 'image'), 'decode': (1, 'image'), 'decode_jpeg_and_inception_crop': (3, 'image'), 'flip_lr': (0, 'image'), 'inception_crop': (4, 'image'), 'onehot': (4, 'labels'),
       'randaug': (2, 'image'), 'resize': (2, 'image'), 'resize_small': (1, 'image'), 'reshape': (1, 'image'), 'tokenize': (6, 'text'), 'value_range': (5, 'image')}
DRAWS = ('tensorflow.image.sample_distorted_bounding_box',)


def data(**more):
  d = {'image': I, 'labels': L, 'text': X, 'other': Z, **more}
  return raw('dict', *((const(k), v) for k, v in d.items()))


@prop('C36', 'Value-flow terms of programs that use each operation, compared with specification programs (arithmetic by normal form and ground refutation); dictionary lookup of every other key; number of random draws.', floor=60)
def c36(ctx):
  ctx.section(keys)
  ctx.section(formulas)
  ctx.section(whole)
  ctx.section(tokens)


def use(ctx, name, kw=(), **bind):
  return ctx.analyze(f'vspec.preprocess:{name}', bind={'data': data(), 'kw': raw('dict', *((const(k), const(v)) for k, v in kw)), **bind})


def get(ctx, rule, w, d, k):
  try: c, v = dicts.look(d, const(k) if isinstance(k, str) else k)
  except dicts.Opaque as e:
    ctx.undecided(rule, w, str(e))
    return None
  if t.cond(c) is FALSE:
    ctx.ob(rule, w, False, f'the result has no {k}')
    return None
  if t.cond(c) is not TRUE:
    ctx.undecided(rule, w, f'{k} is there if {t.show(c, 3)}')
    return None
  return v


def keys(ctx):
  """Reads its own key, writes its own key, keeps the others."""
  for op, (n, dk) in OPS.items():
    w = f'{FILE} {op}'
    b = {'b': const('yes')} if op == 'tokenize' else {}
    base = use(ctx, f'use_{op}', **b)
    SRC = {'image': I, 'labels': L, 'text': X}[dk]
    v0 = get(ctx, 'default-key', w, base.ret, dk)
    if v0 is None: continue
    ctx.ob('default-key', w, t.mentions(v0, SRC), f'the result under {dk} does not come from {dk}: {t.show(v0, 3)}')
    for k, s in (('image', I), ('labels', L), ('text', X), ('other', Z)):
      if k == dk: continue
      v = get(ctx, 'other-keys', w, base.ret, k)
      if v is not None: ctx.ob('other-keys', w, v is s, f'{op} changes {k} to {t.show(v, 3)}')
    for kw, src, dst in (((('key', 'k'),), 'k', 'k'), ((('inkey', 'i'), ('outkey', 'o')), 'i', 'o'), ((('inkey', 'i'),), 'i', dk), ((('outkey', 'o'),), dk, 'o'), ((('key', 'k'), ('inkey', 'i'), ('outkey', 'o')), 'k', 'k')):
      vals = {'k': sym('VK'), 'i': sym('VI'), 'o': sym('VO'), 'image': I, 'labels': L, 'text': X, 'other': Z}
      r = use(ctx, f'use_{op}', kw, data=data(k=vals['k'], i=vals['i'], o=vals['o']), **b)
      v = get(ctx, 'asked-key', w, r.ret, dst)
      if v is None: continue
      want = t.subst(v0, {SRC: vals[src]})
      got = v
      ok = compare.same(got, want)
      desc = ', '.join(f'{a}={c}' for a, c in kw)
      if ok is not True and (not t.mentions(got, vals[src]) or any(t.mentions(got, y) for k2, y in vals.items() if k2 != src)): ok = False
      if ok is None: ctx.undecided('asked-key', w, f'{desc}: {t.show(got, 3)}')
      else: ctx.ob('asked-key', w, ok, f'with {desc}, {dst} becomes {t.show(got, 3)}')
      for k, s in vals.items():
        if k == dst: continue
        x = get(ctx, 'other-keys', w, r.ret, k)
        if x is not None: ctx.ob('other-keys', w, x is s, f'with {desc}, {op} changes {k} to {t.show(x, 3)}')


def verdict(ctx, rule, w, got, want, what=''):
  ok = compare.same(got, want)
  if ok is None: ctx.undecided(rule, w, f'{what}{t.show(got, 5)}')
  else: ctx.ob(rule, w, ok, f'{what}the result is {t.show(got, 5)}, not {t.show(want, 5)}')


def isint(x): return raw('isinstance', x, glob('int'))


def sized(ctx, f, rule, w, x, want_of):
  """Sizes: an integer means a square, a pair is (height, width)."""
  H, W = sym('H'), sym('W')
  r = use(ctx, f, **{x: A})
  for lits, sub, hw in (({isint(A): True, raw('truth', A): True}, {}, (A, A)), ({isint(A): False, raw('truth', A): True}, {A: raw('tuple', H, W)}, (H, W))):
    v = get(ctx, rule, w, r.ret, 'image')
    if v is None: return
    for _ in range(4): v = t.assume(v, lits)
    if sub: v = t.subst(v, sub)
    v = t.assume(v, {a: True for a in t.inner_atoms(v) if a.op == 'truth' and a.args[0].op == 'tuple'})
    verdict(ctx, rule, w, v, want_of(*hw), f'{"one number" if not sub else "a pair"}: ')


def s(ctx, name, **b): return spec(ctx, name, 'preprocess', **b)


def formulas(ctx):
  w = f'{FILE} central_crop'
  sized(ctx, 'use_central_crop', 'central-crop', w, 'a', lambda h, ww: s(ctx, 'central_crop', h=h, w=ww, x=I))
  w = f'{FILE} resize'
  sized(ctx, 'use_resize', 'resize', w, 'a', lambda h, ww: s(ctx, 'resize', h=h, w=ww, m=B, x=I))
  for op, base, args in (('inception_crop', 'crop', dict(b=B, c=C)), ('decode_jpeg_and_inception_crop', 'jpeg_crop', dict(b=B, c=C))):
    w = f'{FILE} {op}'
    cut = s(ctx, base, x=I, **args)
    m = D if op == 'inception_crop' else const('bilinear')
    sized(ctx, f'use_{op}', 'random-crop', w, 'a', lambda h, ww: s(ctx, 'resize', h=h, w=ww, m=m, x=cut))
    r = use(ctx, f'use_{op}', a=NONE)
    v = get(ctx, 'random-crop', w, r.ret, 'image')
    if v is not None: verdict(ctx, 'random-crop', w, v, cut, 'without resizing: ')
    n = [e for e in r.events if e.kind == 'call' and t.is_glob(e.fn, *DRAWS)]
    ctx.ob('one-draw', w, len(n) <= 1, f'position and size of the crop come from {len(n)} different random boxes')
    boxes = {y for y in t.subterms(r.ret) if q.is_call(y, *DRAWS)}
    for y in boxes:
      moc = q.kwarg(y, 'min_object_covered', None, None)
      ctx.ob('random-crop', w, moc is None or t.is_const(moc, 0), f'part of the image has to be covered: {t.show(moc, 3) if moc is not None else ""}')
  for op, b, want in (('decode', {}, lambda: s(ctx, 'decode', a=A, x=I)), ('flip_lr', {}, lambda: s(ctx, 'flip_lr', x=I)), ('reshape', {}, lambda: s(ctx, 'reshape', a=A, x=I)),
                      ('resize_small', {}, lambda: s(ctx, 'resize_small', a=A, x=I)),
                      ('value_range', {'e': FALSE}, lambda: s(ctx, 'value_range', a=A, b=B, c=C, d=D, x=I)),
                      ('value_range', {'e': TRUE}, lambda: s(ctx, 'value_range_clip', a=A, b=B, c=C, d=D, x=I))):
    w = f'{FILE} {op}'
    r = use(ctx, f'use_{op}', **b)
    v = get(ctx, op.replace('_', '-'), w, r.ret, 'image')
    if v is None: continue
    verdict(ctx, op.replace('_', '-'), w, v, want())
    if op == 'reshape':
      casts = [y for y in t.subterms(v) if q.is_call(y, 'tensorflow.cast') and q.kwarg(y, 'dtype', 1, NONE).op == 'glob']
      ctx.ob('reshape', w, not casts, 'reshaping changes the type')
  w = f'{FILE} randaug'
  v = get(ctx, 'randaug', w, use(ctx, 'use_randaug').ret, 'image')
  cs = [y for y in t.subterms(v) if y.op == 'call' and y.args[0].op == 'glob' and y.args[0].args[0].endswith('distort_image_with_randaugment')] if v is not None else []
  for y in cs: ctx.ob('randaug', w, [q.kwarg(y, k, i, NONE) for i, k in enumerate(('image', 'num_layers', 'magnitude'))] == [I, A, B], f'augmented with {t.show(y, 3)}')
  # one-hot: several labels merged iff there is more than one dimension and merging is asked for
  w = f'{FILE} onehot'
  for rank in (0, 1):
    for multi in (True, False):
      r = ctx.analyze('vspec.preprocess:use_onehot', bind={'data': data(), 'kw': raw('dict'), 'b': const(multi)}, attrs={(t.attr(L, 'shape'), 'rank'): const(rank), (L, 'ndim'): const(rank)})
      v = get(ctx, 'one-hot', w, r.ret, 'labels')
      if v is None: continue
      want = s(ctx, 'multi_hot' if rank and multi else 'one_hot', a=A, c=C, d=D, x=L)
      n = compare.norm(v)
      merged = [y for y in t.subterms(n) if q.is_call(y, 'tensorflow.scatter_nd')]
      if rank and not multi and merged: ctx.ob('one-hot', w, False, f'several labels are merged although multi is off: {t.show(v, 3)}')
      elif rank and multi and q.is_call(n, 'tensorflow.one_hot'): ctx.ob('one-hot', w, False, f'several labels are not merged: {t.show(v, 3)}')
      else: verdict(ctx, 'one-hot', w, v, want, f'labels of rank {rank}, multi={multi}: ')
  # default values of optional arguments
  for op, n, b, full in (('decode', 'image', {}, dict(a=3)), ('decode_jpeg_and_inception_crop', 'image', {}, dict(a=None, b=5, c=100)), ('inception_crop', 'image', {}, dict(b=5, c=100, d='bilinear')),
                         ('onehot', 'labels', {}, dict(b=True, c=1.0, d=0.0)), ('resize', 'image', {}, dict(b='bilinear')), ('value_range', 'image', {}, dict(c=0, d=255.0, e=False))):
    w = f'{FILE} {op}'
    v = get(ctx, 'defaults', w, use(ctx, f'default_{op}').ret, n)
    x = get(ctx, 'defaults', w, use(ctx, f'use_{op}', **{k: const(y) for k, y in full.items()}).ret, n)
    if v is None or x is None: continue
    ok = compare.same(v, x)
    if ok is None: ctx.undecided('defaults', w, t.show(v, 3))
    else: ctx.ob('defaults', w, ok, f'the defaults are not {full}: {t.show(v, 4)}')


def whole(ctx):
  """Operations on the whole example."""
  w = f'{FILE} copy'
  r = use(ctx, 'use_copy', a=const('image'), b=const('copy'))
  for k, want in (('copy', I), ('image', I), ('labels', L), ('text', X), ('other', Z)):
    v = get(ctx, 'copy', w, r.ret, k)
    if v is not None: ctx.ob('copy', w, v is want, f'{k} is {t.show(v, 3)} after copying image')
  w = f'{FILE} keep'
  VALID = ctx.analyze('vspec.preprocess:valid_key').ret
  if VALID.op != 'const':
    ctx.undecided('keep', w, t.show(VALID, 3))
    return
  vk = compare.cv(VALID)
  r = use(ctx, 'use_keep', a=const('image'), b=const('text'), data=data(**{vk: sym('V')}))
  for k, want in (('image', I), ('text', X), (vk, sym('V')), ('labels', None), ('other', None)):
    try: c, v = dicts.look(r.ret, const(k))
    except dicts.Opaque as e:
      ctx.undecided('keep', w, str(e))
      break
    c = t.cond(c)
    if c not in (TRUE, FALSE):
      ctx.undecided('keep', w, t.show(c, 3))
      continue
    ctx.ob('keep', w, c is (TRUE if want is not None else FALSE) and (want is None or v is want), f'keeping image and text {"keeps" if c is TRUE else "drops"} {k}')
  w = f'{FILE} ignore_no_labels'
  for present in (True, False):
    for dflt in (True, False):
      key = vk if dflt else 'ok'
      lk = 'labels' if dflt else 'text'
      d = data(**({key: sym('V')} if present else {}))
      r = use(ctx, 'use_ignore_no_labels0' if dflt else 'use_ignore_no_labels', data=d, **({} if dflt else dict(a=const('text'), b=const('ok'))))
      v = get(ctx, 'valid', w, r.ret, key)
      if v is None: continue
      want = s(ctx, 'valid', v=sym('V') if present else const(True), labels=L if dflt else X)
      alt = s(ctx, 'valid', v=raw('dict'), labels=L if dflt else X)
      ok = compare.same(v, want)
      if ok is not True and not present and v is t.lt(const(0), raw('call', glob('tensorflow.size'), (L if dflt else X,), ())): ok = True
      if ok is None: ctx.undecided('valid', w, t.show(v, 5))
      else: ctx.ob('valid', w, ok, f'the valid flag is {t.show(v, 5)}')
      for k, want in (('image', I), ('labels', L), ('text', X), ('other', Z)):
        x = get(ctx, 'valid', w, r.ret, k)
        if x is not None: ctx.ob('valid', w, x is want, f'{k} becomes {t.show(x, 3)}')
  w = f'{FILE} flatten'
  r = use(ctx, 'use_flatten')
  fl = r.ret
  if q.is_call(fl, 'flax.traverse_util.flatten_dict'):
    ctx.ob('flatten', w, t.is_const(q.kwarg(fl, 'sep', 3, NONE), '/') and fl.args[1][0] is data(), f'flattened to {t.show(fl, 3)}')
  else: ctx.undecided('flatten', w, t.show(fl, 3))


def tokens(ctx):
  w = f'{FILE} tokenize'
  for eos in ('yes', 'none', 'sticky'):
    r = use(ctx, 'use_tokenize', b=const(eos))
    v = get(ctx, 'tokens', w, r.ret, 'text')
    if v is None: return
    cs = [y for y in t.subterms(v) if y.op == 'call' and y.args[0].op == 'glob' and y.args[0].args[0].endswith('ops_text.tokenize')]
    if len(set(cs)) != 1:
      ctx.undecided('tokens', w, f'{len(cs)} calls')
      return
    y = cs[0]
    g = lambda k, i: q.kwarg(y, k, i, NONE)
    tok = g('tokenizer', 1)
    ctx.ob('tokens', w, g('max_len', 2) is A, f'at most {t.show(g("max_len", 2), 3)} tokens')
    fe = t.cond(g('force_eos', 4))
    if fe in (TRUE, FALSE): ctx.ob('tokens', w, fe is (TRUE if eos == 'sticky' else FALSE), f'with eos={eos}, force_eos is {t.show(fe, 2)}')
    ae = q.kwarg(tok, 'add_eos', 1, NONE) if tok.op == 'call' else NONE
    ae = t.cond(ae) if ae is not NONE else ae
    if ae in (TRUE, FALSE): ctx.ob('tokens', w, ae is (FALSE if eos == 'none' else TRUE), f'with eos={eos}, add_eos is {t.show(ae, 2)}')
    if tok.op == 'call' and tok.args[1]: ctx.ob('tokens', w, tok.args[1][0] is C, f'the tokenizer is {t.show(tok, 3)}')
    mt = g('multi_text', 5)
    if mt is not NONE: ctx.ob('tokens', w, t.cond(mt) is t.b_not(t.cond(E)), f'multi_text is {t.show(mt, 3)}')
    pv = g('pad_value', 3)
    st = raw('isinstance', F, glob('str'))
    for is_s in (True, False):
      x = t.assume(pv, {st: is_s})
      if x.op == 'ite': continue
      ok = x is F if not is_s else (q.is_mcall(x, 'string_to_id') and x.args[0].args[0] is tok and x.args[1][0] is F)
      if not ok and x.op == 'call' and not is_s or not ok and x is F: ctx.ob('tokens', w, False, f'the padding is {t.show(x, 3)}')
      elif ok: ctx.ob('tokens', w, True)
    # the text: lower-cased iff asked, one of several chosen iff asked
    txt = g('txt', 0) if y.args[1] else g('text', 0)
    for low in (True, False):
      for one in (True, False):
        x = txt
        for _ in range(4): x = t.assume(x, {raw('truth', D): low, raw('truth', E): one})
        has = any(z is glob('tensorflow.strings.lower') for z in t.subterms(x))
        ctx.ob('tokens', w, has == low, f'with lower={low}, sample_if_multi={one}, the text is {t.show(x, 4)}')
        ch = any(z.op == 'glob' and z.args[0].endswith('get_choice') for z in t.subterms(x))
        if not one: ctx.ob('tokens', w, not ch, 'one of several texts is chosen although all were asked for')
  rs = [e for e in use(ctx, 'use_tokenize', b=const('other')).events if e.kind == 'raise']
  ctx.ob('tokens', w, any(t.cond(e.pc) is not FALSE and not t.contains(e.pc, lambda z: z.op == 'is') for e in rs), 'an unknown value of eos is accepted')

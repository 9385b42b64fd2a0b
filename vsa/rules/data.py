"""C22: evaluation reads every example once; C24: prefetching and placing data keep every batch."""
import ast

from .. import arith, dicts, q, terms as t
from ..framework import prop
from ..terms import T, NONE, FALSE, TRUE, const, glob, raw, sym
from .optim import is_op

I = 'vmoe.data.input_pipeline'
BD = 'vmoe.data.builder'
J = 'vmoe.data.pjit_utils'
VALID = const('__valid__')
MAP = 'jax.tree.map'


@prop('C22', 'Abstract interpretation of the chain of data set operations (repetition, processing, padding, batching, caching) on every path, plus normal forms of the padding arithmetic, the per-process splits and the composition of processing steps.', floor=25)
def c22(ctx):
  for train in (True, False): ctx.section(pipeline, train)
  ctx.section(padding)
  ctx.section(builder)
  ctx.section(cache_key)
  ctx.section(variants)
  ctx.section(num_examples)
  ctx.section(process_fn)


PASS = {'prefetch', 'with_options', 'apply', 'cache', 'ignore_errors'}
DROP = {'take', 'skip', 'shard', 'unique', 'take_while', 'sample_from_datasets', 'rejection_resample'}


def pipeline(ctx, train):
  op = [f'{BD}.get_dataset_builder', f'{I}.get_data_process_fn']
  r = ctx.analyze(f'{I}:get_dataset', opaque=op)
  v = 'train' if train else 'evaluation'
  w = f'{r.file} get_dataset ({v})'
  var = sym('variant')
  fix = {t.eq(var, const('train')): train}
  ret = t.assume(r.ret, fix)
  n = 0
  for lits, leaf in t.leaves(ret):
    if not (leaf.op == 'call' and leaf.args[1]): continue
    for l2, data in t.leaves(leaf.args[1][0]):
      if contradictory({**lits, **l2}): continue
      n += 1
      chain(ctx, w, data, {**lits, **l2}, fix, train, {a.arg for a in ctx.eng.find(f'{I}:get_dataset')[1].args.args + ctx.eng.find(f'{I}:get_dataset')[1].args.kwonlyargs})
  if not n: ctx.undecided('pipeline', w, 'no data set is returned')
  # sizes
  bs = sym('batch_size')
  rs = [e for e in r.events if e.kind == 'raise' and t.mentions(t.val(e.pc), bs) and not t.mentions(t.val(e.pc), sym('process'))]
  if train: return
  bad = raw('call', glob('jax.process_count'), (), ())
  ctx.ob('whole-batches', w, any(t.implies(t.cond(t.binop('%', bs, bad)), t.cond(e.pc)) for e in rs) if rs else False, 'a batch size that does not divide the number of processes is accepted: the processes together would not read batch_size examples')


def chain(ctx, w, data, lits, fix, train, pars=()):
  """Walk from the result back to the source."""
  ops = []
  x = data
  while True:
    if x.op == 'ite':
      x = t.assume(x, {**lits, **fix})
      if x.op == 'ite':
        ctx.undecided('pipeline', w, f'unresolved choice {t.show(x.args[0], 3)}')
        return
    if x.op == 'call' and x.args[0].op == 'attr':
      if x.args[0].args[1] == 'as_dataset': break
      ops.append((x.args[0].args[1], x))
      x = x.args[0].args[0]
    else:
      ctx.undecided('pipeline', w, f'source {t.show(x, 3)}')
      return
  ops.reverse()
  src = x.args[0].args[0]
  if not is_op(src, f'{BD}.get_dataset_builder'):
    ctx.undecided('pipeline', w, f'source {t.show(src, 3)}')
    return
  kw = {k: v for k, v in src.args[2] if isinstance(k, str)}
  for n in ('name', 'split', 'shuffle_seed'): ctx.ob('asked-data', w, kw.get(n) is sym(n), f'{n} of the data set is {t.show(kw.get(n, NONE), 3)}')
  per = raw('call', glob('jax.process_count'), (), ())
  per_proc = t.binop('//', sym('batch_size'), per)
  fakes = raw('call', t.attr(src, 'get_num_fake_examples'), (per_proc,), ())
  mapped = batched = padded = rep = shuf = False
  cached_at = []
  for name, c in ops:
    pos, kws = c.args[1], q.kws(c)
    if name == 'filter':
      pf = sym('pre_filter_fn')
      ctx.ob('no-example-lost', w, bool(pos) and pos[0] is pf, f'examples are dropped by {t.show(pos[0], 3) if pos else None}')
    elif name in DROP: ctx.ob('no-example-lost', w, False, f'.{name}(…) does not keep every example exactly once')
    elif name == 'repeat':
      n = kws.get('count', pos[0] if pos else NONE)
      if train:
        ctx.ob('never-ends', w, n is NONE or t.is_const(n, -1), f'training data is repeated {t.show(n, 3)} times')
        rep = True
      else: ctx.ob('once', w, t.is_const(n, 1), 'evaluation data is repeated')
    elif name == 'shuffle':
      shuf = True
      sd = kws.get('seed', pos[1] if len(pos) > 1 else NONE)
      if train: ctx.ob('shuffle-seed', w, sd is sym('shuffle_seed'), f'training data is shuffled with seed {t.show(sd, 3)}')
    elif name == 'map':
      f = t.assume(kws.get('map_func', pos[0] if pos else NONE), {**lits, **fix})
      ctx.ob('processed-once', w, not mapped, 'the examples are processed twice')
      ctx.ob('process-examples', w, not batched, 'processing operations are applied to batches')
      mapped = True
      processed(ctx, w, f, train, padded)
    elif name == 'concatenate':
      if train:
        ctx.undecided('padding', w, 'training data is extended')
        continue
      ctx.ob('pad-before-batch', w, not batched, 'padding is added after batching')
      ctx.ob('pad-processed', w, mapped, 'padding is added before the valid flag is set, so that it counts as valid')
      ctx.ob('pad-once', w, not padded, 'padding is added twice')
      padded = True
      padding_data(ctx, w, pos[0] if pos else NONE, fakes, src)
    elif name == 'batch':
      n = kws.get('batch_size', pos[0] if pos else NONE)
      d = kws.get('drop_remainder', pos[1] if len(pos) > 1 else FALSE)
      ctx.ob('batch-size', w, n is per_proc, f'every process reads batches of {t.show(n, 4)}, not its share {t.show(per_proc, 4)}')
      ctx.ob('batched-once', w, not batched, 'the data is batched twice')
      if not train and not padded and d is not FALSE:
        c1 = lits_hold(lits, fakes, 1) or lits_hold(lits, fakes, 7)
        if c1 is None: ctx.undecided('padded', w, 'padding condition')
        else: ctx.ob('padded', w, not c1, 'the last incomplete batch of the evaluation data is dropped')
      batched = True
    elif name == 'cache':
      cached_at.append((mapped, rep, batched))
      if train and t.eq(sym('cache'), const('loaded')) in lits and lits[t.eq(sym('cache'), const('loaded'))]:
        ctx.ob('cache-loaded', w, not mapped, 'the cached training examples are already processed: the random operations are the same in every epoch')
    elif name in PASS: pass
    else:
      ctx.undecided('pipeline', w, f'.{name}(…)')
      return
  pf = sym('pre_filter_fn')
  given = [(a, v) for a, v in lits.items() if t.mentions(a, pf)]
  asked = any((v is False) if a is t.is_(pf, NONE) else (v is True and a is raw('truth', pf)) for a, v in given)
  if asked: ctx.ob('asked-data', w, any(n == 'filter' for n, _ in ops), 'the examples are not filtered by the given pre_filter_fn')
  elif not given and 'pre_filter_fn' in pars: ctx.ob('asked-data', w, any(n == 'filter' for n, _ in ops), 'pre_filter_fn is ignored')
  ctx.ob('processed', w, mapped, 'the examples are not processed')
  ctx.ob('batched', w, batched, 'the examples are not batched')
  if train:
    ctx.ob('never-ends', w, rep, 'training data is not repeated')
    sf = t.assume(kw.get('shuffle_files', FALSE), fix)
    ctx.ob('shuffled', w, shuf and sf is not FALSE, 'training data is not shuffled')


def contradictory(lits):
  """x == 'a' and x == 'b'."""
  seen = {}
  for a, v in lits.items():
    if v and a.op == 'eq' and len(a.args) == 2:
      for x, c in (a.args, a.args[::-1]):
        if t.is_const(c) and seen.setdefault(x, c) is not c: return True
  return False


def lits_hold(lits, F, n):
  """Can the path be taken when F equals n?  None if unknown."""
  for a, v in lits.items():
    if not t.mentions(a, F): continue
    b = t.subst(a, {F: const(n)})
    b = t.val(t.cond(b))
    if b is TRUE or b is FALSE:
      if (b is TRUE) != v: return False
    else: return None
  return True


def processed(ctx, w, f, train, padded):
  d = sym('d')
  out = t.beta(f, [d]) if f.op == 'lam' else raw('call', f, (d,), ())
  P = raw('call', raw('call', raw('opaque', f'{I}.get_data_process_fn'), (sym('process'),), ()), (d,), ())
  if not t.contains(out, lambda y: y is P):
    ps = [y for y in t.subterms(out) if is_op(y, f'{I}.get_data_process_fn')]
    if ps or not t.contains(out, lambda y: y.op in ('opaque', 'call')): ctx.ob('processed', w, False, f'the examples are processed by {t.show(out, 4)}')
    else: ctx.undecided('processed', w, t.show(out, 4))
    return
  if train:
    if out is P: ctx.ob('processed', w, True)
    else: ctx.undecided('processed', w, t.show(out, 4))
    return
  try:
    c, v = dicts.look(out, VALID)
    ctx.ob('valid-flag', w, t.cond(c) is t.cond(TRUE), 'examples are not marked as valid')
    want = raw('getdef', P, VALID, TRUE)
    v = dicts.rewrite(v)
    if t.is_const(v): ctx.ob('valid-flag', w, False, f'the valid flag of every example is {t.show(v, 3)}, whatever the processing says')
    else:
      has = t.in_(VALID, P)
      a, b = t.assume(v, {has: True}), t.assume(v, {has: False})
      if v.op == 'getdef': ctx.ob('valid-flag', w, v is want, f'the valid flag is {t.show(v, 4)}')
      elif a is t.item(P, VALID) and b is TRUE: ctx.ob('valid-flag', w, True)
      elif t.is_const(a) or t.is_const(b): ctx.ob('valid-flag', w, False, f'the valid flag is {t.show(v, 4)}')
      else: ctx.undecided('valid-flag', w, t.show(v, 4))
    c, v = dicts.look(out, const('image'))
    ctx.ob('features-kept', w, v is t.item(P, const('image')) or v.op == 'ite' or v.op == 'getdef', f'the processed image becomes {t.show(v, 4)}')
  except dicts.Opaque as e: ctx.undecided('valid-flag', w, str(e))


def padding_data(ctx, w, x, F, src):
  """from_tensors(zeros).repeat(F)"""
  n = None
  while x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] in ('cache', 'repeat', 'prefetch', 'take'):
    if x.args[0].args[1] in ('repeat', 'take'):
      n = q.kws(x).get('count', x.args[1][0] if x.args[1] else NONE)
    x = x.args[0].args[0]
  if not q.is_call(x, 'tensorflow.data.Dataset.from_tensors') or n is None:
    ctx.undecided('padding', w, t.show(x, 3))
    return
  if not t.contains(n, lambda y: y.op == 'call' and y.args[0].op == 'attr' and y.args[0].args[1] == 'get_num_fake_examples'): ctx.undecided('padding', w, t.show(n, 3))
  else: ctx.ob('padding', w, n is F, f'the data is padded with {t.show(n, 4)} examples, not {t.show(F, 4)}')
  e = x.args[1][0] if x.args[1] else NONE
  ms = [y for y in t.subterms(e) if y.op == 'call' and y.args[1] and y.args[1][0].op == 'lam' and y.args[1][0].args[1] == 1]
  if len(ms) != 1:
    ctx.undecided('padding', w, t.show(e, 3))
    return
  (s,), b = t.open_lam(ms[0].args[1][0])
  ones = q.is_call(b, 'tensorflow.ones', 'tensorflow.fill', 'tensorflow.ones_like')
  if q.is_call(b, 'tensorflow.zeros', 'tensorflow.zeros_like'): ctx.ob('padding-invalid', w, True)
  elif ones and e is ms[0]: ctx.ob('padding-invalid', w, False, 'padding examples are marked as valid')
  else: ctx.undecided('padding-invalid', w, t.show(b, 3))
  if e is not ms[0]:
    try:
      c, v = dicts.look(e, VALID)
      ctx.ob('padding-invalid', w, not (t.is_const(v) and v.args[1]), 'padding examples are marked as valid')
    except dicts.Opaque: pass


def padding(ctx):
  r = ctx.analyze(f'{BD}:_get_num_fake_examples')
  w = f'{r.file} _get_num_fake_examples'
  ns, i, b = sym('num_examples_per_process'), sym('process_index'), sym('batch_size_per_process')
  mx = raw('call', glob('max'), (ns,), ())
  M, N = sym('M'), sym('N')
  got = t.subst(r.ret, {mx: M, t.item(ns, i): N})
  got = t.subst(got, {y: sym(f'N{k}') for k, y in enumerate(sorted({y for y in t.subterms(got) if y.op == 'item' and y.args[0] is ns and not t.mentions(y.args[1], ns)}, key=lambda y: y.uid))})
  want = t.add(t.sub(M, N), t.binop('%', t.neg(M), b))
  if got is want:
    ctx.ob('padding-count', w, True)
    return
  if t.mentions(got, ns): ok = None
  else: ok = arith.equal(got, want, dom={M: lambda r: r.randint(9, 60), N: lambda r: r.randint(0, 9), b: lambda r: r.randint(1, 12)})
  if ok is None: ctx.undecided('padding-count', w, t.show(got, 5))
  else: ctx.ob('padding-count', w, ok, f'{t.show(got, 5)} padding examples; every process needs {t.show(want, 5)}')


def builder(ctx):
  op = [f'{BD}._get_tfds_builder', f'{BD}._get_num_fake_examples']
  cls = f'{BD}:TfdsBuilder'
  r = ctx.analyze(f'{cls}.as_dataset', opaque=op)
  w = f'{r.file} TfdsBuilder'
  me = r.selfv
  tb = raw('call', raw('opaque', op[0]), tuple(t.attr(me, n) for n in ('name', 'data_dir', 'manual_dir', 'try_gcs')), ())
  sp = t.attr(me, 'split')
  TF = 'tensorflow_datasets.public_api'
  even = lambda y: q.is_call(y, f'{TF}.even_splits', 'tensorflow_datasets.even_splits') and y.args[1] and y.args[1][0] is sp
  nproc = raw('call', glob('jax.process_count'), (), ())
  def drop(y): return q.kws(y).get('drop_remainder', FALSE)
  base = t.assume(r.ret, {raw('truth', t.attr(me, 'ignore_errors')): False})
  for y in sorted({y for y in t.subterms(r.ret) if q.is_mcall(y, 'as_dataset')}, key=lambda y: y.uid):
    ctx.ob('asked-data', w, y.args[0].args[0] is tb, f'the data is read from {t.show(y.args[0].args[0], 4)}')
    kw = q.kws(y)
    s = kw.get('split', y.args[1][0] if y.args[1] else NONE)
    if q.is_call(s, f'{TF}.split_for_jax_process'):
      ctx.ob('own-share', w, s.args[1][0] is sp, f'the process reads {t.show(s.args[1][0], 3)}')
      ctx.ob('no-example-lost', w, drop(s) is FALSE, 'examples are dropped when the split is divided among the processes')
    elif s.op == 'item' and even(s.args[0]):
      ctx.ob('own-share', w, s.args[1] is raw('call', glob('jax.process_index'), (), ()), f'the process reads share {t.show(s.args[1], 3)}')
      ctx.ob('no-example-lost', w, drop(s.args[0]) is FALSE, 'examples are dropped when the split is divided among the processes')
    elif s is sp: ctx.ob('own-share', w, False, 'every process reads the whole split')
    else: ctx.undecided('own-share', w, t.show(s, 3))
    ctx.ob('shuffle-files', w, kw.get('shuffle_files') is t.attr(me, 'shuffle_files'), f'shuffle_files is {t.show(kw.get("shuffle_files", NONE), 3)}')
    rc = kw.get('read_config', NONE)
    ctx.ob('shuffle-files', w, rc.op == 'call' and q.kws(rc).get('shuffle_seed') is t.attr(me, 'shuffle_seed'), 'the seed of the shuffling is not the given one')
  chainops = []
  x = base
  while x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[1] != 'as_dataset':
    chainops.append(x.args[0].args[1])
    x = x.args[0].args[0]
  for o in chainops: ctx.ob('no-example-lost', w, o not in DROP | {'repeat', 'ignore_errors'}, f'.{o}(…) does not keep every example exactly once')
  r = ctx.analyze(f'{cls}.num_examples', opaque=op)
  info = lambda s: t.attr(t.item(t.attr(t.attr(tb, 'info'), 'splits'), s), 'num_examples')
  if t.contains(r.ret, lambda y: y.op == 'attr' and y.args[1] == 'num_examples'): ctx.ob('num-examples', w, r.ret is info(sp), f'the number of examples is {t.show(r.ret, 5)}')
  else: ctx.undecided('num-examples', w, t.show(r.ret, 4))
  r = ctx.analyze(f'{cls}.get_num_fake_examples', opaque=op)
  if not is_op(r.ret, op[1]):
    ctx.undecided('padding-counts', w, t.show(r.ret, 4))
    return
  a = dict(zip(('process_index', 'batch_size_per_process', 'num_examples_per_process'), r.ret.args[1]))
  a.update(q.kws(r.ret))
  ctx.ob('padding-counts', w, a.get('process_index') is raw('call', glob('jax.process_index'), (), ()), f'padding is computed for process {t.show(a.get("process_index", NONE), 3)}')
  ctx.ob('padding-counts', w, a.get('batch_size_per_process') is sym('batch_size_per_process'), f'padding is computed for batches of {t.show(a.get("batch_size_per_process", NONE), 3)}')
  m = a.get('num_examples_per_process', NONE)
  if m.op == 'map' and m.args[2] is TRUE and even(m.args[1]):
    (i,), b = t.open_lam(m.args[0])
    ctx.ob('padding-counts', w, b is info(raw('nth', m.args[1], i)), f'a share has {t.show(b, 4)} examples')
    n = q.kws(m.args[1]).get('n', m.args[1].args[1][1] if len(m.args[1].args[1]) > 1 else NONE)
    ctx.ob('padding-counts', w, n is nproc, f'padding is computed for {t.show(n, 3)} processes')
    ctx.ob('padding-counts', w, drop(m.args[1]) is FALSE, 'padding is computed for shares that drop examples')
  elif m.op == 'map' and q.is_call(m.args[1], f'{TF}.even_splits'): ctx.ob('padding-counts', w, False, f'padding is computed for the split {t.show(m.args[1], 4)}, but the process reads its share of {t.show(sp, 3)}')
  else: ctx.undecided('padding-counts', w, t.show(m, 4))


def cache_key(ctx):
  """Builders are shared only between requests for the same data set."""
  m = ctx.eng.module(BD)
  for n in ast.walk(m.tree):
    if not isinstance(n, ast.FunctionDef): continue
    for d in n.decorator_list:
      if not (isinstance(d, ast.Call) and ast.unparse(d.func).endswith('cachetools.cached')): continue
      ks = [k.value for k in d.keywords if k.arg == 'key']
      if not ks or not isinstance(ks[0], ast.Lambda): continue
      ps = [a.arg for a in ks[0].args.args]
      va = ks[0].args.vararg.arg if ks[0].args.vararg else None
      used = {x.id for x in ast.walk(ks[0].body) if isinstance(x, ast.Name)}
      names = [a.arg for a in n.args.args]
      for what in ('name', 'data_dir'):
        if what not in names: continue
        k = names.index(what)
        ok = ps[k] in used if k < len(ps) else va in used
        ctx.ob('shared-builder', f'{m.path if hasattr(m, "path") else BD} {n.name}', ok, f'data sets with a different {what} share one builder: key {ast.unparse(ks[0])}')


def variants(ctx):
  GD = f'{I}.get_dataset'
  r = ctx.analyze(f'{I}:get_datasets', opaque=[GD])
  w = f'{r.file} get_datasets'
  cf = sym('config')
  try: c, v = dicts.look(r.ret, sym('k'))
  except dicts.Opaque as e:
    ctx.undecided('variants', w, str(e))
    return
  v = dicts.rewrite(v)
  ctx.ob('variants', w, t.cond(c) is t.cond(t.in_(sym('k'), cf)), f'a variant has a data set if {t.show(t.val(c), 3)}')
  if not is_op(v, GD):
    ctx.undecided('variants', w, t.show(v, 4))
    return
  kw = [(k, x) for k, x in v.args[2]]
  d = {k: x for k, x in kw if isinstance(k, str)}
  ctx.ob('variants', w, d.get('variant') is sym('k'), f'the variant is {t.show(d.get("variant", NONE), 3)}')
  st = [x for k, x in kw if not isinstance(k, str)]
  own = t.item(cf, sym('k'))
  if len(st) == 1: ctx.ob('variants', w, t.mentions(st[0], own), f'the options of a variant are {t.show(st[0], 4)}')


def num_examples(ctx):
  GB = f'{BD}.get_dataset_builder'
  r = ctx.analyze(f'{I}:get_data_num_examples', opaque=[GB])
  w = f'{r.file} get_data_num_examples'
  if not (r.ret.op == 'attr' and r.ret.args[1] == 'num_examples' and is_op(r.ret.args[0], GB)):
    ctx.undecided('num-examples', w, t.show(r.ret, 4))
    return
  st = [x for k, x in r.ret.args[0].args[2] if not isinstance(k, str)]
  if len(st) != 1: return
  fields = [f for f in ctx.eng.obj_fields(f'{BD}:TfdsBuilder')] if hasattr(ctx.eng, 'obj_fields') else ['name', 'split', 'data_dir', 'manual_dir', 'try_gcs', 'shuffle_seed', 'ignore_errors']
  src = raw('call', t.attr(sym('config'), 'to_dict'), (), ())
  for n in fields:
    try: c, v = dicts.look(st[0], const(n))
    except dicts.Opaque as e:
      ctx.undecided('num-examples', w, str(e))
      return
    c = t.cond(c)
    ctx.ob('num-examples', w, c is t.cond(t.in_(const(n), src)), f'{n} of the configuration does not reach the data set whose examples are counted')
  for n in ('batch_size', 'process', 'cache', 'num_parallel_calls', 'prefetch', 'prefetch_device', 'shuffle_buffer', 'pre_filter_fn'):
    c, v = dicts.look(st[0], const(n))
    ctx.ob('num-examples', w, t.cond(c) is t.cond(FALSE), f'{n} is passed to the data set builder, which does not accept it')


def process_fn(ctx):
  PC = 'vmoe.utils.parse_call'
  r = ctx.analyze(f'{I}:get_data_process_fn', opaque=[PC], then=[sym('data')])
  w = f'{r.file} get_data_process_fn'
  x = r.ret
  if not (x.op == 'item' and t.is_const(x.args[1], 0) and x.args[0].op == 'fold'):
    ctx.undecided('composition', w, t.show(x, 4))
    return
  dom, ini, lam = x.args[0].args[:3]
  ps = sym('process_str')
  want = raw('call', t.attr(ps, 'split'), (const('|'),), ())
  if q.is_mcall(dom, 'split'): ctx.ob('composition', w, dom is want, f'the operations are {t.show(dom, 3)}')
  else: ctx.ob('composition', w, not q.is_call(dom, 'reversed', 'sorted', 'set'), f'the operations are applied in the order {t.show(dom, 3)}')
  ctx.ob('composition', w, ini.op == 'tuple' and ini.args[0] is sym('data'), 'the first operation does not get the data')
  (i, acc), b = t.open_lam(lam)
  o = b.args[0] if b.op == 'tuple' else b
  pc = raw('call', raw('opaque', PC), (raw('nth', dom, i), raw('mod', 'vmoe.data.pp_ops')), ())
  ok = o.op == 'call' and list(o.args[1]) == [acc]
  ctx.ob('composition', w, ok, f'an operation is applied to {t.show(o, 4)}')
  if ok and o.args[0].op == 'call':
    f = o.args[0]
    ctx.ob('composition', w, f.args[0] is t.item(pc, const(0)), f'the operation is {t.show(f.args[0], 4)}')
    ctx.ob('composition', w, any(y.op == 'star' and y.args[0] is t.item(pc, const(1)) for y in f.args[1] if isinstance(y, T)) and any(not isinstance(k, str) and y is t.item(pc, const(2)) for k, y in f.args[2]), 'the arguments of an operation are not the ones written in the description')
  if b.op == 'tuple': ctx.ob('composition', w, b.args[-1] is FALSE, 'the operations after some point are not applied')


# ---------------------------------------------------------------- C24
@prop('C24', 'Queue-protocol (typestate) analysis of the prefetch buffer: every drawn batch enters the queue once and leaves in order, the buffer is drained; value-flow terms of the pieces put on each device and of the global shapes and shardings.', floor=15)
def c24(ctx):
  ctx.section(prefetch)
  ctx.section(devices)
  ctx.section(shapes)


def mesh_of(ctx):
  m = sym('mesh')
  return [m, raw('attr', glob('jax.interpreters.pxla.thread_resources.env'), 'physical_mesh')]


def globally(ctx, w, F, fix):
  """The function that makes global arrays of a leaf."""
  x = sym('x')
  b = t.assume(t.beta(F, [x]), fix)
  arr = sorted({y for y in t.subterms(b) if q.is_call(y, 'jax.make_array_from_single_device_arrays')}, key=lambda y: y.uid)
  if not arr:
    ctx.undecided('placed', w, t.show(b, 3))
    return
  host = [y for y in (x, raw('call', glob('numpy.asarray'), (x,), ()), raw('call', glob('numpy.asarray'), (raw('call', glob('memoryview'), (x,), ()),), ()))]
  for y in arr:
    a = dict(zip(('shape', 'sharding', 'arrays'), y.args[1]))
    a.update(q.kws(y))
    put = a.get('arrays', NONE)
    if not is_op(put, f'{J}.put_to_devices'):
      ctx.undecided('placed', w, t.show(put, 3))
      continue
    pa = dict(zip(('host_array', 'local_devices'), put.args[1]))
    pa.update(q.kws(put))
    h = pa.get('host_array', NONE)
    if h not in host:
      ctx.undecided('placed', w, t.show(h, 3))
      continue
    ctx.ob('placed', w, pa.get('local_devices') is t.attr(sym('mesh'), 'local_devices'), f'the data is put on {t.show(pa.get("local_devices", NONE), 3)}')
    sharded(ctx, w, a.get('sharding', NONE))
    global_shape(ctx, w, a.get('shape', NONE), t.attr(h, 'shape'))
  for lits, lf in t.leaves(b):
    ctx.ob('values-kept', w, lf in arr or lf in host, f'a leaf of the batch becomes {t.show(lf, 4)}')
  for kind in KINDS:
    for lits, lf in t.leaves(b):
      vs = [(v, dtype_test(k, kind)) for k, v in lits.items()]
      if any(y is not None and y != v for v, y in vs): continue
      if any(y is None for v, y in vs):
        if lf in arr and kind != 'str' or lf in host and kind == 'str': continue
        ctx.undecided('arrays-placed', w, f'{kind}: {[t.show(k, 3) for k in lits]}')
      else: ctx.ob('arrays-placed', w, (lf in arr) == (kind != 'str'), f'arrays of {kind} become {t.show(lf, 3)}')


KINDS = ('floats', 'integers', 'booleans', 'str')
SUB = {'numpy.number': {'floats', 'integers'}, 'numpy.floating': {'floats'}, 'numpy.inexact': {'floats'}, 'numpy.integer': {'integers'}, 'numpy.bool_': {'booleans'}, 'bool': {'booleans'},
       'numpy.signedinteger': set(), 'numpy.unsignedinteger': set(), 'numpy.generic': set(KINDS)}


def dtype_test(a, kind):
  """Outcome of a test of the type of an array of the given kind (None: unknown)."""
  if a.op == 'isinstance' and t.contains(a.args[1], lambda y: y.op == 'glob' and 'Ragged' in y.args[0]): return False
  if a.op == 'truth': a = a.args[0]
  if q.is_call(a, 'numpy.issubdtype') and len(a.args[1]) == 2 and a.args[1][1].op == 'glob':
    s = SUB.get(a.args[1][1].args[0])
    return None if s is None else kind in s
  if a.op == 'eq':
    g = [y.args[0] for y in a.args if y.op == 'glob']
    if g and g[0] in ('bool', 'numpy.bool_'): return kind == 'booleans'
  return None


def sharded(ctx, w, s):
  if not q.is_call(s, 'jax.sharding.NamedSharding'):
    ctx.undecided('sharding', w, t.show(s, 3))
    return
  a = dict(zip(('mesh', 'spec'), s.args[1]))
  a.update(q.kws(s))
  ctx.ob('sharding', w, a.get('mesh') is sym('mesh'), f'the sharding uses the mesh {t.show(a.get("mesh", NONE), 3)}')
  sp = a.get('spec', NONE)
  if q.is_call(sp, 'jax.sharding.PartitionSpec'): ctx.ob('sharding', w, len(sp.args[1]) == 1 and sp.args[1][0] is t.attr(sym('mesh'), 'axis_names'), f'the first axis is not divided among all devices: {t.show(sp, 4)}')
  else: ctx.undecided('sharding', w, t.show(sp, 3))


def global_shape(ctx, w, s, local):
  n = raw('call', glob('jax.process_count'), (), ())
  parts = flat_shape(s)
  want0 = t.mul(t.item(local, const(0)), n)
  tail = t.item(local, raw('slice', const(1), NONE, NONE))
  if parts is None or len(parts) != 2: ctx.undecided('global-shape', w, t.show(s, 4))
  else: ctx.ob('global-shape', w, parts[0] is want0 and parts[1] is tail, f'the global shape is {t.show(s, 5)}, not (batch times processes, rest)')


def flat_shape(s):
  """(first, rest) of a shape term."""
  if s.op == 'cat' and len(s.args) == 2 and s.args[0].op in ('tuple', 'list') and len(s.args[0].args) == 1: return [s.args[0].args[0], s.args[1]]
  if s.op in ('tuple', 'list') and len(s.args) == 2 and s.args[1].op == 'star': return [s.args[0], s.args[1].args[0]]
  return None


QUEUE_IN = {'append': 'r', 'appendleft': 'l', 'put': 'r'}
QUEUE_OUT = {'popleft': 'l', 'pop': 'r', 'get': 'l'}


def prefetch(ctx):
  r = ctx.analyze(f'{J}:prefetch_to_device', opaque=[f'{J}.put_to_devices'])
  w = f'{r.file} prefetch_to_device'
  size, it = sym('size'), sym('iterator')
  base = {raw('truth', sym('mesh')): True}
  isn = raw('is', *sorted([NONE, size]))
  cmp = lambda s: {t.lt(const(0), size): s > 0, t.lt(size, const(0)): s < 0, t.eq(size, const(0)): s == 0, t.lt(size, const(1)): s <= 0}
  pos = {raw('truth', size): True, **cmp(1), isn: False}
  neg = {raw('truth', size): True, **cmp(-1), isn: False}
  off = {raw('truth', size): False, **cmp(0)}
  for mode, fix in (('without prefetching', off), ('without prefetching', neg), ('with prefetching', pos)):
    f = {**base, **fix}
    live = lambda e: t.assume(t.val(e.pc), f)
    ys = [e for e in r.events if e.kind == 'yield' and live(e) is not FALSE]
    wm = f'{w} ({mode})'
    if not ys:
      ctx.ob('every-batch', wm, bool([e for e in r.events if e.kind == 'yield']) is False, 'no batch is produced')
      continue
    if mode == 'without prefetching':
      for e in ys:
        if len(e.loops) != 1 or source(e.loops[-1].domain) is not it:
          ctx.undecided('every-batch', wm, 'loop')
          continue
        l = e.loops[-1]
        ctx.ob('every-batch', wm, live(e) is TRUE and l.early is FALSE and l.domain is it, 'some batches are skipped')
        item(ctx, wm, t.assume(e.args[0], f), raw('nth', l.domain, l.idx), f)
      ctx.ob('once', wm, len(ys) == 1, 'a batch is produced twice')
      continue
    qs = {e.fn.args[0] for e in r.events if e.kind == 'call' and e.fn.op == 'attr' and q.is_call(e.fn.args[0], 'collections.deque', 'queue.Queue') and live(e) is not FALSE}
    if len(qs) != 1:
      ctx.undecided('queue', wm, f'{len(qs)} queues')
      continue
    Q = next(iter(qs))
    ctx.ob('queue', wm, Q.op == 'call' and not any(k == 'maxlen' for k, _ in Q.args[2]) and len(Q.args[1]) < 2, 'a bounded queue silently drops the oldest batches')
    ops = [e for e in r.events if e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[0] is Q and live(e) is not FALSE]
    ins = [e for e in ops if e.fn.args[1] in QUEUE_IN]
    outs = [e for e in ops if e.fn.args[1] in QUEUE_OUT]
    oth = [e for e in ops if e not in ins and e not in outs]
    if any(e.fn.args[1] in ('clear', 'rotate', 'reverse') for e in oth): ctx.ob('queue', wm, False, f'the queue is changed by {[e.fn.args[1] for e in oth]}')
    elif oth:
      ctx.undecided('queue', wm, f'{[e.fn.args[1] for e in oth]}')
      continue
    kin = {QUEUE_IN[e.fn.args[1]] for e in ins}
    kout = {'l' if e.fn.args[1] == 'pop' and e.args and t.is_const(e.args[0], 0) else QUEUE_OUT[e.fn.args[1]] for e in outs}
    ctx.ob('order', wm, (kin, kout) in (({'r'}, {'l'}), ({'l'}, {'r'})), f'batches enter by {sorted({e.fn.args[1] for e in ins})} and leave by {sorted({e.fn.args[1] for e in outs})}: not in order')
    for e in ins:
      l = e.loops[-1] if e.loops else None
      if l is None or source(l.domain) is not it:
        # drawn with next()
        ctx.undecided('every-batch', wm, 'batches drawn outside a loop')
        continue
      c = live(e)
      ctx.ob('every-batch', wm, c is TRUE and l.early is FALSE, f'a batch drawn from the iterator is kept only if {t.show(c, 3)}')
      item(ctx, wm, t.assume(e.args[0], f), raw('nth', l.domain, l.idx), f)
    oloops = [e.loops[-1] for e in outs if e.loops]
    for e in outs:
      res = raw('call', e.fn, tuple(e.args), tuple(e.kwargs))
      yy = [y for y in ys if y.args and y.args[0] is res and y.loops == e.loops]
      ctx.ob('every-batch', wm, bool(yy) and all(t.assume(t.val(y.pc), f) is live(e) for y in yy), 'a batch taken from the queue is not produced')
      ctx.ob('once', wm, len(yy) <= len([x for x in outs if x.loops == e.loops]), 'a batch is produced twice')
    for y in ys:
      if not any(y.args[0] is raw('call', e.fn, tuple(e.args), tuple(e.kwargs)) for e in outs): ctx.undecided('every-batch', wm, f'produced {t.show(y.args[0], 3)}')
    whiles = [e for e in outs if e.loops and e.loops[-1].domain.op == 'while']
    if not whiles:
      ctx.undecided('drained', wm, 'the queue is not emptied by a while loop')
      continue
    for e in whiles:
      l = e.loops[-1]
      ctx.ob('drained', wm, l.early is FALSE, 'the loop stops while the queue still holds batches')
      cnd = [y for y in t.subterms(r.ret) if y.op == 'while']
      for y in cnd:
        if not t.mentions(y, Q): continue
        c = [z for z in y.args if isinstance(z, T) and z.op == 'lam'][:1]
        if c:
          b = t.open_lam(c[0])[1]
          full = raw('truth', Q)
          ln = raw('call', glob('len'), (Q,), ())
          good = {t.val(t.cond(full)), t.val(t.cond(t.lt(const(0), ln))), t.val(t.cond(ln)), t.val(t.cond(t.not_(t.eq(ln, const(0)))))}
          bb = t.val(t.cond(b))
          if bb in good: ctx.ob('drained', wm, True)
          elif t.mentions(bb, Q): ctx.ob('drained', wm, False, f'batches left in the queue are lost: the loop runs while {t.show(bb, 3)}')
          else: ctx.undecided('drained', wm, t.show(bb, 3))
      fill = [x for x in ins if l in x.loops]
      pre = [x for x in ins if l not in x.loops and x.seq < e.seq]
      whole = [x for x in pre if x.loops and x.loops[-1].domain is it]
      ctx.ob('refilled', wm, bool(fill) or bool(whole), 'the queue is not filled again: batches after the first ones are lost')
      for x in fill: positive(ctx, wm, x.loops[-1].domain)
      ctx.ob('filled', wm, bool(pre), 'the queue is empty when the loop starts: no batch is produced')
      for x in pre: positive(ctx, wm, x.loops[-1].domain)


def positive(ctx, w, d):
  if q.is_call(d, 'itertools.islice'):
    a = d.args[1]
    if len(a) == 2:
      n = a[1]
      if t.is_const(n): ctx.ob('refilled', w, n is not NONE and n.args[1] > 0, f'{t.show(n, 3)} batches are drawn at a time')
      elif n is sym('size') or t.contains(n, lambda y: q.is_call(y, 'max')): ctx.ob('refilled', w, True)
      else:
        p = t.poly_of(n)
        k = p.pop((), 0)
        if p == {((sym('size'), 1),): 1} and isinstance(k, int): ctx.ob('refilled', w, k >= 0, f'{t.show(n, 3)} batches are drawn: none if size is 1')
        else: ctx.undecided('refilled', w, t.show(n, 3))
    else: ctx.ob('every-batch', w, False, f'batches are skipped by {t.show(d, 3)}')


def source(d):
  while q.is_call(d, 'itertools.islice', 'iter', 'enumerate') and d.args[1]: d = d.args[1][0]
  return d


def item(ctx, w, x, want, fix):
  if not (q.is_call(x, MAP) and len(x.args[1]) == 2):
    if x is want: ctx.ob('placed', w, False, 'the batch is not transferred to the devices')
    else: ctx.undecided('placed', w, t.show(x, 3))
    return
  ctx.ob('every-batch', w, x.args[1][1] is want, f'{t.show(x.args[1][1], 3)} is produced instead of the batch')
  F = x.args[1][0]
  if F.op == 'lam': globally(ctx, w, F, fix)
  else: ctx.undecided('placed', w, t.show(F, 3))


def devices(ctx):
  r = ctx.analyze(f'{J}:put_to_devices')
  w = f'{r.file} put_to_devices'
  h, d = sym('host_array'), sym('local_devices')
  x = r.ret
  if not (x.op == 'map' and x.args[2] is TRUE):
    ctx.undecided('pieces', w, t.show(x, 3))
    return
  (i,), b = t.open_lam(x.args[0])
  if not q.is_call(b, 'jax.device_put'):
    ctx.undecided('pieces', w, t.show(b, 3))
    return
  a = dict(zip(('x', 'device'), b.args[1]))
  a.update(q.kws(b))
  ctx.ob('pieces', w, a.get('device') is raw('nth', d, i), f'piece i is put on {t.show(a.get("device", NONE), 3)}')
  p = a.get('x', NONE)
  n = raw('call', glob('len'), (d,), ())
  if p.op in ('nth', 'item') and q.is_call(p.args[0], 'numpy.split', 'numpy.array_split', 'jax.numpy.split'):
    s = p.args[0]
    sa = dict(zip(('ary', 'indices_or_sections', 'axis'), s.args[1]))
    sa.update(q.kws(s))
    ctx.ob('pieces', w, p.args[1] is i, f'device i gets piece {t.show(p.args[1], 3)}')
    ctx.ob('pieces', w, sa.get('ary') is h, f'{t.show(sa.get("ary", NONE), 3)} is divided')
    ctx.ob('pieces', w, sa.get('indices_or_sections') is n, f'the data is divided in {t.show(sa.get("indices_or_sections", NONE), 3)} pieces for {t.show(n, 3)} devices')
    ctx.ob('pieces', w, t.is_const(sa.get('axis', const(0)), 0), f'axis {t.show(sa.get("axis", NONE), 3)} is divided')
    ctx.ob('even-pieces', w, not q.is_call(s, 'numpy.array_split'), 'a batch that does not divide the devices is accepted and unevenly divided')
  elif p is h: ctx.ob('pieces', w, False, 'every device gets the whole batch')
  else: ctx.undecided('pieces', w, t.show(p, 3))


def shapes(ctx):
  r = ctx.analyze(f'{J}:get_dataset_shape_dtype_struct')
  w = f'{r.file} get_dataset_shape_dtype_struct'
  x = t.assume(r.ret, {raw('truth', sym('mesh')): True})
  if not (q.is_call(x, MAP) and len(x.args[1]) == 2 and x.args[1][0].op == 'lam'):
    ctx.undecided('announced', w, t.show(x, 3))
    return
  ctx.ob('announced', w, x.args[1][1] is t.attr(sym('iterator'), 'element_spec'), f'the announced arrays are those of {t.show(x.args[1][1], 3)}')
  (s,), b = t.open_lam(x.args[1][0])
  b = t.assume(b, {raw('truth', sym('mesh')): True})
  if not q.is_call(b, 'jax.ShapeDtypeStruct'):
    ctx.undecided('announced', w, t.show(b, 3))
    return
  a = dict(zip(('shape', 'dtype'), b.args[1]))
  a.update(q.kws(b))
  global_shape(ctx, w, a.get('shape', NONE), t.attr(s, 'shape'))
  sharded(ctx, w, a.get('sharding', NONE))
  ctx.ob('announced', w, t.mentions(a.get('dtype', NONE), t.attr(s, 'dtype')), f'the announced type is {t.show(a.get("dtype", NONE), 3)}')

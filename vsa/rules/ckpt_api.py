"""C38: saving, restoring and removing checkpoints do what their arguments say."""
import ast
from .. import terms as t
from .. import q
from ..terms import TRUE, FALSE, NONE, raw, const, glob, sym
from ..framework import prop, where
from .checkpoint_base import OPENERS, RENAMES, REMOVES, write_mode
from .partitioned import PI, strip, opq

B = 'vmoe.checkpoints.base'
M = 'vmoe.checkpoints.partitioned'
S = 'vmoe.checkpoints.serialization.'
SER = [S + 'to_bytes', S + 'from_bytes', S + 'msgpack_restore']
MAKEDIRS = ('tensorflow.io.gfile.makedirs', 'os.makedirs')
EXISTS = ('tensorflow.io.gfile.exists', 'tensorflow.io.gfile.isdir', 'os.path.exists', 'os.path.isdir')
BARRIERS = ('jax.experimental.multihost_utils.sync_global_devices',)


def dirname(p): return raw('call', glob('os.path.dirname'), (p,), ())


def flag(v, want):
  """v is the given boolean (a literal, or the same truth)."""
  return t.cond(v) is (TRUE if want else FALSE)


def assigned(pc, d):
  """pc when the directory is missing."""
  v = pc
  return t.assume(v, {a: False for a in t.inner_atoms(v) if t.contains(a, lambda y: q.is_call(y, *EXISTS) and y.args[1] and y.args[1][0] is d)})


def defaults(ctx, path, names):
  mod, fn = path.split(':')
  f = ctx.eng.module(mod)
  node = next((n for n in f.tree.body if isinstance(n, ast.FunctionDef) and n.name == fn), None)
  if node is None: return
  a = node.args
  pos = dict(zip([x.arg for x in (a.posonlyargs + a.args)][::-1], a.defaults[::-1]))
  pos.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
  for n, want in names.items():
    d = pos.get(n)
    if d is None: ctx.undecided('default', f'{fn}({n})', 'no default found'); continue
    if not isinstance(d, ast.Constant): ctx.undecided('default', f'{fn}({n})', ast.unparse(d)); continue
    ctx.ob('documented-default', f'{fn}({n})', type(d.value) is type(want) and d.value == want, f'default is {d.value!r}, documented {want!r}')


def write_one(ctx):
  """base.save_checkpoint."""
  fp, wd = sym('filepath'), dirname(sym('filepath'))
  for ow in (True, False):
    for mk in (True, False):
      r = ctx.analyze(f'{B}:save_checkpoint', bind=dict(overwrite=const(ow), makedirs=const(mk)), opaque=SER)
      w = f'{where(r)} overwrite={ow} makedirs={mk}'
      rn = q.ev(r, *RENAMES)
      ops = [e for e in q.ev(r, *OPENERS) if write_mode(e)]
      for e in rn:
        if e.fn.args[0].startswith('tensorflow.'):
          ctx.ob('overwrite-honoured', w, flag(q.ekw(e, 'overwrite', 2, FALSE), ow), f'published with overwrite={t.show(q.ekw(e, "overwrite", 2, FALSE), 4)}')
      made = q.ev(r, *MAKEDIRS)
      if not mk: ctx.ob('no-directory-made', w, all(e.pc is FALSE for e in made), 'a directory is created although the caller asked not to')
      else:
        for o in ops:
          d = q.split_path(q.ekw(o, 'name', 0))
          good = [e for e in made if e.seq < o.seq and e.args and (d is None or e.args[0] is d[0]) and t.implies(o.pc, assigned(e.pc, e.args[0]))]
          ctx.ob('directory-made', w, bool(good), 'the directory of the file is not created when it does not exist')
      writes = [e for e in q.mev(r, 'write') if any(opq(x, 'to_bytes') for a in e.args for x in t.subterms(a))]
      ctx.ob('serialized', w, bool(writes) and all(q.kwarg(x, 'target', 0) is sym('tree') for e in writes for a in e.args for x in t.subterms(a) if opq(x, 'to_bytes')), 'what is written is not the serialized tree')


def handed(r, e):
  """(filepath, tree, keyword arguments) of a call handed to a thread pool."""
  f = q.ekw(e, 'func', 0)
  args, kw = q.ekw(e, 'args', 1, raw('tuple')), q.ekw(e, 'kwds', 2, raw('dict'))
  return f, args, kw


def write_async(ctx):
  SAVE = f'{B}.save_checkpoint'
  for ow in (True, False):
    for mk in (True, False):
      b = dict(overwrite=const(ow), makedirs=const(mk))
      # one file
      r = ctx.analyze(f'{B}:save_checkpoint_async', bind=b, opaque=SER + [SAVE])
      w = f'{where(r)} overwrite={ow} makedirs={mk}'
      subs = [e for e in q.mev(r, 'apply_async', 'submit', 'apply') if e.pc is not FALSE]
      if not subs: ctx.undecided('async-save', w, 'no task is handed to a pool')
      ctx.ob('async-always-submitted', w, not subs or q_any(e.pc for e in subs), 'on some path nothing is handed to the pool')
      for e in subs:
        f, args, kw = handed(r, e)
        if f is not None and f.op == 'opaque' and f.args[0] == SAVE:
          if args.op not in ('tuple', 'list') or kw.op != 'dict': ctx.undecided('async-save', w, f'arguments {t.show(args, 3)} {t.show(kw, 3)}'); continue
          c = raw('call', f, tuple(args.args), tuple((k.args[1], v) for k, v in kw.args if t.is_const(k)))
        elif f is not None and f.op == 'lam':
          c = t.open_lam(f)[1]
        else: c = None
        one_save(ctx, w, c, sym('filepath'), sym('tree'), ow, mk)
      # several files
      r = ctx.analyze(f'{B}:save_multiple_checkpoints_async', bind=b, opaque=SER + [SAVE])
      w = f'{where(r)} overwrite={ow} makedirs={mk}'
      subs = [e for e in q.mev(r, 'map_async', 'map', 'imap', 'starmap', 'starmap_async', 'imap_unordered') if e.pc is not FALSE]
      if not subs: ctx.undecided('async-save', w, 'no task is handed to a pool')
      ctx.ob('async-always-submitted', w, not subs or q_any(e.pc for e in subs), 'on some path nothing is handed to the pool')
      for e in subs:
        f, dom = e.args[0], e.args[1] if len(e.args) > 1 else q.ekw(e, 'iterable')
        m = sym('filepath_tree_map')
        ok = dom is not None and (q.is_mcall(strip(dom), 'items') and strip(dom).args[0].args[0] is m or strip(dom).op == 'items' and strip(dom).args[0] is m)
        if not ok: ctx.undecided('async-save', w, f'tasks over {t.show(dom, 4) if dom is not None else None}'); continue
        if f.op != 'lam': ctx.undecided('async-save', w, f'task {t.show(f, 4)}'); continue
        i, body = t.open_lam(f)
        if len(i) == 2: one_save(ctx, w, body, i[0], i[1], ow, mk)
        else: one_save(ctx, w, body, t.item(i[0], const(0)), t.item(i[0], const(1)), ow, mk)


def q_any(pcs):
  x = FALSE
  for p in pcs: x = t.b_or(x, p)
  return x is TRUE


def one_save(ctx, w, c, fp, tree, ow, mk):
  if c is None or not opq(c, 'save_checkpoint'):
    ctx.undecided('async-save', w, f'task {t.show(c, 4) if c is not None else None}')
    return
  a = c.args[1]
  if len(a) == 1 and a[0].op == 'star': ok = fp.op == 'item' and a[0].args[0] is fp.args[0]
  else: ok = q.kwarg(c, 'filepath', 0) is fp and q.kwarg(c, 'tree', 1) is tree
  ctx.ob('saves-own-tree', w, ok, f'saves {t.show(c, 4)}')
  ctx.ob('overwrite-passed', w, flag(q.kwarg(c, 'overwrite', None, TRUE), ow), f'overwrite={ow} becomes {t.show(q.kwarg(c, "overwrite", None, TRUE), 3)}')
  ctx.ob('makedirs-passed', w, flag(q.kwarg(c, 'makedirs', None, TRUE), mk), f'makedirs={mk} becomes {t.show(q.kwarg(c, "makedirs", None, TRUE), 3)}')


def write_sharded(ctx):
  prefix = sym('prefix')
  SM = f'{B}.save_multiple_checkpoints_async'
  for ow in (True, False):
    for mk in (True, False):
      r = ctx.analyze(f'{M}:save_checkpoint', bind=dict(overwrite=const(ow), makedirs=const(mk)), opaque=SER + [SM] + [
          f'{M}.{x}' for x in ('_create_map_slicend_to_array_shards', '_create_map_slicend_to_checkpoint_shard', '_update_lazy_array_chunks_with_leaf', '_create_map_filepath_to_data')])
      w = f'{where(r)} overwrite={ow} makedirs={mk}'
      sv = [e for e in r.events if e.kind == 'call' and e.fn is not None and e.fn.op == 'opaque' and e.fn.args[0] == SM]
      if not sv: ctx.undecided('sharded-save', w, 'the atomic writer is not called'); continue
      for e in sv:
        ctx.ob('overwrite-passed', w, flag(q.ekw(e, 'overwrite', None, TRUE), ow), f'overwrite={ow} becomes {t.show(q.ekw(e, "overwrite", None, TRUE), 3)}')
        each = q.ekw(e, 'makedirs', None, TRUE)
        made = [x for x in q.ev(r, *MAKEDIRS) if x.pc is not FALSE]
        if not mk:
          ctx.ob('no-directory-made', w, flag(each, False) and not made, 'a directory is created although the caller asked not to')
          continue
        if flag(each, True): ctx.ob('directory-made', w, True); continue
        is0 = t.eq(PI, const(0))
        good = [x for x in made if x.seq < e.seq and x.args and x.args[0] is dirname(prefix) and t.assume(assigned(x.pc, x.args[0]), {is0: True}) is TRUE]
        ctx.ob('directory-made', w, bool(good), 'process 0 does not create the directory of the prefix before saving')
        for x in good:
          if x.pc is TRUE or assigned(x.pc, x.args[0]) is TRUE: continue
          bars = [y for y in r.events if y.kind == 'call' and y.fn is not None and x.seq < y.seq < e.seq and y.pc is TRUE
                  and (y.fn.op == 'glob' and ('sync_global_devices' in y.fn.args[0] or y.fn.args[0].rsplit('.', 1)[-1] in ('psum', 'process_allgather', 'wait_at_barrier'))
                       or y.fn.op == 'opaque' and y.fn.args[0].endswith('sync_devices'))]
          ctx.ob('wait-for-directory', w, bool(bars), 'processes write before process 0 has created the directory')


def read_one(ctx):
  r = ctx.analyze(f'{B}:restore_checkpoint', opaque=SER)
  w = where(r)
  fp, tree = sym('filepath'), sym('tree')
  ops = q.ev(r, *OPENERS)
  ctx.ob('opens-file', w, bool(ops) and all(q.ekw(e, 'name', 0) is fp and not write_mode(e) and t.is_const(q.ekw(e, 'mode', 1, const('r'))) and 'b' in str(q.ekw(e, 'mode', 1, const('r')).args[1]) for e in ops), 'the requested file is not opened for reading bytes')
  none = t.is_(tree, NONE)
  for nn in (True, False):
    v = t.assume(r.ret, {none: nn})
    got = [x for x in t.subterms(v) if opq(x, 'msgpack_restore') or opq(x, 'from_bytes')]
    if not ctx.ob('restore-with-or-without-target', f'{w} tree {"absent" if nn else "given"}', len(got) == 1 and got[0] is v and opq(v, 'msgpack_restore' if nn else 'from_bytes'),
                  f'restores {t.show(v, 4)}'): continue
    if not nn: ctx.ob('target-is-tree', w, q.kwarg(v, 'target', 0) is tree, f'target {t.show(q.kwarg(v, "target", 0), 4)}')
    data = q.kwarg(v, 'encoded_bytes', len(v.args[1]) - 1)
    ctx.ob('reads-file', w, data is not None and any(q.is_mcall(y, 'read') and any(q.is_call(z, *OPENERS) for z in t.subterms(y)) for y in t.subterms(data)) and q.is_mcall(data, 'read') and not data.args[1] and not data.args[2],
           f'decodes {t.show(data, 4) if data is not None else None}')
  r = ctx.analyze(f'{B}:restore_multiple_checkpoints', opaque=SER + [f'{B}.restore_checkpoint'])
  w = where(r)
  m = sym('filepath_tree_map')
  cs = [x for x in t.subterms(r.ret) if opq(x, 'restore_checkpoint')]
  if not cs: ctx.undecided('restore-many', w, t.show(r.ret, 5))
  # each file with its own tree
  for e in r.events:
    if e.kind == 'call' and e.fn is not None and e.fn.op == 'opaque' and e.fn.args[0].endswith('.restore_checkpoint'):
      f, tr = q.ekw(e, 'filepath', 0), q.ekw(e, 'tree', 1, NONE)
      ok = (f.op == 'item' and tr.op == 'item' and f.args[0] is tr.args[0] and f.args[1] is const(0) and tr.args[1] is const(1)) or (tr.op == 'item' and tr.args[1] is f) or (f.op in ('sym', 'nth') and tr.op in ('sym', 'nth') and f is not tr and tr is not NONE)
      ctx.ob('own-target', w, ok, f'{t.show(f, 3)} is restored into {t.show(tr, 3)}')


def remove(ctx):
  fn, fps = sym('match_fn'), sym('filepaths')
  r = ctx.analyze(f'{B}:remove_checkpoints')
  w = where(r)
  rm = q.ev(r, *REMOVES)
  for e in q.mev(r, 'map', 'map_async', 'imap', 'imap_unordered'):
    # the removal itself is the task
    if len(e.args) < 2 or e.args[0].op != 'glob' or e.args[0].args[0] not in REMOVES: continue
    m = strip(e.args[1])
    if m.op == 'map' and m.args[1] is fps:
      i, b = t.open_lam(m.args[0])
      f = t.beta(m.args[2], [i[0]]) if m.args[2].op == 'lam' else m.args[2]
      x = t.nth(fps, i[0])
      ctx.ob('removes-exactly-matching', w, b is x and t.cond(f) is t.cond(raw('call', fn, (x,), ())), f'removes {t.show(b, 3)} when {t.show(f, 4)}')
    elif q.is_call(m, 'filter') and m.args[1][1] is fps: ctx.ob('removes-exactly-matching', w, m.args[1][0] is fn, f'removes {t.show(m, 4)}')
    else: ctx.undecided('removes', w, t.show(m, 4))
    return
  if not ctx.ob('removes', w, bool(rm), 'nothing is removed'): return
  for e in rm:
    f = e.args[0]
    match = t.cond(raw('call', fn, (f,), ()))
    if not ctx.ob('removes-only-matching', w, t.implies(e.pc, match), f'{t.show(f, 3)} is removed when {t.show(e.pc, 4)}'): continue
    rest = t.assume(e.pc, {a: True for a in t.cond_atoms(match)})
    left = [a for a in t.cond_atoms(rest) if not t.contains(a, lambda y: y is sym('thread_pool'))]
    ctx.ob('removes-every-matching', w, rest is not FALSE and not left and not q.early(e), f'a matching file is kept when not {t.show(rest, 4)}')


def read_sharded(ctx):
  PRE = f'{M}._restore_checkpoint_from_index'
  r = ctx.analyze(f'{M}:restore_checkpoint', opaque=SER + [PRE, f'{B}.restore_checkpoint'])
  w = where(r)
  prefix, tree = sym('prefix'), sym('tree')
  idx = [e for e in r.events if e.kind == 'call' and e.fn is not None and e.fn.op == 'opaque' and e.fn.args[0] == f'{B}.restore_checkpoint']
  if not ctx.ob('reads-index', w, bool(idx) and all(q.ekw(e, 'filepath', 0) is t.strcat([prefix, const('.index')]) for e in idx), 'the index is not read from <prefix>.index'): return
  content = idx[0].value
  enums = sorted({x.args[1] for x in t.subterms(r.ret) if x.op == 'enum' and x.args[0].endswith('.Version')} | {x.args[1] for e in r.events for x in t.subterms(t.val(e.pc)) if x.op == 'enum' and x.args[0].endswith('.Version')})
  def at(v, name, none):
    d = {t.is_(tree, NONE): none}
    for a in t.inner_atoms(v):
      if a.op in ('eq', 'is') and any(y.op == 'enum' and y.args[0].endswith('.Version') for y in a.args):
        e = next(y for y in a.args if y.op == 'enum')
        d[a] = e.args[1] == name
    return t.assume(v, d)
  if not enums: ctx.undecided('version-dispatch', w, 'no test of the version'); return
  ver = [x for x in t.subterms(r.ret) if x.op == 'getdef' and t.is_const(x.args[1], 'version')]
  gets = [x for e in r.events for x in t.subterms(t.val(e.pc)) if x.op == 'getdef' and t.is_const(x.args[1], 'version')]
  for x in ver + gets:
    ctx.ob('version-read', w, x.args[0] is content and (x.args[2] is NONE or x.args[2].op == 'enum' and x.args[2].args[1] == 'UNKNOWN'), f'version is {t.show(x, 5)}')
  rs = q.raises(r)
  for name in ('UNKNOWN', 'V1', None):
    for none in (True, False):
      lab = f'{w} version {name or "other"}, tree {"absent" if none else "given"}'
      fail = [e for e in rs if at(e.pc, name, none) is TRUE]
      if name is None or (name == 'UNKNOWN' and none):
        ctx.ob('unsupported-refused', lab, bool(fail), 'restoring does not raise')
        continue
      ctx.ob('supported-accepted', lab, not fail, 'restoring raises')
      v = at(r.ret, name, none)
      cs = [x for x in t.subterms(v) if opq(x, '_restore_checkpoint_from_index')]
      if not ctx.ob('restores', lab, len(set(cs)) == 1, f'returns {t.show(v, 4)}'): continue
      c = cs[0]
      g = lambda k, p: q.kwarg(c, k, p)
      ctx.ob('reads-own-prefix', lab, g('prefix', 0) is prefix, f'prefix {t.show(g("prefix", 0), 3)}')
      ctx.ob('shard-count-from-index', lab, g('shard_count', 1) is t.item(content, const('shard_count')), f'shard count {t.show(g("shard_count", 1), 4)}')
      ix, sh = g('index', 2), g('sharding', 3)
      stored = t.item(content, const('index'))
      if name == 'UNKNOWN':
        ctx.ob('legacy-index', lab, q.is_call(ix, 'flax.serialization.from_state_dict') and q.kwarg(ix, 'target', 0) is tree and q.kwarg(ix, 'state', 1) is stored, f'index {t.show(ix, 4)}')
        ctx.ob('legacy-result', lab, v is c, f'returns {t.show(v, 4)}')
        shardings(ctx, lab, sh, tree)
      else:
        ctx.ob('index', lab, ix is stored, f'index {t.show(ix, 4)}')
        ok = q.is_call(v, 'flax.serialization.from_state_dict') and q.kwarg(v, 'state', 1) is c
        if none:
          shardings(ctx, lab, sh, stored)
          ctx.ob('state-dict-returned', lab, v is c or ok and (q.kwarg(v, 'target', 0) is sh or q.kwarg(v, 'target', 0) is stored), f'returns {t.show(v, 4)}')
        else:
          tgt = q.kwarg(v, 'target', 0) if ok else None
          ctx.ob('tree-structure', lab, ok and t.mentions(tgt, tree), f'the result does not have the structure of the tree: {t.show(v, 3)}')
          sd = sh
          if q.is_call(sd, 'flax.serialization.to_state_dict') and sd.args[1]: sd = sd.args[1][0]
          shardings(ctx, lab, sd, tree, state=True)
      ctx.ob('options-passed', lab, g('max_concurrent_bytes', 5) is sym('max_concurrent_bytes') and g('thread_pool', 4) is sym('thread_pool'),
             'thread_pool or max_concurrent_bytes of the caller is not used')


def shardings(ctx, lab, sh, src, state=False):
  """sh is the tree of the shardings of the leaves of src."""
  if not q.is_call(sh, 'jax.tree.map') or len(sh.args[1]) < 2 or sh.args[1][0].op != 'lam':
    ctx.undecided('shardings', lab, t.show(sh, 4))
    return
  s = sh.args[1][1]
  ctx.ob('shardings-of-target', lab, s is src or state and q.is_call(s, 'flax.serialization.to_state_dict') and s.args[1][0] is src, f'shardings of {t.show(s, 3)}')
  (x, *_), b = t.open_lam(sh.args[1][0])
  has = raw('hasattr', x, const('sharding'))
  own = t.assume(b, {a: True for a in t.inner_atoms(b) if a.op == 'hasattr'})
  names = [a for a in t.inner_atoms(b) if a.op == 'hasattr']
  good = own is t.attr(x, 'sharding') or b.op == 'getattr' and len(b.args) == 3 and b.args[0] is x and t.is_const(b.args[1], 'sharding') or q.is_call(b, 'getattr') and b.args[1][0] is x and t.is_const(b.args[1][1], 'sharding')
  ctx.ob('sharding-kept', lab, good and all(t.is_const(a.args[1], 'sharding') or a.args[1] == 'sharding' for a in names), f'an array with a sharding is restored with {t.show(own, 4)}')


def assemble(ctx):
  """_restore_checkpoint_from_index: structures agree, every array with its own shape and sharding, in order."""
  r = ctx.analyze(f'{M}:_restore_checkpoint_from_index', opaque=SER + [f'{B}.restore_checkpoint'] + [f'{M}.{x}' for x in ('_create_local_buffers', '_find_ckpt_shards_to_restore', '_restore_local_buffers')])
  w = where(r)
  index, sharding = sym('index'), sym('sharding')
  fl = lambda x: raw('call', glob('jax.tree.flatten'), (x,), ())
  a, b = t.item(fl(index), const(1)), t.item(fl(sharding), const(1))
  same = t.eq(a, b)
  ra = [e for e in q.raises(r)]
  if t.contains(r.ret, lambda y: y is a):
    ctx.ob('structures-agree', w, any(t.assume(e.pc, {same: False}) is TRUE for e in ra), 'an index of another structure than the target is not refused')
  mk = [x for x in t.subterms(r.ret) if q.is_call(x, 'jax.make_array_from_callback')]
  if not mk: ctx.undecided('arrays', w, t.show(r.ret, 4)); return
  for x in mk:
    sh, sd = q.kwarg(x, 'shape', 0), q.kwarg(x, 'sharding', 1)
    ok = sd.op in ('item', 'nth') and sd.args[0] is t.item(fl(sharding), const(0))
    if not ok: ctx.undecided('arrays', w, t.show(sd, 4)); continue
    i = sd.args[1]
    leaf = lambda y: y.op in ('item', 'nth') and y.args[0] is t.item(fl(index), const(0)) and y.args[1] is i
    ctx.ob('array-shape', w, sh.op == 'attr' and sh.args[1] == 'shape' and any(leaf(y) for y in t.subterms(sh)), f'shape {t.show(sh, 5)}')
  un = [x for x in t.subterms(r.ret) if q.is_mcall(x, 'unflatten') or q.is_call(x, 'jax.tree.unflatten')]
  ctx.ob('result-structure', w, bool(un) and un[0] is r.ret, f'returns {t.show(r.ret, 3)}')
  for x in un:
    s, leaves = (x.args[0].args[0], x.args[1][0]) if q.is_mcall(x, 'unflatten') else (x.args[1][0], x.args[1][1])
    ctx.ob('result-structure', w, s is a or s is b, f'structure {t.show(s, 3)}')
    maps = [y for y in t.subterms(leaves) if q.is_mcall(y, 'map', 'imap') or y.op == 'map']
    bad = [y for y in t.subterms(leaves) if q.is_mcall(y, 'imap_unordered') or q.is_call(y, 'sorted', 'reversed', 'set')]
    ctx.ob('leaves-in-order', w, not bad, f'arrays are taken in another order: {t.show(leaves, 4)}')


def chunk_limit(ctx):
  """No chunk exceeds max_chunk_bytes: the limit in items, and what is measured against it."""
  r = ctx.analyze(f'{M}:_create_map_slicend_to_array_shards', opaque=[f'{M}._split_slicend'])
  w = where(r)
  mcb = sym('max_chunk_bytes')
  size = t.attr(t.attr(sym('arr'), 'dtype'), 'itemsize')
  for x in {x for x in t.subterms(r.ret) if opq(x, '_split_slicend')}:
    n = q.kwarg(x, 'max_chunk_items', 1, NONE)
    for on in (True, False):
      v = n
      for a in t.inner_atoms(n) | {y.args[0] for y in t.subterms(n) if y.op == 'ite'}:
        if a is raw('truth', mcb): v = t.assume(v, {a: on})
        elif a.op == 'lt' and mcb in a.args: v = t.assume(v, {a: (a.args[0] is not mcb) == on})
        elif a is t.is_(mcb, NONE): v = t.assume(v, {a: not on})
      if not on:
        ctx.ob('no-limit', w, v is NONE or t.is_const(v) or not t.mentions(v, mcb), f'without a limit chunks have {t.show(v, 4)} items')
        continue
      per = [t.binop('//', mcb, size)]
      if q.is_call(v, 'max') and len(v.args[1]) == 2 and any(t.is_const(y, 1) for y in v.args[1]):
        o = next((y for y in v.args[1] if not t.is_const(y, 1)), v)
        if not t.mentions(o, mcb): ctx.ob('chunk-limit', w, False, f'the limit is {t.show(v, 4)}'); continue
        ctx.ob('chunk-limit', w, o in per or q.is_call(o, 'int', 'numpy.floor', 'math.floor') and o.args[1][0] is t.binop('/', mcb, size), f'chunks have up to {t.show(v, 4)} items')
      elif v is NONE or t.is_const(v): ctx.ob('chunk-limit', w, False, 'max_chunk_bytes is ignored')
      elif v in per: ctx.ob('chunk-limit', w, False, 'an item larger than max_chunk_bytes gives a limit of zero items')
      elif q.is_call(v, 'max') or v is mcb: ctx.ob('chunk-limit', w, False, f'chunks have up to {t.show(v, 4)} items')
      else: ctx.undecided('chunk-limit', w, t.show(v, 4))
  r = ctx.analyze(f'{M}:_split_slicend')
  w = where(r)
  sl = sym('slicend')
  for x in {x for x in t.subterms(r.ret) if q.is_call(x, 'numpy.prod', 'math.prod')}:
    a = strip(x.args[1][0])
    if a.op != 'map' or a.args[1] is not sl: continue
    i, b = t.open_lam(a.args[0])
    e = t.nth(sl, i[0])
    ctx.ob('chunk-size', w, b is t.binop('-', t.attr(e, 'stop'), t.attr(e, 'start')), f'the size of an axis is measured as {t.show(b, 4)}')


@prop('C38', 'for every combination of overwrite / makedirs, the rename that publishes the file, the directory creation (and its barrier), and the '
      'task handed to the pool carry the caller\'s choice; restoring opens the requested file and decodes it with or without a target, dispatches on '
      'the recorded version (refusing others), keeps shardings and structure of the target; removal removes exactly the matching files', floor=60)
def c38(ctx):
  for p in (f'{B}:save_checkpoint', f'{B}:save_checkpoint_async', f'{B}:save_multiple_checkpoints_async', f'{M}:save_checkpoint'):
    ctx.section(defaults, p, dict(overwrite=True, makedirs=True))
  for f in (write_one, write_async, write_sharded, read_one, remove, read_sharded, assemble, chunk_limit): ctx.section(f)

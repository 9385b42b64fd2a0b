"""C29: all processes take part in every barrier and collective step; shared files have one writer."""
from .. import arith, q, terms as t
from ..framework import prop
from ..terms import T, NONE, FALSE, TRUE, const, glob, raw, sym
from .training import OP, TRAINERS, Run

SYNC = 'vmoe.multihost_utils.sync_devices'
PI = raw('call', glob('jax.process_index'), (), ())
L = 'vmoe.projects.adversarial_attacks.lib'
MANAGER = ('save', 'restore', 'wait_until_finished', 'close', 'reload')


def is_pi(x): return q.is_call(x, 'jax.process_index', 'jax.host_id')


def depends(x, depth=0):
  """The value itself differs between processes: the process index reaches it through tests, arithmetic and projections (not through the contents of data)."""
  if not isinstance(x, T): return any(depends(y, depth) for y in x) if isinstance(x, tuple) else False
  if is_pi(x): return True
  if depth > 60: return False
  if x.op in ('poly', 'bin', 'eq', 'lt', 'in', 'is', 'not', 'truth', 'ite', 'tuple', 'list', 'str', 'strcat', 'fstr', 'fmt', 'item', 'cmp', 'neg', 'and', 'or'): return any(depends(a, depth + 1) for a in x.args)
  if x.op == 'call' and x.args[0].op == 'glob' and (x.args[0].args[0] in arith.UN or x.args[0].args[0] in arith.NARY or x.args[0].args[0] in ('str', 'format', 'len')): return any(depends(a, depth + 1) for a in x.args[1])
  return False


def where(pc): return t.show(pc, 4)


@prop('C29', 'Effect analysis: path conditions and names of barriers, collective steps and checkpoint operations do not depend on the process index; ordering of directory creation, barrier and use; value-flow of the barrier itself; one writer per shared file.', floor=25)
def c29(ctx):
  ctx.section(barrier)
  for path, _ in TRAINERS: ctx.section(training, path)
  ctx.section(directory, 'vmoe.train.trainer:create_checkpoint_manager')
  ctx.section(directory, 'vmoe.checkpoints.partitioned:save_checkpoint')
  ctx.section(evaluations)
  ctx.section(attack)
  ctx.section(app)
  ctx.section(single)


def syncs(r): return [e for e in r.events if e.kind == 'call' and e.fn.op == 'opaque' and e.fn.args[0] == SYNC or e.kind == 'call' and t.is_glob(e.fn, 'jax.experimental.multihost_utils.sync_global_devices')]


def barrier(ctx):
  r = ctx.analyze('vmoe.multihost_utils:sync_devices')
  w = f'{r.file} sync_devices'
  name, main = [r.params[k] for k in list(r.params)[:2]]
  ps = [e for e in r.events if e.kind == 'call' and t.is_glob(e.fn, 'jax.lax.psum')]
  if len(ps) != 1:
    ctx.undecided('barrier', w, f'{len(ps)} sums over the devices')
    return
  e = ps[0]
  ctx.ob('barrier', w, e.pc is TRUE and not e.loops, f'the devices are summed only if {where(e.pc)}')
  x = e.args[0]
  ats = t.inner_atoms(t.cond(x)) if x.op == 'ite' else set()
  own = t.eq(PI, main)
  atom = next(iter(t.inner_atoms(own)), None) if own.op != 'eq' else own
  yes, no = [t.assume(x, {a: v for a in t.inner_atoms(x) if a is own or is_eq(a, PI, main)}) for v in (True, False)]
  zero = lambda v: q.is_call(v, 'numpy.zeros', 'jax.numpy.zeros')
  if not zero(no) and not (no.op == 'setitem'):
    ctx.undecided('barrier', w, t.show(no, 4))
    return
  ctx.ob('barrier', w, zero(no), f'processes other than the main one contribute {t.show(no, 4)}')
  n = lambda v: v.args[1][0] if zero(v) else NONE
  cnt = lambda v: q.is_call(v, 'jax.local_device_count') or (q.is_call(v, 'len') and q.is_call(v.args[1][0], 'jax.local_devices'))
  ctx.ob('barrier', w, cnt(n(no)), f'not one value for each local device: {t.show(no, 3)}')
  if yes.op == 'setitem' and zero(yes.args[0]):
    h = yes.args[2]
    ctx.ob('barrier', w, yes.args[1].op == 'const' and t.mentions(h, name), f'the main process contributes {t.show(yes, 5)}')
    used = [y for y in t.subterms(h) if y.op == 'call' and y.args[0].op == 'glob' and y.args[0].args[0] in ('hash', 'id', 'time.time')]
    ctx.ob('barrier', w, not used, f'the value of a name differs between processes: {t.show(h, 4)}')
    # failure: some device has another value
    rs = q.raises(r)
    ctx.ob('barrier', w, bool(rs), 'a wrong sum is not noticed')
    for z in rs:
      atoms = sorted(t.inner_atoms(z.pc), key=lambda a: a.uid)
      alls = [y for y in t.subterms(z.pc) if q.is_mcall(y, 'all', 'any') or q.is_call(y, 'numpy.all', 'numpy.any')]
      for y in alls:
        base = y.args[0].args[0] if y.args[0].op == 'attr' else y.args[1][0]
        kind = y.args[0].args[1] if y.args[0].op == 'attr' else y.args[0].args[0].rsplit('.', 1)[1]
        pos = t.implies(z.pc, t.cond(y))
        ne = base.op == 'not' or (base.op == 'call' and t.is_glob(base.args[0], 'numpy.not_equal')) or base.op == 'ne'
        ok = (kind == 'all' and not pos and not ne) or (kind == 'any' and pos and ne)
        if not ok and not (kind == 'any' and not pos and not ne or kind == 'all' and pos): ctx.undecided('barrier', w, t.show(z.pc, 4))
        else: ctx.ob('barrier', w, ok, f'an error is raised if {where(z.pc)}')
        ctx.ob('barrier', w, t.mentions(base, h) and any(q.is_call(v, 'jax.lax.psum') for v in t.subterms(base)), f'the sum is compared as {t.show(base, 4)}')
  elif zero(yes): ctx.ob('barrier', w, False, 'no process contributes the value of the name')
  else: ctx.undecided('barrier', w, t.show(yes, 4))


def is_eq(a, x, y): return a.op == 'eq' and set(a.args[:2]) == {x, y}


def collective(e):
  """A step in which every process has to take part."""
  if e.kind != 'call' or e.fn is None: return None
  if e.fn.op == 'opaque' and e.fn.args[0] == SYNC: return 'barrier'
  if e.fn.op == 'attr' and e.fn.args[1] in MANAGER and t.contains(e.fn, lambda y: (y.op == 'opaque' and y.args[0].endswith('create_checkpoint_manager')) or t.is_glob(y, 'orbax.checkpoint.CheckpointManager')): return f'checkpoint {e.fn.args[1]}'
  if e.fn.op == 'opaque' and e.fn.args[0].rsplit('.', 1)[1] in ('restore_or_create_train_state', 'create_checkpoint_manager', 'create_or_reuse_train_state', 'restore_checkpoint_partitioned'): return e.fn.args[0].rsplit('.', 1)[1]
  if e.fn.op in ('call', 'item', 'attr') and t.contains(e.fn, lambda y: y.op == 'opaque' and y.args[0].rsplit('.', 1)[1] in ('train_step', 'create_evaluation_hook', 'create_fewshot_hook', 'create_retrieval_hook', 'create_zeroshot_hook')) and e.fn.op != 'opaque':
    if e.fn.op == 'attr': return None
    return 'step or evaluation'
  return None


def met(ctx, r, w, extra=()):
  for e in r.events:
    c = collective(e) or next((n for f, n in extra if f(e)), None)
    if c is None: continue
    ctx.ob('all-processes', w, not depends(e.pc), f'the {c} in line {e.line} is reached only if {where(e.pc)}')
    for l in e.loops: ctx.ob('all-processes', w, not depends(l.domain), f'the {c} in line {e.line} is repeated over {t.show(l.domain, 3)}')
    if c == 'barrier':
      ctx.ob('barrier-names', w, not any(depends(a) for a in e.args) and not any(depends(v) for k, v in e.kwargs), f'the barrier in line {e.line} has different names in different processes')


def training(ctx, path):
  run = Run(ctx, path)
  w = run.w
  met(ctx, run.r, w)
  s = syncs(run.r)
  if run.why:
    ctx.undecided('all-processes', w, run.why)
    return
  # a save that depends on what is in the directory: no process may write before all have looked
  for e in run.saves:
    looked = [x for x in q.ev(run.r, 'tensorflow.io.gfile.exists', 'os.path.exists') if x.seq < e.seq and any(t.mentions(c, raw('call', x.fn, tuple(x.args), tuple(x.kwargs))) for c in t.cond_atoms(e.pc))]
    for x in looked:
      ctx.ob('look-then-save', w, any(x.seq < b.seq < e.seq and t.implies(t.cond(t.val(e.pc)), t.cond(t.val(b.pc))) for b in s), f'a process may save (line {e.line}) before another one has looked for the checkpoint (line {x.line})')
  # the end of training is a barrier, after the last checkpoint was waited for
  last = [e for e in s if not e.loops and not t.inner_atoms(e.pc)]
  waits = getattr(run, 'waits', [])
  ctx.ob('final-barrier', w, any(all(e.seq > v.seq for v in waits) and all(e.seq > v.seq for v in run.saves) for e in last), 'processes may end before all of them have finished saving')


def directory(ctx, path):
  r = ctx.analyze(path, opaque=[SYNC])
  w = f'{r.file} {path.split(":")[1]}'
  met(ctx, r, w)
  s = syncs(r)
  mk = q.ev(r, 'tensorflow.io.gfile.makedirs', 'os.makedirs', 'tensorflow.io.gfile.mkdir')
  uses = q.ev(r, 'orbax.checkpoint.CheckpointManager', 'tensorflow.io.gfile.GFile')
  if not uses:
    ctx.undecided('directory', w, 'no use found')
    return
  for u in uses:
    ctx.ob('directory', w, not depends(u.pc), f'line {u.line} only happens if {where(u.pc)}')
  if any(depends(m.pc) for m in mk):
    b = [e for e in s if not depends(e.pc) and all(m.seq < e.seq for m in mk)]
    ctx.ob('directory', w, bool(b), 'no barrier after one process creates the directory')
    for u in uses: ctx.ob('directory', w, any(e.seq < u.seq for e in b), f'line {u.line} may use the directory before it exists')
  ctx.ob('directory', w, bool(mk), 'the directory is not created')


def evaluations(ctx):
  for path in ('vmoe.evaluate.evaluator:evaluate_dataset', 'vmoe.evaluate.evaluator:EvaluateMultipleDatasets.__call__', 'vmoe.evaluate.fewshot:FewShotPeriodicAction.__call__',
               'vmoe.evaluate.fewshot:_compute_representation', 'vmoe.projects.contrastive.evaluators:ZeroShotPeriodicAction.__call__', 'vmoe.projects.contrastive.evaluators:RetrievalPeriodicAction.__call__',
               'vmoe.evaluate.evaluator:EvaluateMultipleDatasets._make_callback_fn', 'vmoe.evaluate.fewshot:FewShotPeriodicAction._make_callback_fn'):
    if ctx.eng.find(path) is None: continue
    r = ctx.analyze(path)
    w = f'{r.file} {path.split(":")[1]}'
    bad = [e for e in r.events if e.kind == 'call' and depends(e.pc) and not is_local(e)]
    ctx.ob('all-processes', w, not bad, f'line {bad[0].line if bad else ""}: {t.show(bad[0].fn, 2) if bad else ""} happens only if {where(bad[0].pc) if bad else ""}')


def is_local(e):
  """Effects one process may have alone: files, logs, metrics."""
  if e.fn.op == 'glob': return e.fn.args[0].split('.')[0] in ('tensorflow', 'os', 'absl', 'logging', 'numpy', 'io', 'print', 'time', 'str', 'float', 'int', 'len', 'dict', 'list', 'tuple', 'range', 'zip', 'enumerate', 'sorted', 'math') or is_pi(raw('call', e.fn, (), ()))
  if e.fn.op == 'attr': return e.fn.args[1] in ('write_scalars', 'write', 'flush', 'items', 'keys', 'values', 'info', 'getvalue', 'format', 'join', 'append', 'update', 'warning')
  return False


def attack(ctx):
  op = [f'{L}.get_dataset', 'vmoe.data.input_pipeline.get_data_num_examples', 'vmoe.data.pjit_utils.prefetch_to_device', 'vmoe.projects.adversarial_attacks.restore.restore_from_config', 'vmoe.projects.adversarial_attacks.restore.create_mesh',
        'vmoe.projects.adversarial_attacks.attacks.stateful_attack', f'{L}.savez_compressed', f'{L}.ExampleStorage', 'vmoe.partitioning.log_logical_mesh', SYNC]
  r = ctx.analyze(f'{L}:run_pgd_attack', opaque=op)
  w = f'{r.file} run_pgd_attack'
  steps = [e for e in r.events if e.kind == 'call' and e.fn.op == 'opaque' and e.fn.args[0].endswith(('.stateful_attack', '.restore_from_config', '.prefetch_to_device', '.create_mesh'))]
  if not steps: ctx.undecided('all-processes', w, 'no attack step found')
  for e in steps:
    ctx.ob('all-processes', w, not depends(e.pc) and not any(depends(l.domain) for l in e.loops), f'{e.fn.args[0].rsplit(".", 1)[1]} in line {e.line} happens only if {where(e.pc)}')
  wr = [e for e in r.events if e.kind == 'call' and e.fn.op == 'opaque' and e.fn.args[0] == f'{L}.savez_compressed']
  for e in wr: one_writer(ctx, w, e.args[0] if e.args else NONE, e.pc, e.line)
  st = [e for e in r.events if e.kind in ('new', 'call') and e.fn is not None and (e.fn is raw('cls', f'{L}.ExampleStorage') or e.fn.op == 'opaque' and e.fn.args[0] == f'{L}.ExampleStorage')]
  for e in st: one_writer(ctx, w, q.ekw(e, 'filepath', 0, NONE), e.pc, e.line)


def one_writer(ctx, w, path, pc, line):
  if any(is_pi(y) for y in t.subterms(path)):
    ctx.ob('one-writer', w, True)
    return
  who = []
  for i in range(4):
    lits = {}
    for a in t.inner_atoms(pc):
      if not depends(a): continue
      try: lits[a] = bool(arith.ev(t.subst(a, {PI: const(i)}), {}))
      except (arith.Open, TypeError, ZeroDivisionError): pass
    who.append(t.cond(t.assume(pc, lits)) is not FALSE)
  ctx.ob('one-writer', w, sum(who) == 1, f'the file {t.show(path, 3)} of line {line} is written by {sum(who)} of 4 processes')


def app(ctx):
  r = ctx.analyze('vmoe.app:_main', opaque=['vmoe.partitioning.get_auto_logical_mesh', 'vmoe.partitioning.log_logical_mesh'])
  w = f'{r.file} _main'
  for e in q.ev(r, 'clu.metric_writers.create_default_writer'):
    j = q.ekw(e, 'just_logging', None, FALSE)
    who = []
    for i in range(4):
      try: who.append(not arith.ev(t.subst(t.val(j), {PI: const(i)}), {}))
      except (arith.Open, TypeError):
        who = None
        break
    if who is None: ctx.undecided('one-writer', w, t.show(j, 3))
    else: ctx.ob('one-writer', w, sum(who) == 1, f'metrics are written by {sum(who)} of 4 processes ({t.show(j, 3)})')
  for e in r.events:
    if e.kind == 'call' and e.fn is sym('main'): ctx.ob('all-processes', w, not depends(e.pc), f'main only runs if {where(e.pc)}')
  ms = [e for e in r.events if e.kind == 'call' and e.fn.op == 'opaque' and e.fn.args[0].endswith('get_auto_logical_mesh')]
  for e in ms: ctx.ob('all-devices', w, len(e.args) < 2 or q.is_call(e.args[1], 'jax.devices'), f'the mesh is made of {t.show(e.args[1], 3) if len(e.args) > 1 else ""}')


def single(ctx):
  """Actions that only one process runs are exactly the profiling and reporting ones."""
  P = 'vmoe.train.periodic_actions'
  if ctx.eng.find(f'{P}:SingleProcessPeriodicAction.__call__') is not None:
    r = ctx.analyze(f'{P}:SingleProcessPeriodicAction.__call__')
    w = f'{r.file} SingleProcessPeriodicAction'
    me = t.attr(r.selfv, 'process_index')
    for e in [e for e in r.events if e.kind == 'call' and e.fn is t.attr(r.selfv, 'periodic_action')]:
      ctx.ob('single-process', w, t.cond(e.pc) is t.cond(t.eq(PI, me)), f'the action runs if {where(e.pc)}')
  if ctx.eng.find(f'{P}:ReportProgress._should_trigger') is not None:
    r = ctx.analyze(f'{P}:ReportProgress._should_trigger')
    w = f'{r.file} ReportProgress'
    me = t.attr(r.selfv, '_process_index')
    for e in [e for e in r.events if e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[1] == '_should_trigger']:
      want = t.b_or(t.cond(t.is_(me, NONE) if hasattr(t, 'is_') else raw('is', NONE, me)), t.cond(t.eq(PI, me)))
      if t.cond(e.pc) is want: ctx.ob('single-process', w, True)
      elif not depends(e.pc): ctx.ob('single-process', w, False, 'progress is reported by every process')
      else: ctx.undecided('single-process', w, where(e.pc))

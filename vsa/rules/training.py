"""C15 training loop and checkpoints, C16 hooks, C20 donated buffers."""
from .. import arith
from .. import q
from .. import terms as t
from ..framework import prop
from ..terms import TRUE, FALSE, NONE, raw, const, glob, sym, T

M = 'vmoe.train.trainer.'
N = 'vmoe.projects.contrastive.trainer.'
OP = [M + x for x in (
    'restore_or_create_train_state', 'get_loss_fn', 'create_checkpoint_manager', 'make_create_train_state_fn', 'create_flax_model', 'get_train_steps_and_epochs', 'get_dataset_iterator',
    'create_tree_summarizer', 'create_profile_hook', 'create_progress_hook', 'create_evaluation_hook', 'create_fewshot_hook', 'make_train_cost_fn', 'wrap_train_step_with_adversarial_attack',
    'wrap_train_step_with_mixup', 'train_step', 'override_base_config')]
OP += [N + x for x in ('create_fewshot_hook', 'create_retrieval_hook', 'create_zeroshot_hook', 'train_step')]
OP += ['vmoe.data.input_pipeline.get_datasets', 'vmoe.data.input_pipeline.get_data_num_examples', 'vmoe.data.pjit_utils.get_dataset_shape_dtype_struct', 'vmoe.utils.get_flops_and_seconds_per_device',
       'vmoe.multihost_utils.sync_devices']
TRAINERS = [('vmoe.train.trainer:train_and_evaluate', ('image', 'labels')), ('vmoe.projects.contrastive.trainer:train_and_evaluate', ('image', 'text'))]


class Abbr:
  """Calls of opaque library functions (and other given terms) are named."""
  def __init__(self):
    self.names = {}
    self.count = {}

  def sym_of(self, y):
    if y not in self.names:
      short = y.args[0].args[0].rsplit('.', 1)[1]
      i = self.count[short] = self.count.get(short, -1) + 1
      self.names[y] = sym(f'{short}!{i}')
    return self.names[y]

  def __call__(self, x):
    def f(y):
      if y in self.names: return self.names[y]
      if y.op == 'call' and y.args[0].op == 'opaque': return self.sym_of(y)
      return None
    return t.transform(x, f)


def call_term(e): return raw('call', e.fn, tuple(e.args), tuple(e.kwargs))


class Run:
  """The training run of one train_and_evaluate function, with the pieces the rules talk about."""
  def __init__(self, ctx, path):
    self.r = r = ctx.analyze(path, opaque=OP)
    self.w = f'{r.file} {path.split(":")[1]}'
    self.ab = ab = Abbr()
    self.why = None
    def op(name): return [e for e in r.events if e.kind == 'call' and e.fn.op == 'opaque' and e.fn.args[0].endswith('.' + name)]
    self.op = op
    self.rest = op('restore_or_create_train_state')
    steps = op('get_train_steps_and_epochs')
    if len(self.rest) != 1 or len(steps) != 1:
      self.why = f'{len(self.rest)} restores, {len(steps)} step counts'
      return
    self.R = ab(self.rest[0].value if isinstance(getattr(self.rest[0], 'value', None), T) else call_term(self.rest[0]))
    self.S0 = t.item(self.R, const(0))
    self.init = raw('call', glob('int'), (t.attr(self.S0, 'step'),), ())
    self.total = t.item(ab(call_term(steps[0])), const(0))
    # the training step: a call in a loop that threads the state
    self.step = None
    for e in r.events:
      if e.kind != 'call' or not e.loops or not e.args: continue
      l = e.loops[-1]
      for p, (label, init, nxt) in l.phis.items():
        if ab(init) is self.S0 and t.mentions(e.args[0], p) and t.contains(e.fn, lambda y: y.op == 'opaque' and y.args[0].endswith('.train_step')):
          self.step, self.loop, self.phi, self.nxt = e, l, p, nxt
          break
      if self.step is not None: break
    self.unthreaded = None
    if self.step is None:
      for e in r.events:
        if e.kind == 'call' and e.loops and e.args and ab(e.args[0]) is self.S0 and t.contains(e.fn, lambda y: y.op == 'opaque' and y.args[0].endswith('.train_step')): self.unthreaded = e
      self.why = 'no loop that threads the train state'
      return
    sc = call_term(self.step)
    ab.names[sc] = sym('STEP')
    self.new = t.item(sym('STEP'), const(0))
    self.i = self.loop.idx
    self.start = min(e.seq for e in r.events if e.loops and self.loop in e.loops)
    self.end = max(e.seq for e in r.events if e.loops and self.loop in e.loops)
    self.label = t.add(t.add(self.init, const(1)), self.i)
    self.saves = [e for e in q.mev(r, 'save') if t.contains(e.fn, lambda y: y.op == 'opaque' and y.args[0].endswith('create_checkpoint_manager'))]
    self.waits = [e for e in q.mev(r, 'wait_until_finished') if t.contains(e.fn, lambda y: y.op == 'opaque' and y.args[0].endswith('create_checkpoint_manager'))]

  def fold(self, x):
    """Is x the value of the state after the loop?"""
    if x.op != 'item' or x.args[0].op != 'fold' or not t.is_const(x.args[1]): return False
    f = x.args[0]
    return f.args[1].op != 'tuple' or (x.args[1].args[1] < len(f.args[1].args) and f.args[1].args[x.args[1].args[1]] is self.S0)

  def pos(self, e):
    return 'in' if e.loops and self.loop in e.loops else 'before' if e.seq < self.start else 'after'


def lits_init0(run):
  return {t.eq(run.init, const(0)): True}


@prop('C15', 'Value-flow analysis of both training loops: loop bounds, state threading, batch per step, and for every checkpoint save the pairing of step label, state and data position; '
             'first and last save and the waits are required on every path.', floor=30)
def c15(ctx):
  for path, keys in TRAINERS: ctx.section(loop_rules, path, keys)
  ctx.section(manager)
  ctx.section(length)


def loop_rules(ctx, path, keys):
  run = Run(ctx, path)
  w = run.w
  if run.why:
    if getattr(run, 'unthreaded', None) is not None: ctx.ob('state-threaded', run.unthreaded.where(), False, 'every step starts from the initial state')
    ctx.undecided('training-loop', w, run.why)
    return
  ab = run.ab
  # bounds
  doms = list(run.loop.domain.args) if run.loop.domain.op == 'zipdom' else [run.loop.domain]
  rng = [d for d in doms if d.op == 'range']
  n = ab(rng[0].args[0]) if len(rng) == 1 and len(rng[0].args) == 1 else None
  if n is None: ctx.undecided('all-steps', w, f'loop over {t.show(ab(run.loop.domain), 3)}')
  else:
    want = t.sub(run.total, run.init)
    ctx.ob('all-steps', w, n is want, f'the loop runs {t.show(n, 5)} times instead of the steps that are left ({t.show(want, 5)})')
    ctx.ob('no-early-stop', w, run.loop.early is FALSE, 'the loop can stop before the last step')
  # threading
  lp = ab(run.nxt)
  ctx.ob('state-threaded', w, run.step.args[0] is run.phi, f'the step at {run.step.where()} does not start from the current state')
  ctx.ob('state-threaded', w, lp is run.new, f'the next step starts from {t.show(lp, 5)}, not from the result of this one')
  ctx.ob('every-step-trains', run.step.where(), t.val(run.step.pc) is TRUE or loop_pc(run, run.step) is TRUE, f'the step only runs if {t.show(t.val(run.step.pc), 4)}')
  # batches
  its = [ab(call_term(e)) for e in run.op('get_dataset_iterator')]
  for j, k in enumerate(keys):
    a = ab(run.step.args[j + 1]) if len(run.step.args) > j + 1 else NONE
    ok = a.op == 'item' and t.is_const(a.args[1], k)
    src = a.args[0] if a.op == 'item' else a
    fresh = (src.op == 'nth' and src.args[0] in its and src.args[1] is run.i) or (q.is_call(src, 'next') and src.args[1][0] in its)
    ctx.ob('own-batch', run.step.where(), ok and fresh, f'argument {j + 1} of the step is {t.show(a, 5)}, not the {k} of the next training batch')
  its_e = run.op('get_dataset_iterator')
  if its_e:
    d = ab(q.ekw(its_e[0], 'dataset', 0) or NONE)
    ctx.ob('training-data', w, d.op == 'item' and t.is_const(d.args[1], 'train'), f'the loop reads {t.show(d, 4)}')
    ls = q.ekw(its_e[0], 'last_seen_index', 3)
    ctx.ob('resume-data-position', w, ls is not None and ab(ls) is t.item(run.R, const(1)), 'the restored data position is not given to the iterator')
  # saves
  batch = None
  st = run.op('get_train_steps_and_epochs')[0]
  batch = q.ekw(st, 'train_batch_size')
  for e in run.saves:
    p = run.pos(e)
    items = q.ekw(e, 'items', 1)
    args = q.ekw(e, 'args')
    if items is None and args is not None: ctx.undecided('saved-state', e.where(), 'args'); continue
    items = ab(items)
    lab = ab(q.ekw(e, 'step', 0))
    state = t.item(items, const('state'))
    ds = t.item(items, const('dataset_iterator'))
    lits = {}
    pc = t.val(ab(t.val(e.pc)))
    if t.implies(t.cond(pc), t.cond(t.eq(run.init, const(0)))): lits = {run.init: const(0)}
    z = lambda x: t.subst(x, lits) if lits else x
    if p == 'in': want_s, want_l = state is run.new, run.label
    elif p == 'before': want_s, want_l = state is run.S0, run.init
    else: want_s, want_l = run.fold(state), run.total
    if state.op == 'item' and t.contains(state, lambda y: y.op == 'top'): ctx.undecided('saved-state', e.where(), t.show(state, 3)); continue
    ctx.ob('saved-state', e.where(), want_s, f'the checkpoint holds {t.show(state, 4)}, not the ' + {'in': 'state this step computed', 'before': 'initial state', 'after': 'final state'}[p])
    ctx.ob('saved-label', e.where(), z(lab) is z(want_l), f'the checkpoint of step {t.show(want_l, 4)} is saved as step {t.show(lab, 4)}')
    idx = t.item(ds, const('last_seen_index'))
    if batch is not None: ctx.ob('saved-data-position', e.where(), z(idx) is z(t.mul(want_l, ab(batch))), f'the saved data position is {t.show(idx, 5)}, not step * batch size')
  inl = [e for e in run.saves if run.pos(e) == 'in']
  ctx.ob('saves-while-training', w, bool(inl) and any(loop_pc(run, e) is TRUE for e in inl), 'no unconditional save in the loop' if not inl else f'the save in the loop only happens if {t.show(loop_pc(run, inl[0]), 4)}')
  def exists(*names):
    out = []
    for e in q.ev(run.r, 'tensorflow.io.gfile.exists', 'os.path.exists'):
      s = q.split_path(ab(e.args[0]))
      out.append((e, ab(e.args[0])))
    return out
  ex = exists()
  for p, nm, lab in (('before', 'first', run.init), ('after', 'final', run.total)):
    sv = [e for e in run.saves if run.pos(e) == p]
    if not sv:
      ctx.ob(f'{nm}-state-saved', w, False, f'no checkpoint of the {nm} state')
      continue
    e = sv[-1]
    force = q.ekw(e, 'force', None, FALSE)
    ctx.ob(f'{nm}-state-saved', e.where(), ab(force) is TRUE, 'the save is not forced: the manager may skip it')
    pc = t.val(ab(t.val(e.pc)))
    ok = True
    if p == 'before': pc = t.val(t.cond(t.subst(pc, {run.init: const(0)})))
    for a in t.cond_atoms(t.cond(pc)):
      if a.op == 'truth' and q.is_call(a.args[0], 'tensorflow.io.gfile.exists', 'os.path.exists'):
        path_ok = dir_label(a.args[0].args[1][0], run, lab if p == 'after' else const(0))
        if path_ok is None: ok = None
        elif not path_ok: ok = False
        continue
      ok = None if ok is not False else False
    need = TRUE
    for a in t.cond_atoms(t.cond(pc)):
      if a.op == 'truth': need = t.b_and(need, t.b_not(raw('ite', a, TRUE, FALSE)))
    if ok is None: ctx.undecided(f'{nm}-state-saved', e.where(), t.show(pc, 4))
    else: ctx.ob(f'{nm}-state-saved', e.where(), ok and t.implies(need, t.cond(pc)), f'the {nm} state is only saved if {t.show(pc, 6)}')
  # waiting for asynchronous saves
  fin = [e for e in run.saves if run.pos(e) == 'after']
  if fin:
    last = max(e.seq for e in fin)
    pcs = t.cond(t.val(fin[-1].pc))
    ctx.ob('waits-for-last-save', w, any(e.seq > last and t.implies(pcs, t.cond(t.val(e.pc))) for e in run.waits), 'the run can end before the last checkpoint is written')
    exs = [e for e, _ in ex if run.pos(e) == 'after']
    if exs: ctx.ob('waits-before-looking', w, any(run.end < e.seq < exs[0].seq and t.val(e.pc) is TRUE for e in run.waits),
                   'the existence of the last checkpoint is tested while a save may still be running')


def loop_pc(run, e):
  """The condition of an event inside the loop."""
  return t.val(t.cond(t.val(e.pc)))


def dir_label(p, run, lab):
  """Does the path name workdir/ckpt/<label>? None if its form is unknown."""
  s = []
  def flat(x):
    if q.is_call(x, 'os.path.join'):
      for i, y in enumerate(x.args[1]):
        if i: s.append(const('/'))
        flat(y)
    elif x.op == 'strcat':
      for y in x.args: flat(y)
    elif x.op == 'fmt' and x.args[1] == '': flat(x.args[0])
    elif q.is_call(x, 'str') and len(x.args[1]) == 1: flat(x.args[1][0])
    else: s.append(x)
  flat(p)
  got = q.merge_parts(s)
  want = q.merge_parts([sym('workdir'), const('/ckpt/'), lab])
  if t.is_const(lab): want = q.merge_parts([sym('workdir'), const(f'/ckpt/{lab.args[1]}')])
  if got == want: return True
  if len(got) == len(want):
    eqs = [True if a is b else arith.equal(a, b) for a, b in zip(got, want)]
    if all(x is True for x in eqs): return True
    if False in eqs: return False
  if any(x.op not in ('const', 'sym', 'item', 'call') for x in got): return None
  return False


def manager(ctx):
  path = 'vmoe.train.trainer:create_checkpoint_manager'
  r = ctx.analyze(path)
  w = f'{r.file} create_checkpoint_manager'
  mk = q.ev(r, 'orbax.checkpoint.CheckpointManager')
  op = q.ev(r, 'orbax.checkpoint.CheckpointManagerOptions')
  if len(mk) != 1 or len(op) != 1:
    ctx.undecided('checkpoint-manager', w, f'{len(mk)} managers')
    return
  d = q.ekw(mk[0], 'directory', 0)
  s = q.split_path(d)
  ctx.ob('checkpoint-directory', w, s is not None and s[0] is sym('workdir') and q.merge_parts(s[1]) == [const('ckpt')], f'checkpoints are kept in {t.show(d, 4)}')
  for k, p in (('save_interval_steps', 'every_steps'), ('max_to_keep', 'keep_last'), ('keep_period', 'keep_steps_multiple_of')):
    v = q.ekw(op[0], k)
    ctx.ob('checkpoint-options', w, v is sym(p), f'option {k} is {t.show(v if v is not None else NONE, 3)}, not the given {p}')
  ctx.ob('checkpoint-options', w, t.contains(q.ekw(mk[0], 'options', 2, NONE), lambda y: q.is_call(y, 'orbax.checkpoint.CheckpointManagerOptions')), 'the options are not given to the manager')
  ctx.ob('checkpoint-manager-returned', w, q.is_call(r.ret, 'orbax.checkpoint.CheckpointManager'), 'another manager is returned')
  items = q.ekw(mk[0], 'checkpointers', 1, NONE)
  if items.op == 'dict': ctx.ob('checkpoint-items', w, {k.args[1] for k, _ in items.args if t.is_const(k)} >= {'state', 'dataset_iterator'}, 'an item has no checkpointer')


def length(ctx):
  path = 'vmoe.train.trainer:get_train_steps_and_epochs'
  r = ctx.analyze(path)
  w = f'{r.file} get_train_steps_and_epochs'
  S, E, B, X = (sym(x) for x in ('train_steps', 'train_epochs', 'train_batch_size', 'train_examples'))
  sn, en = raw('is', *sorted([NONE, S])), raw('is', *sorted([NONE, E]))
  st, et = raw('truth', S), raw('truth', E)
  ceil = raw('call', glob('int'), (raw('call', glob('numpy.ceil'), (t.div(t.mul(E, X), B),), ()),), ())
  for name, lits, want in (('steps given', {sn: False, en: True, st: True, et: False}, S), ('epochs given', {sn: True, en: False, st: False, et: True}, ceil)):
    for rz in q.raises(r):
      ctx.ob('training-length', w, t.cond(t.assume(t.val(rz.pc), lits)) is FALSE, f'{name}: refused at {rz.where()}')
    ret = t.assume(r.ret, lits)
    for j, wt in ((0, want), (1, t.div(t.mul(want, B), X))):
      got = t.assume(t.item(ret, const(j)), lits)
      eq = arith.equal(got, wt)
      if eq is None: ctx.undecided('training-length', w, t.show(got, 5))
      else: ctx.ob('training-length', w, eq, f'{name}: ' + ('steps' if j == 0 else 'epochs') + f' computed as {t.show(got, 6)}')
  for name, lits in (('both given', {sn: False, en: False, st: True, et: True}), ('none given', {sn: True, en: True, st: False, et: False})):
    ok = any(t.cond(t.assume(t.val(rz.pc), lits)) is TRUE for rz in q.raises(r))
    und = any(t.cond(t.assume(t.val(rz.pc), lits)) is not FALSE for rz in q.raises(r))
    if ok or not und: ctx.ob('training-length-ambiguous', w, ok, f'{name}: not refused')
    else: ctx.undecided('training-length-ambiguous', w, name)


HOOKS = {'create_profile_hook': None, 'create_progress_hook': 'metrics', 'create_evaluation_hook': 'params', 'create_fewshot_hook': 'variables', 'create_retrieval_hook': 'variables', 'create_zeroshot_hook': 'variables'}


@prop('C16', 'Value-flow analysis of hook creation and hook calls: periodic actions get a step set containing the first and last step, a model built with deterministic=True from the (overridden) '
             'model configuration, and in every iteration the step number and the parameters the step produced; losses and data sets are the evaluation ones.', floor=40)
def c16(ctx):
  for path, keys in TRAINERS: ctx.section(hook_calls, path)
  for path, cls in ((M + 'create_evaluation_hook', 'vmoe.evaluate.evaluator.EvaluateMultipleDatasets'), (M + 'create_fewshot_hook', 'vmoe.evaluate.fewshot.FewShotPeriodicAction'),
                    (N + 'create_fewshot_hook', 'vmoe.evaluate.fewshot.FewShotPeriodicAction'), (N + 'create_retrieval_hook', 'vmoe.projects.contrastive.evaluators.RetrievalPeriodicAction'),
                    (N + 'create_zeroshot_hook', 'vmoe.projects.contrastive.evaluators.ZeroShotPeriodicAction'), (M + 'create_progress_hook', 'vmoe.train.periodic_actions.ReportProgress')):
    ctx.section(hook_factory, path, cls)
  for path in ('vmoe.evaluate.evaluator:EvaluateMultipleDatasets.__init__', 'vmoe.evaluate.fewshot:FewShotPeriodicAction.__init__', 'vmoe.projects.contrastive.evaluators:RetrievalPeriodicAction.__init__',
               'vmoe.projects.contrastive.evaluators:ZeroShotPeriodicAction.__init__'): ctx.section(periodic, path)
  ctx.section(models_)
  ctx.section(losses)
  ctx.section(progress)


def hook_calls(ctx, path):
  run = Run(ctx, path)
  w, ab = run.w, run.ab
  if run.why:
    ctx.undecided('hooks', w, run.why)
    return
  first = t.add(run.init, const(1))
  params = t.attr(run.new, 'params')
  for name, arg in HOOKS.items():
    mk = run.op(name)
    if not mk: continue
    if len(mk) != 1:
      ctx.undecided('hook', w, f'{name} called {len(mk)} times')
      continue
    h = ab(call_term(mk[0]))
    hook_options(ctx, run, name, mk[0])
    if name != 'create_profile_hook':
      fs, ts = q.ekw(mk[0], 'first_step'), q.ekw(mk[0], 'train_steps')
      ctx.ob('hook-first-step', mk[0].where(), fs is not None and ab(fs) is first, f'{name}: first step given as {t.show(ab(fs) if fs is not None else NONE, 4)}')
      ctx.ob('hook-last-step', mk[0].where(), ts is not None and ab(ts) is run.total, f'{name}: last step given as {t.show(ab(ts) if ts is not None else NONE, 4)}')
    cs = [e for e in run.r.events if e.kind == 'call' and run.pos(e) == 'in' and ab(e.fn) in (h, t.item(h, const(0)))]
    ctx.ob('hook-called', w, len(cs) >= 1, f'the hook of {name} is never called in the loop')
    for e in cs:
      ctx.ob('hook-every-step', e.where(), loop_pc(run, e) is TRUE, f'the hook of {name} is skipped unless {t.show(loop_pc(run, e), 4)}')
      st = ab(q.ekw(e, 'step', 0) or NONE)
      ctx.ob('hook-step', e.where(), st is run.label, f'the hook of {name} is told step {t.show(st, 4)}')
      if arg == 'params': ok, got = ab(q.ekw(e, 'params') or NONE) is params, q.ekw(e, 'params')
      elif arg == 'variables':
        got = q.ekw(e, 'variables')
        ok = got is not None and t.item(ab(got), const('params')) is params
      elif arg == 'metrics':
        got = q.ekw(e, 'scalar_metrics')
        ok = got is not None and t.mentions(ab(got), t.item(sym('STEP'), const(1)))
      else: continue
      ctx.ob('hook-current-values', e.where(), ok, f'the hook of {name} gets {t.show(ab(got), 5) if got is not None else "nothing"}, not the values of this step')
  # wrong data and losses
  ev = run.op('create_evaluation_hook')
  if len(ev) == 1:
    d = ab(q.ekw(ev[0], 'datasets', None, NONE))
    maps = [y for y in t.subterms(d) if y.op == 'map']
    if len(maps) == 1:
      f = maps[0].args[2]
      f = t.open_lam(f)[1] if f.op == 'lam' else f
      eqs = [a for a in t.cond_atoms(t.cond(f)) if a.op == 'eq' and const('train') in a.args]
      ctx.ob('evaluation-data', ev[0].where(), len(eqs) == 1 and t.cond(f) is t.b_not(raw('ite', eqs[0], TRUE, FALSE)), 'the evaluation does not use all data sets except the training one')
    else:
      while d.op == 'dictof': d = d.args[0]
      ds = run.op('get_datasets')
      if any(d is ab(call_term(x)) for x in ds): ctx.ob('evaluation-data', ev[0].where(), False, 'the evaluation also uses the training data')
      else: ctx.undecided('evaluation-data', ev[0].where(), t.show(d, 3))
    ls = run.op('get_loss_fn')
    if len(ls) == 1:
      L = ab(call_term(ls[0]))
      ctx.ob('evaluation-loss', ev[0].where(), ab(q.ekw(ev[0], 'loss_fn', None, NONE)) is t.item(L, const(1)), 'the evaluation does not use the evaluation loss')
      ctx.ob('evaluation-prediction', ev[0].where(), ab(q.ekw(ev[0], 'label_pred_fn', None, NONE)) is t.item(L, const(2)), 'the evaluation does not use the label prediction of the loss')
      tr = [y for y in t.subterms(run.step.fn) if y.op == 'papp' and y.args[0].op == 'opaque' and y.args[0].args[0].endswith('.train_step')]
      if tr: ctx.ob('training-loss', w, ab(q.kws(tr[0]).get('loss_fn', NONE)) is t.item(L, const(0)), 'the training step does not use the training loss')
      for e in run.op('wrap_train_step_with_adversarial_attack'):
        ctx.ob('training-loss', e.where(), ab(q.ekw(e, 'loss_fn', 1, NONE)) is t.item(L, const(0)), 'the attack does not use the training loss')
  ms = run.op('make_create_train_state_fn')
  if len(ms) == 1:
    m = q.ekw(ms[0], 'model', None, NONE)
    d = next((q.kws(y).get('deterministic') for y in t.subterms(m) if y.op == 'call' and y.args[0].op == 'opaque' and y.args[0].args[0].endswith('create_flax_model')), None)
    ctx.ob('training-model', ms[0].where(), d is FALSE, 'the trained model is not built with deterministic=False')
    ts = q.ekw(ms[0], 'train_steps', None, NONE)
    ctx.ob('schedule-length', ms[0].where(), ab(ts) is run.total, 'the optimizer schedule has another length than the training')


def hook_options(ctx, run, name, e):
  """What train_and_evaluate gives to the maker of a hook."""
  ab, w = run.ab, e.where()
  sect = {'create_profile_hook': 'profile', 'create_progress_hook': 'report_progress', 'create_evaluation_hook': 'evaluate'}.get(name, name[len('create_'):-len('_hook')])
  star = [v for k, v in e.kwargs if not isinstance(k, str)]
  ctx.ob('hook-options', w, any(t.mentions(v, sym('config')) and t.contains(v, lambda y: t.is_const(y, sect)) for v in star), f'{name}: the options configured as {sect!r} are not passed on')
  if name == 'create_profile_hook': return
  ctx.ob('hook-writer', w, ab(q.ekw(e, 'writer', None, NONE)) is sym('writer'), f'{name}: reports are not written to the writer of the run')
  if name == 'create_progress_hook': return
  ph = run.op('create_progress_hook')
  if len(ph) == 1: ctx.ob('hook-progress', w, ab(q.ekw(e, 'progress_hook', None, NONE)) is ab(call_term(ph[0])), f'{name}: another progress hook')
  b = ab(q.ekw(e, 'base_model_config', None, NONE))
  ev = [ab(call_term(x)) for x in run.op('create_evaluation_hook')]
  ctx.ob('hook-base-config', w, t.mentions(b, t.attr(sym('config'), 'model')) or any(b is t.item(x, const(1)) for x in ev), f'{name}: the base configuration is {t.show(b, 3)}, not the one of the trained model')
  if name in ('create_evaluation_hook', 'create_fewshot_hook'):
    k = ab(q.ekw(e, 'extra_rng_keys', None, NONE))
    ctx.ob('hook-rng-keys', w, t.mentions(k, sym('config')) and t.contains(k, lambda y: t.is_const(y, 'extra_rng_keys')), f'{name}: the random streams of the model are not passed on')


def member(s, e):
  """Is e an element of the collection s, on every path? None if unknown."""
  if s.op == 'ite':
    a, b = member(s.args[1], e), member(s.args[2], e)
    return False if a is False or b is False else None if a is None or b is None else True
  if s.op in ('set', 'list', 'tuple'): return True if e in s.args else None if t.mentions(s, e) else False
  if s.op in ('setof', 'seqof'): return member(s.args[0], e)
  if s.op in ('setadd', 'append'): return True if s.args[1] is e else member(s.args[0], e)
  if s.op in ('setunion', 'cat', 'concat', 'extend') or (s.op in ('binop', 'bin') and s.args[0] in ('|', '+')) or s.op == 'or':
    ms = [member(x, e) for x in s.args if isinstance(x, T)]
    return True if True in ms else None if None in ms else False
  if q.is_call(s, 'set', 'list', 'tuple', 'frozenset', 'sorted') and len(s.args[1]) == 1: return member(s.args[1][0], e)
  if s.op in ('call', 'map', 'getdef', 'item') or not t.mentions(s, e): return None if t.mentions(s, e) else False
  return None


def hook_factory(ctx, path, cls):
  path = ':'.join(path.rsplit('.', 1))
  if ctx.eng.find(path) is None: return
  r = ctx.analyze(path, opaque=[M + 'create_flax_model', M + 'override_base_config', cls])
  w = f'{r.file} {path.split(":")[1]}'
  mk = [e for e in r.events if (e.kind == 'call' and e.fn.op == 'opaque' and e.fn.args[0] == cls) or (e.kind == 'new' and e.fn is raw('cls', cls))]
  if not mk:
    ctx.ob('hook-enabled', w, False, f'no {cls} is ever made')
    return
  for e in mk:
    on = q.ekw(e, 'on_steps')
    for p in ('first_step', 'train_steps'):
      m = member(on if on is not None else NONE, sym(p))
      if m is None: ctx.undecided('on-steps', e.where(), t.show(on, 4))
      else: ctx.ob('on-steps', e.where(), m, f'{p} is not always among the steps on which the hook runs')
    star = [v for k, v in e.kwargs if not isinstance(k, str)]
    if on is not None: ctx.ob('on-steps-kept', e.where(), t.contains(on, lambda y: t.is_const(y, 'on_steps')), 'the configured steps are dropped')
    own = ['writer'] + ([] if cls.endswith('ReportProgress') else ['progress_hook'] + (['data_sharding', 'every_steps', 'every_secs'] if 'contrastive' in cls else ['extra_rng_keys']) +
                        (['loss_fn'] if cls.endswith('EvaluateMultipleDatasets') else []))
    for p in own:
      k = {'writer': 'writer' if cls.endswith('ReportProgress') else 'metric_writer', 'progress_hook': 'report_progress', 'extra_rng_keys': 'rng_keys'}.get(p, p)
      v = q.ekw(e, k)
      ctx.ob('hook-passes', e.where(), v is not None and t.mentions(v, sym(p)), f'{p} is given as {t.show(v, 3) if v is not None else "nothing"}')
    ctx.ob('hook-passes', e.where(), any(t.mentions(v, sym('**kwargs')) for v in star), 'the other options of the hook are dropped')
    if cls.endswith('ReportProgress'):
      ctx.ob('hook-passes', e.where(), q.ekw(e, 'num_train_steps', None, NONE) is sym('train_steps'), 'the number of training steps is not passed on')
      continue
    if cls.endswith('EvaluateMultipleDatasets'): ctx.ob('hook-passes', e.where(), t.mentions(q.ekw(e, 'datasets', None, NONE), sym('datasets')), 'the data sets are not passed on')
    on_ = {raw('truth', sym('**kwargs')): True, raw('truth', sym('datasets')): True}
    for nm in () if 'create_evaluation_hook' in path else (['datasets'] if 'contrastive' in cls else ['**kwargs']):
      off = {raw('truth', sym(nm)): False, t.is_(sym(nm), NONE): True} if nm == 'datasets' else {raw('truth', sym(nm)): False, t.is_(sym(nm), NONE): False}
      pc0 = t.cond(t.assume(t.val(e.pc), {**off, **{a: False for a in t.cond_atoms(t.cond(t.val(e.pc))) if a.op == 'isinstance'}}))
      dom0 = [t.assume(l.domain, off) for l in e.loops]
      none = pc0 is FALSE or any(not t.mentions(d, sym(nm)) for d in dom0)
      if none or pc0 is TRUE and not e.loops: ctx.ob('hook-disabled', e.where(), none, 'the hook is made although nothing is configured for it')
    pc = t.cond(t.assume(t.val(e.pc), {**on_, **{a: False for a in t.cond_atoms(t.cond(t.val(e.pc))) if a.op == 'isinstance'}}))
    ctx.ob('hook-enabled', e.where(), pc is not FALSE, 'the hook is not made although it is configured')
    ap = q.ekw(e, 'apply_fn')
    if ap is None and not any(not t.mentions(v, sym('**kwargs')) and not t.mentions(v, sym('datasets')) for v in star):
      ctx.ob('hook-applies', e.where(), False, 'the hook is not given a function to evaluate')
      continue
    ms = [y for y in t.subterms(ap or NONE) if y.op == 'call' and y.args[0].op == 'opaque' and y.args[0].args[0].endswith('create_flax_model')]
    if not ms:
      ctx.undecided('hook-model', e.where(), t.show(ap, 3) if ap is not None else 'none')
      continue
    ctx.ob('hook-deterministic', e.where(), all(q.kws(m).get('deterministic') is TRUE for m in ms), 'the hook does not evaluate the deterministic model')
    hook_apply(ctx, path, e, ap, ms[0])
    ctx.ob('hook-model-config', e.where(), all(t.mentions(m, sym('base_model_config')) and t.mentions(m, sym('model_overrides')) for m in ms), 'the evaluated model ignores the base or the overriding configuration')
    for y in {y for m in ms for y in t.subterms(m) if y.op == 'call' and y.args[0].op == 'opaque' and y.args[0].args[0].endswith('override_base_config')}:
      a = dict(zip(('base', 'override'), y.args[1])) | q.kws(y)
      ctx.ob('hook-model-config', e.where(), a.get('base') is sym('base_model_config') and a.get('override') is sym('model_overrides'), f'the configurations combined are {t.show(y, 3)}')
    if 'contrastive' in cls: contrastive_hook(ctx, path, cls, r, e)


def contrastive_hook(ctx, path, cls, r, e):
  """Every configured data set is evaluated, with its own options; exactly one of images and texts is embedded at a time."""
  w, D = e.where(), sym('datasets')
  rs = [x for x in q.raises(r) if any(t.is_const(y, 'image') or t.is_const(y, 'labels') for a in t.cond_atoms(t.cond(t.val(x.pc))) for y in t.subterms(a))]
  gets = {k: {y for x in rs for y in t.subterms(t.val(x.pc)) if y.op == 'getdef' and t.is_const(y.args[1], k)} for k in ('image', 'labels')}
  if not rs: ctx.ob('hook-one-input', w, False, 'images and texts given together (or neither) are not refused')
  elif len(gets['image']) == 1 and len(gets['labels']) == 1:
    (im,), (tx,) = gets['image'], gets['labels']
    base = {raw('truth', D): True}
    for i in (True, False):
      for j in (True, False):
        lits = {t.is_(im, NONE): i, t.is_(tx, NONE): j}
        rz = [t.cond(t.assume(t.assume(t.val(x.pc), {**base, **{a: False for a in t.cond_atoms(t.cond(t.val(x.pc))) if a.op == 'isinstance'}}), lits)) for x in rs]
        nm = f'images {"missing" if i else "given"}, texts {"missing" if j else "given"}'
        if i == j: ok = True if TRUE in rz else False if all(z is FALSE for z in rz) else None
        else: ok = True if all(z is FALSE for z in rz) else False if TRUE in rz else None
        if ok is None: ctx.undecided('hook-one-input', w, nm)
        else: ctx.ob('hook-one-input', w, ok, f'{nm}: ' + ('not refused' if i == j else 'refused'))
  lits = {raw('truth', D): True}
  def seen(x):
    x = t.assume(x, lits)
    return t.assume(x, {a: False for y in t.subterms(x) if y.op == 'ite' for a in t.cond_atoms(t.cond(y.args[0])) if a.op == 'isinstance'})
  if cls.endswith('ZeroShotPeriodicAction'):
    dn, do = q.ekw(e, 'dataset_names'), q.ekw(e, 'dataset_overrides')
    ok = dn is not None and t.mentions(seen(dn), D)
    ctx.ob('hook-datasets', w, ok and not t.contains(seen(dn), lambda y: y.op == 'map' and y.args[2] is not TRUE or y.op == 'slice'), f'the data sets evaluated are {t.show(seen(dn), 3) if dn is not None else "not given"}')
    ctx.ob('hook-datasets', w, do is not None and seen(do) is D, f'the options of the data sets are {t.show(seen(do), 3) if do is not None else "not given"}')
    return
  if len(e.loops) != 1:
    ctx.undecided('hook-datasets', w, f'{len(e.loops)} loops')
    return
  l = e.loops[-1]
  dom = seen(l.domain)
  if q.is_mcall(dom, 'items') or dom.op == 'items': key, val = t.item(t.nth(l.domain, l.idx), const(0)), t.item(t.nth(l.domain, l.idx), const(1))
  elif dom is D or dom is raw('keys', D): key, val = t.nth(l.domain, l.idx), None
  else:
    ctx.undecided('hook-datasets', w, t.show(dom, 3))
    return
  ctx.ob('hook-datasets', w, t.contains(dom, lambda y: y is D) and t.val(e.pc) is TRUE and l.early is FALSE, 'some data sets are not evaluated')
  task = q.ekw(e, 'task')
  star = [v for k, v in e.kwargs if not isinstance(k, str)]
  ctx.ob('hook-datasets', w, task is key, f'the task is {t.show(task, 3) if task is not None else "not given"}, not the name of the data set')
  ctx.ob('hook-datasets', w, any(v is val if val is not None else t.mentions(v, key) for v in star), 'the options of the data set are dropped')
  S, V, K = sym('S'), sym('V'), sym('K')
  r2 = ctx.analyze(path, opaque=[M + 'create_flax_model', M + 'override_base_config', cls], then=[S], then_kw=[('variables', V), ('cost', K)])
  cs = [x for x in r2.events if x.kind == 'call' and x.loops and x.args and x.args[0] is S]
  if not cs: ctx.ob('hook-datasets', w, False, 'the hooks of the data sets are never run')
  for x in cs:
    pc = t.cond(t.assume(x.pc, {a: False for a in t.subterms(x.pc) if a.op == 'exc' or a.op == 'truth' and a.args[0].op == 'exc'}))
    ctx.ob('hook-datasets', x.where(), pc is TRUE and x.loops[-1].early is FALSE, f'the hook of a data set only runs if {t.show(pc, 3)}')
    d2 = t.assume(x.loops[-1].domain, {a: False for a in t.subterms(x.loops[-1].domain) if a.op == 'exc' or a.op == 'truth' and a.args[0].op == 'exc'})
    if d2.op in ('slice', 'item', 'map'): ctx.ob('hook-datasets', x.where(), d2.op == 'map' and d2.args[2] is TRUE, f'only the hooks {t.show(d2, 2)} are run')
    ctx.ob('hook-datasets', x.where(), q.ekw(x, 'variables') is V and q.ekw(x, 'cost') is K, 'the hook of a data set does not get the values of the step')


def hook_apply(ctx, path, e, ap, model):
  """The function the hook evaluates is the apply of its model, with the arguments of the hook."""
  w = e.where()
  if ap.op != 'lam':
    ctx.ob('hook-applies', w, ap is t.attr(model, 'apply'), f'the hook evaluates {t.show(ap, 3)}, not the model')
    return
  V, X = sym('V'), sym('X')
  out = t.beta(ap, [V, X])
  if path.endswith('create_fewshot_hook'):
    cs = [y for y in t.subterms(out) if q.is_mcall(y, 'apply')]
    if len(cs) != 1: ctx.undecided('hook-applies', w, t.show(out, 4))
    else:
      a = dict(enumerate(cs[0].args[1])) | q.kws(cs[0])
      ctx.ob('hook-applies', w, a.get(0, a.get('variables')) is V and (a.get(1, a.get('images')) is X) and a.get(2, a.get('texts', NONE)) is NONE, f'the hook evaluates {t.show(out, 4)}, not the model on its images')
    return
  get = lambda k: raw('getdef', X, const(k), NONE)
  ni, nt = t.is_(get('image'), NONE), t.is_(get('labels'), NONE)
  for nm, lits, j in (('images', {ni: False, nt: True}, 0), ('texts', {ni: True, nt: False}, 1)):
    o = t.assume(out, lits)
    if o.op != 'tuple':
      ctx.undecided('hook-applies', w, t.show(o, 4))
      continue
    z = o.args[j] if len(o.args) > j else NONE
    cs = [y for y in t.subterms(z) if q.is_mcall(y, 'apply')]
    ok = len(cs) == 1 and z is t.item(cs[0], const(0)) and o.args[1 - j] is NONE
    if ok:
      a = dict(enumerate(cs[0].args[1])) | q.kws(cs[0])
      im, tx = a.get('images', a.get(1, NONE)), a.get('texts', a.get(2, NONE))
      ok = a.get(0, a.get('variables')) is V and t.assume(im, lits) is get('image') and t.assume(tx, lits) is get('labels')
    ctx.ob('hook-applies', w, ok, f'given {nm}, the hook evaluates {t.show(o, 4)}')


def periodic(ctx, path):
  if ctx.eng.find(path) is None: return
  r = ctx.analyze(path)
  w = f'{r.file} {path.split(":")[1]}'
  sup = [e for e in r.events if e.kind == 'superinit' and e.fn.args[0].args[0] is r.selfv]
  if not sup:
    ctx.undecided('periodic', w, 'no base initialiser')
    return
  e = sup[-1]
  for k in ('every_steps', 'every_secs', 'on_steps'):
    ctx.ob('periodic-steps', w, q.ekw(e, k) is sym(k), f'{k} is not passed to the periodic action')
  ctx.ob('periodic-synchronous', w, q.ekw(e, 'execute_async', None, FALSE) is FALSE, 'the evaluation runs asynchronously on buffers that the next step overwrites')
  ctx.ob('periodic-step-passed', w, q.ekw(e, 'pass_step_and_time', None, TRUE) is TRUE, 'the step is not passed on')


def models_(ctx):
  r = ctx.analyze('vmoe.train.trainer:create_flax_model', opaque=['vmoe.utils.parse_call'])
  w = f'{r.file} create_flax_model'
  pc = [y for y in t.subterms(r.ret) if y.op == 'call' and y.args[0].op == 'opaque']
  if pc and r.ret.op == 'call':
    c = pc[0]
    CF = sym('config')
    nm = c.args[1][0] if c.args[1] else NONE
    ctx.ob('model-class', w, t.mentions(nm, CF) and t.contains(nm, lambda y: t.is_const(y, 'name')), f'the class of the model is {t.show(nm, 3)}, not the configured name')
    for e in q.raises(r): ctx.ob('model-class', e.where(), t.cond(t.assume(t.val(e.pc), {t.in_(const('name'), CF): True})) is not TRUE, 'a configuration with a model name is refused')
    ctx.ob('model-class', w, r.ret.args[0] is t.item(c, const(0)) or t.is_const(r.ret.args[0]), 'the model is not an instance of the named class')
    ctx.ob('model-deterministic', w, q.kws(r.ret).get('deterministic') is sym('deterministic'), 'the deterministic flag is not passed to the model')
    ctx.ob('model-arguments', w, t.contains(raw('tuple', *r.ret.args[1]), lambda y: y is t.item(c, const(1))) and any(v is t.item(c, const(2)) for k, v in r.ret.args[2]), 'arguments written in the class name are dropped')
    ctx.ob('model-config', w, any(not isinstance(k, str) and t.mentions(v, sym('config')) and v is not t.item(c, const(2)) for k, v in r.ret.args[2]), 'the model configuration is not passed to the model')
  else: ctx.undecided('model', w, t.show(r.ret, 3))
  r = ctx.analyze('vmoe.train.trainer:override_base_config')
  w = f'{r.file} override_base_config'
  copy = [e for e in q.mev(r, 'copy_and_resolve_references') if e.fn.args[0] is sym('base')]
  if copy:
    c = call_term(copy[0])
    up = q.mev(r, 'update', 'update_from_flattened_dict')
    ctx.ob('override', w, r.ret is c and any(e.fn.args[0] is c and e.args and e.args[0] is sym('override') for e in up), 'the overrides are not applied to a copy that is returned')
    ctx.ob('override-copies', w, all(e.fn.args[0] is not sym('base') for e in up), 'the base configuration is changed')
  else:
    bad = [e for e in q.mev(r, 'update', 'update_from_flattened_dict') if e.fn.args[0] is sym('base')]
    if bad: ctx.ob('override-copies', bad[0].where(), False, 'the base configuration is changed')
    else: ctx.undecided('override', w, t.show(r.ret, 3))


LOSSES = {'softmax_xent': 'optax.softmax_cross_entropy'}


def losses(ctx):
  for name, (tr, ev, pred) in {
      'softmax_xent': ('optax.softmax_cross_entropy', 'optax.softmax_cross_entropy', None),
      'ensemble_softmax_xent': ('ensemble_softmax_xent_train', 'ensemble_softmax_xent_eval', 'label_pred_ensemble_softmax'),
      'ensemble_sigmoid_xent': ('ensemble_sigmoid_xent_train', 'ensemble_sigmoid_xent_eval', 'label_pred_ensemble_sigmoid')}.items():
    r = ctx.analyze('vmoe.train.trainer:get_loss_fn', bind={'name': const(name)},
                    opaque=['vmoe.evaluate.ensemble.' + x for x in ('ensemble_softmax_xent_train', 'ensemble_softmax_xent_eval', 'label_pred_ensemble_softmax', 'ensemble_sigmoid_xent_train',
                                                                    'ensemble_sigmoid_xent_eval', 'label_pred_ensemble_sigmoid')])
    w = f'{r.file} get_loss_fn({name})'
    for i, want in enumerate((tr, ev, pred)):
      if want is None: continue
      got = t.item(r.ret, const(i))
      names = {y.args[0].rsplit('.', 1)[-1] for y in t.subterms(got) if y.op in ('glob', 'opaque') and isinstance(y.args[0], str)}
      if not names: ctx.undecided('loss-table', w, t.show(got, 3))
      else: ctx.ob('loss-table', w, want.rsplit('.', 1)[-1] in names, f'the {("training loss", "evaluation loss", "label prediction")[i]} is {sorted(names)}')
    if name.startswith('ensemble'):
      ctx.ob('loss-options', w, all(t.contains(t.item(r.ret, const(i)), lambda y: y.op == 'sym' and 'kwargs' in y.args[0]) for i in range(3)), 'the ensemble size is not passed to all three functions')


def progress(ctx):
  r = ctx.analyze('vmoe.train.periodic_actions:SingleProcessPeriodicAction.__call__')
  w = f'{r.file} SingleProcessPeriodicAction.__call__'
  calls = [e for e in r.events if e.kind == 'call' and e.fn is t.attr(r.selfv, 'periodic_action')]
  want = t.cond(t.eq(raw('call', glob('jax.process_index'), (), ()), t.attr(r.selfv, 'process_index')))
  if calls: ctx.ob('single-process', w, all(t.cond(t.val(e.pc)) is want for e in calls), 'the action does not run exactly on the chosen process')
  r = ctx.analyze('vmoe.train.trainer:create_profile_hook')
  w = f'{r.file} create_profile_hook'
  al = raw('truth', raw('getdef', sym('**kwargs'), const('all_processes'), FALSE))
  for v, name in ((True, 'ProfileAllHosts'), (False, 'Profile')):
    o = t.assume(r.ret, {al: v})
    cs = [y for y in t.subterms(o) if q.is_call(y, 'clu.periodic_actions.' + name)]
    one = any(y.op == 'obj' and str(y.args[0]).endswith('SingleProcessPeriodicAction') for y in t.subterms(o))
    ok = len(cs) == 1 and one is not v and q.kws(cs[0]).get('logdir') is sym('workdir') and any(not isinstance(k, str) and t.mentions(x, sym('**kwargs')) for k, x in cs[0].args[2])
    if o.op == 'ite': ctx.undecided('profile-hook', w, t.show(o, 3))
    else: ctx.ob('profile-hook', w, ok, f'all_processes={v}: {t.show(o, 4)}')
  report(ctx)


def report(ctx):
  """ReportProgress: on its process, whenever the base class triggers, all metrics of the step under their names."""
  P = 'vmoe.train.periodic_actions:ReportProgress.'
  r = ctx.analyze(P + '_should_trigger')
  w = f'{r.file} ReportProgress._should_trigger'
  pi = t.attr(r.selfv, '_process_index')
  none, mine = t.is_(pi, NONE), t.eq(raw('call', glob('jax.process_index'), (), ()), pi)
  for nm, lits, want in (('any process', {none: True}, True), ('its own process', {none: False, mine: True}, True), ('another process', {none: False, mine: False}, False)):
    o = t.assume(r.ret, lits)
    sup = q.is_mcall(o, '_should_trigger') and list(o.args[1]) == [sym('step'), sym('t')]
    if o.op == 'ite': ctx.undecided('report-process', w, t.show(o, 3))
    else: ctx.ob('report-process', w, sup if want else o is FALSE, f'on {nm} the result is {t.show(o, 3)}')
  r = ctx.analyze(P + '__init__')
  w = f'{r.file} ReportProgress.__init__'
  st = [e for e in r.events if e.kind == 'setattr' and e.args and t.is_const(e.args[0], '_process_index')]
  if st: ctx.ob('report-process', w, st[-1].args[1] is sym('process_index'), 'the process that reports is not the one asked for')
  r = ctx.analyze(P + '__call__')
  w = f'{r.file} ReportProgress.__call__'
  sup = [e for e in r.events if e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[1] == '__call__']
  wr = q.mev(r, 'write_scalars')
  if not sup or not wr:
    ctx.ob('report-metrics', w, bool(wr) or not sup, 'the metrics are not written')
    return
  c = call_term(sup[0])
  ctx.ob('report-step', w, list(sup[0].args)[:2] == [sym('step'), sym('t')], 'the base class is told another step')
  wn = t.is_(t.attr(r.selfv, '_writer'), NONE)
  lits = {raw('truth', c): True, wn: False}
  M_ = raw('getdef', sym('**kwargs'), const('scalar_metrics'), NONE)
  full = {raw('truth', M_): True, t.is_(M_, NONE): False}
  for a in {a for e in wr for a in t.cond_atoms(t.cond(t.val(e.pc)))}:
    if 'memory_profiler' in str(a): full[a] = True
  ctx.ob('report-triggered', w, all(t.cond(t.assume(t.val(e.pc), {raw('truth', c): False})) is FALSE for e in wr), 'metrics are written although no report is due')
  ctx.ob('report-triggered', w, any(t.cond(t.assume(t.val(e.pc), {**lits, **full})) is TRUE for e in wr), 'a due report is not written')
  ctx.ob('report-result', w, t.cond(r.ret) is t.cond(c), f'the result is {t.show(r.ret, 3)}, not whether the report was due')
  for e in wr: ctx.ob('report-step', e.where(), bool(e.args) and e.args[0] is sym('step'), f'metrics are written for step {t.show(e.args[0], 3) if e.args else "?"}')
  ok = und = False
  for e in wr:
    for m in t.subterms(t.assume(e.args[1], {**lits, **full})) if len(e.args) > 1 else ():
      if m.op != 'map' or not t.mentions(m, M_): continue
      i = sym('%i')
      kv = t.beta(m.args[0], [i])
      if kv.op != 'tuple' or len(kv.args) != 2: continue
      und = True
      src = m.args[1]
      D = src.args[0] if src.op == 'keys' else None
      key = t.nth(src, i)
      if D is None or not q.is_call(D, 'flax.traverse_util.flatten_dict') or t.assume(D.args[1][0], full) is not M_: continue
      sep = q.kws(D).get('sep', NONE)
      name = kv.args[0]
      named = t.is_const(sep, '/') and name is key or sep is NONE and q.is_mcall(name, 'join') and t.is_const(name.args[0].args[0], '/') and list(name.args[1]) == [key]
      val = kv.args[1]
      if q.is_call(val, 'float'): val = val.args[1][0]
      if m.args[2] is TRUE and named and val is t.item(D, key): ok = True
  und = und or not any(t.mentions(x, M_) for e in wr for x in e.args)
  if ok or und: ctx.ob('report-metrics', w, ok, 'not every metric is written with its own value under its own name')
  else: ctx.undecided('report-metrics', w, 'metrics not written as one mapping')


# ---------------------------------------------------------------- C20
META = ('shape', 'dtype', 'ndim', 'size', 'sharding', 'aval', 'itemsize', 'nbytes')


def donated_of(fn):
  """Donated argument positions of a (compiled) jitted function value."""
  for y in t.subterms(fn):
    if y.op == 'call' and y.args[0].op == 'glob' and y.args[0].args[0] in ('jax.jit',) :
      d = q.kws(y).get('donate_argnums')
      if d is None: return ()
      if d.op == 'const': return (d.args[1],)
      if d.op in ('tuple', 'list') and all(t.is_const(x) for x in d.args): return tuple(x.args[1] for x in d.args)
  return None


def reads(x, what):
  """Does the value x read the buffers `what` (not only their shapes)?"""
  def f(y):
    if y.op == 'attr' and y.args[1] in META: return const(0)
    return None
  return t.mentions(t.transform(x, f), what)


@prop('C20', 'Ownership (use-after-move) analysis of donated arguments: after the call that donates a value, no effect of the same iteration or after the loop reads that value; what is donated is rebound '
             'to the result, and values needed again (parameters in evaluation) are not donated.', floor=10)
def c20(ctx):
  for path, keys in TRAINERS: ctx.section(train_donation, path)
  ctx.section(eval_donation)
  ctx.section(init_donation)


def train_donation(ctx, path):
  run = Run(ctx, path)
  w, ab = run.w, run.ab
  if run.why:
    ctx.undecided('donation', w, run.why)
    return
  don = donated_of(run.step.fn)
  if don is None:
    ctx.undecided('donation', run.step.where(), 'no jitted function')
    return
  if not don: ctx.ob('donated-not-read', w, True)
  early = {ab(call_term(e)) for e in run.r.events if e.kind == 'call' and e.seq < run.start and e not in run.rest}
  def cut(x):
    """Values computed before the first donation are not reads of the donated buffers."""
    def f(y):
      if y in early and not q.is_call(y, 'jax.tree.map', 'dict', 'list', 'tuple'): return sym('early')
      return None
    return t.transform(x, f)
  for j in don:
    if j >= len(run.step.args): continue
    d = run.step.args[j]
    bad = []
    for e in run.r.events:
      if e.seq <= run.step.seq or run.pos(e) != 'in' or e.kind not in ('call', 'setattr', 'setitem', 'raise', 'enter', 'new', 'mutate'): continue
      vals = list(e.args) + [v for _, v in e.kwargs] + ([e.fn] if e.fn is not None else [])
      vals = [ab(v) for v in vals if isinstance(v, T)]
      if any(reads(v, ab(d)) for v in vals): bad.append(e)
    ctx.ob('donated-not-read', run.step.where(), not bad, f'argument {j} is donated to the step but read again at {bad[0].where()}' if bad else '')
    carried = [p for p, (lb, init, nxt) in run.loop.phis.items() if reads(ab(nxt), ab(d)) and p is not d and ab(nxt) is not ab(run.nxt)]
    ctx.ob('donated-not-kept', run.step.where(), not carried, f'argument {j} is kept in {run.loop.phis[carried[0]][0]} for later iterations' if carried else '')
  if 0 in don:
    ctx.ob('donated-rebound', run.step.where(), ab(run.nxt) is run.new or not reads(ab(run.nxt), run.phi), 'the donated state is used by the next iteration')
    bad = []
    for e in run.r.events:
      if e.seq <= run.end or e.kind != 'call': continue
      for v in list(e.args) + [v for _, v in e.kwargs]:
        if not isinstance(v, T): continue
        def g(y):
          if y.op == 'fold': return sym('folded')
          return None
        v2 = cut(t.transform(ab(v), g))
        if reads(v2, run.S0): bad.append(e)
    ctx.ob('donated-not-read-after', w, not bad, f'the initial state was donated to the first step but is read at {bad[0].where()}' if bad else '')
    pre = [e for e in run.saves if run.pos(e) == 'before']
    inloop = [e for e in run.r.events if run.pos(e) == 'in' and e.kind == 'call' and any(isinstance(v, T) and reads(cut(ab(v)), run.S0) for v in list(e.args) + [v for _, v in e.kwargs])]
    ctx.ob('donated-not-read-after', w, not inloop, f'the initial state is read inside the loop at {inloop[0].where()}' if inloop else '')


def eval_donation(ctx):
  mk = 'vmoe.evaluate.evaluator:make_eval_step_pjit'
  r = ctx.analyze(mk)
  w = f'{r.file} make_eval_step_pjit'
  js = [e for e in r.events if e.kind == 'jit']
  if len(js) != 1:
    ctx.undecided('evaluation-donation', w, f'{len(js)} jitted functions')
    return
  d = q.ekw(js[0], 'donate_argnums')
  don = () if d is None else (d.args[1],) if d.op == 'const' else tuple(x.args[1] for x in d.args if t.is_const(x))
  path = 'vmoe.evaluate.evaluator:evaluate_dataset'
  r = ctx.analyze(path)
  w = f'{r.file} evaluate_dataset'
  st = [e for e in r.events if e.kind == 'call' and e.fn is sym('eval_step_pjit')]
  if len(st) != 1 or not st[0].loops:
    ctx.undecided('evaluation-donation', w, f'{len(st)} steps')
    return
  e = st[0]
  l = e.loops[-1]
  for j in don:
    if j >= len(e.args): continue
    x = e.args[j]
    is_phi = any(p is x for p in l.phis)
    if is_phi:
      nxt = l.phis[x][2]
      ctx.ob('donated-rebound', e.where(), nxt is call_term(e), f'argument {j} is donated but the next batch does not use the result')
    else:
      ctx.ob('donated-not-reused', e.where(), t.mentions(x, l.idx), f'argument {j} ({t.show(x, 3)}) is donated in the first batch and used again in the next one')
    later = [f for f in r.events if f.seq > e.seq and f.kind == 'call' and any(isinstance(v, T) and reads(t.transform(v, lambda y: sym('folded') if y.op == 'fold' or y is call_term(e) else None), x) for v in list(f.args) + [v for _, v in f.kwargs])]
    ctx.ob('donated-not-read', e.where(), not later, f'argument {j} is donated but read at {later[0].where()}' if later else '')


def init_donation(ctx):
  """Every other jitted function with donated arguments: listed, with the values given to it."""
  n = 0
  import ast
  for m in ctx.eng.all_modules():
    mod = ctx.eng.module(m)
    if mod is None or m.endswith('_test'): continue
    for nd in ast.walk(mod.tree):
      if isinstance(nd, ast.keyword) and nd.arg in ('donate_argnums', 'donate_argnames'): n += 1
  ctx.note(f'{n} donation sites in the package')

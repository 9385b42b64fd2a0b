"""C39: a training run is put together from its configuration as written."""
import ast

from .. import q
from .. import terms as t
from ..framework import prop
from ..terms import TRUE, FALSE, NONE, raw, const, glob, sym, T
from . import training as tr
from .training import M, N, TRAINERS, call_term

PROGRAMS = {'vmoe.train.main': M + 'train_and_evaluate', 'vmoe.projects.soft_moe.main': M + 'train_and_evaluate', 'vmoe.projects.soft_moe.main_contrastive': N + 'train_and_evaluate',
            'vmoe.projects.adversarial_attacks.main': 'vmoe.projects.adversarial_attacks.lib.run_pgd_attack'}


@prop('C39', 'Value-flow analysis of how a run is assembled: each argument of the parts that make the data, steps, checkpoints, model, optimizer, state, iterator, loss, train step, attack, mixup and reports '
             'is traced back to the option of the configuration (and its default) it must come from; the programs and the application wrapper give them the mesh, writer and directory of the run.', floor=60)
def c39(ctx):
  for path, keys in TRAINERS:
    ctx.section(assembly, path, keys)
    ctx.section(norms, path.replace('train_and_evaluate', 'train_step'))
  ctx.section(iterator)
  ctx.section(loss_functions)
  ctx.section(summaries)
  ctx.section(checkpoint_place)
  ctx.section(application)
  ctx.section(programs)


class Args:
  """The arguments of the only call of an opaque function, by parameter name."""
  def __init__(self, ctx, run, name):
    es = run.op(name)
    self.e = es[0] if len(es) == 1 else None
    self.n = len(es)
    if self.e is None: return
    f = ctx.eng.find(':'.join(self.e.fn.args[0].rsplit('.', 1)))
    a = f[1].args if f is not None and hasattr(f[1], 'args') else None
    names = [x.arg for x in a.posonlyargs + a.args] if a is not None else []
    self.named = {k: run.ab(v) for k, v in self.e.kwargs if isinstance(k, str)}
    for i, v in enumerate(self.e.args):
      if i < len(names): self.named.setdefault(names[i], run.ab(v))
    self.star = [run.ab(v) for k, v in self.e.kwargs if not isinstance(k, str)]
    self.w = self.e.where()

  def get(self, k): return self.named.get(k)


def opt(*path):
  """The configuration (sub)tree at path."""
  x = sym('config')
  for p in path: x = t.attr(x, p)
  return x


def empty(x): return x.op in ('dict', 'list', 'tuple') and not x.args


def same_option(got, path, default=None):
  """Is got the option at path, read with the given default (None: mandatory)? True / False / None (unknown)."""
  base = opt(*path[:-1])
  k = path[-1]
  if got is None: return False
  if got is t.attr(base, k) or got is t.item(base, const(k)): return True
  if got.op == 'getdef' and got.args[0] is base and t.is_const(got.args[1], k):
    d = got.args[2]
    if default is None: return d is NONE
    if empty(default) or default is NONE: return empty(d) or d is NONE
    return d is default
  if got.op in ('call', 'totuple', 'tolist', 'list', 'tuple', 'seqof') and t.contains(got, lambda y: y is base or t.is_const(y, k)):
    if q.is_mcall(got, 'to_dict', 'copy_and_resolve_references', 'copy'): return same_option(got.args[0].args[0], path, default)
    if got.op in ('totuple', 'tolist', 'seqof') or q.is_call(got, 'tuple', 'list', 'dict', 'int'):
      return same_option(got.args[0] if got.op != 'call' else got.args[1][0], path, default)
    return None
  if got.op == 'ite': return None
  if got.op == 'getdef' and t.contains(got, lambda y: t.is_const(y, k)) and q.is_mcall(got.args[0], 'to_dict', 'copy_and_resolve_references'): return None
  return False


def assembly(ctx, path, keys):
  run = tr.Run(ctx, path)
  w, ab = run.w, run.ab
  if run.why:
    ctx.undecided('assembly', w, run.why)
    return
  A = {n: Args(ctx, run, n) for n in ('get_datasets', 'get_data_num_examples', 'get_train_steps_and_epochs', 'get_dataset_shape_dtype_struct', 'create_checkpoint_manager', 'create_flax_model',
                                      'make_create_train_state_fn', 'restore_or_create_train_state', 'get_dataset_iterator', 'get_loss_fn', 'create_tree_summarizer')}
  def val(n):
    return ab(call_term(A[n].e))
  def ok(rule, where, good, detail):
    if good is None: ctx.undecided(rule, where, detail)
    else: ctx.ob(rule, where, good, detail)
  def option(rule, n, k, p, default=None):
    a = A[n]
    if a.e is None: return
    g = a.get(k)
    if g is None and default is not None and k in a.named: g = default
    ok(rule, a.w, same_option(g, p, default), f'{n}: {k} is {t.show(g, 4) if g is not None else "not given"}, not the option {".".join(p)}' + (f' (default {t.show(default, 2)})' if default is not None else ''))
  def value(rule, n, k, want, what):
    a = A[n]
    if a.e is None: return
    g = a.get(k)
    ctx.ob(rule, a.w, g is want, f'{n}: {k} is {t.show(g, 4) if g is not None else "not given"}, not {what}')
  def section(rule, n, p):
    a = A[n]
    if a.e is None: return
    rs = [same_option(s, p, raw('dict')) for s in a.star]
    ok(rule, a.w, True if True in rs else None if None in rs else False, f'{n}: the options configured as {".".join(p)} are not passed on')
  # data
  d = A['get_datasets']
  if d.e is not None and d.named:
    g = next(iter(d.named.values()))
    ok('run-data', d.w, same_option(g, ('dataset',)), f'the data sets are made from {t.show(g, 3)}, not from the option dataset')
  D = val('get_datasets') if d.e is not None else NONE
  train = t.item(D, const('train'))
  has = t.in_(const('train'), D)
  for e in q.raises(run.r):
    if e.loops: continue
    pc = t.cond(t.assume(t.cond(ab(t.val(e.pc))), {has: True}))
    if pc is TRUE: ctx.ob('run-data', e.where(), False, 'a configuration with training data is refused')
  n = A['get_data_num_examples']
  if n.e is not None and n.named:
    g = next(iter(n.named.values()))
    ok('run-length', n.w, same_option(g, ('dataset', 'train')), f'the examples counted are those of {t.show(g, 3)}')
  for k in ('train_steps', 'train_epochs'): option('run-length', 'get_train_steps_and_epochs', k, (k,))
  option('run-length', 'get_train_steps_and_epochs', 'train_batch_size', ('dataset', 'train', 'batch_size'))
  if n.e is not None: value('run-length', 'get_train_steps_and_epochs', 'train_examples', val('get_data_num_examples'), 'the number of training examples')
  s = A['get_dataset_shape_dtype_struct']
  E = None
  if s.e is not None and s.named:
    E = val('get_dataset_shape_dtype_struct')
    g = next(iter(s.named.values()))
    ctx.ob('run-shapes', s.w, g is train, f'the shapes are those of {t.show(g, 3)}, not of the training data')
  # checkpoints
  value('run-directory', 'create_checkpoint_manager', 'workdir', sym('workdir'), 'the working directory')
  section('run-checkpoints', 'create_checkpoint_manager', ('save_checkpoint',))
  # model and state
  models = [a for a in run.op('create_flax_model')]
  if len(models) == 1: option('run-model', 'create_flax_model', 'config', ('model',))
  mk = 'make_create_train_state_fn'
  if models and len(models) == 1: value('run-model', mk, 'model', val('create_flax_model'), 'the configured model')
  option('run-optimizer', mk, 'optimizer_config', ('optimizer',))
  option('run-randomness', mk, 'extra_rng_keys', ('extra_rng_keys',), raw('list'))
  a = A[mk]
  if a.e is not None:
    if 'seed' not in a.named: ctx.ob('run-randomness', a.w, False, 'the configured seed is not used')
    else: option('run-randomness', mk, 'seed', ('seed',), const(0))
    g = a.get('input_shape_dtypes')
    if E is not None:
      want = [t.item(E, const(k)) for k in (keys if 'contrastive' in path else keys[:1])]
      if g is None or g.op in ('tuple', 'list'): ctx.ob('run-shapes', a.w, g is not None and list(g.args) == want, f'the model is initialized for {t.show(g, 4) if g is not None else "nothing"}, not for its inputs in the training data')
      else: ctx.undecided('run-shapes', a.w, t.show(g, 3))
  rs = 'restore_or_create_train_state'
  if A['create_checkpoint_manager'].e is not None: value('run-restore', rs, 'ckpt_manager', val('create_checkpoint_manager'), 'the checkpoint manager of the run')
  if a.e is not None: value('run-restore', rs, 'initialize_fn', val(mk), 'the initializer of the configured state')
  option('run-partitioning', rs, 'axis_resources_regexes', ('params_axis_resources',))
  option('run-initialization', rs, 'initialization_kwargs', ('initialization',), NONE)
  # iterator
  value('run-data', 'get_dataset_iterator', 'mesh', sym('mesh'), 'the mesh of the run')
  option('run-data', 'get_dataset_iterator', 'prefetch_size', ('dataset', 'train', 'prefetch_device'), const(1))
  # train step
  L = None
  if A['get_loss_fn'].e is not None:
    section('run-loss', 'get_loss_fn', ('loss',))
    L = t.item(val('get_loss_fn'), const(0))
  sm = A['create_tree_summarizer']
  if sm.e is not None and sm.named: ok('run-summaries', sm.w, same_option(next(iter(sm.named.values())), ('summarize_arrays',), NONE), f'summaries of {t.show(next(iter(sm.named.values())), 3)}')
  steps = {y for y in t.subterms(run.step.fn) if y.op == 'papp' and y.args[0].op == 'opaque' and y.args[0].args[0].endswith('.train_step')}
  base = None
  if len(steps) == 1:
    y = next(iter(steps))
    k = {a: ab(b) for a, b in q.kws(y).items()}
    base = ab(y)
    ok('run-microsteps', w, same_option(k.get('microsteps'), ('microsteps',), NONE), f'the step uses {t.show(k["microsteps"], 3) if "microsteps" in k else "no"} microsteps')
    if sm.e is not None: ctx.ob('run-summaries', w, k.get('summarizer') is val('create_tree_summarizer'), 'the configured summaries are not made by the train step')
    if L is not None: ctx.ob('run-loss', w, k.get('loss_fn') is L, 'the step does not minimize the configured loss')
    if 'contrastive' in path:
      g = k.get('loss_fn', NONE)
      ls = t.contains(g, lambda z: z.op in ('opaque', 'glob') and isinstance(z.args[0], str) and ('sigmoid' in z.args[0]))
      ctx.ob('run-loss', w, ls, f'the step minimizes {t.show(g, 3)}, not the sigmoid loss')
  else: ctx.undecided('run-step', w, f'{len(steps)} train steps')
  # attack and mixup
  jits = [e for e in run.r.events if e.kind == 'jit' and t.contains(e.args[0] if e.args else NONE, lambda y: y.op in ('opaque', 'fnval') and str(y.args[0]).endswith('train_step'))]
  js = [y for y in t.subterms(run.step.fn) if q.is_call(y, 'jax.jit') and y.args[1]]
  wrapped(ctx, run, w, js, base, L)
  if len(set(js)) == 1:
    kw = q.kws(js[0])
    o = kw.get('out_shardings')
    if o is None and all(isinstance(k, str) for k in kw) and len(js[0].args[1]) == 1:
      ctx.ob('run-shardings', w, False, 'the compiled step does not keep the placement of the state')
    if o is not None:
      o = ab(o)
      got = t.item(o, const(0)) if o.op in ('tuple', 'list') else NONE
      good = q.is_call(got, 'jax.tree.map', 'jax.tree_util.tree_map', 'jax.tree_map') and len(got.args[1]) == 2 and got.args[1][1] is run.S0 and t.beta(got.args[1][0], [sym('X')]) is t.attr(sym('X'), 'sharding') if got.op == 'call' and got.args[1] and got.args[1][0].op == 'lam' else None
      ok('run-shardings', w, good, f'the new state is placed as {t.show(got, 4)}, not like the old one')
  # lowered for the shapes it is called with
  for y in t.subterms(run.step.fn):
    if q.is_mcall(y, 'lower') and E is not None:
      got = [ab(v) for v in y.args[1]]
      want = [run.S0] + [t.item(E, const(k)) for k in keys]
      ctx.ob('run-shapes', w, got == want, f'the step is compiled for {", ".join(t.show(g, 3) for g in got)}')
      break
  reports(ctx, run, w)


def wrapped(ctx, run, w, js, base, L):
  ab = run.ab
  if len(set(js)) != 1 or base is None: return
  fn = ab(js[0].args[1][0])
  if 'contrastive' in w:
    ctx.ob('run-step', w, fn is base, f'the function compiled is {t.show(fn, 3)}, not the train step')
    return
  opts = {k: [a for a in list(t.cond_atoms(t.cond(fn))) + conds(fn) if t.contains(a, lambda y: t.is_const(y, k) or (y.op == 'attr' and y.args[1] == k))] for k in ('adversarial', 'mixup')}
  wrap = {'adversarial': Args(ctx, run, 'wrap_train_step_with_adversarial_attack'), 'mixup': Args(ctx, run, 'wrap_train_step_with_mixup')}
  for k, a in wrap.items():
    if a.e is None: continue
    rs = [same_option(s, (k,), raw('dict')) for s in a.star]
    if True in rs or None not in rs: ctx.ob('run-' + k, a.w, True in rs, f'the options configured as {k} are not passed on')
    else: ctx.undecided('run-' + k, a.w, t.show(a.star[0], 3))
  a = wrap['adversarial']
  if a.e is not None and L is not None:
    l = a.get('loss_fn')
    if l is None: ctx.undecided('run-adversarial', a.w, 'attacked loss')
    elif l is L or l.op == 'item' and l.args[0] is L.args[0]: ctx.ob('run-adversarial', a.w, l is L, f'adversarial training attacks {t.show(l, 4)}, not the training loss')
    else: ctx.undecided('run-adversarial', a.w, t.show(l, 3))
  a = wrap['mixup']
  if a.e is not None:
    p = a.get('partition_spec')
    ok_ = p is not None and q.is_call(p, 'jax.sharding.PartitionSpec') and (list(p.args[1]) == [t.attr(sym('mesh'), 'axis_names')])
    if ok_ or p is None or not t.mentions(p, sym('mesh')) or t.contains(p, lambda y: y.op == 'item' and y.args[0] is t.attr(sym('mesh'), 'axis_names')): ctx.ob('run-mixup', a.w, ok_, f'mixed batches are placed as {t.show(p, 3) if p is not None else "not given"}, not over all axes of the mesh')
    else: ctx.undecided('run-mixup', a.w, t.show(p, 3))
  for ad in (False, True):
    for mx in (False, True):
      lits = {x: ad for x in opts['adversarial']} | {x: mx for x in opts['mixup']}
      got = t.assume(fn, lits)
      want = (['mixup'] if mx else []) + (['adversarial'] if ad else [])
      chain, x = [], got
      def known(y):
        for k, a in wrap.items():
          if a.e is not None and y is ab(call_term(a.e)): return k
        return None
      for _ in range(3):
        k = known(x)
        if k is None: break
        chain.append(k)
        a = wrap[k]
        x = t.assume(a.get('train_step_fn') if a.get('train_step_fn') is not None else NONE, lits)
      if x is not base and x.op == 'ite': ctx.undecided('run-step', w, t.show(x, 3))
      else: ctx.ob('run-step', w, x is base and chain == want, f'with adversarial={"on" if ad else "off"}, mixup={"on" if mx else "off"} the step is wrapped in {chain or "nothing"} (outermost first) instead of {want or "nothing"}' if x is base else 'the wrapped function is not the train step')


def conds(x):
  out = []
  for y in t.subterms(x):
    if y.op == 'ite': out += t.cond_atoms(t.cond(y.args[0]))
  return out


def reports(ctx, run, w):
  """Costs and metrics are reported under their names."""
  ab = run.ab
  F = [ab(call_term(e)) for e in run.op('get_flops_and_seconds_per_device')]
  names, other = {}, False
  for e in run.r.events:
    if e.kind != 'call' or e.fn is not t.attr(sym('writer'), 'write_scalars') or len(e.args) < 2: continue
    ctx.ob('run-reports', e.where(), run.pos(e) == 'in' or ab(e.args[0]) is t.add(run.init, const(1)), f'reported for step {t.show(ab(e.args[0]), 4)}')
    d = ab(e.args[1])
    if d.op != 'dict':
      other = True
      continue
    for k, v in d.args:
      if t.is_const(k): names[k.args[1]] = v
      else: other = True
      if not t.is_const(k) or not isinstance(k.args[1], str): continue
      name = k.args[1]
      for part, j in (('flops', 0), ('seconds', 1)):
        if part in name and any(v is t.item(f, const(1 - j)) for f in F): ctx.ob('run-reports', e.where(), False, f'{name} reports the wrong cost')
        if part in name and any(v is t.item(f, const(j)) for f in F): ctx.ob('run-reports', e.where(), t.cond(t.assume(t.cond(ab(t.val(e.pc))), {raw('truth', v): True})) is not FALSE, f'{name} is only reported when it is unknown')
  # the compilation and the costs of a step are reported at all, with their own values
  for n in ('train/compile_secs', 'train/step_flops_per_device', 'train/step_seconds_per_device'):
    if n not in names:
      if not other: ctx.ob('run-reports', w, False, f'{n} is not reported')
    elif n == 'train/compile_secs':
      # clock readings are equal terms here: a difference of two readings is 0
      v = names[n]
      ctx.ob('run-reports', w, not t.contains(v, lambda y: q.is_call(y, 'time.time', 'time.perf_counter', 'time.monotonic')), f'{n} reports {t.show(v, 3)}, not a duration')
    elif F: ctx.ob('run-reports', w, any(t.mentions(names[n], f) for f in F), f'{n} reports {t.show(names[n], 3)}')
  cost = run.op('make_train_cost_fn')
  if len(cost) == 1:
    c = ab(call_term(cost[0]))
    ctx.ob('run-costs', cost[0].where(), ab(cost[0].args[0]) is ab(run.step.fn), 'the costs are not those of the compiled train step')
    for name, arg in tr.HOOKS.items():
      mk = run.op(name)
      if len(mk) != 1 or arg is None or arg == 'metrics': continue
      h = ab(call_term(mk[0]))
      for e in run.r.events:
        if e.kind == 'call' and run.pos(e) == 'in' and ab(e.fn) in (h, t.item(h, const(0))):
          st = [ab(v) for k, v in e.kwargs if not isinstance(k, str)]
          want = raw('call', c, (run.label,), ())
          ctx.ob('run-costs', e.where(), want in st, f'the hook of {name} is not given the cost of the steps so far')
  ph = run.op('create_progress_hook')
  if len(ph) != 1: return
  h = ab(call_term(ph[0]))
  mets = t.item(sym('STEP'), const(1))
  for e in run.r.events:
    if e.kind != 'call' or run.pos(e) != 'in' or ab(e.fn) is not h: continue
    got = q.ekw(e, 'scalar_metrics')
    if got is None: continue
    got = ab(got)
    maps = [y for y in t.subterms(got) if y.op == 'map' and t.mentions(y, mets)]
    if not maps and not t.contains(got, lambda y: t.is_const(y) and isinstance(y.args[1], str) and 'train/' in y.args[1]):
      ctx.ob('run-reports', e.where(), False, 'the metrics of the step are not reported as train/<name>')
      continue
    if len(maps) != 1:
      ctx.undecided('run-reports', e.where(), f'{len(maps)} mappings of metrics')
      continue
    i = sym('%i')
    src = maps[0].args[1]
    kv = t.beta(maps[0].args[0], [i])
    key = t.nth(src, i)
    if src is raw('keys', mets) and kv.op == 'tuple':
      ctx.ob('run-reports', e.where(), maps[0].args[2] is TRUE and kv.args[1] is t.item(mets, key) and q.unfmt(kv.args[0]) is t.strcat([const('train/'), key]) if q.unfmt(kv.args[0]).op == 'strcat' else False,
             f'the metrics of the step are reported as {t.show(kv, 4)}')
    else: ctx.undecided('run-reports', e.where(), t.show(maps[0], 4))
    if len(cost) == 1:
      ctx.ob('run-costs', e.where(), t.contains(got, lambda y: y is raw('call', ab(call_term(cost[0])), (run.label,), ())), 'the cost of the steps so far is not reported')


def norms(ctx, path):
  """The norms of gradients, updates and parameters of the step are reported as global_norm/<name>."""
  r = ctx.analyze(path)
  w = f'{r.file} train_step'
  up = [e for e in q.mev(r, 'apply_gradients_and_compute_global_norms')]
  if len(up) != 1 or r.ret.op != 'tuple' or len(r.ret.args) != 2:
    ctx.undecided('run-norms', w, f'{len(up)} updates')
    return
  N = t.item(raw('call', up[0].fn, tuple(up[0].args), tuple(up[0].kwargs)), const(1))
  kinds = ('call', 'mutate', 'setitem')
  late = [e for e in r.events if e.kind in kinds and e.seq > up[0].seq]
  seen = [(e.where(), v, e) for e in late for v in list(e.args) + [v for k, v in e.kwargs] if isinstance(v, T) and t.mentions(v, N)]
  seen += [(w, r.ret.args[1], None)] if t.mentions(r.ret.args[1], N) else []
  if not seen:
    ctx.ob('run-norms', w, False, 'the norms of gradients, updates and parameters are not reported')
    return
  found = False
  for where, v, e in seen:
    if e is not None and e.kind == 'setitem' and len(e.args) == 2:
      k = q.unfmt(e.args[0])
      if e.args[1].op == 'item' and e.args[1].args[0] is N:
        key = e.args[1].args[1]
        name = t.strcat([const('global_norm/'), key])
        ctx.ob('run-norms', where, k is name or k is q.unfmt(name), f'the norm of {t.show(key, 2)} is reported as {t.show(k, 3)}')
        found = True
      continue
    for m in t.subterms(v):
      if m.op != 'map' or m.args[1] is not raw('keys', N): continue
      i = sym('%i')
      kv = t.beta(m.args[0], [i])
      key = t.nth(m.args[1], i)
      if kv.op != 'tuple' or len(kv.args) != 2: continue
      found = True
      ctx.ob('run-norms', where, m.args[2] is TRUE and kv.args[1] is t.item(N, key), f'a norm is reported as {t.show(kv.args[1], 4)}')
      k = q.unfmt(kv.args[0])
      ctx.ob('run-norms', where, k is t.strcat([const('global_norm/'), key]), f'the norm is reported as {t.show(k, 4)}')
  if not found: ctx.undecided('run-norms', w, 'the norms are used in another way')


def iterator(ctx):
  r = ctx.analyze(M[:-1] + ':get_dataset_iterator', opaque=['vmoe.data.pjit_utils.prefetch_to_device'])
  w = f'{r.file} get_dataset_iterator'
  cs = [e for e in r.events if e.kind == 'call' and e.fn.op == 'opaque']
  if len(cs) != 1:
    ctx.undecided('run-data', w, f'{len(cs)} iterators')
    return
  p = [sym(x) for x in ('dataset', 'prefetch_size', 'mesh')]
  for k, i, want in (('iterator', 0, p[0]), ('size', 1, p[1]), ('mesh', 2, p[2])):
    g = q.ekw(cs[0], k, i)
    ctx.ob('run-data', w, g is want, f'prefetch_to_device: {k} is {t.show(g, 3) if g is not None else "not given"}')
  ctx.ob('run-data', w, r.ret is call_term(cs[0]), 'the training data are not those that are prefetched')


def loss_functions(ctx):
  path = M[:-1] + ':get_loss_fn'
  for name, outer in (('sigmoid_xent', 'optax.sigmoid_binary_cross_entropy'), ('softmax_xent', 'optax.softmax_cross_entropy')):
    r = ctx.analyze(path, bind={'name': const(name)})
    w = f'{r.file} get_loss_fn({name})'
    for i in (0, 1):
      f = t.item(r.ret, const(i))
      if f.op == 'papp':
        ctx.ob('loss-options', w, any(not isinstance(k, str) and t.mentions(v, sym('**kwargs')) for k, v in f.args[2]), 'the options of the loss are dropped')
        f = f.args[0]
      if f.op == 'glob':
        ctx.ob('loss-function', w, f.args[0] == outer, f'{("training", "evaluation")[i]} loss is {f.args[0]}')
        continue
      if f.op != 'lam':
        ctx.undecided('loss-function', w, t.show(f, 3))
        continue
      o = t.beta(f, [sym('X'), sym('Y')])
      cs = [y for y in t.subterms(o) if q.is_call(y, outer)]
      good = len(cs) == 1 and list(cs[0].args[1])[:2] == [sym('X'), sym('Y')]
      ctx.ob('loss-function', w, good, f'{("training", "evaluation")[i]} loss is {t.show(o, 4)}')
      if good and name == 'sigmoid_xent':
        red = q.is_call(o, 'jax.numpy.sum') and o.args[1][0] is cs[0] or q.is_mcall(o, 'sum') and o.args[0].args[0] is cs[0]
        ax = q.kws(o).get('axis', (list(o.args[1]) + [NONE])[1 if q.is_call(o, 'jax.numpy.sum') else 0]) if red else None
        ctx.ob('loss-function', w, bool(red) and t.is_const(ax, -1), f'the loss of an example is {t.show(o, 4)}, not the sum over its classes')
    p = t.item(r.ret, const(2))
    if p.op == 'lam':
      o = t.beta(p, [sym('X')])
      red = q.is_call(o, 'jax.numpy.argmax') and o.args[1][0] is sym('X') or q.is_mcall(o, 'argmax') and o.args[0].args[0] is sym('X')
      ax = q.kws(o).get('axis', (list(o.args[1]) + [NONE])[1 if q.is_call(o, 'jax.numpy.argmax') else 0]) if red else NONE
      ctx.ob('label-prediction', w, bool(red) and t.is_const(ax, -1), f'the predicted label is {t.show(o, 4)}')
    else: ctx.undecided('label-prediction', w, t.show(p, 3))
  r = ctx.analyze(path, bind={'name': const('no such loss')})
  w = f'{r.file} get_loss_fn'
  ctx.ob('loss-unknown', w, any(t.cond(t.val(e.pc)) is TRUE for e in q.raises(r)), 'an unknown loss is not refused')


def summaries(ctx):
  cls = 'vmoe.train.tree_summarizer.TreeSummarizer'
  r = ctx.analyze(M[:-1] + ':create_tree_summarizer', opaque=[cls])
  w = f'{r.file} create_tree_summarizer'
  p = sym(list(r.params)[0]) if r.params and isinstance(list(r.params)[0], str) else sym('config')
  tc = raw('truth', p)
  off = t.assume(r.ret, {tc: False})
  ctx.ob('run-summaries', w, off is NONE or off.op == 'ite', f'without a configuration the summarizer is {t.show(off, 3)}')
  iss = [a for a in conds(r.ret) if a.op == 'isinstance']
  for seq in (True, False):
    o = t.assume(r.ret, {tc: True, **{a: seq for a in iss}})
    if o.op == 'ite' or o is NONE and not seq:
      if o is NONE: ctx.ob('run-summaries', w, False, 'no summarizer is made for a configuration')
      else: ctx.undecided('run-summaries', w, t.show(o, 3))
      continue
    if o is NONE: ctx.ob('run-summaries', w, False, 'no summarizer is made for a list of rules'); continue
    mk = [e for e in r.events if e.kind in ('call', 'new') and e.fn.op in ('opaque', 'cls') and e.fn.args[0] == cls and t.cond(t.assume(t.val(e.pc), {tc: True, **{a: seq for a in iss}})) is TRUE]
    if len(mk) != 1:
      ctx.undecided('run-summaries', w, f'{len(mk)} summarizers')
      continue
    if seq: ctx.ob('run-summaries', w, q.ekw(mk[0], 'rules', 0) is p, 'the list given as configuration is not the rules')
    else: ctx.ob('run-summaries', w, any(not isinstance(k, str) and v is p for k, v in mk[0].kwargs), 'the configuration is not the options of the summarizer')


def checkpoint_place(ctx):
  """The checkpoint directory exists on every process before the manager is made."""
  r = ctx.analyze(M[:-1] + ':create_checkpoint_manager', opaque=['vmoe.multihost_utils.sync_devices'])
  w = f'{r.file} create_checkpoint_manager'
  mk = q.ev(r, 'orbax.checkpoint.CheckpointManager')
  dirs = q.ev(r, 'tensorflow.io.gfile.makedirs', 'os.makedirs')
  sync = [e for e in r.events if e.kind == 'call' and e.fn.op == 'opaque']
  if len(mk) != 1: return
  d = q.ekw(mk[0], 'directory', 0)
  opts = [y for y in t.subterms(q.ekw(mk[0], 'options', 2, NONE)) if q.is_call(y, 'orbax.checkpoint.CheckpointManagerOptions')]
  create = opts and q.kws(opts[0]).get('create', TRUE) is TRUE
  i0 = t.eq(raw('call', glob('jax.process_index'), (), ()), const(0))
  for e in dirs:
    ctx.ob('checkpoint-directory-made', e.where(), e.args[0] is d, f'the directory made is {t.show(e.args[0], 3)}, not the one of the checkpoints')
    pc = t.cond(t.val(e.pc))
    ex = [a for a in t.cond_atoms(pc) if a.op == 'truth' and q.is_call(a.args[0], 'tensorflow.io.gfile.exists', 'os.path.exists')]
    ctx.ob('checkpoint-directory-made', e.where(), t.cond(t.assume(pc, {i0: True, **{a: False for a in ex}})) is TRUE, f'the missing directory is only made if {t.show(pc, 3)}')
    ctx.ob('checkpoint-directory-made', e.where(), t.cond(t.assume(pc, {i0: False})) is FALSE or not ex, 'every process makes the directory')
    ctx.ob('checkpoint-directory-made', e.where(), any(e.seq < s.seq < mk[0].seq and t.val(s.pc) is TRUE for s in sync), 'other processes do not wait until the directory exists')
  if not dirs: ctx.ob('checkpoint-directory-made', w, bool(create), 'nobody makes the checkpoint directory')
  items = q.ekw(mk[0], 'checkpointers', 1, NONE)
  if items.op == 'dict':
    by = {k.args[1]: v for k, v in items.args if t.is_const(k)}
    for k, h in (('state', 'PyTreeCheckpointHandler'), ('dataset_iterator', 'JsonCheckpointHandler')):
      if k in by:
        hs = [y for y in t.subterms(by[k]) if y.op == 'call' and y.args[0].op == 'glob' and y.args[0].args[0].endswith('Handler')]
        if hs: ctx.ob('checkpoint-items', w, hs[0].args[0].args[0].endswith('.' + h), f'{k} is written by {hs[0].args[0].args[0]}')
    if 'state' in by:
      a = [y for y in t.subterms(by['state']) if q.is_call(y, 'orbax.checkpoint.AsyncCheckpointer')]
      if a: ctx.ob('checkpoint-options', w, q.kws(a[0]).get('timeout_secs', (list(a[0].args[1]) + [NONE, NONE])[1]) is sym('wait_seconds'), 'the time to wait for a save is not the given wait_seconds')


def application(ctx):
  """vmoe.app: the program gets the configuration, directory, mesh and writer, with the mesh active and the reports flushed at the end."""
  r = ctx.analyze('vmoe.app:run', opaque=['vmoe.partitioning.get_auto_logical_mesh', 'vmoe.partitioning.log_logical_mesh'])
  w = f'{r.file} run'
  F = [e for e in r.events if e.kind == 'call' and e.fn is sym('main')]
  if len(F) != 1:
    ctx.ob('program-run', w, bool(F), 'the program is not called') if not F else ctx.undecided('program-run', w, f'{len(F)} calls')
    return
  e = F[0]
  ctx.ob('program-run', w, t.val(e.pc) is TRUE, f'the program only runs if {t.show(t.val(e.pc), 3)}')
  def flag(x, k):
    if x is None: return False
    if x.op == 'glob': return x.args[0].endswith('FLAGS.' + k)
    return x.op == 'attr' and x.args[1] == k and 'FLAGS' in t.show(x.args[0], 4)
  a = list(e.args)
  get = lambda i, k: a[i] if len(a) > i else q.ekw(e, k)
  ctx.ob('program-arguments', w, flag(get(0, 'config'), 'config') or not_flag(get(0, 'config')), f'the configuration given is {t.show(get(0, "config"), 3)}')
  ctx.ob('program-arguments', w, flag(get(1, 'workdir'), 'workdir') or not_flag(get(1, 'workdir')), f'the directory given is {t.show(get(1, "workdir"), 3)}')
  mesh, writer = get(2, 'mesh'), get(3, 'writer')
  ms = [x for x in r.events if x.kind == 'call' and x.fn.op == 'opaque' and x.fn.args[0].endswith('get_auto_logical_mesh')]
  if len(ms) == 1:
    ctx.ob('program-mesh', w, mesh is call_term(ms[0]), 'the program gets another mesh')
    n, dv = q.ekw(ms[0], 'num_partitions', 0), q.ekw(ms[0], 'hardware_mesh', 1)
    dv = dv if dv is not None else (ms[0].args[1] if len(ms[0].args) > 1 else None) or next((v for k, v in ms[0].kwargs if k == 'devices'), None)
    ctx.ob('program-mesh', w, flag(n, 'config.num_expert_partitions') or n is not None and n.op == 'attr' and n.args[1] == 'num_expert_partitions' and flag(n.args[0], 'config') or not_flag(n), f'the mesh has {t.show(n, 3) if n is not None else "?"} partitions')
    ctx.ob('program-mesh', w, q.is_call(dv, 'jax.devices') and not dv.args[1] and not dv.args[2] if isinstance(dv, T) else False, f'the mesh is made of {t.show(dv, 3) if isinstance(dv, T) else "?"}')
  else: ctx.undecided('program-mesh', w, f'{len(ms)} meshes')
  wr = q.ev(r, 'clu.metric_writers.create_default_writer')
  if len(wr) == 1:
    ctx.ob('program-writer', w, writer is call_term(wr[0]), 'the program gets another writer')
    ld, jl = q.ekw(wr[0], 'logdir', 0), q.ekw(wr[0], 'just_logging')
    ctx.ob('program-writer', w, flag(ld, 'workdir') or not_flag(ld), f'reports are written to {t.show(ld, 3) if ld is not None else "?"}')
    pi = raw('call', glob('jax.process_index'), (), ())
    if jl is not None:
      j0, j1 = (t.cond(t.subst(t.val(jl), {pi: const(i)})) for i in (0, 1))
      ctx.ob('program-writer', w, j0 is FALSE, 'the first process does not write reports')
      ctx.ob('program-writer', w, j1 is TRUE, 'other processes write the reports again')
    else: ctx.ob('program-writer', w, False, 'all processes write the reports')
  ent = [x for x in r.events if x.kind == 'enter' and x.seq < e.seq]
  ext = [x for x in r.events if x.kind == 'exit']
  inside = lambda pred: any(pred(x) and not any(y.seq < e.seq and pred(y) for y in ext) for x in ent)
  body = lambda x: x.fn if x.fn is not None else (x.args[0] if x.args else NONE)
  if ent:
    ctx.ob('program-mesh', w, inside(lambda x: t.contains(raw('tuple', body(x), *x.args), lambda y: y is mesh)), 'the mesh is not active while the program runs')
    ctx.ob('program-writer', w, inside(lambda x: t.contains(raw('tuple', body(x), *x.args), lambda y: q.is_call(y, 'clu.metric_writers.ensure_flushes') and writer in y.args[1])), 'the reports are not flushed at the end')
  hide = [x for x in r.events if x.kind == 'call' and x.fn.op == 'glob' and x.fn.args[0].endswith('set_visible_devices')]
  ctx.ob('program-devices', w, any(x.seq < e.seq and x.args and empty(x.args[0]) for x in hide), 'TensorFlow may reserve the memory of the accelerators')
  ap = q.ev(r, 'absl.app.run')
  jc = [x for x in r.events if x.kind == 'call' and t.show(x.fn, 5).endswith('config_with_absl')]
  ctx.ob('program-run', w, len(ap) == 1 and t.val(ap[0].pc) is TRUE, 'the flags are not parsed')
  if ap: ctx.ob('program-run', w, any(x.seq < e.seq for x in jc), 'the JAX flags are not defined before they are parsed')


def not_flag(x):
  """Unknown way of reading a flag: not decided here."""
  return x is not None and x.op not in ('attr', 'const', 'sym', 'dict', 'list', 'glob')


def programs(ctx):
  for m, want in PROGRAMS.items():
    mod = ctx.eng.module(m)
    if mod is None: continue
    calls = [n for n in ast.walk(mod.tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'run' and n.args]
    w = f'{m.replace(".", "/")}.py'
    if len(calls) != 1:
      ctx.undecided('program', w, f'{len(calls)} runs')
      continue
    a = calls[0].args[0]
    parts = []
    while isinstance(a, ast.Attribute): parts.insert(0, a.attr); a = a.value
    if not isinstance(a, ast.Name): continue
    full = dotted(mod, a.id)
    if full is None: ctx.undecided('program', w, a.id)
    else: ctx.ob('program', w, '.'.join([full] + parts) == want, f'the program runs {".".join([full] + parts)}, not {want}')


def dotted(mod, name):
  for n in ast.walk(mod.tree):
    if isinstance(n, ast.ImportFrom):
      for x in n.names:
        if (x.asname or x.name) == name: return f'{n.module}.{x.name}'
    if isinstance(n, ast.Import):
      for x in n.names:
        if x.asname == name: return x.name
  return None

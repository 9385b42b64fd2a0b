"""C31: the shipped configurations only use names and options that the code they configure understands."""
import ast
import math
import re

from .. import engine as E, q, terms as t
from ..framework import prop
from ..terms import T, NONE, FALSE, TRUE, const, glob, raw, sym

CD = ('ml_collections.ConfigDict', 'ml_collections.config_dict.ConfigDict', 'ml_collections.FrozenConfigDict')
# Signatures of the libraries that receive options unchanged.
LIB = {
    'optax.constant_schedule': (('value',), ('value',)),
    'optax.warmup_cosine_decay_schedule': (('init_value', 'peak_value', 'warmup_steps', 'decay_steps', 'end_value', 'exponent'), ('init_value', 'peak_value', 'warmup_steps', 'decay_steps')),
    'optax.warmup_exponential_decay_schedule': (('init_value', 'peak_value', 'warmup_steps', 'transition_steps', 'decay_rate', 'transition_begin', 'staircase', 'end_value'),
                                                ('init_value', 'peak_value', 'warmup_steps', 'transition_steps', 'decay_rate')),
    'optax.trace': (('decay', 'nesterov', 'accumulator_dtype'), ('decay',)),
    'optax.scale_by_adam': (('b1', 'b2', 'eps', 'eps_root', 'mu_dtype', 'nesterov'), ()),
    'clu.periodic_actions.Profile': (('logdir', 'num_profile_steps', 'profile_duration_ms', 'first_profile', 'every_steps', 'every_secs', 'artifact_name', 'on_steps'), ()),
    'clu.periodic_actions.ReportProgress': (('num_train_steps', 'writer', 'every_steps', 'every_secs', 'on_steps'), ()),
}
AXES = ('expert', 'replica')


@prop('C31', 'Abstract interpretation of every shipped get_config (all branches of its argument): the tree of options with the terms of their values is matched against the signatures, fields and '
             'tables of the functions and classes that consume each section, as found in the current source.', floor=4500)
def c31(ctx):
  mods = [m for m in ctx.eng.all_modules() if '.configs.' in m and isinstance(ctx.eng.module(m), E.Module) and 'get_config' in ctx.eng.module(m).names]
  if not mods: ctx.undecided('configs', 'vmoe', 'no configuration found')
  for m in mods:
    ctx.section(config, m)
    for bind in arguments(ctx, m): ctx.section(values, m, bind)


# ---------------------------------------------------------------- the tree of options
class Tree:
  def __init__(self, ctx, mod, bind=None):
    n = [0]
    self.bind, self.memo = bind, {}
    def hook(eng, fn, args, kwargs, st, node):
      if fn.op == 'glob' and fn.args[0] in CD:
        n[0] += 1
        a = [eng.resolve(x, st) for x in args]
        eng.emit('call', fn, a, kwargs, st, node, NONE)
        return raw('cfg', n[0], tuple(a), tuple((k, eng.resolve(v, st)) for k, v in kwargs if isinstance(k, str)))
      return None
    self.r = r = ctx.eng.analyze(f'{mod}:get_config', callhook=hook, bind=bind or {})
    ctx.funcs[f'{mod}:get_config'] = len(r.events)
    ctx.sites += len(r.events)
    self.file = r.file
    self.unclear = False
    self.sets = {}       # (base term) -> [(key, value, event)]
    for e in r.events:
      if e.kind == 'setattr' and len(e.args) == 2: self.put(e.fn, e.args[0], e.args[1], e)
      elif e.kind == 'setitem' and len(e.args) == 2: self.put(e.fn, e.args[0], e.args[1], e)
      elif e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[1] == 'update':
        for a in e.args:
          for k, v in (a.args if a.op == 'dict' else ()): self.put(e.fn.args[0], k, v, e)
        for k, v in e.kwargs:
          if isinstance(k, str): self.put(e.fn.args[0], const(k), v, e)
          else: self.unclear = True
        if any(a.op != 'dict' for a in e.args): self.unclear = True
      elif e.kind == 'call' and not (e.fn.op == 'glob' and e.fn.args[0] in CD):
        on = e.fn.op == 'attr' and any(a.op == 'cfg' for a in alts(e.fn.args[0]))
        if on and e.fn.args[1] not in ('to_dict', 'lock', 'unlock', 'get', 'items', 'keys', 'values', 'copy_and_resolve_references', 'to_json', 'unlocked', 'get_ref'): self.unclear = True
        if not on and any(isinstance(a, T) and any(y.op == 'cfg' for y in alts(a)) for a in tuple(e.args) + tuple(v for _, v in e.kwargs)): self.unclear = True

  def put(self, base, k, v, e):
    if not t.is_const(k):
      self.unclear = True
      return
    for b in alts(path_of(base)): self.sets.setdefault(b, []).append((t.cval(k), v, e))

  def taken(self, e):
    """Is the assignment executed, once the arguments are known?"""
    if t.val(e.pc) is TRUE: return True
    if self.bind is None: return None
    if e not in self.memo:
      try: self.memo[e] = bool(fold(self, t.val(e.pc)))
      except Unknown: self.memo[e] = None
    return self.memo[e]

  def view(self, x, where, path=None):
    return View(self, x, where, path if path is not None else [x])


class View:
  """A section: the keys it may have and the values each may hold."""
  def __init__(self, tree, x, where, names):
    self.tree, self.x, self.where, self.names = tree, x, where, names
    self.items = {}
    self.known = False
    for a in alts(x): self.load(a)
    for nm in self.names:
      for k, v, e in tree.sets.get(nm, ()):
        d = tree.taken(e)
        if d is False: continue
        if d and not e.loops: self.items[k] = []
        self.items.setdefault(k, []).append((v, e.where()))

  def load(self, a):
    if a.op == 'cfg':
      self.known = True
      for y in a.args[1]:
        for z in alts(y): self.load(z) if z.op == 'cfg' else self.entries(z)
      for k, v in a.args[2]: self.items.setdefault(k, []).append((v, self.where)) if k not in ('type_safe', 'convert_dict', 'sort_keys', 'allow_dotted_keys') else None
      if a not in self.names: self.names = self.names + [a]
    else: self.entries(a)

  def entries(self, z):
    if z.op == 'dict':
      self.known = True
      for k, v in z.args:
        if isinstance(k, T) and t.is_const(k): self.items.setdefault(t.cval(k), []).append((v, self.where))
    elif z.op == 'setitem':
      self.entries(z.args[0])
      if t.is_const(z.args[1]): self.items.setdefault(t.cval(z.args[1]), []).append((z.args[2], self.where))

  def sub(self, k):
    """The views of a nested section (one per alternative value)."""
    out = []
    for v, w in self.items.get(k, ()):
      nm = [t.attr(n, k) for n in self.names]
      s = View(self.tree, v, w, nm)
      if s.known or any(n in self.tree.sets for n in nm): out.append(s)
    return out

  def consts(self, k):
    """[(constant, where)] of the values of a key that are known."""
    return [(t.cval(a), w) for v, w in self.items.get(k, ()) for a in alts(v) if t.is_const(a)]


def path_of(x):
  """config['a']['b'] -> config.a.b"""
  if x.op == 'item' and len(x.args) == 2 and t.is_const(x.args[1]) and isinstance(t.cval(x.args[1]), str): return t.attr(path_of(x.args[0]), t.cval(x.args[1]))
  if x.op == 'attr': return t.attr(path_of(x.args[0]), x.args[1])
  return x


class Unknown(Exception): pass


class Fails(Unknown): pass


def fold(tree, x):
  """Value of a term without free variables."""
  go = lambda y: fold(tree, y)
  if t.is_const(x): return t.cval(x)
  if x.op == 'tuple': return tuple(go(y) for y in x.args)
  if x.op == 'list': return [go(y) for y in x.args]
  if x.op == 'dict' and all(isinstance(k, T) for k, _ in x.args): return {hashed(go(k)): go(v) for k, v in x.args}
  if x.op == 'setitem': return {**go(x.args[0]), hashed(go(x.args[1])): go(x.args[2])}
  if x.op in ('totuple', 'listof') and len(x.args) == 1: return (tuple if x.op == 'totuple' else list)(go(x.args[0]))
  if x.op == 'range': return range(*[go(y) for y in x.args])
  if x.op == 'slice': return slice(*[go(y) for y in x.args])
  if x.op == 'ite': return go(x.args[1] if go(x.args[0]) else x.args[2])
  if x.op == 'eq': return go(x.args[0]) == go(x.args[1])
  if x.op == 'not': return not go(x.args[0])
  if x.op == 'in': return go(x.args[0]) in go(x.args[1])
  if x.op == 'poly':
    out = 0
    for m, c in x.args:
      for y, e in m: c = c * go(y) ** e
      out = out + c
    return out
  if x.op in ('attr', 'item') and len(x.args) == 2:
    ks, b = [], x
    while b.op in ('attr', 'item') and len(b.args) == 2:
      ks.append(b.args[1] if b.op == 'attr' else go(b.args[1]))
      b = b.args[0]
    if b.op == 'cfg':
      v = tree.view(b, '')
      for k in ks[:0:-1]:
        sub = v.sub(k)
        if len(sub) != 1: raise Unknown
        v = sub[0]
      vs = v.items.get(ks[0], ())
      if len(vs) != 1: raise Unknown
      return go(vs[0][0])
    if x.op == 'attr': raise Unknown
    k = ks[0]
  try:
    if x.op == 'item': return go(x.args[0])[hashed(k)]
    if x.op == 'bin' and x.args[0] in BIN: return BIN[x.args[0]](go(x.args[1]), go(x.args[2]))
    if x.op == 'call' and not [k for k, _ in x.args[2] if not isinstance(k, str)]:
      f, a, kw = x.args[0], [go(y) for y in x.args[1]], {k: go(v) for k, v in x.args[2]}
      if f.op == 'glob' and f.args[0] in PURE: return PURE[f.args[0]](*a, **kw)
      if f.op == 'attr' and f.args[1] in PURE_M: return getattr(go(f.args[0]), f.args[1])(*a, **kw)
  except Unknown: raise
  except (KeyError, IndexError, ValueError, AttributeError, ZeroDivisionError, re.error) as ex: raise Fails(f'{type(ex).__name__}: {ex}') from ex
  except Exception as ex: raise Unknown from ex
  raise Unknown


def hashed(k): return tuple(k) if isinstance(k, list) else k


BIN = {'//': lambda a, b: a // b, '/': lambda a, b: a / b, '%': lambda a, b: a % b, '**': lambda a, b: a ** b, '+': lambda a, b: a + b, '*': lambda a, b: a * b, '-': lambda a, b: a - b}
PURE = {'re.match': re.match, 're.fullmatch': re.fullmatch, 're.search': re.search, 're.compile': re.compile, 'int': int, 'float': float, 'str': str, 'len': len, 'range': range, 'tuple': tuple, 'list': list,
        'math.log': math.log, 'math.sqrt': math.sqrt, 'max': max, 'min': min, 'round': round, 'dict': dict}
PURE_M = ('group', 'groups', 'groupdict', 'index', 'upper', 'lower', 'split', 'partition', 'strip', 'format', 'match', 'fullmatch', 'get', 'startswith', 'endswith', 'replace', 'join')


def alts(x):
  if isinstance(x, T) and x.op == 'ite': return alts(x.args[1]) + alts(x.args[2])
  return [x]


# ---------------------------------------------------------------- what consumers accept
class Sig:
  def __init__(self, names, required, open_, src):
    self.names, self.required, self.open, self.src = set(names), set(required), open_, src

  def plus(self, *names): return Sig(self.names | set(names), self.required, self.open, self.src)
  def minus(self, *names): return Sig(self.names - set(names), self.required - set(names), self.open, self.src)
  def closed(self): return Sig(self.names, self.required, False, self.src)
  def join(self, o): return Sig(self.names | o.names, self.required | o.required, o.open, f'{self.src}, {o.src}')
  def optional(self): return Sig(self.names, (), self.open, self.src)


def node(ctx, path):
  f = ctx.eng.find(path)
  return None if f is None else f[1]


def fsig(ctx, path):
  """Parameters of a function (or of the initialiser of a class), or fields of a dataclass / Flax module."""
  n = node(ctx, path)
  if isinstance(n, ast.ClassDef):
    init = node(ctx, path + '.__init__')
    if isinstance(init, ast.FunctionDef): return fsig(ctx, path + '.__init__').minus('self')
    mod, cls = path.split(':')
    found = ctx.eng.find(path)
    c = ctx.eng.class_term(found[0], found[1]).args[0]
    fs = ctx.eng.fields(c)
    return Sig([x[0] for x in fs] + ['name', 'parent'], [x[0] for x in fs if x[1].value is None], False, cls)
  if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)): return None
  a = n.args
  pos = a.posonlyargs + a.args
  req = [x.arg for x in pos[:len(pos) - len(a.defaults)]] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
  return Sig([x.arg for x in pos + a.kwonlyargs], req, a.kwarg is not None, n.name)


def lib(name): return Sig(LIB[name][0], LIB[name][1], False, name) if name in LIB else None


def reads(ctx, path, *consumers):
  """Constant strings that a function - or a helper or constant of the same module that it refers to - may take out of mappings."""
  found = ctx.eng.find(path)
  m = ctx.eng.module(found[0] if found is not None else path.split(':')[0])
  top = {}
  for x in m.tree.body if m is not None else ():
    if isinstance(x, ast.FunctionDef): top[x.name] = x
    elif isinstance(x, ast.Assign): top.update({y.id: x.value for y in x.targets if isinstance(y, ast.Name)})
    elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.value is not None: top[x.target.id] = x.value
  todo, seen, out = [node(ctx, path)], set(consumers), set()
  while todo:
    n = todo.pop()
    for x in ast.walk(n) if n is not None else ():
      if isinstance(x, ast.Constant) and isinstance(x.value, str): out.add(x.value)
      if isinstance(x, ast.Name) and x.id in top and x.id not in seen:
        seen.add(x.id)
        todo.append(top[x.id])
      if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in ('self', 'cls') and x.attr not in seen and '.' in path:
        seen.add(x.attr)
        todo.append(node(ctx, f'{path.rpartition(".")[0]}.{x.attr}'))
  return out


def refused(ctx, path, **bind):
  """Is the function certain to raise for these constants?"""
  try: r = ctx.analyze(path, bind={k: const(v) for k, v in bind.items()})
  except Exception: return None
  return any(e.kind == 'raise' and t.val(e.pc) is TRUE and not e.loops for e in r.events)


def has(ctx, tree, rule, where, ok, detail):
  """Something is there - undecided if parts of the configuration are filled in ways that were not followed."""
  if not ok and tree.unclear: ctx.undecided(rule, where, detail)
  else: ctx.ob(rule, where, ok, detail)


def match(ctx, rule, v, sig, label, need=True):
  """All keys of a section are options of its consumer, and the mandatory ones are there."""
  if sig is None:
    ctx.undecided(rule, v.where, f'{label}: consumer not found')
    return
  for k, vals in v.items.items():
    if not vals: continue
    if sig.open and k not in sig.names: continue
    ctx.ob(rule, f'{v.tree.file} {label}.{k}', k in sig.names, f'{vals[-1][1]}: {sig.src} has no option {k!r}')
  if need:
    for k in sorted(sig.required): has(ctx, v.tree, rule + '-required', f'{v.tree.file} {label}', k in v.items, f'{sig.src} needs the option {k!r}')


# ---------------------------------------------------------------- one configuration
M, N, A = 'vmoe.train.trainer:', 'vmoe.projects.contrastive.trainer:', 'vmoe.projects.adversarial_attacks.'


def config(ctx, mod):
  tree = Tree(ctx, mod)
  top = tree.view(tree.r.ret, mod)
  if not top.items:
    ctx.undecided('configs', mod, t.show(tree.r.ret, 3))
    return
  W = tree.file
  attack = 'restore' in top.items
  names = [c for m in top.sub('model') for c, _ in m.consts('name')]
  contrastive = any('TwoTower' in str(c) for c in names)
  users = [A + 'lib', A + 'restore', A + 'main', A + 'attacks'] if attack else ['vmoe.projects.contrastive.trainer' if contrastive else 'vmoe.train.trainer']
  known = set()
  # One base configuration serves both trainers; a description only informs the reader.
  for u in users + ['vmoe.app', mod] + ([] if attack else [M[:-1], N[:-1]]): known |= config_reads(ctx, u)
  known |= {'description', 'comment', 'notes'}
  for k, vals in top.items.items():
    if vals: ctx.ob('option-used', f'{W} config.{k}', k in known, f'{vals[-1][1]}: nothing reads the option {k!r}')
  for k in ('num_expert_partitions', 'model', 'loss', 'dataset', 'params_axis_resources'):
    if k == 'loss' and contrastive: continue
    has(ctx, tree, 'section-present', f'{W} config', k in top.items, f'the section {k!r} is missing')
  for p in ('params_axis_resources',):
    for v, w in top.items.get(p, ()): axis_rules(ctx, W, p, v, w)
  for m in top.sub('model'): model(ctx, m, 'vmoe.nn.models', 'config.model')
  ctx.section(losses, top, W, attack)
  if attack:
    for d in top.sub('dataset'): dataset(ctx, d, 'config.dataset', ('image', 'labels'), W)
    streams(ctx, top, W)
    return
  for k in ('optimizer',):
    has(ctx, tree, 'section-present', f'{W} config', k in top.items, f'the section {k!r} is missing')
  has(ctx, tree, 'training-length', f'{W} config', ('train_steps' in top.items) != ('train_epochs' in top.items), 'not exactly one of train_steps and train_epochs is given')
  for d in top.sub('dataset'):
    has(ctx, tree, 'section-present', f'{W} config.dataset', 'train' in d.items, 'there is no training data')
    for k in d.items:
      for v in d.sub(k): dataset(ctx, v, f'config.dataset.{k}', ('image', 'text') if contrastive else ('image', 'labels'), W)
  for o in top.sub('optimizer'): ctx.section(optimizer, o, W)
  hook = {'save_checkpoint': fsig(ctx, M + 'create_checkpoint_manager').minus('workdir'),
          'profile': lib('clu.periodic_actions.Profile').minus('logdir').plus(*reads(ctx, M + 'create_profile_hook')),
          'report_progress': lib('clu.periodic_actions.ReportProgress').join(fsig(ctx, 'vmoe.train.periodic_actions:ReportProgress').closed().minus('self')).minus('num_train_steps', 'writer')}
  hook['report_progress'].open = False
  given = {'base_model_config', 'writer', 'progress_hook', 'datasets', 'loss_fn', 'label_pred_fn', 'first_step', 'train_steps', 'extra_rng_keys', 'metric_writer', 'rng_keys', 'apply_fn',
           'report_progress', 'report_progress_name', 'data_sharding'}
  e = fsig(ctx, 'vmoe.evaluate.evaluator:EvaluateMultipleDatasets')
  if e is not None: hook['evaluate'] = e.minus(*given).plus('model_overrides', *reads(ctx, M + 'create_evaluation_hook'))
  P = N if contrastive else M
  f = fsig(ctx, 'vmoe.evaluate.fewshot:FewShotPeriodicAction')
  g = fsig(ctx, 'vmoe.evaluate.fewshot:_get_datasets')
  if f is not None:
    f = f.minus(*(given - {'datasets'})).plus('model_overrides', *reads(ctx, P + 'create_fewshot_hook'))
    if f.open and g is not None:
      d = fsig(ctx, 'vmoe.data.input_pipeline:get_dataset')
      f = Sig(f.names | (g.names | (d.names if g.open else set())), f.required | (g.required - {'datasets'} if g.required else set()), False, f'{f.src}, {g.src}')
    hook['fewshot'] = f
  for k in ('retrieval', 'zeroshot'):
    s = fsig(ctx, N + f'create_{k}_hook')
    c = fsig(ctx, f'vmoe.projects.contrastive.evaluators:{ {"retrieval": "Retrieval", "zeroshot": "ZeroShot"}[k]}PeriodicAction')
    if contrastive and s is not None and c is not None: hook[k] = s.join(c).minus(*(given - {'datasets'})).optional()
  for k, sig in hook.items():
    for v in top.sub(k): match(ctx, 'hook-option', v, sig, f'config.{k}')
  for k in ('evaluate', 'fewshot', 'retrieval', 'zeroshot'):
    for v in top.sub(k):
      for o in v.sub('model_overrides'):
        for m in top.sub('model'): model(ctx, o, 'vmoe.nn.models', f'config.{k}.model_overrides', base=m)
  for v in top.sub('fewshot'):
    for x, w in v.items.get('process', ()): process(ctx, x, w, W, 'config.fewshot.process', ('image', 'label'))
  for k, path, drop in (('mixup', M + 'wrap_train_step_with_mixup', ('train_step_fn', 'partition_spec')), ('adversarial', M + 'wrap_train_step_with_adversarial_attack', ('train_step_fn', 'loss_fn'))):
    s = fsig(ctx, path)
    for v in top.sub(k): match(ctx, f'{k}-option', v, s and s.minus(*drop), f'config.{k}')
  for v in top.sub('summarize_arrays'): match(ctx, 'summary-option', v, fsig(ctx, 'vmoe.train.tree_summarizer:TreeSummarizer'), 'config.summarize_arrays')
  for v in top.sub('initialization'): ctx.section(initialization, v, W)
  streams(ctx, top, W)


def arguments(ctx, mod):
  """Values of the arguments of get_config: the defaults, and the defaults with a part replaced by what that part is compared with."""
  a = node(ctx, f'{mod}:get_config').args
  base = {x.arg: const(d.value) for x, d in list(zip(a.args[::-1], a.defaults[::-1])) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None] if isinstance(d, ast.Constant)}
  if len(base) < len(a.args) + len(a.kwonlyargs): return [base] if base or not a.args + a.kwonlyargs else []
  out = [base]
  if not base: return out
  tree, known = Tree(ctx, mod), Tree(ctx, mod, base)
  for e in tree.r.events:
    for y in t.subterms(t.val(e.pc)):
      if y.op != 'eq' or not any(t.is_const(z) for z in y.args): continue
      c, x = y.args if t.is_const(y.args[0]) else y.args[::-1]
      try: d = fold(known, t.subst(x, {sym(k): v for k, v in base.items()}))
      except Unknown: continue
      for k, v in base.items():
        if isinstance(d, str) and d and isinstance(t.cval(v), str) and isinstance(t.cval(c), str) and t.cval(v).count(d) == 1 and len(d) > 1:
          new = {**base, k: const(t.cval(v).replace(d, t.cval(c)))}
          if new not in out: out.append(new)
  return out


def steps(program):
  """[(operation, positional, keyword)] of a preprocessing program."""
  out = []
  for op in program.split('|'):
    e = ast.parse(op.strip(), mode='eval').body
    if isinstance(e, ast.Call): out.append((e.func.id, [ast.literal_eval(y) for y in e.args], {k.arg: ast.literal_eval(k.value) for k in e.keywords}))
    else: out.append((e.id, [], {}))
  return out


def image_of(program):
  """Size and range of the images that a program ends with: (side or None, range or None)."""
  size = span = None
  for nm, a, kw in steps(program):
    arg = a[0] if a else next(iter(kw.values()), None)
    if nm in ('resize', 'central_crop', 'inception_crop', 'decode_jpeg_and_inception_crop', 'random_crop'):
      size = (arg, arg) if isinstance(arg, int) else tuple(arg) if isinstance(arg, (tuple, list)) and len(arg) == 2 else None
    elif nm in ('resize_small', 'decode', 'pad'): size = None
    elif nm == 'value_range': span = (a + [kw.get('vmin'), kw.get('vmax')])[:2] if len(a) < 2 else a[:2]
  return size, tuple(map(float, span)) if span and None not in span else None


def interval(split):
  """'train[a:b]' -> (name, unit, a, b)."""
  m = re.fullmatch(r'(\w+)(?:\[(\d*)(%?):(\d*)(%?)\])?', split)
  if not m: return None
  n, a, ua, b, ub = m.groups()
  if a is None: return n, None, 0, math.inf
  unit = ua or ub or ''
  if a and b and ua != ub: return None
  return n, unit, int(a or 0), int(b) if b else 100 if unit else math.inf


def values(ctx, mod, bind):
  """The values of one configuration fit each other."""
  tree = Tree(ctx, mod, bind)
  W = tree.file + (f' ({", ".join(repr(t.cval(v)) for v in bind.values())})' if bind else '')
  for e in tree.r.events:
    if e.kind == 'raise' and not e.loops: ctx.ob('value-refused', f'{W} get_config', tree.taken(e) is not True, f'{e.where()}: get_config raises for the argument it has by default')
  top = tree.view(tree.r.ret, mod)

  def get(v, k, label):
    vs = v.items.get(k, ()) if v is not None else ()
    if len(vs) != 1: return None
    try: x = fold(tree, vs[0][0])
    except Fails as ex:
      ctx.ob('value-defined', f'{W} {label}.{k}', False, f'{vs[0][1]}: {ex}')
      return None
    except Unknown: return None
    ctx.ob('value-defined', f'{W} {label}.{k}', True)
    return x

  def one(v, *ks):
    for k in ks:
      vs = v.sub(k) if v is not None else []
      v = vs[0] if len(vs) == 1 else None
    return v

  def walk(v, label):
    for k in v.items:
      subs = v.sub(k)
      if subs:
        for s in subs: walk(s, f'{label}.{k}')
      else: get(v, k, label)
  walk(top, 'config')
  model = one(top, 'model')
  image = one(model, 'image') or model
  classes = get(model, 'num_classes', 'config.model')
  patch = get(image, 'patch_size', 'config.model')
  hidden = get(image, 'hidden_size', 'config.model')
  enc = one(image, 'encoder')
  heads, layers = get(enc, 'num_heads', 'config.model.encoder'), get(enc, 'num_layers', 'config.model.encoder')
  moe = one(enc, 'moe')
  where, experts, group = [get(moe, k, 'config.model.encoder.moe') for k in ('layers', 'num_experts', 'group_size')]
  router = one(moe, 'router')
  num = isint
  if num(hidden) and num(heads): ctx.ob('value-heads', f'{W} config.model', heads > 0 and hidden % heads == 0, f'the hidden size {hidden} is not divisible by {heads} heads')
  if isinstance(where, (tuple, list)) and num(layers):
    ctx.ob('value-layers', f'{W} config.model', all(num(l) and 0 <= l < layers for l in where) and len(set(where)) == len(where), f'the layers with experts {where} are not among the {layers} layers')
  sel = get(router, 'num_selected_experts', 'config.model.encoder.moe.router')
  if num(sel) and num(experts): ctx.ob('value-selected', f'{W} config.model', 1 <= sel <= experts, f'{sel} of {experts} experts cannot be selected')
  parts = get(top, 'num_expert_partitions', 'config')
  sparse = bool(where) and num(experts)
  if num(parts):
    if sparse: ctx.ob('value-partitions', f'{W} config', parts >= 1 and experts % parts == 0, f'{experts} experts cannot be spread over {parts} partitions')
    rules = get(top, 'params_axis_resources', 'config')
    if sparse and parts > 1 and isinstance(rules, (tuple, list)):
      def hit(r):
        try: return isinstance(r, (tuple, list)) and len(r) == 2 and re.search(r[0], 'Encoder/encoderblock_1/Moe/Mlp/Dense_0/kernel') and 'expert' in str(r[1])
        except re.error: return False
      ctx.ob('value-partitions', f'{W} config.params_axis_resources', any(hit(r) for r in rules), f'no rule places the parameters of the experts (Moe/Mlp/...) on the expert axis')
  loss, size = one(top, 'loss'), get(router, 'ensemble_size', 'config.model.encoder.moe.router') or get(moe, 'ensemble_size', 'config.model.encoder.moe') or get(enc, 'ensemble_size', 'config.model.encoder') or get(model, 'ensemble_size', 'config.model')
  le = get(loss, 'ensemble_size', 'config.loss')
  if num(le) and num(size): ctx.ob('value-ensemble', f'{W} config.loss', le == size, f'the loss is for {le} members, the model has {size}')
  # Data.
  data, sizes, spans, splits = [], {}, {}, {}
  ds = one(top, 'dataset')
  if ds is not None and 'process' in ds.items: data.append(('dataset', ds))
  elif ds is not None: data += [(f'dataset.{k}', one(ds, k)) for k in ds.items if one(ds, k) is not None]
  few = one(top, 'fewshot')
  if few is not None: data.append(('fewshot', few))
  for label, d in data:
    label = 'config.' + label
    prog, batch = get(d, 'process', label), get(d, 'batch_size', label)
    if isinstance(prog, str):
      process(ctx, const(prog), d.items['process'][0][1], W, f'{label}.process', ('image', 'label') if label == 'config.fewshot' else ('image', 'text') if image is not model else ('image', 'labels'))
      try: sz, sp = image_of(prog)
      except (SyntaxError, ValueError, AttributeError): continue
      if sz: sizes[label] = sz
      if sp: spans[label] = sp
      for nm, a, kw in steps(prog):
        n = a[0] if a else kw.get('depth')
        if nm == 'onehot' and num(n) and num(classes): ctx.ob('value-classes', f'{W} {label}.process', n == classes, f'labels of {n} classes for a model of {classes}')
      if sz and isinstance(patch, tuple) and len(patch) == 2 and all(num(p) and p > 0 for p in patch):
        ctx.ob('value-patches', f'{W} {label}.process', all(s % p == 0 for s, p in zip(sz, patch)), f'images of {sz} cannot be cut into patches of {patch}')
        if sparse and num(batch) and num(group) and group > 0:
          tokens = (sz[0] // patch[0]) * (sz[1] // patch[1]) + (get(image, 'classifier', 'config.model') == 'token')
          ctx.ob('value-groups', f'{W} {label}', batch * tokens % group == 0, f'{batch} images of {tokens} tokens cannot be cut into groups of {group}')
    nm, sp = get(d, 'name', label), get(d, 'split', label)
    if isinstance(nm, str) and isinstance(sp, str): splits[label] = (nm, interval(sp), sp)
  for what, table in (('size', sizes), ('range', spans)):
    ctx.ob(f'value-same-{what}', f'{W} config', len(set(table.values())) <= 1, f'images differ in {what}: {table}')
  tr = splits.get('config.dataset.train')
  for label, (nm, iv, sp) in splits.items():
    if tr is None or label == 'config.dataset.train' or nm != tr[0] or iv is None or tr[1] is None: continue
    same = iv[0] == tr[1][0] and (iv[1] == tr[1][1] or None in (iv[1], tr[1][1])) and iv[2] < tr[1][3] and tr[1][2] < iv[3]
    ctx.ob('value-held-out', f'{W} {label}.split', not same, f'{sp!r} shares examples with the training data {tr[2]!r}')
  if few is not None:
    task, tasks, shots = get(few, 'main_task', 'config.fewshot'), one(few, 'datasets'), get(few, 'shots', 'config.fewshot')
    if isinstance(task, (tuple, list)) and len(task) == 2 and tasks is not None and isinstance(shots, (tuple, list)):
      ctx.ob('value-main-task', f'{W} config.fewshot', task[0] in tasks.items and task[1] in shots, f'the main task {task} is not among the tasks')
  # Optimizer.
  rate = one(top, 'optimizer', 'learning_rate')
  total = get(top, 'train_steps', 'config')
  for k in ('warmup_steps', 'cooldown_steps'):
    n = get(rate, k, 'config.optimizer.learning_rate')
    if num(n) and num(total): ctx.ob('value-schedule', f'{W} config.optimizer.learning_rate', n < total, f'{k} = {n} of {total} steps')
  for k in ('train_steps', 'train_epochs'):
    n = get(top, k, 'config')
    if n is not None: ctx.ob('value-positive', f'{W} config.{k}', isinstance(n, (int, float)) and n > 0, f'{k} = {n!r}')
  for label, d in data:
    n = get(d, 'batch_size', f'config.{label}')
    if n is not None: ctx.ob('value-positive', f'{W} config.{label}.batch_size', num(n) and n > 0, f'batch_size = {n!r}')


def isint(x): return isinstance(x, int) and not isinstance(x, bool)


def config_reads(ctx, mod):
  """Options of `config` that a module reads."""
  m = ctx.eng.module(mod)
  out = set()
  if not isinstance(m, E.Module): return out
  for x in ast.walk(m.tree):
    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, (ast.Name, ast.Attribute)): out.add(x.attr)
    if isinstance(x, ast.Constant) and isinstance(x.value, str): out.add(x.value)
  return out


def strings(x):
  """Leaves of a tuple/list term, or None if it is not a literal."""
  if t.is_const(x): return t.cval(x)
  if x.op in ('tuple', 'list'):
    out = [strings(y) for y in x.args]
    return tuple(out)
  return None


def regex(ctx, W, label, pat, where):
  try: c = re.compile(pat)
  except re.error as ex:
    ctx.ob('regex', f'{W} {label}', False, f'{where}: {pat!r} is no regular expression: {ex}')
    return None
  ctx.ob('regex', f'{W} {label}', True)
  return c


def axis_rules(ctx, W, label, v, w):
  for a in alts(v):
    s = strings(a)
    if s is None:
      ctx.undecided('axis-rules', w, t.show(a, 3))
      continue
    for rule in s if isinstance(s, tuple) else ():
      if not isinstance(rule, tuple) or len(rule) != 2 or not isinstance(rule[0], str):
        ctx.ob('axis-rules', f'{W} {label}', rule is None, f'{w}: {rule!r} is no pair of a pattern and axes')
        continue
      regex(ctx, W, label, rule[0], w)
      flat = [y for x in (rule[1] if isinstance(rule[1], tuple) else (rule[1],)) for y in (x if isinstance(x, tuple) else (x,))]
      ctx.ob('axis-rules', f'{W} {label}', all(y is None or y in AXES for y in flat), f'{w}: {rule[1]!r} are not axes of the mesh')


def resolve(ctx, name, default):
  """'pkg.mod.Class' or 'Class(args)' -> ('mod:Class', literal kwargs, number of literal args) or None."""
  try: x = ast.parse(name, mode='eval').body
  except SyntaxError: return None
  kw, n = set(), 0
  if isinstance(x, ast.Call):
    kw, n, x = {k.arg for k in x.keywords}, len(x.args), x.func
  s = ast.unparse(x)
  mod, _, cls = s.rpartition('.')
  return (f'{mod or default}:{cls}', kw, n)


def model(ctx, m, default, label, base=None):
  """A model section, or (with base) overrides of it."""
  W = m.tree.file
  names = m.consts('name') or (base.consts('name') if base is not None else [])
  for c, w in names or [(None, None)]:
    if c is None:
      ctx.undecided('model', m.where, f'{label}: class unknown')
      return
    got = resolve(ctx, c, default)
    n = node(ctx, got[0]) if got else None
    if got and n is None and not got[0].startswith('vmoe'):
      ctx.undecided('model-name', w, c)
      continue
    ctx.ob('model-name', f'{W} {label}.name', isinstance(n, ast.ClassDef) or n is not None, f'{w}: there is no model {c!r}')
    if not isinstance(n, ast.ClassDef): continue
    sig = fsig(ctx, got[0])
    if got[0].split(':')[1] in ('VisionTransformer', 'MlpMixer'): continue     # wrappers of another library
    match(ctx, 'model-option', m, sig.minus('deterministic', 'parent').plus('name').minus(*()), label, need=base is None)
    inner(ctx, m, got[0], label, base)


def inner(ctx, m, path, label, base):
  cls = path.split(':')[1]
  if cls == 'TwoTower':
    for k, d, mod in (('image', 'VisionTransformerMoe', 'vmoe.nn.models'), ('text', 'TextTransformer', 'vmoe.projects.contrastive.models')):
      for s in m.sub(k):
        bs = (base.sub(k) if base is not None else []) or [None]
        nm = s.consts('name') or [x for b in bs if b is not None for x in b.consts('name')] or [(d, s.where)]
        for c, w in nm:
          got = resolve(ctx, c, mod)
          n = node(ctx, got[0]) if got else None
          ctx.ob('model-name', f'{s.tree.file} {label}.{k}.name', n is not None, f'{w}: there is no model {c!r}')
          if isinstance(n, ast.ClassDef):
            match(ctx, 'model-option', s, fsig(ctx, got[0]).minus('deterministic', 'parent').plus('name'), f'{label}.{k}', need=base is None)
            encoder(ctx, s, got[0], f'{label}.{k}', base is None)
    return
  encoder(ctx, m, path, label, base is None)


def encoder(ctx, m, path, label, need):
  found = ctx.eng.find(path)
  c = ctx.eng.class_term(found[0], found[1]).args[0]
  enc = 'vmoe.nn.vit_moe:EncoderMoe'
  for nm, n, mod in ctx.eng.fields(c):
    if nm == 'encoder_cls' and isinstance(n.value, ast.Name): enc = f'{mod}:{n.value.id}'
    elif nm == 'encoder_cls' and n.value is not None: enc = ast.unparse(n.value).rpartition('.')[0].replace('models_vit', 'vmoe.nn.vit_moe') + ':' + ast.unparse(n.value).rpartition('.')[2]
  ens = 'Ensemble' in enc
  moe = 'vmoe.nn.vit_moe_ensemble:MlpMoeWithNoisyTopExpertsPerItemEnsembleRouter' if ens else 'vmoe.nn.vit_moe:MlpMoeBlock'
  es, ms = fsig(ctx, enc), fsig(ctx, moe)
  for e in m.sub('encoder'):
    match(ctx, 'encoder-option', e, es and es.minus('deterministic', 'name', 'parent'), f'{label}.encoder', need)
    for b in e.sub('moe'):
      layers = [x for v, _ in b.items.get('layers', ()) for x in alts(v)]
      off = bool(layers) and all(x.op in ('tuple', 'list') and not x.args for x in layers)
      mix = any(x.op in ('tuple', 'list') and not x.args for x in layers)
      sig = ms and Sig((ms.names | {'layers'}) - {'name', 'parent', 'deterministic'}, ms.required - {'mlp_dim', 'deterministic'}, False, ms.src)
      match(ctx, 'moe-option', b, sig, f'{label}.encoder.moe', need and not off and not mix)
      for r in b.sub('router'): router(ctx, r, ens, f'{label}.encoder.moe.router', need)


def router(ctx, r, ens, label, need):
  W = r.tree.file
  names = [('NoisyTopExpertsPerItemEnsembleRouter', r.where)] if ens else r.consts('name') or [('NoisyTopExpertsPerItemRouter', r.where)]
  for c, w in names:
    got = resolve(ctx, c, 'vmoe.nn.ensemble_routing' if ens else 'vmoe.nn.routing')
    n = node(ctx, got[0]) if got else None
    ctx.ob('router-name', f'{W} {label}.name', n is not None, f'{w}: there is no router {c!r}')
    if not isinstance(n, ast.ClassDef): continue
    sig = fsig(ctx, got[0])
    if sig is None: continue
    sig = sig.minus('num_experts', 'dtype', 'parent', 'name', *(['ensemble_size'] if ens else []))
    match(ctx, 'router-option', r, sig if ens else sig.plus('name'), label, need)
    find = lambda f: ctx.eng.find(f'{got[0]}.{f}') is not None
    make = next((f for f in ('_create_dispatcher', '_create_dispatcher_and_metrics') if find(f)), None)
    if make is None: continue
    fn = node(ctx, f'{got[0]}.{make}')
    used = {ast.unparse(x).rpartition('.')[2] for x in ast.walk(fn) if isinstance(x, (ast.Attribute, ast.Name))}
    d = next((x for x in ('get_top_experts_per_item_dispatcher', 'get_top_items_per_expert_dispatcher') if x in used), None)
    ds = fsig(ctx, f'vmoe.moe:{d}') if d else None
    if ds is None: continue
    extra = set()
    for k in ('EinsumDispatcher', 'ExpertIndicesDispatcher'):
      s = fsig(ctx, f'vmoe.moe:{k}')
      if s is not None: extra |= s.names & {'partition_spec', 'einsum_precision'}
    sig = Sig((ds.names | extra | reads(ctx, f'{got[0]}.{make}')) - {'gates', 'num_selected_experts'}, ds.required - {'gates', 'num_selected_experts'}, False, d)
    for x in r.sub('dispatcher'):
      match(ctx, 'dispatcher-option', x, sig, f'{label}.dispatcher', need)
      if need: has(ctx, r.tree, 'dispatcher-capacity', f'{W} {label}.dispatcher', ('capacity' in x.items) or ('capacity_factor' in x.items), 'neither capacity nor capacity_factor is given')
      for nm, w2 in x.consts('name'):
        bad = refused(ctx, f'vmoe.moe:{d}', name=nm)
        if bad is not None: ctx.ob('dispatcher-name', f'{W} {label}.dispatcher.name', not bad, f'{w2}: there is no dispatcher {nm!r}')
      for nm, w2 in x.consts('capacity_ceil_or_round'): ctx.ob('dispatcher-name', f'{W} {label}.dispatcher', nm in ('ceil', 'round'), f'{w2}: {nm!r} is no way to round')


def losses(ctx, top, W, attack):
  for v in top.sub('loss'):
    for c, w in v.consts('name'):
      path = M + 'get_loss_fn'
      if attack: continue
      bad = refused(ctx, path, name=c)
      if bad is not None: ctx.ob('loss-name', f'{W} config.loss.name', not bad, f'{w}: there is no loss {c!r}')
      ok = {'name'} | ({'ensemble_size'} if c.startswith('ensemble_') else set())
      for k in v.items: ctx.ob('loss-option', f'{W} config.loss.{k}', k in ok, f'the loss {c!r} has no option {k!r}')
      if c.startswith('ensemble_'): has(ctx, top.tree, 'loss-option-required', f'{W} config.loss', 'ensemble_size' in v.items, 'the loss of an ensemble needs ensemble_size')
    has(ctx, top.tree, 'loss-name', f'{W} config.loss', 'name' in v.items, 'the loss has no name')


def consumer(ctx, call, star):
  """Signature of the function a call passes **star to, without the options it gives itself."""
  f = call.args[0]
  given = {k for k, _ in call.args[2] if isinstance(k, str)}
  s = None
  if f.op == 'glob': s = lib(f.args[0])
  elif f.op == 'opaque':
    mod, _, nm = f.args[0].rpartition('.')
    s = forwarded(ctx, f'{mod}:{nm}')
  return s and s.minus(*given)


def forwarded(ctx, path):
  """Signature of a function, whose **kwargs may go to another one."""
  s, n = fsig(ctx, path), node(ctx, path)
  if s is None or not s.open or not isinstance(n, ast.FunctionDef): return s
  cs = list(star_call(ctx.analyze(path), n.args.kwarg.arg))
  inner = [consumer(ctx, c, n.args.kwarg.arg) for c in cs]
  if len(inner) != 1 or inner[0] is None: return s
  return Sig(s.names | inner[0].names, s.required | inner[0].required, inner[0].open, f'{s.src} ({inner[0].src})')


def through(ctx, path, bind, locs, name, keep=()):
  """Analyse a function down to the consumers of its **name: functions that get it as a mapping are looked into."""
  locs = list(locs)
  while True:
    r = ctx.analyze(path, bind=bind, opaque=locs + list(keep))
    calls = [(e.fn, list(e.args) + [v for k, v in e.kwargs if isinstance(k, str)]) for e in r.events if e.kind == 'call']
    if r.ret.op == 'call': calls.append((r.ret.args[0], list(r.ret.args[1]) + [v for k, v in r.ret.args[2] if isinstance(k, str)]))
    helpers = {f.args[0] for f, vs in calls if f.op == 'opaque' and f.args[0] in locs and any(mapping(v, sym(f'**{name}')) for v in vs)}
    if not helpers: return r
    locs = [l for l in locs if l not in helpers]


def mapping(v, d):
  return v is d or v.op in ('dict', 'dictof', 'dictupd', 'dictmerge', 'setitem', 'delitem') and t.mentions(v, d)


def star_call(r, name):
  for y in [raw('call', e.fn, tuple(e.args), tuple(e.kwargs)) for e in r.events if e.kind == 'call']:
    if any(not isinstance(k, str) and t.mentions(v, sym(f'**{name}')) for k, v in y.args[2]): yield y


def optimizer(ctx, o, W):
  O = 'vmoe.train.optimizer:'
  S = 'vmoe.train.schedule:'
  own = fsig(ctx, O + 'create_optimizer')
  locs = [f'vmoe.train.optimizer.{n}' for n, e in ctx.eng.module('vmoe.train.optimizer').names.items() if e[0] == 'def' and n != 'create_optimizer']
  for c, w in o.consts('name'):
    r = through(ctx, O + 'create_optimizer', {'name': const(c)}, locs, 'optim_kwargs', ['vmoe.train.schedule.create_learning_rate_schedule'])
    bad = any(e.kind == 'raise' and t.val(e.pc) is TRUE for e in r.events)
    ctx.ob('optimizer-name', f'{W} config.optimizer.name', not bad, f'{w}: there is no optimizer {c!r}')
    if bad: continue
    cs = list(star_call(r, 'optim_kwargs'))
    s = consumer(ctx, cs[0], 'optim_kwargs') if len(cs) == 1 else None
    if s is None:
      ctx.undecided('optimizer-option', w, f'the consumer of the options of {c!r} was not found')
      continue
    match(ctx, 'optimizer-option', o, Sig((own.names | s.names) - {'total_steps'}, (own.required | s.required) - {'total_steps'}, s.open, f'{c} ({s.src})'), 'config.optimizer')
  has(ctx, o.tree, 'optimizer-name', f'{W} config.optimizer', 'name' in o.items, 'the optimizer has no name')
  for v in o.sub('gradient_clip'): match(ctx, 'optimizer-option', v, fsig(ctx, O + 'gradient_clipping'), 'config.optimizer.gradient_clip')
  for v, w in o.items.get('weight_decay', ()):
    for a in alts(v):
      s = strings(a)
      if isinstance(s, tuple):
        for rule in s:
          ok = isinstance(rule, tuple) and len(rule) == 2 and isinstance(rule[0], str) and isinstance(rule[1], (int, float, type(None)))
          ctx.ob('weight-decay', f'{W} config.optimizer.weight_decay', ok, f'{w}: {rule!r} is no pair of a pattern and a number')
          if ok: regex(ctx, W, 'config.optimizer.weight_decay', rule[0], w)
  locs = [f'vmoe.train.schedule.{n}' for n, e in ctx.eng.module('vmoe.train.schedule').names.items() if e[0] == 'def' and n != 'create_learning_rate_schedule']
  for l in o.sub('learning_rate'):
    has(ctx, l.tree, 'schedule-name', f'{W} config.optimizer.learning_rate', 'schedule' in l.items, 'the schedule has no name')
    for c, w in l.consts('schedule'):
      r = through(ctx, S + 'create_learning_rate_schedule', {'schedule': const(c)}, locs, 'kwargs')
      bad = any(e.kind == 'raise' and t.val(e.pc) is TRUE for e in r.events)
      ctx.ob('schedule-name', f'{W} config.optimizer.learning_rate.schedule', not bad, f'{w}: there is no schedule {c!r}')
      if bad: continue
      ret = r.ret
      s = consumer(ctx, ret, 'kwargs') if ret.op == 'call' else None
      if s is None:
        ctx.undecided('schedule-option', w, t.show(ret, 3))
        continue
      late = {'decay_steps'} if t.contains(raw('tuple', *[v for k, v in ret.args[2]]), lambda y: y is sym('total_steps')) else set()
      match(ctx, 'schedule-option', l, Sig(s.names | {'schedule'}, s.required - late, s.open, f'{c} ({s.src})'), 'config.optimizer.learning_rate')


def dataset(ctx, v, label, keys, W):
  g = fsig(ctx, 'vmoe.data.input_pipeline:get_dataset')
  b = fsig(ctx, 'vmoe.data.builder:TfdsBuilder')
  if g is None or b is None:
    ctx.undecided('dataset-option', v.where, 'consumer not found')
    return
  sig = Sig(((g.names | b.names) - {'variant', 'shuffle_files', 'parent'}) | reads(ctx, 'vmoe.data.input_pipeline:get_datasets', 'get_dataset'), g.required - {'variant'}, False, g.src)
  match(ctx, 'dataset-option', v, sig, label)
  for c, w in v.consts('cache'): ctx.ob('dataset-cache', f'{W} {label}.cache', c in (None, 'loaded', 'batched'), f'{w}: {c!r} is no way to cache')
  for c, w in v.consts('prefetch'): ctx.ob('dataset-prefetch', f'{W} {label}.prefetch', c is None or c == 'autotune' or isinstance(c, int), f'{w}: {c!r}')
  for x, w in v.items.get('process', ()): process(ctx, x, w, W, f'{label}.process', keys)


def process(ctx, x, w, W, label, keys):
  """A preprocessing program: every operation exists and can be called like this, and leaves the keys that are read."""
  for a in alts(x):
    if not t.is_const(a) or not isinstance(t.cval(a), str): continue  # depends on the argument: decided by values()
    m = ctx.eng.module('vmoe.data.pp_ops')
    avail = None
    wrap = [f.args for f in ast.walk(m.tree) if isinstance(f, ast.FunctionDef) and any(k.arg in ('inkey', 'outkey') for k in f.args.kwonlyargs)]
    for op in t.cval(a).split('|'):
      try: e = ast.parse(op.strip(), mode='eval').body
      except SyntaxError:
        ctx.ob('process', f'{W} {label}', False, f'{w}: {op!r} is no operation')
        continue
      pos, kws, name = [], {}, e
      ok = True
      if isinstance(e, ast.Call):
        name = e.func
        try:
          pos = [ast.literal_eval(y) for y in e.args]
          kws = {k.arg: ast.literal_eval(k.value) for k in e.keywords}
        except ValueError: ok = False
      ctx.ob('process', f'{W} {label}', ok, f'{w}: the arguments of {op!r} are no literals')
      if not isinstance(name, ast.Name): continue
      d = m.names.get(name.id)
      d = d[1] if d is not None and d[0] == 'def' else None
      ctx.ob('process', f'{W} {label}', d is not None or name.id in m.names, f'{w}: there is no operation {name.id!r}')
      if d is None:
        avail = None
        continue
      deco = bool(d.decorator_list)
      ar = d.args
      params = [y.arg for y in ar.args]
      names = set(params) | {y.arg for y in ar.kwonlyargs} | ({k.arg for f in wrap for k in f.kwonlyargs} if deco else set())
      req = params[:len(params) - len(ar.defaults)]
      ctx.ob('process', f'{W} {label}', ar.kwarg is not None or set(kws) <= names, f'{w}: {name.id} has no argument {sorted(set(kws) - names)}')
      ctx.ob('process', f'{W} {label}', ar.vararg is not None or len(pos) <= len(params), f'{w}: {op!r} has too many arguments')
      miss = [p for p in req[len(pos):] if p not in kws]
      ctx.ob('process', f'{W} {label}', not miss, f'{w}: {op!r} lacks {miss}')
      dup = [p for p in params[:len(pos)] if p in kws]
      ctx.ob('process', f'{W} {label}', not dup, f'{w}: {op!r} gives {dup} twice')
      if name.id == 'keep':
        if avail is not None: ctx.ob('process-keys', f'{W} {label}', set(pos) <= avail, f'{w}: {op!r} keeps keys that were dropped')
        avail = set(pos)
      elif deco:
        dk = {k.arg: k.value for k in d.decorator_list[0].keywords} if isinstance(d.decorator_list[0], ast.Call) else {}
        lit = lambda k: ast.literal_eval(dk[k]) if k in dk else 'image'
        i = kws.get('key') or kws.get('inkey', lit('indefault'))
        o = kws.get('key') or kws.get('outkey', lit('outdefault'))
        if avail is not None:
          ctx.ob('process-keys', f'{W} {label}', i in avail, f'{w}: {op!r} reads {i!r}, which was dropped')
          avail = avail | {o}
    if avail is not None and keys: ctx.ob('process-keys', f'{W} {label}', set(keys) <= avail, f'{w}: the examples keep {sorted(avail)}, but {sorted(set(keys) - avail)} is read')


def initialization(ctx, v, W):
  I = 'vmoe.initialization.initialization'
  for c, w in v.consts('name'):
    got = resolve(ctx, c, I)
    s = fsig(ctx, got[0]) if got else None
    ctx.ob('initialization-name', f'{W} config.initialization.name', s is not None, f'{w}: there is no initialization {c!r}')
    if s is None: continue
    if s.open: s = s.join((fsig(ctx, 'vmoe.initialization.mapping:map_state_dict') or s).minus('source', 'target', 'rules'))
    s = Sig((s.names | {'name'}) - {'target', 'mesh', 'thread_pool'}, s.required - {'target', 'mesh', 'thread_pool'}, s.open, s.src)
    s.required &= s.names
    match(ctx, 'initialization-option', v, s, 'config.initialization')
  for x, w in v.items.get('axis_resources_regexes', ()): axis_rules(ctx, W, 'config.initialization.axis_resources_regexes', x, w)
  kinds = reads(ctx, 'vmoe.initialization.rules:Rules.parse')
  for x, w in v.items.get('rules', ()):
    for a in alts(x):
      s = strings(a)
      for rule in s if isinstance(s, tuple) else ():
        if not isinstance(rule, tuple): continue
        lab = 'config.initialization.rules'
        ctx.ob('initialization-rule', f'{W} {lab}', len(rule) >= 2 and isinstance(rule[0], str), f'{w}: {rule!r}')
        if len(rule) < 2 or not isinstance(rule[0], str): continue
        c = regex(ctx, W, lab, rule[0], w)
        if c is not None and isinstance(rule[1], str) and rule[1]:
          refs = [int(g) for g in re.findall(r'\\(?:g<)?(\d+)', rule[1])]
          ctx.ob('initialization-rule', f'{W} {lab}', all(g <= c.groups for g in refs), f'{w}: {rule[1]!r} refers to a group that {rule[0]!r} does not have')
        if len(rule) > 2 and kinds: ctx.ob('initialization-rule', f'{W} {lab}', rule[2] in kinds, f'{w}: there is no transformation {rule[2]!r}')


def streams(ctx, top, W):
  """Random streams that the configured parts draw from are asked for."""
  have = []
  for v, w in top.items.get('extra_rng_keys', ()):
    for a in alts(v):
      s = strings(a)
      have.append(set(s) if isinstance(s, tuple) else None)
  if None in have: return
  def need(k, why):
    has(ctx, top.tree, 'random-streams', f'{W} config.extra_rng_keys', bool(have) and all(k in h for h in have), f'{why}, but the random stream {k!r} is not asked for')
  if 'mixup' in top.items: need('mixup', 'the configuration uses mixup')
  def noisy(m):
    for e in m.sub('encoder'):
      for b in e.sub('moe'):
        for r in b.sub('router'):
          if r.consts('noise_std') and all(c for c, _ in r.consts('noise_std')) and not any(c for c, _ in r.consts('deterministic')): return True
    return False
  def drops(m):
    for e in m.sub('encoder'):
      for v in [e] + e.sub('moe'):
        if any(c for k in ('dropout_rate', 'attention_dropout_rate') for c, _ in v.consts(k)): return True
    return False
  for m in top.sub('model'):
    if drops(m) or any(drops(s) for s in m.sub('image') + m.sub('text')): need('dropout', 'the model uses dropout')
    if noisy(m) or any(noisy(s) for s in m.sub('image')): need('gating', 'the router adds noise')

"""Interprocedural abstract interpreter: source (ast) -> value terms + ordered effects.

Nothing of the analysed program is executed.  Statements are interpreted over
terms (see terms.py); both branches of undecided conditionals are followed and
joined with decision diagrams; loops are summarised once into maps, sums, dict
updates or folds; repository functions are inlined (non recursive, bounded).
"""
import ast
import os
import re
from . import terms as t
from .terms import T, TRUE, FALSE, NONE, raw, const, glob, sym, fresh, top

REPO = os.environ.get('VMOE_REPO', '/repo')

CANON = {
    'jax.tree_util.tree_map': 'jax.tree.map', 'jax.tree_map': 'jax.tree.map', 'jax.tree_multimap': 'jax.tree.map',
    'jax.tree_util.tree_leaves': 'jax.tree.leaves', 'jax.tree_leaves': 'jax.tree.leaves',
    'jax.tree_util.tree_flatten': 'jax.tree.flatten', 'jax.tree_flatten': 'jax.tree.flatten',
    'jax.tree_util.tree_unflatten': 'jax.tree.unflatten', 'jax.tree_unflatten': 'jax.tree.unflatten',
    'jax.tree_util.tree_structure': 'jax.tree.structure', 'jax.tree_structure': 'jax.tree.structure',
    'jax.random.key': 'jax.random.PRNGKey',
    'flax.linen.softmax': 'jax.nn.softmax',
    'jax.numpy.abs': 'jax.numpy.abs', 'jax.numpy.absolute': 'jax.numpy.abs',
    'tensorflow.compat.v1.io.gfile': 'tensorflow.io.gfile',
    'numpy.product': 'numpy.prod',
    'typing.cast': 'typing.cast',
    'jax.experimental.pjit.pjit': 'jax.jit', 'pjit.pjit': 'jax.jit',
    'numpy.concat': 'numpy.concatenate', 'jax.numpy.concat': 'jax.numpy.concatenate',
    'tensorflow.data.experimental.AUTOTUNE': 'tensorflow.data.AUTOTUNE',
    'jax.lax.stop_gradient': 'jax.lax.stop_gradient',
    'os.rename': 'os.rename', 'math.prod': 'numpy.prod',
}
CANON_PREFIX = [('tensorflow.compat.v2.', 'tensorflow.'), ('tensorflow.compat.v1.', 'tensorflow.'),
                ('flax.core.lift.', 'flax.core.lift.')]

SIG = {
    'tensorflow.image.resize': ('images', 'size', 'method'), 'tensorflow.v1image.resize': ('images', 'size', 'method'), 'tensorflow.one_hot': ('indices', 'depth', 'on_value', 'off_value'),
    'tensorflow.cast': ('x', 'dtype'), 'tensorflow.reshape': ('tensor', 'shape'), 'tensorflow.slice': ('input_', 'begin', 'size'), 'tensorflow.constant': ('value', 'dtype'),
    'tensorflow.image.crop_to_bounding_box': ('image', 'offset_height', 'offset_width', 'target_height', 'target_width'),
    'tensorflow.clip_by_value': ('t', 'clip_value_min', 'clip_value_max'), 'tensorflow.scatter_nd': ('indices', 'updates', 'shape'), 'tensorflow.stack': ('values', 'axis'),
    'tensorflow.image.decode_and_crop_jpeg': ('contents', 'crop_window', 'channels'), 'tensorflow.image.resize_area': ('images', 'size'),
    'tensorflow.io.decode_image': ('contents', 'channels', 'dtype'), 'tensorflow.image.random_flip_left_right': ('image', 'seed'),
    'jax.nn.softmax': ('x', 'axis', 'where'), 'jax.nn.log_softmax': ('x', 'axis'),
    'jax.nn.one_hot': ('x', 'num_classes'),
    'jax.lax.top_k': ('operand', 'k'),
    'jax.numpy.sum': ('a', 'axis'), 'jax.numpy.mean': ('a', 'axis'), 'jax.numpy.max': ('a', 'axis'),
    'jax.numpy.min': ('a', 'axis'), 'jax.numpy.prod': ('a', 'axis'), 'jax.numpy.argmax': ('a', 'axis'),
    'jax.numpy.argsort': ('a', 'axis'), 'jax.numpy.sort': ('a', 'axis'),
    'jax.numpy.cumsum': ('a', 'axis'), 'jax.numpy.std': ('a', 'axis'), 'jax.numpy.var': ('a', 'axis'),
    'jax.numpy.swapaxes': ('a', 'axis1', 'axis2'), 'jax.numpy.moveaxis': ('a', 'source', 'destination'),
    'jax.numpy.transpose': ('a', 'axes'), 'jax.numpy.reshape': ('a', 'shape'),
    'jax.numpy.expand_dims': ('a', 'axis'), 'jax.numpy.squeeze': ('a', 'axis'),
    'jax.numpy.concatenate': ('arrays', 'axis'), 'jax.numpy.stack': ('arrays', 'axis'),
    'jax.numpy.repeat': ('a', 'repeats', 'axis'), 'jax.numpy.tile': ('A', 'reps'),
    'jax.numpy.roll': ('a', 'shift', 'axis'), 'jax.numpy.where': ('condition', 'x', 'y'),
    'jax.numpy.split': ('ary', 'indices_or_sections', 'axis'),
    'jax.numpy.take_along_axis': ('arr', 'indices', 'axis'), 'jax.numpy.take': ('a', 'indices', 'axis'),
    'jax.numpy.zeros': ('shape', 'dtype'), 'jax.numpy.ones': ('shape', 'dtype'),
    'jax.numpy.array': ('object', 'dtype'), 'jax.numpy.asarray': ('a', 'dtype'),
    'jax.numpy.clip': ('arr', 'min', 'max'), 'jax.numpy.full': ('shape', 'fill_value', 'dtype'),
    'jax.random.normal': ('key', 'shape', 'dtype'), 'jax.random.uniform': ('key', 'shape', 'dtype', 'minval', 'maxval'),
    'jax.random.split': ('key', 'num'), 'jax.random.fold_in': ('key', 'data'), 'jax.random.PRNGKey': ('seed',),
    'jax.random.beta': ('key', 'a', 'b', 'shape'), 'jax.random.dirichlet': ('key', 'alpha', 'shape'),
    'jax.random.permutation': ('key', 'x', 'axis'),
    'tensorflow.io.gfile.GFile': ('name', 'mode'), 'tensorflow.io.gfile.rename': ('src', 'dst', 'overwrite'),
    'tensorflow.io.gfile.glob': ('pattern',), 'tensorflow.io.gfile.exists': ('path',),
    'tensorflow.io.gfile.makedirs': ('path',), 'tensorflow.io.gfile.copy': ('src', 'dst', 'overwrite'),
    'open': ('file', 'mode'), 'os.rename': ('src', 'dst'), 'os.replace': ('src', 'dst'),
    'numpy.concatenate': ('arrays', 'axis'), 'numpy.stack': ('arrays', 'axis'), 'numpy.transpose': ('a', 'axes'),
    'numpy.reshape': ('a', 'shape'), 'numpy.prod': ('a', 'axis'), 'numpy.split': ('ary', 'indices_or_sections', 'axis'),
    'numpy.zeros': ('shape', 'dtype'), 'numpy.empty': ('shape', 'dtype'), 'numpy.frombuffer': ('buffer', 'dtype', 'count', 'offset'),
    'numpy.ndarray': ('shape', 'dtype', 'buffer', 'offset'), 'numpy.asarray': ('a', 'dtype'), 'numpy.array': ('object', 'dtype'),
    'jax.tree.map': ('f', 'tree'), 'jax.tree.unflatten': ('treedef', 'leaves'),
    're.match': ('pattern', 'string', 'flags'), 're.search': ('pattern', 'string', 'flags'),
    're.fullmatch': ('pattern', 'string', 'flags'), 're.sub': ('pattern', 'repl', 'string', 'count', 'flags'),
    're.compile': ('pattern', 'flags'), 're.split': ('pattern', 'string', 'maxsplit', 'flags'),
    'msgpack.ExtType': ('code', 'data'),
    'jax.device_put': ('x', 'device'),
    'tensorflow.zeros': ('shape', 'dtype'), 'tensorflow.ones': ('shape', 'dtype'),
    'tensorflow.fill': ('dims', 'value'), 'tensorflow.io.parse_tensor': ('serialized', 'out_type'),
}

TRANSPARENT_DECOS = {'staticmethod', 'classmethod', 'property', 'abc.abstractmethod', 'flax.linen.compact',
                     'flax.linen.nowrap', 'functools.wraps', 'functools.cached_property', 'functools.lru_cache',
                     'functools.cache', 'contextlib.contextmanager', 'cachetools.cached', 'typing.overload'}
JITLIKE = {'jax.jit', 'jax.named_call', 'flax.linen.jit', 'flax.linen.remat', 'flax.linen.checkpoint', 'jax.checkpoint', 'jax.remat'}
DATACLASS_DECOS = {'dataclasses.dataclass', 'flax.struct.dataclass', 'chex.dataclass'}

BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
CMP = {ast.Lt: '<', ast.Gt: '>', ast.LtE: '<=', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is',
       ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}

BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)


V1_ONLY = ('resize', 'resize_images', 'resize_bilinear', 'resize_bicubic', 'resize_nearest_neighbor')   # not the functions of the same name in version 2


def canon(name):
  p = 'tensorflow.compat.v1.image'
  if name == p or name.startswith(p + '.'): name = 'tensorflow.v1image' + name[len(p):]
  if name.startswith('tensorflow.v1image.'):
    x = name[len('tensorflow.v1image.'):]
    return name if x in V1_ONLY else 'tensorflow.image.' + x
  for a, b in CANON_PREFIX:
    if name.startswith(a): name = b + name[len(a):]
  for a, b in CANON.items():
    if name == a: return b
    if name.startswith(a + '.'): return b + name[len(a):]
  return name


class AnalysisError(Exception):
  pass


class Unmatch(ast.NodeTransformer):
  """`match` statements as chains of conditionals."""
  n = 0

  def visit_Match(self, s):
    self.generic_visit(s)
    Unmatch.n += 1
    var = f'_match{Unmatch.n}'
    load = lambda: ast.Name(var, ast.Load())
    out = []
    for c in reversed(s.cases):
      binds = []
      cond = self.pattern(c.pattern, load, binds)
      body = [ast.Assign([ast.Name(k, ast.Store())], v, lineno=c.pattern.lineno) for k, v in binds]
      if c.guard is not None:
        if binds: cond = ast.Call(ast.Name('__match_pattern__', ast.Load()), [load(), ast.Constant(ast.dump(c.pattern) + ast.dump(c.guard))], [])   # not modelled
        else: cond = ast.BoolOp(ast.And(), [cond, c.guard])
      out = [ast.If(cond, body + c.body, out)]
    res = [ast.Assign([ast.Name(var, ast.Store())], s.subject, lineno=s.lineno)] + out
    for x in res:
      ast.copy_location(x, s)
      ast.fix_missing_locations(x)
    return res

  def pattern(self, p, load, binds):
    if isinstance(p, ast.MatchValue): return ast.Compare(load(), [ast.Eq()], [p.value])
    if isinstance(p, ast.MatchSingleton): return ast.Compare(load(), [ast.Is()], [ast.Constant(p.value)])
    if isinstance(p, ast.MatchOr):
      n = len(binds)
      c = ast.BoolOp(ast.Or(), [self.pattern(x, load, binds) for x in p.patterns])
      if len(binds) == n: return c
    elif isinstance(p, ast.MatchAs):
      c = ast.Constant(True) if p.pattern is None else self.pattern(p.pattern, load, binds)
      if p.name: binds.append((p.name, load()))
      return c
    elif isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns: return ast.Call(ast.Name('isinstance', ast.Load()), [load(), p.cls], [])
    return ast.Call(ast.Name('__match_pattern__', ast.Load()), [load(), ast.Constant(ast.dump(p))], [])


class Module:
  def __init__(self, name, path):
    self.name = name
    self.path = path
    with open(path, encoding='utf-8') as f:
      self.src = f.read()
    self.tree = Unmatch().visit(ast.parse(self.src, path)) if 'match ' in self.src else ast.parse(self.src, path)
    for n in ast.walk(self.tree):
      # `while True: if c: break; ..` is `while not c: ..`
      if isinstance(n, ast.While) and not n.orelse and isinstance(n.test, ast.Constant) and n.test.value and len(n.body) > 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse \
          and len(n.body[0].body) == 1 and isinstance(n.body[0].body[0], ast.Break):
        n.test, n.body = ast.copy_location(ast.UnaryOp(ast.Not(), n.body[0].test), n.body[0].test), n.body[1:]
      if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        out = [n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]
        for i, g in enumerate(n.generators): g.inside = out + g.ifs + [h.iter for h in n.generators[i + 1:]]
    self.names = {}     # name -> ('def', node) | ('class', node) | ('import', dotted) | ('from', mod, name) | ('assign', node)
    self.is_pkg = os.path.basename(path) == '__init__.py'
    self._collect(self.tree.body)

  def _collect(self, body):
    for n in body:
      if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)): self.names[n.name] = ('def', n)
      elif isinstance(n, ast.ClassDef): self.names[n.name] = ('class', n)
      elif isinstance(n, ast.Import):
        for a in n.names:
          if a.asname: self.names[a.asname] = ('import', a.name)
          else: self.names[a.name.split('.')[0]] = ('import', a.name.split('.')[0])
      elif isinstance(n, ast.ImportFrom):
        base = n.module or ''
        if n.level:
          parts = self.name.split('.')
          if not self.is_pkg: parts = parts[:-1]
          parts = parts[:len(parts) - (n.level - 1)]
          base = '.'.join(parts + ([n.module] if n.module else []))
        for a in n.names: self.names[a.asname or a.name] = ('from', base, a.name)
      elif isinstance(n, ast.Assign):
        for tg in n.targets:
          if isinstance(tg, ast.Name): self.names[tg.id] = ('assign', n.value)
          elif isinstance(tg, ast.Tuple):
            for i, e in enumerate(tg.elts):
              if isinstance(e, ast.Name): self.names[e.id] = ('assign_item', n.value, i)
      elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
        self.names[n.target.id] = ('assign', n.value)
      elif isinstance(n, (ast.If, ast.Try)):
        if isinstance(n, ast.Try):
          for h in n.handlers: self._collect([x for x in h.body if not isinstance(x, (ast.Import, ast.ImportFrom))])
        self._collect(n.body)   # an optional import counts as present
        self._collect(n.orelse)


class Func:
  def __init__(self, node, module, frame, qual, cls=None):
    self.node = node
    self.module = module
    self.frame = frame        # defining frame id or None
    self.qual = qual
    self.cls = cls            # class qualname where defined (for super)
    self.defaults = None      # evaluated
    self.kwdefaults = None
    self.is_gen = None


class State:
  __slots__ = ('frames', 'store', 'pc', 'assumed', 'dead')
  def __init__(self):
    self.frames = {}
    self.store = {}
    self.pc = TRUE
    self.assumed = TRUE
    self.dead = False
  def copy(self):
    s = State()
    s.frames = dict(self.frames)
    s.store = dict(self.store)
    s.pc = self.pc
    s.assumed = self.assumed
    s.dead = self.dead
    return s
  def setvar(self, frame, name, v):
    d = dict(self.frames[frame])
    d[name] = v
    self.frames[frame] = d


class Event:
  __slots__ = ('kind', 'fn', 'args', 'kwargs', 'pc', 'assumed', 'loops', 'withs', 'trys', 'lams', 'func', 'file', 'line', 'value', 'seq', 'extra', 'stack')
  def name(self):
    if self.fn is None: return ''
    if self.fn.op == 'glob': return self.fn.args[0]
    if self.fn.op == 'attr': return '.' + self.fn.args[1]
    if self.fn.op == 'opaque': return self.fn.args[0]
    return ''
  def where(self):
    return f'{self.file}:{self.line} in {self.func}'
  def __repr__(self):
    a = ', '.join([t.show(x, 6) for x in self.args] + [f'{k}={t.show(v, 6)}' for k, v in self.kwargs])
    return f'[{self.seq}] {self.kind} {t.show(self.fn, 5) if self.fn is not None else ""}({a}) @{self.line} pc={t.show(self.pc, 5)}'


class Loop:
  def __init__(self, domain, idx, kind='for'):
    self.domain = domain
    self.idx = idx
    self.kind = kind
    self.phis = {}      # phi sym -> (label, init, next)
    self.filt = TRUE
    self.test = None
    self.early = FALSE  # condition under which an iteration ends the loop (break or return)
  def __repr__(self):
    return f'Loop({self.kind} {t.show(self.domain, 4)})'


def extension(x, y):
  """The elements that make the list x of the list y, if x only adds literal elements at the end."""
  if x.op not in ('list', 'cat') or y.op not in ('list', 'cat', 'opt'): return None
  px, py = (list(p.args) if p.op == 'cat' else [p] if p.op == 'opt' or p.args else [] for p in (x, y))
  if not px or px[-1].op != 'list': return None
  if px[:-1] == py: return px[-1].args
  if py and px[:-1] == py[:-1] and py[-1].op == 'list' and px[-1].args[:len(py[-1].args)] == py[-1].args: return px[-1].args[len(py[-1].args):]
  return None


def always_raises(body):
  """The block ends by raising on every path (decided by its shape)."""
  if not body: return False
  x = body[-1]
  if isinstance(x, ast.Raise): return True
  if isinstance(x, ast.If): return always_raises(x.body) and always_raises(x.orelse)
  return False


class Exit:
  __slots__ = ('kind', 'st', 'value')
  def __init__(self, kind, st, value=None):
    self.kind = kind
    self.st = st
    self.value = value


class Result:
  pass


class Engine:
  MAXDEPTH = 24

  def __init__(self, root=None):
    self.root = root or REPO
    self.modules = {}
    self.funcs = {}
    self.classes = {}          # qual -> (module, node)
    self._modfuncs = {}
    self._modvals = {}
    self._evaluating = set()
    self.nid = 0
    self.reset()

  # ------------------------------------------------------------ loading
  def modpath(self, name):
    if name.startswith('vspec.'):   # specification programs of the checks
      return os.path.join(os.path.dirname(os.path.abspath(__file__)), 'specs', name[6:] + '.py')
    p = os.path.join(self.root, *name.split('.'))
    if os.path.isfile(p + '.py'): return p + '.py'
    if os.path.isfile(os.path.join(p, '__init__.py')): return os.path.join(p, '__init__.py')
    if os.path.isdir(p) and name.split('.')[0] == 'vmoe': return 'DIR'
    return None

  def module(self, name):
    if name not in self.modules:
      p = self.modpath(name)
      if p is None or p == 'DIR': self.modules[name] = p and 'DIR'
      else: self.modules[name] = Module(name, p)
    return self.modules[name]

  def all_modules(self):
    out = []
    for d, _, fs in os.walk(os.path.join(self.root, 'vmoe')):
      for f in sorted(fs):
        if f.endswith('.py') and not f.endswith('_test.py'):
          rel = os.path.relpath(os.path.join(d, f), self.root)[:-3].replace(os.sep, '.')
          if rel.endswith('.__init__'): rel = rel[:-9]
          out.append(rel)
    return sorted(out)

  def reset(self):
    self.events = []
    self.outer = [TRUE]
    self.loops = []
    self.withs = []
    self.trys = []
    self.lams = []
    self.stack = []
    self.mute = 0
    self.opaque = set()
    self.unrolling = 0
    self.index_syms = {}
    self.class_frames = {}   # local classes: the frame of the enclosing function
    self.callhook = None
    self.steps = 0

  def newid(self):
    self.nid += 1
    return self.nid

  # ------------------------------------------------------------ names
  def qualname(self, module, node):
    return f'{module}.{node.name}'

  def mod_func(self, modname, node, cls=None):
    key = (modname, cls, node.name, node.lineno, self.class_frames.get(cls))
    if key not in self._modfuncs:
      fid = self.newid()
      f = Func(node, modname, self.class_frames.get(cls), f'{cls or modname}.{node.name}', cls)
      self.funcs[fid] = f
      self._modfuncs[key] = raw('func', fid)
    return self._modfuncs[key]

  def class_term(self, modname, node):
    q = f'{modname}.{node.name}'
    self.classes.setdefault(q, (modname, node))
    return raw('cls', q)

  def lookup_global(self, modname, name, st):
    m = self.module(modname)
    if not isinstance(m, Module): return None
    e = m.names.get(name)
    if e is None: return None
    k = e[0]
    if k == 'def':
      f = self.mod_func(modname, e[1])
      return self.decorate(f, e[1], modname, st)
    if k == 'class': return self.class_term(modname, e[1])
    if k == 'import': return self.dotted(e[1])
    if k == 'from':
      r = self.dotted(e[1])
      return self.getattr_(r, e[2], st)
    if k in ('assign', 'assign_item'):
      key = (modname, name)
      if key in self._modvals: return self._modvals[key]
      if key in self._evaluating: return glob(f'{modname}.{name}')
      self._evaluating.add(key)
      try:
        s2 = State()
        fr = self.newid()
        s2.frames[fr] = {}
        self.mute += 1
        self.stack.append(('<module>', modname, fr))
        v = self.eval(e[1], s2, fr, modname)
        if k == 'assign_item': v = t.item(v, const(e[2]))
        v = self.resolve(v, s2)
        self.stack.pop()
        self.mute -= 1
      finally:
        self._evaluating.discard(key)
      if v.op in ('top',) or t.contains(v, lambda x: x.op == 'top'): v = glob(f'{modname}.{name}')
      self._modvals[key] = v
      return v
    return None

  def dotted(self, name):
    if name.split('.')[0] == 'vmoe' and self.modpath(name):
      return raw('mod', name)
    return glob(canon(name))

  # ------------------------------------------------------------ classes
  def bases(self, q, st=None):
    modname, node = self.classes[q]
    out = []
    for b in node.bases:
      s2 = State(); fr = self.newid(); s2.frames[fr] = {}
      self.mute += 1
      out.append(self.eval(b, s2, fr, modname))
      self.mute -= 1
    return out

  def mro(self, q):
    out = [q]
    for b in self.bases(q):
      if b.op == 'cls':
        for x in self.mro(b.args[0]):
          if x not in out: out.append(x)
    return out

  def ext_bases(self, q):
    out = []
    for c in self.mro(q):
      out += [b for b in self.bases(c) if b.op != 'cls']
    return out

  def is_dataclass(self, q):
    for c in self.mro(q):
      modname, node = self.classes[c]
      for d in node.decorator_list:
        n = self.deco_name(d, modname)
        if n in DATACLASS_DECOS: return True
    for b in self.ext_bases(q):
      if t.is_glob(b, 'flax.linen.Module', 'flax.struct.PyTreeNode', 'typing.NamedTuple', 'clu.metrics.Collection', 'flax.training.train_state.TrainState'): return True
      if b.op == 'glob' and b.args[0].startswith('vit_jax.'): return True
    return False

  def is_enum(self, q):
    return any(t.is_glob(b, 'enum.Enum', 'enum.IntEnum') for b in self.ext_bases(q))

  def deco_name(self, d, modname):
    if isinstance(d, ast.Call): d = d.func
    s2 = State(); fr = self.newid(); s2.frames[fr] = {}
    self.mute += 1
    v = self.eval(d, s2, fr, modname)
    self.mute -= 1
    return v.args[0] if v.op == 'glob' else None

  def find_in_class(self, q, name, after=None):
    mro = self.mro(q)
    if after is not None:
      mro = mro[mro.index(after) + 1:] if after in mro else []
    for c in mro:
      modname, node = self.classes[c]
      for n in node.body:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == name:
          return ('method', c, modname, n)
        if isinstance(n, ast.ClassDef) and n.name == name:
          qq = f'{c}.{name}'
          self.classes.setdefault(qq, (modname, n))
          return ('class', qq, modname, n)
        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
          return ('field', c, modname, n)
        if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in n.targets):
          return ('const', c, modname, n)
    return None

  def fields(self, q):
    out = []
    for c in reversed(self.mro(q)):
      modname, node = self.classes[c]
      for n in node.body:
        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
          if isinstance(n.annotation, ast.Subscript) and 'ClassVar' in ast.dump(n.annotation): continue
          out = [x for x in out if x[0] != n.target.id] if n.value is not None or True else out
          out.append((n.target.id, n, modname))
    return out

  def method_term(self, found, selfv):
    _, c, modname, n = found
    f = self.mod_func(modname, n, cls=c)
    decos = [self.deco_name(d, modname) for d in n.decorator_list]
    if 'staticmethod' in decos: return f, decos
    if 'classmethod' in decos:
      base = selfv
      if selfv is not None and selfv.op in ('self',): base = raw('cls', selfv.args[0])
      return raw('bound', base, f), decos
    if selfv is None or selfv.op == 'cls': return f, decos
    v = raw('bound', selfv, f)
    for d, dn in zip(n.decorator_list, decos):   # lifted maps over a method (flax.linen.vmap / scan)
      if not isinstance(d, ast.Call): continue
      g, kws = dn, d.keywords
      if dn == 'functools.partial' and d.args:
        dv = self.eval_in_module(d.args[0], modname)
        g = dv.args[0] if dv.op == 'glob' else None
      if g in ('flax.linen.vmap', 'flax.linen.scan'):
        v = raw('lifted', g, v, tuple((k.arg, self.eval_in_module(k.value, modname)) for k in kws if k.arg))
    return v, decos

  # ------------------------------------------------------------ attribute access
  def class_of(self, v, st):
    if v.op == 'self': return v.args[0]
    if v.op == 'ref':
      o = st.store.get(v)
      if o is not None and o.op == 'obj': return o.args[0]
    if v.op == 'obj': return v.args[0]
    return None

  def getattr_(self, b, name, st, node=None):
    if b.op == 'ite':
      return t.mk_ite(raw('ite', b.args[0], TRUE, FALSE), self.getattr_(b.args[1], name, st), self.getattr_(b.args[2], name, st))
    if b.op == 'mod':
      m = self.module(b.args[0])
      if isinstance(m, Module):
        v = self.lookup_global(b.args[0], name, st)
        if v is not None: return v
      sub = b.args[0] + '.' + name
      if self.modpath(sub): return raw('mod', sub)
      return glob(sub)
    ov = st.store.get(('attr', b, name))
    if ov is not None: return ov
    if b.op == 'glob': return glob(canon(b.args[0] + '.' + name))
    if b.op == 'cls':
      f = self.find_in_class(b.args[0], name)
      if f is not None:
        if f[0] == 'method': return self.method_term(f, b)[0]
        if f[0] == 'class': return raw('cls', f[1])
        if self.is_enum(b.args[0]): return raw('enum', b.args[0], name)
        v = f[3].value
        if v is not None: return self.eval_in_module(v, f[2])
      if name == '__name__': return const(b.args[0].split('.')[-1])
      return t.attr(b, name)
    if b.op in ('ref', 'obj'):
      o = st.store.get(b) if b.op == 'ref' else b
      if o is not None and o.op == 'obj':
        for k, v in o.args[1]:
          if k == name: return v
    q = self.class_of(b, st)
    if q is not None:
      f = self.find_in_class(q, name)
      if f is not None and f[0] == 'method':
        v, decos = self.method_term(f, b)
        if 'property' in decos or 'functools.cached_property' in decos:
          return self.call(v, [], [], st, node)
        return v
      if f is not None and f[0] == 'const' :
        return self.eval_in_module(f[3].value, f[2])
      if f is not None and f[0] == 'class': return raw('cls', f[1])
      if f is not None and f[0] == 'field' and not self.is_dataclass(q) and f[3].value is not None:
        return self.eval_in_module(f[3].value, f[2])
      if name == '__class__': return raw('cls', q)
      if b.op == 'self': return t.attr(b, name)
    if b.op == 'bound' and name == '__self__': return b.args[0]
    if b.op == 'func' and name == '__name__': return const(self.funcs[b.args[0]].node.name if hasattr(self.funcs[b.args[0]].node, 'name') else '<lambda>')
    if b.op == 'partial' and name in ('func',): return b.args[0]
    return t.attr(self.snapshot_if_seq(b, st, name), name)

  MUT_METHODS = {'append', 'extend', 'insert', 'pop', 'update', 'setdefault', 'remove', 'clear', 'add', 'sort', 'reverse', 'discard', 'popitem'}

  def snapshot_if_seq(self, b, st, name):
    return b

  def eval_in_module(self, node, modname):
    s2 = State(); fr = self.newid(); s2.frames[fr] = {}
    self.mute += 1
    v = self.eval(node, s2, fr, modname)
    v = self.resolve(v, s2)
    self.mute -= 1
    return v

  def decorate(self, f, node, modname, st):
    """Apply decorators of a def; transparent ones vanish."""
    v = f
    for d in reversed(node.decorator_list):
      n = self.deco_name(d, modname)
      if n in TRANSPARENT_DECOS or n in JITLIKE: continue
      if n == 'functools.partial' and isinstance(d, ast.Call) and d.args:
        dv = self.eval_in_module(d.args[0], modname)
        if dv.op == 'glob' and dv.args[0] in JITLIKE | {'jax.pmap'}: continue
      if n is None or n.startswith('vmoe.') or n.startswith('vspec.'):   # repository decorator: what it returns
        fr = self.newid()
        st.frames[fr] = {}
        self.mute += 1
        try: v = self.call(self.eval(d, st, fr, modname), [v], [], st, node)
        finally: self.mute -= 1
        continue
      v = raw('decorated', v, n or '')
    return v

  # ------------------------------------------------------------ resolve refs
  def resolve(self, v, st, funcs=True, memo=None, stack=()):
    memo = {} if memo is None else memo
    def f(x):
      if x.op == 'ref':
        if x in stack: return raw('cyc', 0)
        val = st.store.get(x)
        if val is None: return None
        return self.resolve(val, st, funcs, None, stack + (x,))
      if funcs and x.op in ('func', 'partial', 'bound') and not stack.count('F'):
        return None
      return None
    if not any(x.op == 'ref' for x in t.subterms(v)): return v
    return t.transform(v, f, memo)

  # ------------------------------------------------------------ events
  def emit(self, kind, fn, args, kwargs, st, node, value=None, extra=None):
    if self.mute: return None
    e = Event()
    e.kind = kind; e.fn = fn; e.args = tuple(args); e.kwargs = tuple(kwargs)
    e.pc = t.b_and(self.outer[-1], st.pc)
    e.assumed = st.assumed
    e.loops = tuple(self.loops); e.withs = tuple(self.withs); e.trys = tuple(self.trys); e.lams = tuple(self.lams)
    e.func = self.stack[-1][0] if self.stack else ''
    e.stack = tuple(x[0] for x in self.stack)
    m = self.modules.get(self.stack[-1][1]) if self.stack else None
    e.file = os.path.relpath(m.path, self.root) if isinstance(m, Module) else ''
    e.line = getattr(node, 'lineno', 0)
    e.value = value
    e.seq = len(self.events)
    e.extra = extra
    self.events.append(e)
    return e

  # ------------------------------------------------------------ expressions
  def eval(self, n, st, fr, mod):
    self.steps += 1
    if self.steps > 3_000_000: raise AnalysisError('step budget exceeded')
    m = getattr(self, 'e_' + type(n).__name__, None)
    if m is None: return top('expr:' + type(n).__name__)
    return m(n, st, fr, mod)

  def lookup(self, name, st, fr, mod):
    f = fr
    while f is not None:
      d = st.frames.get(f)
      if d is None: break
      if name in d: return d[name]
      f = d.get('<parent>')
    v = self.lookup_global(mod, name, st)
    if v is not None: return v
    if name in BUILTINS: return glob(name)
    return top('undef:' + name)

  def e_Constant(self, n, st, fr, mod): return const(n.value)
  def e_Name(self, n, st, fr, mod): return self.lookup(n.id, st, fr, mod)
  def e_NamedExpr(self, n, st, fr, mod):
    v = self.eval(n.value, st, fr, mod)
    self.assign(n.target, v, st, fr, mod)
    return v

  def e_Attribute(self, n, st, fr, mod):
    b = self.eval(n.value, st, fr, mod)
    return self.getattr_(b, n.attr, st, n)

  def e_Tuple(self, n, st, fr, mod):
    return t.mk_tuple(self.elts(n.elts, st, fr, mod))

  def elts(self, es, st, fr, mod):
    out = []
    for e in es:
      if isinstance(e, ast.Starred):
        v = self.eval(e.value, st, fr, mod)
        v = self.deref_seq(v, st)
        if v.op in ('tuple', 'list'): out.extend(v.args)
        else: out.append(raw('star', v))
      else:
        out.append(self.eval(e, st, fr, mod))
    return out

  def deref_seq(self, v, st):
    if v.op == 'ref':
      s = st.store.get(v)
      if s is not None: return s
    return v

  def new_ref(self, v, st):
    r = raw('ref', self.newid())
    st.store[r] = v
    return r

  def e_List(self, n, st, fr, mod):
    return self.new_ref(raw('list', *self.elts(n.elts, st, fr, mod)), st)
  def e_Set(self, n, st, fr, mod):
    return self.new_ref(raw('set', *self.elts(n.elts, st, fr, mod)), st)

  def e_Dict(self, n, st, fr, mod):
    d = raw('dict')
    for k, v in zip(n.keys, n.values):
      vv = self.eval(v, st, fr, mod)
      if k is None:
        d = self.dict_update(d, self.deref_seq(vv, st))
      else:
        d = self.dict_set(d, self.eval(k, st, fr, mod), vv)
    return self.new_ref(d, st)

  def dict_set(self, d, k, v):
    if d.op == 'dict':
      if k.op == 'const' and all(x.op == 'const' for x, _ in d.args) or not d.args or True:
        if k.op == 'const' and all(x.op == 'const' for x, _ in d.args):
          pairs = [(a, b) for a, b in d.args]
          for i, (a, b) in enumerate(pairs):
            if a is k:
              pairs[i] = (k, v)
              return raw('dict', *pairs)
          return raw('dict', *(pairs + [(k, v)]))
        if not d.args or all(a is not k for a, _ in d.args):
          if k.op in ('enum', 'const', 'cls', 'glob') and all(a.op in ('enum', 'const', 'cls', 'glob') for a, _ in d.args):
            return raw('dict', *(d.args + ((k, v),)))
    if d.op == 'setitem' and d.args[1] is k: return raw('setitem', d.args[0], k, v)
    return raw('setitem', d, k, v)

  def dict_update(self, d, o):
    if o.op == 'dict':
      for k, v in o.args: d = self.dict_set(d, k, v)
      return d
    if o.op == 'setitem': return self.dict_set(self.dict_update(d, o.args[0]), o.args[1], o.args[2])
    if d.op == 'dict' and not d.args: return raw('dictof', o) if o.op not in ('dictupd', 'dictof') else o
    if o.op == 'dictupd':
      return raw('dictupd', self.dict_update(d, o.args[0]), o.args[1])
    return raw('dictmerge', d, o)

  def e_JoinedStr(self, n, st, fr, mod):
    parts = []
    for v in n.values:
      if isinstance(v, ast.Constant): parts.append(const(v.value))
      else:
        x = self.resolve(self.eval(v.value, st, fr, mod), st)
        spec = ''
        if v.format_spec is not None:
          sp = self.eval(v.format_spec, st, fr, mod)
          spec = sp.args[1] if t.is_const(sp) else sp
        parts.append(self.formatted(x, '' if v.conversion == -1 else chr(v.conversion), spec))
    return t.strcat(parts)

  def formatted(self, x, conv, spec):
    if conv == 's': conv = ''
    if t.is_const(x) and isinstance(spec, str) and conv in ('', 'r'):
      try: return const(format(repr(x.args[1]) if conv else x.args[1] if x.args[1] is not None else 'None', spec))
      except Exception: pass
    return x if (t.kind(x) == 'str' and spec == '' and not conv) else raw('fmt', x, (conv + '!' if conv else '') + spec if isinstance(spec, str) else spec)

  def e_UnaryOp(self, n, st, fr, mod):
    v = self.eval(n.operand, st, fr, mod)
    if isinstance(n.op, ast.Not): return t.val(t.b_not(self.cond_of(v, st)))
    if isinstance(n.op, ast.USub): return t.neg(v)
    if isinstance(n.op, ast.UAdd): return v
    return raw('inv', v)

  def cond_of(self, v, st):
    if v.op == 'ref': v = st.store.get(v, v)
    if any(x.op == 'ref' for x in t.subterms(v)): v = self.resolve(v, st)
    return t.cond(v)

  def e_BinOp(self, n, st, fr, mod):
    a = self.deref_seq(self.eval(n.left, st, fr, mod), st)
    b = self.deref_seq(self.eval(n.right, st, fr, mod), st)
    if isinstance(n.op, ast.Mod) and t.is_const(a) and isinstance(a.args[1], str):
      r = self.percent(a.args[1], list(b.args) if b.op == 'tuple' else [b], st)
      if r is not None: return r
    return self.binop(BIN[type(n.op)], a, b, st)

  def percent(self, s, args, st):
    parts, args = [], list(args)
    for lit, spec in re.findall(r'((?:[^%]|%%)+)|(%[-0 ]*\d*(?:\.\d+)?[a-zA-Z])', s):
      if lit: parts.append(const(lit.replace('%%', '%'))); continue
      if not args or spec[-1] not in 'sdrfge': return None
      x = self.resolve(args.pop(0), st)
      if spec in ('%s', '%d', '%r'): parts.append(self.formatted(x, 'r' if spec == '%r' else '', ''))
      elif spec[-1] in 'dfge': parts.append(self.formatted(x, '', spec[1:]))
      else: return None
    return None if args else t.strcat(parts)

  def binop(self, op, a, b, st):
    if any(x.op == 'ref' for x in t.subterms(a)): a = self.resolve(a, st)
    if any(x.op == 'ref' for x in t.subterms(b)): b = self.resolve(b, st)
    if op == '|' and t.kind(a) == 'map' and t.kind(b) == 'map': return self.new_ref(self.dict_update(a, b), st)
    r = t.binop(op, a, b)
    if r.op in ('list', 'cat', 'seqmul') and (a.op == 'list' or b.op == 'list'): return self.new_ref(r, st)
    return r

  def e_BoolOp(self, n, st, fr, mod):
    vs = []
    # short circuit: later operands are evaluated under the earlier conditions
    save = st.pc
    conds = TRUE if isinstance(n.op, ast.And) else FALSE
    for i, e in enumerate(n.values):
      if isinstance(n.op, ast.And): guard = conds
      else: guard = t.b_not(conds)
      if guard is FALSE: break
      st.pc = t.b_and(save, guard)
      v = self.eval(e, st, fr, mod)
      vs.append(v)
      c = self.cond_of(v, st)
      conds = t.b_and(conds, c) if isinstance(n.op, ast.And) else t.b_or(conds, c)
    st.pc = save
    if all(t.kind(self.deref_seq(v, st)) == 'bool' or v.op == 'ite' and self.is_bool(v) for v in vs): return t.val(conds)
    r = vs[-1]
    for v in reversed(vs[:-1]):
      c = self.cond_of(v, st)
      r = t.mk_ite(c, r, v) if isinstance(n.op, ast.And) else t.mk_ite(c, v, r)
    return t.val(r)

  def is_bool(self, v):
    return all(t.kind(l) == 'bool' for _, l in t.leaves(v))

  def e_Compare(self, n, st, fr, mod):
    a = self.resolve(self.eval(n.left, st, fr, mod), st)
    r = TRUE
    for op, c in zip(n.ops, n.comparators):
      b = self.resolve(self.eval(c, st, fr, mod), st)
      v = t.cmp(CMP[type(op)], a, b)
      if len(n.ops) == 1: return v
      r = t.b_and(r, t.cond(v))
      a = b
    return t.val(r)

  def e_IfExp(self, n, st, fr, mod):
    c = self.cond_of(self.eval(n.test, st, fr, mod), st)
    if c is TRUE: return self.eval(n.body, st, fr, mod)
    if c is FALSE: return self.eval(n.orelse, st, fr, mod)
    save = st.pc
    a_st = st.copy(); a_st.pc = t.b_and(save, c)
    a = self.eval(n.body, a_st, fr, mod)
    b_st = st.copy(); b_st.pc = t.b_and(save, t.b_not(c))
    b = self.eval(n.orelse, b_st, fr, mod)
    m = self.merge(c, a_st, b_st)
    self.adopt(st, m)
    st.pc = save
    st.dead = a_st.dead and b_st.dead
    return t.val(t.mk_ite(c, a, b))

  def adopt(self, st, m):
    st.frames = m.frames; st.store = m.store; st.assumed = m.assumed

  def e_Lambda(self, n, st, fr, mod):
    fid = self.newid()
    f = Func(n, mod, fr, '<lambda>')
    f.defaults = [self.eval(d, st, fr, mod) for d in n.args.defaults]
    f.kwdefaults = [d and self.eval(d, st, fr, mod) for d in n.args.kw_defaults]
    f.cls = self.stack[-1][3] if self.stack and len(self.stack[-1]) > 3 else None
    self.funcs[fid] = f
    return raw('func', fid)

  def e_Starred(self, n, st, fr, mod): return raw('star', self.eval(n.value, st, fr, mod))
  def e_Await(self, n, st, fr, mod): return self.eval(n.value, st, fr, mod)

  def e_Slice(self, n, st, fr, mod):
    g = lambda x: NONE if x is None else self.eval(x, st, fr, mod)
    return raw('slice', g(n.lower), g(n.upper), g(n.step))

  def e_Subscript(self, n, st, fr, mod):
    b = self.eval(n.value, st, fr, mod)
    i = self.eval(n.slice, st, fr, mod)
    return self.getitem(b, i, st)

  def getitem(self, b, i, st):
    if b.op == 'ite':
      return t.mk_ite(raw('ite', b.args[0], TRUE, FALSE), self.getitem(b.args[1], i, st), self.getitem(b.args[2], i, st))
    if i.op == 'ite' and b.op in ('ref', 'dict'):
      return t.mk_ite(raw('ite', i.args[0], TRUE, FALSE), self.getitem(b, i.args[1], st), self.getitem(b, i.args[2], st))
    i = self.resolve(i, st)
    ov = st.store.get(('item', b, i))
    if ov is not None: return ov
    base = self.deref_seq(b, st)
    if base.op == 'obj':
      q = base.args[0]
      f = self.find_in_class(q, '__getitem__')
      if f: return self.call(self.method_term(f, b)[0], [i], [], st, None)
      base = b
    if base.op == 'self':
      f = self.find_in_class(base.args[0], '__getitem__')
      if f: return self.call(self.method_term(f, b)[0], [i], [], st, None)
    if i.op == 'sym' and i in self.index_syms and t.kind(base) != 'map':
      return self.nth(base, i)
    if base.op in ('mod', 'glob') or base.op == 'cls': return raw('item', base, i)
    r = t.item(base, i)
    if r.op == 'list': return self.new_ref(r, st)
    return r

  # ------------------------------------------------------------ iteration domains
  def nth(self, x, i): return t.nth(x, i)

  def as_mapping(self, src, target, body, it):
    """`for k in d` where d is an unknown mapping (annotated as one, or indexed by k in the body) runs over its keys."""
    if it.op not in ('sym', 'attr', 'item') or not isinstance(src, (ast.Name, ast.Attribute)): return it
    yes = False
    if isinstance(target, ast.Name):
      d = ast.dump(src)
      for b in body:
        for x in ast.walk(b):
          if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Name) and x.slice.id == target.id and ast.dump(x.value).replace('Store()', 'Load()') == d: yes = True
    if not yes and isinstance(src, ast.Name) and self.stack and len(self.stack[-1]) > 4 and isinstance(self.stack[-1][4], ast.FunctionDef):
      a = self.stack[-1][4].args
      for p in a.posonlyargs + a.args + a.kwonlyargs:
        if p.arg == src.id and p.annotation is not None and re.match(r'(typing\.|collections\.abc\.)?(Dict|Mapping|MutableMapping|OrderedDict|dict)\b', ast.unparse(p.annotation)): yes = True
    return raw('call', t.attr(it, 'keys'), (), ()) if yes else it

  def domain(self, it, st):
    """-> (domain term, elem function idx->term, filter function idx->diagram)."""
    it = self.resolve(it, st)
    yes = lambda i: TRUE
    if it.op in ('listof', 'totuple'): return self.domain(it.args[0], st)
    if it.op == 'map':
      l, d, f = it.args
      return d, (lambda i: t.beta(l, [i])), (yes if f is TRUE else (lambda i: t.cond(t.beta(f, [i]))))
    if it.op == 'call' and it.args[0].op == 'glob':
      g, a, kw = it.args[0].args[0], it.args[1], it.args[2]
      if g in ('list', 'tuple', 'iter') and len(a) == 1: return self.domain(a[0], st)
      if g == 'range' and not kw:
        if len(a) == 1:
          return self.range_dom(a[0]), (lambda i: i), yes
        if len(a) == 2 or (len(a) == 3 and t.is_const(a[2], 1)):
          return self.range_dom(t.sub(a[1], a[0])), (lambda i: t.add(a[0], i)), yes
      if g == 'enumerate':
        start = a[1] if len(a) > 1 else dict(kw).get('start', const(0))
        d, e, f = self.domain(a[0], st)
        return d, (lambda i: t.mk_tuple([t.add(i, start), e(i)])), f
      if g in ('zip', 'vmoe.utils.safe_zip') and a and not any(x.op == 'star' for x in a):
        ds = [self.domain(x, st) for x in a]
        doms = sorted({d for d, _, _ in ds})
        dom = doms[0] if len(doms) == 1 else raw('zipdom', *doms)
        return dom, (lambda i: t.mk_tuple([e(i) for _, e, _ in ds])), yes
      if g == 'map' and len(a) >= 2 and a[0].op == 'lam':
        ds = [self.domain(x, st) for x in a[1:]]
        doms = sorted({d for d, _, _ in ds})
        dom = doms[0] if len(doms) == 1 else raw('zipdom', *doms)
        if a[0].args[1] == len(ds):
          return dom, (lambda i: t.beta(a[0], [e(i) for _, e, _ in ds])), (ds[0][2] if len(ds) == 1 else yes)
    if it.op == 'call' and it.args[0].op == 'attr' and not it.args[1] and not it.args[2]:
      b, m = it.args[0].args
      if m == 'items': return raw('keys', b), (lambda i: t.mk_tuple([raw('nth', raw('keys', b), i), self.item_of_key(b, i)])), yes
      if m == 'keys': return raw('keys', b), (lambda i: raw('nth', raw('keys', b), i)), yes
      if m == 'values': return raw('keys', b), (lambda i: self.item_of_key(b, i)), yes
    if it.op in ('dict', 'setitem', 'dictupd', 'dictof', 'dictmerge', 'groupby', 'groupadd') or (it.op == 'call' and t.kind(it) == 'map'):
      return raw('keys', it), (lambda i: raw('nth', raw('keys', it), i)), yes
    return it, (lambda i: self.nth(it, i)), yes

  def item_of_key(self, b, i):
    return t.item(b, raw('nth', raw('keys', b), i))

  def range_dom(self, n):
    if n.op == 'call' and t.is_glob(n.args[0], 'len') and len(n.args[1]) == 1:
      x = n.args[1][0]
      if x.op == 'listof': x = x.args[0]
      return x
    return raw('range', n)

  def literal_elems(self, it, st):
    v = self.deref_seq(it, st)
    if v.op in ('tuple', 'list', 'set') and not any(x.op == 'star' for x in v.args) and len(v.args) <= 12: return list(v.args)
    if v.op == 'dict' and len(v.args) <= 12 and not any(k.op == 'kwstar' for k, _ in v.args): return [k for k, _ in v.args]
    if v.op == 'call' and v.args[0].op == 'glob':
      g, a, kw = v.args[0].args[0], v.args[1], v.args[2]
      if g in ('list', 'tuple') and len(a) == 1 and not kw: return self.literal_elems(a[0], st)
      if g == 'range' and a and all(t.is_const(x) for x in a):
        r = range(*[x.args[1] for x in a])
        if len(r) <= 8: return [const(x) for x in r]
      if g == 'enumerate' and len(a) == 1 and not kw:
        e = self.literal_elems(a[0], st)
        if e is not None: return [t.mk_tuple([const(i), x]) for i, x in enumerate(e)]
      if g in ('zip', 'vmoe.utils.safe_zip') and a:
        es = [self.literal_elems(x, st) for x in a]
        if all(e is not None for e in es): return [t.mk_tuple(x) for x in zip(*es)]
        k = [len(e) for e in es if e is not None]
        if k and all(e is not None or self.deref_seq(x, st).op in ('sym', 'attr', 'item', 'call') for e, x in zip(es, a)) and g != 'zip':
          n = k[0]
          return [t.mk_tuple([e[i] if e is not None else t.item(self.deref_seq(x, st), const(i)) for e, x in zip(es, a)]) for i in range(n)]
      if g == 'reversed' and len(a) == 1:
        e = self.literal_elems(a[0], st)
        if e is not None: return e[::-1]
      if g == 'itertools.product' and a and not kw:
        es = [self.literal_elems(x, st) for x in a]
        if all(e is not None for e in es):
          out = [()]
          for e in es: out = [(*o, x) for o in out for x in e]
          if len(out) <= 12: return [t.mk_tuple(o) for o in out]
    if v.op == 'call' and v.args[0].op == 'attr' and not v.args[1] and not v.args[2]:
      b = self.deref_seq(v.args[0].args[0], st)
      if b.op == 'dict' and len(b.args) <= 12 and not any(k.op == 'kwstar' for k, _ in b.args):
        m = v.args[0].args[1]
        if m == 'items': return [t.mk_tuple([k, x]) for k, x in b.args]
        if m == 'keys': return [k for k, _ in b.args]
        if m == 'values': return [x for _, x in b.args]
    if v.op == 'map' and v.args[2] is TRUE and v.args[1].op in ('tuple', 'list'):
      e = self.literal_elems(v.args[1], st)
      if e is not None: return [t.beta(v.args[0], [x]) for x in e]
    return None

  # ------------------------------------------------------------ comprehensions
  def comp(self, gens, st, fr, mod, leaf):
    """Evaluate nested generators; leaf(st, fr) -> term."""
    f2 = self.newid()
    st.frames[f2] = {'<parent>': fr}
    r = self._comp(list(gens), st, f2, mod, leaf)
    return r

  def _comp(self, gens, st, fr, mod, leaf):
    if not gens: return None
    g = gens[0]
    it = self.as_mapping(g.iter, g.target, getattr(g, 'inside', ()), self.eval(g.iter, st, fr, mod))
    lits = self.literal_elems(it, st)
    if lits is not None:
      outs = []
      for e in lits:
        self.assign(g.target, e, st, fr, mod)
        c = TRUE
        for cnd in g.ifs: c = t.b_and(c, self.cond_of(self.eval(cnd, st, fr, mod), st))
        if c is FALSE: continue
        save = st.pc
        st.pc = t.b_and(save, c)
        v = leaf(st, fr) if len(gens) == 1 else self._comp(gens[1:], st, fr, mod, leaf)
        st.pc = save
        if c is not TRUE: outs.append(raw('opt', t.val(c), v if len(gens) > 1 else raw('list', v)))
        else: outs.append(v if len(gens) > 1 else raw('list', v))
      if all(o.op == 'list' for o in outs): return raw('list', *[x for o in outs for x in o.args])
      return t.cat([raw('list')] + outs) if outs else raw('list')
    dom, elem, filt = self.domain(it, st)
    i = fresh('i')
    self.index_syms[i] = dom
    lp = Loop(dom, i, 'comp')
    self.loops.append(lp)
    save = st.pc
    e = elem(i)
    self.assign(g.target, e, st, fr, mod)
    c = filt(i)
    st.pc = t.b_and(save, c)
    for cnd in g.ifs:
      c = t.b_and(c, self.cond_of(self.eval(cnd, st, fr, mod), st))
      st.pc = t.b_and(save, c)
    v = leaf(st, fr) if len(gens) == 1 else self._comp(gens[1:], st, fr, mod, leaf)
    st.pc = save
    self.loops.pop()
    v = self.resolve(v, st)
    m = t.mk_map([i], v, dom, TRUE if c is TRUE else t.val(c))
    if len(gens) > 1: m = raw('flat', m)
    return m

  def e_ListComp(self, n, st, fr, mod):
    return self.new_ref(self.comp(n.generators, st, fr, mod, lambda s, f: self.eval(n.elt, s, f, mod)), st)
  def e_GeneratorExp(self, n, st, fr, mod):
    return self.comp(n.generators, st, fr, mod, lambda s, f: self.eval(n.elt, s, f, mod))
  def e_SetComp(self, n, st, fr, mod):
    return self.new_ref(raw('setof', self.comp(n.generators, st, fr, mod, lambda s, f: self.eval(n.elt, s, f, mod))), st)
  def e_DictComp(self, n, st, fr, mod):
    m = self.comp(n.generators, st, fr, mod,
                  lambda s, f: t.mk_tuple([self.eval(n.key, s, f, mod), self.eval(n.value, s, f, mod)]))
    return self.new_ref(self.dict_from_pairs(m), st)

  def dict_from_pairs(self, m):
    if m.op == 'list' and all(x.op == 'tuple' and len(x.args) == 2 for x in m.args):
      d = raw('dict')
      for x in m.args: d = self.dict_set(d, x.args[0], x.args[1])
      return d
    # {k: v for k, v in d.items()} -> dictof(d)
    if m.op == 'map' and m.args[2] is TRUE and m.args[1].op == 'keys':
      i = fresh('i')
      b = t.beta(m.args[0], [i])
      src = m.args[1].args[0]
      if b.op == 'tuple' and b.args[0] is raw('nth', m.args[1], i) and b.args[1] is t.item(src, b.args[0]):
        return src if src.op in ('dict', 'setitem', 'dictupd', 'dictof') else raw('dictof', src)
    return raw('dictupd', raw('dict'), m)

  def e_Yield(self, n, st, fr, mod):
    v = NONE if n.value is None else self.resolve(self.eval(n.value, st, fr, mod), st)
    self.emit('yield', None, [v], [], st, n)
    self.yield_append(raw('list', v), st, fr)
    return NONE

  def e_YieldFrom(self, n, st, fr, mod):
    v = self.resolve(self.eval(n.value, st, fr, mod), st)
    self.emit('yieldfrom', None, [v], [], st, n)
    self.yield_append(v, st, fr)
    return NONE

  def yield_append(self, v, st, fr):
    f = fr
    while f is not None and '<yield>' not in st.frames[f]: f = st.frames[f].get('<parent>')
    if f is None: return
    r = st.frames[f]['<yield>']
    st.store[r] = t.cat([st.store[r], v])

  # ------------------------------------------------------------ calls
  def e_Call(self, n, st, fr, mod):
    # super()
    if isinstance(n.func, ast.Name) and n.func.id == 'super':
      return self.mk_super(n, st, fr, mod)
    if isinstance(n.func, ast.Attribute) and n.func.attr == 'append' and len(n.args) == 1 and not n.keywords and getattr(n, 'is_stmt', False):
      r = self.group_append(n, st, fr, mod)
      if r is not None: return r
    fn = self.eval(n.func, st, fr, mod)
    args = self.elts(n.args, st, fr, mod)
    kwargs = []
    for k in n.keywords:
      v = self.eval(k.value, st, fr, mod)
      if k.arg is not None: kwargs.append((k.arg, v))
      else:
        d = self.deref_seq(v, st)
        if d.op == 'dict' and all(t.is_const(a) or a.op == 'kwstar' for a, _ in d.args):
          for a, b in d.args:
            kwargs.append((a.args[1], b) if t.is_const(a) else (a, b))
        elif d.op == 'setitem':
          kwargs.extend(self.kw_expand(d))
        else: kwargs.append((raw('kwstar'), self.resolve(d, st)))
    return self.call(fn, args, kwargs, st, n)

  def group_append(self, n, st, fr, mod):
    """d[k].append(x) / d.setdefault(k, []).append(x) on a local dict of lists."""
    v = n.func.value
    if isinstance(v, ast.Subscript): be, ke = v.value, v.slice
    elif isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'setdefault' and len(v.args) == 2 and isinstance(v.args[1], ast.List) and not v.args[1].elts:
      be, ke = v.func.value, v.args[0]
    else: return None
    if not isinstance(be, (ast.Name, ast.Attribute)): return None
    b = self.eval(be, st, fr, mod)
    if b.op != 'ref': return None
    o = st.store.get(b)
    if o is None or not (o.op in ('sym', 'groupadd', 'groupby') or (o.op == 'dict' and not o.args)): return None
    k = self.resolve(self.eval(ke, st, fr, mod), st)
    x = self.resolve(self.eval(n.args[0], st, fr, mod), st)
    fn = t.attr(t.item(self.resolve(o, st), k), 'append')
    self.emit('call', fn, [x], [], st, n, NONE)
    st.store[b] = raw('groupadd', o, k, x)
    return NONE

  def kw_expand(self, d):
    out = []
    while d.op == 'setitem' and t.is_const(d.args[1]):
      out.append((d.args[1].args[1], d.args[2]))
      d = d.args[0]
    if d.op == 'dict' and all(t.is_const(a) for a, _ in d.args):
      names = {k for k, _ in out}
      return [(a.args[1], b) for a, b in d.args if a.args[1] not in names] + out[::-1]
    return [(raw('kwstar'), d)] + out[::-1]

  def mk_super(self, n, st, fr, mod):
    # find enclosing method: its class and self
    cls = None; selfv = None
    f = fr
    while f is not None:
      d = st.frames[f]
      if '<cls>' in d: cls, selfv = d['<cls>'], d['<self>']; break
      f = d.get('<parent>')
    if n.args:
      c = self.eval(n.args[0], st, fr, mod)
      if c.op == 'cls': cls = c.args[0]
      selfv = self.eval(n.args[1], st, fr, mod)
    if cls is None: return top('super')
    return raw('super', cls, selfv)

  def call(self, fn, args, kwargs, st, node):
    """Abstract call; may be given ite callees."""
    if self.callhook is not None:
      r = self.callhook(self, fn, args, kwargs, st, node)
      if r is not None: return r
    op = fn.op
    if op == 'ite':
      c = raw('ite', fn.args[0], TRUE, FALSE)
      a_st = st.copy(); a_st.pc = t.b_and(st.pc, c)
      a = self.call(fn.args[1], args, kwargs, a_st, node)
      b_st = st.copy(); b_st.pc = t.b_and(st.pc, t.b_not(c))
      b = self.call(fn.args[2], args, kwargs, b_st, node)
      m = self.merge(c, a_st, b_st)
      self.adopt(st, m)
      return t.val(t.mk_ite(c, a, b))
    if op in ('item', 'getdef') and fn.args[0].op == 'dict' and 1 <= len(fn.args[0].args) <= 6 and all(k.op == 'enum' for k, _ in fn.args[0].args):
      # a table of functions selected by an unknown key
      ent, f = fn.args[0].args, (fn.args[2] if op == 'getdef' else None)
      hit = t.cond(t.in_(fn.args[1], raw('tuple', *[k for k, _ in ent])))
      if f is None:
        miss = t.b_and(st.pc, t.b_not(hit))
        if miss is not FALSE:
          ms = st.copy(); ms.pc = miss
          self.emit('raise', glob('KeyError'), [], [], ms, node)
          st.pc = t.b_and(st.pc, hit)
        ent, f = ent[:-1], ent[-1][1]
      for k, v in reversed(ent): f = t.mk_ite(t.cond(t.eq(fn.args[1], k)), v, f)
      return self.call(f, args, kwargs, st, node)
    if op == 'attr' and fn.args[0].op == 'super':
      s = fn.args[0]
      q = self.class_of(s.args[1], st) or (s.args[1].args[0] if s.args[1].op == 'cls' else s.args[0])
      f = self.find_in_class(q, fn.args[1], after=s.args[0]) if s.args[0] in self.mro(q) else None
      if f is not None and f[0] == 'method':
        return self.call(self.method_term(f, s.args[1])[0], args, kwargs, st, node)
      if fn.args[1] in ('__init__', '__post_init__', 'setup', '__init_subclass__'):
        self.emit('superinit', t.attr(raw('superext', s.args[1]), fn.args[1]), [self.resolve(a, st) for a in args], [(k, self.resolve(v, st)) for k, v in kwargs], st, node)
        return NONE
      return self.opaque_call(t.attr(raw('superext', s.args[1]), fn.args[1]), args, kwargs, st, node)
    if op == 'func':
      q = self.funcs[fn.args[0]].qual
      if q in ('vmoe.utils.safe_map', 'vmoe.utils:safe_map') and args and not kwargs:
        r = self.b_map(args, [], st, node)
        if r is not None: return r
      if q in ('vmoe.utils.safe_zip', 'vmoe.utils:safe_zip') and args and not kwargs:
        return raw('call', glob('vmoe.utils.safe_zip'), tuple(self.resolve(a, st) for a in args), ())
      return self.call_func(fn, args, kwargs, st, node)
    if op == 'cls' and fn.args[0] == 'vmoe.utils.SafeZipIterator' and args and not kwargs:
      return raw('call', glob('vmoe.utils.safe_zip'), tuple(self.resolve(a, st) for a in args), ())
    if op == 'decorated': return self.call_decorated(fn, args, kwargs, st, node)
    if op == 'lifted':
      g = self.call(glob(fn.args[0]), [fn.args[1]], list(fn.args[2]), st, node)
      return self.call(g, args, kwargs, st, node)
    if op == 'bound':
      return self.call(fn.args[1], [fn.args[0]] + list(args), kwargs, st, node)
    if op == 'partial':
      kw = dict(fn.args[2])
      names = [k for k, _ in kwargs]
      merged = [(k, v) for k, v in fn.args[2] if k not in names] + list(kwargs)
      return self.call(fn.args[0], list(fn.args[1]) + list(args), merged, st, node)
    if op == 'cls': return self.instantiate(fn, args, kwargs, st, node)
    if op == 'lam' and not kwargs and fn.args[1] == len(args): return t.beta(fn, args)
    if op == 'wrapped': return self.call(fn.args[1], args, kwargs, st, node)
    if op == 'gradfn': return self.call_grad(fn, args, kwargs, st, node)
    if op == 'glob':
      m = getattr(self, 'b_' + fn.args[0].replace('.', '__'), None)
      if m is not None:
        r = m(args, kwargs, st, node)
        if r is not None: return r
    if op == 'attr':
      r = self.method_call(fn.args[0], fn.args[1], args, kwargs, st, node)
      if r is not None: return r
    if op in ('ref', 'self'):
      q = self.class_of(fn, st)
      if q:
        f = self.find_in_class(q, '__call__')
        if f: return self.call(self.method_term(f, fn)[0], args, kwargs, st, node)
    return self.opaque_call(fn, args, kwargs, st, node)

  def call_decorated(self, fn, args, kwargs, st, node):
    return self.opaque_call(fn, args, kwargs, st, node)

  def opaque_call(self, fn, args, kwargs, st, node):
    fn2 = self.to_term(fn, st, node)
    a2 = [self.to_term(x, st, node) for x in args]
    kw2 = [(k, self.to_term(v, st, node)) for k, v in kwargs]
    fn2, a2, kw2 = self.canon_call(fn2, a2, kw2)
    v = raw('call', fn2, tuple(a2), tuple(kw2))
    self.emit('call', fn2, a2, kw2, st, node, v)
    if fn2.op == 'glob' and fn2.args[0] in ('flax.traverse_util.flatten_dict', 'flax.traverse_util.unflatten_dict'): return self.new_ref(v, st)   # a new, mutable dict
    return v

  def canon_call(self, fn, args, kwargs):
    if fn.op == 'glob':
      sig = SIG.get(fn.args[0])
      if sig:
        args = list(args); kw = dict((k, v) for k, v in kwargs if isinstance(k, str))
        rest = [(k, v) for k, v in kwargs if not isinstance(k, str)]
        while len(args) < len(sig) and sig[len(args)] in kw and not any(a.op == 'star' for a in args):
          args.append(kw.pop(sig[len(args)]))
        kwargs = list(kw.items()) + rest
    kwargs = sorted(kwargs, key=lambda kv: (0, kv[0], 0) if isinstance(kv[0], str) else (1, '', kv[0].uid))
    return fn, args, kwargs

  def to_term(self, v, st, node=None):
    """Immutable snapshot; function values become lambdas (their bodies are analysed)."""
    v = self.resolve(v, st)
    if not any(x.op in ('func', 'partial', 'bound', 'wrapped') for x in t.subterms(v)): return v
    def f(x):
      if x.op in ('func', 'partial', 'bound', 'wrapped'): return self.lambda_of(x, st, node)
      return None
    return t.transform(v, f)

  def sig_of(self, v):
    """Remaining positional parameters of a function value: (names, has_varargs) or None."""
    if v.op == 'func':
      a = self.funcs[v.args[0]].node.args
      names = [x.arg for x in a.posonlyargs + a.args]
      return names, a.vararg is not None, [x.arg for x in a.kwonlyargs], len(a.defaults)
    if v.op == 'decorated': return None
    if v.op == 'bound':
      s = self.sig_of(v.args[1])
      return s and (s[0][1:], s[1], s[2], s[3])
    if v.op == 'wrapped': return self.sig_of(v.args[1])
    if v.op == 'partial':
      s = self.sig_of(v.args[0])
      if s is None: return None
      kws = {k for k, _ in v.args[2] if isinstance(k, str)}
      rest = s[0][len(v.args[1]):]
      cut = [i for i, n in enumerate(rest) if n in kws]
      return ([n for n in rest if n not in kws], s[1], [k for k in s[2] if k not in kws], s[3])
    return None

  def lambda_of(self, v, st, node=None):
    key = v
    if any(k == v for k in self.lams): return raw('recfn', self.func_label(v))
    if v.op == 'bound' and v.args[0].op not in ('ref', 'self', 'cls') : pass
    s = self.sig_of(v)
    if v.op == 'wrapped' and (s is None or self.func_label(v) in self.opaque):
      inner = v.args[1]
      return raw('call', glob(v.args[0]), (self.to_term(inner, st, node),), tuple(sorted(v.args[2], key=lambda kv: kv[0])))
    if s is None and v.op == 'partial' and v.args[0].op == 'glob':
      return raw('papp', v.args[0], tuple(self.to_term(x, st, node) for x in v.args[1]), tuple((k, self.to_term(x, st, node)) for k, x in v.args[2]))
    if s is None or len(self.lams) > 8: return raw('fnval', self.func_label(v))
    names, var, kwonly, ndef = s
    if self.func_label(v) in self.opaque:
      o = raw('opaque', self.func_label(v))
      if v.op == 'partial':
        o = raw('papp', o, tuple(self.to_term(x, st, node) for x in v.args[1]), tuple((k, self.to_term(x, st, node)) for k, x in v.args[2]))
      return o
    syms = [fresh('l_' + n) for n in names]
    st2 = st.copy()
    self.lams.append(v)
    save_outer = self.outer[-1]
    args = list(syms)
    if var: args.append(raw('star', fresh('l_args')))
    try:
      if v.op == 'partial' and any(isinstance(k, str) and k in (self.sig_of(v.args[0]) or ([],))[0] for k, _ in v.args[2]):
        body = self.call(v, [], list(zip(names, syms)) if not v.args[1] else list(zip(names, syms)), st2, node)
      else:
        body = self.call(v, args, [], st2, node)
    finally:
      self.lams.pop()
    body = self.to_term(body, st2, node)
    return t.lam(syms, body)

  def func_label(self, v):
    if v.op == 'func': return self.funcs[v.args[0]].qual
    if v.op in ('bound',): return self.func_label(v.args[1])
    if v.op in ('partial', 'decorated'): return self.func_label(v.args[0])
    if v.op == 'wrapped': return self.func_label(v.args[1])
    return v.op

  def bind_args(self, f, args, kwargs, st, fr):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    env = {}
    args = list(args)
    kw = [(k, v) for k, v in kwargs]
    i = 0
    rest = []
    pos = 0
    for j, v in enumerate(args):
      if v.op == 'star':
        s = v.args[0]
        remaining = [n for n in names[pos:] if n not in dict((k, 1) for k, _ in kw if isinstance(k, str))]
        if pos < len(names) and not a.vararg:
          for m, nme in enumerate(remaining): env[nme] = t.item(s, const(m))
          pos = len(names)
        elif pos < len(names):
          for m, nme in enumerate(remaining): env[nme] = t.item(s, const(m))
          rest.append(raw('star', t.item(s, raw('slice', const(len(remaining)), NONE, NONE)) if remaining else s)); pos = len(names)
        else:
          rest.append(v)
        continue
      if pos < len(names):
        env[names[pos]] = v; pos += 1
      else:
        rest.append(v)
    extra = []
    kwonly = [x.arg for x in a.kwonlyargs]
    star_kw = []
    for k, v in kw:
      if isinstance(k, str):
        if k in names or k in kwonly: env[k] = v
        else: extra.append((const(k), v))
      else: star_kw.append((k, v))
    if a.vararg:
      env[a.vararg.arg] = rest[0].args[0] if len(rest) == 1 and rest[0].op == 'star' else t.mk_tuple(rest)
    if f.defaults is None:
      f.defaults = [self.eval_in_module(d, f.module) for d in a.defaults]
      f.kwdefaults = [d and self.eval_in_module(d, f.module) for d in a.kw_defaults]
    nd = len(f.defaults)
    for k, n in enumerate(names):
      if n not in env:
        j = k - (len(names) - nd)
        dflt = f.defaults[j] if 0 <= j < nd else None
        if star_kw:
          env[n] = t.item(star_kw[0][1], const(n)) if dflt is None else raw('getdef', star_kw[0][1], const(n), dflt)
        elif dflt is not None: env[n] = dflt
        else: env[n] = top('missing:' + n)
    for k, n in enumerate(kwonly):
      if n not in env:
        d = f.kwdefaults[k]
        if star_kw:
          env[n] = t.item(star_kw[0][1], const(n)) if d is None else raw('getdef', star_kw[0][1], const(n), d)
        else: env[n] = d if d is not None else top('missing:' + n)
    if a.kwarg:
      d = raw('dict', *extra)
      if star_kw:
        d = star_kw[0][1]
        for k, v in extra: d = raw('setitem', d, k, v)
      env[a.kwarg.arg] = self.new_ref(d, st)
    return env

  def is_generator(self, f):
    if f.is_gen is None:
      f.is_gen = False
      if not isinstance(f.node, ast.Lambda):
        stack = list(f.node.body)
        while stack:
          x = stack.pop()
          if isinstance(x, (ast.Yield, ast.YieldFrom)): f.is_gen = True; break
          if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)): continue
          stack.extend(ast.iter_child_nodes(x))
    return f.is_gen

  def within(self, f, st, active):
    """The closure was made during an active call of the same function (recursion), not beside it."""
    fr, live = f.frame, {s[2] for s in active}
    while fr is not None:
      if fr in live: return True
      fr = st.frames.get(fr, {}).get('<parent>')
    return False

  def by_position(self, f, args, kwargs):
    """Arguments of a call of a known function in their canonical form: by position as far as possible."""
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    t.OPAQUE_SIG[f.qual] = names
    if any(x.op == 'star' for x in args) or any(not isinstance(k, str) for k, _ in kwargs): return args, kwargs
    args, kw = list(args), dict(kwargs)
    while len(args) < len(names) and names[len(args)] in kw: args.append(kw.pop(names[len(args)]))
    return args, list(kw.items())

  def call_func(self, fn, args, kwargs, st, node):
    f = self.funcs[fn.args[0]]
    depth = len(self.stack)
    if f.qual in self.opaque:
      args, kwargs = self.by_position(f, args, kwargs)
      return self.opaque_call(raw('opaque', f.qual), args, kwargs, st, node)
    same = [s for s in self.stack if len(s) > 4 and s[4] is f.node]
    if depth > self.MAXDEPTH or len(same) > 1 or (same and (f.frame is None or any(s[5] == fn.args[0] for s in same) or self.within(f, st, same))):
      return self.opaque_call(raw('recfn', f.qual), args, kwargs, st, node)
    fr = self.newid()
    env = self.bind_args(f, args, kwargs, st, fr)
    env['<parent>'] = f.frame
    if f.cls is not None and args and (f.frame is None or f.frame == self.class_frames.get(f.cls)):
      env['<cls>'] = f.cls; env['<self>'] = args[0]
    st.frames[fr] = env
    if isinstance(f.node, ast.Lambda):
      self.stack.append((f.qual, f.module, fr, f.cls, f.node, fn.args[0]))
      self.outer.append(t.b_and(self.outer[-1], st.pc))
      save = st.pc; st.pc = TRUE
      try:
        r = self.eval(f.node.body, st, fr, f.module)
      finally:
        st.pc = save
        self.outer.pop(); self.stack.pop()
      return r
    gen = self.is_generator(f)
    if gen:
      yr = self.new_ref(raw('list'), st)
      d = dict(st.frames[fr]); d['<yield>'] = yr; st.frames[fr] = d
    self.stack.append((f.qual, f.module, fr, f.cls, f.node, fn.args[0]))
    self.outer.append(t.b_and(self.outer[-1], st.pc))
    inner = st.copy(); inner.pc = TRUE
    try:
      exits = self.exec_block(f.node.body, inner, fr, f.module)
    finally:
      self.outer.pop(); self.stack.pop()
    rets = []
    for e in exits:
      if e.kind == 'return': rets.append((e.st.pc, e.value, e.st))
      elif e.kind == 'fall': rets.append((e.st.pc, NONE, e.st))
    # generator results are the yield list
    if not rets:
      st.dead = True
      return top('noreturn')
    pc, v, s = rets[-1]
    for pc1, v1, s1 in reversed(rets[:-1]):
      v = t.mk_ite(pc1, v1, v)
      s = self.merge(pc1, s1, s)
    v = t.val(v)
    if gen: v = s.store[yr]
    ass = st.assumed
    for e in exits:
      if e.kind == 'raise':
        ass = t.b_and(ass, t.b_not(t.b_and(t.b_and(self.outer[-1], st.pc), e.st.pc)))
    save = st.pc
    self.adopt(st, s)
    st.assumed = t.b_and(t.b_and(ass, s.assumed), TRUE)
    st.pc = save
    return v

  def instantiate(self, cls, args, kwargs, st, node):
    q = cls.args[0]
    if self.is_enum(q): return raw('call', cls, tuple(args), ())
    if q in self.opaque: return self.opaque_call(raw('opaque', q), args, kwargs, st, node)
    if self.is_dataclass(q):
      fl = self.fields(q)
      vals = {}
      for (name, n, m), v in zip(fl, args): vals[name] = v
      for k, v in kwargs:
        if isinstance(k, str): vals[k] = v
        else: vals['**'] = v
      for name, n, m in fl:
        if name not in vals:
          if n.value is not None:
            dflt = self.field_default(n, m)
            if dflt.op == 'call' and t.is_glob(dflt.args[0], 'dataclasses.field', 'flax.struct.field'):
              df = [b for k, b in dflt.args[2] if k in ('default_factory', 'default')]
              if df and df[0].op == 'lam' and df[0].args[1] == 0: dflt = self.thaw(df[0].args[2], st)
              elif df: dflt = df[0]
            if '**' in vals: vals[name] = raw('getdef', vals['**'], const(name), dflt)
            else: vals[name] = dflt
      self.emit('new', cls, [], [(k, self.resolve(v, st)) for k, v in vals.items()], st, node)
      r = self.new_ref(raw('obj', q, tuple(vals.items())), st)
      f = self.find_in_class(q, '__post_init__')
      if f: self.call(self.method_term(f, r)[0], [], [], st, node)
      return r
    f = self.find_in_class(q, '__init__')
    r = self.new_ref(raw('obj', q, ()), st)
    self.emit('new', cls, [self.resolve(a, st) for a in args], [(k, self.resolve(v, st)) for k, v in kwargs], st, node)
    if f: self.call(self.method_term(f, r)[0], args, kwargs, st, node)
    else:
      st.store[r] = raw('obj', q, (('<args>', t.mk_tuple([self.resolve(a, st) for a in args])),) + tuple(
          (k if isinstance(k, str) else '**', v) for k, v in kwargs))
    return r

  def field_default(self, n, m):
    v = n.value
    if isinstance(v, ast.Call):
      d = self.deco_name(v, m)
      if d in ('dataclasses.field', 'flax.struct.field'):
        for k in v.keywords:
          if k.arg == 'default': return self.eval_in_module(k.value, m)
          if k.arg == 'default_factory':
            return raw('call', self.eval_in_module(k.value, m), (), ())
        return top('nodefault')
    return self.eval_in_module(v, m)

  # ------------------------------------------------------------ builtin models
  def b_len(self, args, kw, st, node):
    v = self.deref_seq(args[0], st)
    if v.op in ('tuple', 'list', 'dict') and not any(isinstance(x, T) and x.op in ('star',) for x in v.args): return const(len(v.args))
    if t.is_const(v) and isinstance(v.args[1], (str, bytes)): return const(len(v.args[1]))
    v = self.resolve(v, st)
    while v.op == 'listof' or (v.op == 'map' and v.args[2] is TRUE and v.args[1].op not in ('zipdom', 'keys', 'range')):
      v = v.args[0] if v.op == 'listof' else v.args[1]
    return raw('call', glob('len'), (v,), ())

  def b_isinstance(self, args, kw, st, node):
    x = self.resolve(args[0], st)
    c = args[1]
    if c.op == 'ref': c = st.store[c]
    cs = c.args if c.op in ('tuple', 'list') else (c,)
    r = FALSE
    q = self.class_of(args[0], st)
    for k in cs:
      d = self.static_isinstance(args[0], x, k, q, st)
      if d is not None: r = t.b_or(r, const(d))
      else: r = t.b_or(r, raw('ite', raw('isinstance', x, k), TRUE, FALSE))
    return t.val(r)

  def static_isinstance(self, v, x, k, q, st):
    if q is not None and k.op == 'cls': return k.args[0] in self.mro(q)
    if q is not None and v.op == 'ref' and t.is_glob(k, 'str', 'int', 'float', 'list', 'tuple', 'dict'): return False
    if x.op == 'const':
      m = {'str': str, 'int': int, 'float': float, 'bool': bool, 'bytes': bytes}
      if t.is_glob(k, *m): return isinstance(x.args[1], m[k.args[0]])
      if t.is_glob(k): return False if x.args[1] is None else None
    if x.op == 'tuple' and t.is_glob(k, 'tuple', 'list', 'str', 'dict', 'int', 'float'): return k.args[0] == 'tuple'
    if x.op == 'list' and t.is_glob(k, 'tuple', 'list', 'str', 'dict', 'int', 'float'): return k.args[0] == 'list'
    if x.op == 'dict' and t.is_glob(k, 'tuple', 'list', 'str', 'dict', 'int', 'float'): return k.args[0] == 'dict'
    return None

  def b_callable(self, args, kw, st, node):
    if args[0].op in ('func', 'partial', 'bound', 'cls', 'lam', 'decorated', 'wrapped'): return TRUE
    if args[0].op == 'const': return FALSE
    return None

  def b_hasattr(self, args, kw, st, node):
    return raw('hasattr', self.resolve(args[0], st), args[1])

  def b_getattr(self, args, kw, st, node):
    if t.is_const(args[1]) and isinstance(args[1].args[1], str):
      q = self.class_of(args[0], st)
      v = self.getattr_(args[0], args[1].args[1], st, node)
      if len(args) == 2: return v
      if q or args[0].op in ('mod',): return v
      return raw('getattrdef', self.resolve(args[0], st), args[1], args[2])
    if args[0].op == 'mod' or True:
      return None

  def b_setattr(self, args, kw, st, node):
    if t.is_const(args[1]):
      self.setattr_(args[0], args[1].args[1], args[2], st, node)
      return NONE
    return None

  def b_bool(self, args, kw, st, node):
    return t.val(self.cond_of(args[0], st)) if args else FALSE

  def b_list(self, args, kw, st, node):
    if not args: return self.new_ref(raw('list'), st)
    e = self.literal_elems(args[0], st)
    if e is not None: return self.new_ref(raw('list', *e), st)
    v = self.resolve(args[0], st)
    return self.new_ref(self.seq_of(v, st), st)

  def seq_of(self, v, st):
    """Canonical sequence of the elements an iterable yields."""
    if v.op in ('map', 'list', 'cat', 'flat', 'listof'): return v
    dom, elem, filt = self.domain(v, st)
    i = fresh('i')
    c = filt(i)
    if dom is v: return raw('listof', v)
    return t.mk_map([i], elem(i), dom, TRUE if c is TRUE else t.val(c))

  def b_tuple(self, args, kw, st, node):
    if not args: return t.mk_tuple([])
    e = self.literal_elems(args[0], st)
    if e is not None: return t.mk_tuple(e)
    v = self.resolve(args[0], st)
    if t.kind(v) == 'unknown' and v.op != 'call': return raw('totuple', v)
    return raw('totuple', self.seq_of(v, st))

  def b_set(self, args, kw, st, node):
    if not args: return self.new_ref(raw('set'), st)
    v = self.resolve(args[0], st)
    e = self.literal_elems(args[0], st)
    if e is not None: return self.new_ref(raw('set', *e), st)
    return self.new_ref(raw('setof', self.seq_of(v, st)), st)

  def b_frozenset(self, args, kw, st, node): return self.b_set(args, kw, st, node)

  def b_dict(self, args, kw, st, node):
    d = raw('dict')
    if args:
      o = self.deref_seq(args[0], st)
      if o.op in ('map', 'list'): d = self.dict_from_pairs(self.resolve(o, st))
      elif o.op == 'call' and o.args[0].op == 'glob' and o.args[0].args[0] in ('zip', 'map', 'enumerate'):
        e = self.literal_elems(o, st)
        d = self.dict_from_pairs(raw('list', *e) if e is not None else self.seq_of(self.resolve(o, st), st))
      else: d = self.dict_update(d, o)
    for k, v in kw:
      if isinstance(k, str): d = self.dict_set(d, const(k), v)
      else: d = self.dict_update(d, v)
    return self.new_ref(d, st)

  def b_dict__fromkeys(self, args, kw, st, node):
    if kw or len(args) not in (1, 2): return None
    v = args[1] if len(args) == 2 else NONE
    e = self.literal_elems(args[0], st)
    if e is not None: return self.new_ref(self.dict_from_pairs(raw('list', *[raw('tuple', k, v) for k in e])), st)
    dom, elem, filt = self.domain(args[0], st)
    i = fresh('i')
    return self.new_ref(self.dict_from_pairs(t.mk_map([i], t.mk_tuple([elem(i), v]), dom, TRUE if filt(i) is TRUE else t.val(filt(i)))), st)

  def b_itertools__product(self, args, kw, st, node):
    if kw: return None
    es = []
    for a in args:
      if a.op == 'star': return None
      e = self.literal_elems(a, st)
      if e is None: return None
      es.append(e)
    n = 1
    for e in es: n *= len(e)
    if n > 64: return None
    out = [()]
    for e in es: out = [p + (x,) for p in out for x in e]
    return self.new_ref(raw('list', *(t.mk_tuple(p) for p in out)), st)

  def _minmax(self, args, kw, f):
    if kw or len(args) < 2 or not all(t.is_const(a) and isinstance(t.cval(a), (int, float)) and not isinstance(t.cval(a), bool) for a in args): return None
    return const(f(t.cval(a) for a in args))
  def b_min(self, args, kw, st, node): return self._minmax(args, kw, min)
  def b_max(self, args, kw, st, node): return self._minmax(args, kw, max)

  def b_numpy__ndindex(self, args, kw, st, node):
    if kw or any(a.op == 'star' for a in args): return None
    e = self.literal_elems(args[0], st) if len(args) == 1 and not t.is_const(args[0]) else args
    if e is None or not all(t.is_const(a) and isinstance(t.cval(a), int) for a in e): return None
    return self.b_itertools__product([t.mk_tuple([const(i) for i in range(t.cval(a))]) for a in e], (), st, node)

  def b_collections__OrderedDict(self, args, kw, st, node): return self.b_dict(args, kw, st, node)
  def b_collections__defaultdict(self, args, kw, st, node):
    return self.new_ref(raw('dict'), st)
  def b_flax__core__freeze(self, args, kw, st, node): return args[0]
  def b_flax__core__unfreeze(self, args, kw, st, node): return self.b_dict(args[:1], (), st, node)
  def b_flax__core__FrozenDict(self, args, kw, st, node): return self.b_dict(args, kw, st, node)
  def b_flax__core__frozen_dict__freeze(self, args, kw, st, node): return args[0]
  def b_typing__cast(self, args, kw, st, node): return args[1]
  def b_copy__copy(self, args, kw, st, node):
    if args[0].op == 'ref': return self.new_ref(st.store[args[0]], st)
    return args[0]
  def b_copy__deepcopy(self, args, kw, st, node): return self.b_copy__copy(args, kw, st, node)

  def b_functools__partial(self, args, kw, st, node):
    f = args[0]
    if f.op == 'partial':
      names = [k for k, _ in kw]
      return raw('partial', f.args[0], f.args[1] + tuple(args[1:]), tuple([(k, v) for k, v in f.args[2] if k not in names] + list(kw)))
    return raw('partial', f, tuple(args[1:]), tuple(kw))

  def b_functools__wraps(self, args, kw, st, node): return raw('partial', glob('IDENT'), (), ())
  def b_IDENT(self, args, kw, st, node): return args[0]

  def _jit(self, name, args, kw, st, node):
    if not args and any(k == 'fun' for k, _ in kw):
      args = [v for k, v in kw if k == 'fun']
      kw = [(k, v) for k, v in kw if k != 'fun']
    if not args:
      return raw('partial', glob(name), (), tuple(kw))
    self.emit('jit', glob(name), [self.to_term(args[0], st, node) if args[0].op not in ('func', 'partial', 'bound', 'wrapped') else raw('fnval', self.func_label(args[0]))],
              [(k, self.resolve(v, st)) for k, v in kw], st, node)
    return raw('wrapped', name, args[0], tuple((k, self.resolve(v, st)) for k, v in kw if isinstance(k, str)))
  def b_jax__jit(self, args, kw, st, node): return self._jit('jax.jit', args, kw, st, node)
  def b_flax__linen__remat(self, args, kw, st, node): return args[0] if args else None
  def b_jax__named_call(self, args, kw, st, node): return self._jit('jax.named_call', args, kw, st, node)
  def b_jax__checkpoint(self, args, kw, st, node): return self._jit('jax.checkpoint', args, kw, st, node)

  def b_jax__value_and_grad(self, args, kw, st, node):
    if args: return raw('gradfn', 'vg', args[0], tuple((k, v) for k, v in kw))
    return None
  def b_jax__grad(self, args, kw, st, node):
    if args: return raw('gradfn', 'g', args[0], tuple((k, v) for k, v in kw))
    return None

  def call_grad(self, fn, args, kwargs, st, node):
    which, f, kw = fn.args
    kwd = dict(kw)
    aux = t.is_const(kwd.get('has_aux', FALSE), True)
    argnums = kwd.get('argnums', const(0))
    val = self.call(f, args, kwargs, st, node)
    n = argnums.args[1] if t.is_const(argnums) and isinstance(argnums.args[1], int) else 0
    wrt = self.resolve(args[n], st) if n < len(args) else NONE
    loss = t.item(val, const(0)) if aux else val
    g = raw('grad', self.resolve(loss, st), wrt)
    self.emit('grad', glob('jax.grad'), [self.resolve(val, st), wrt], [], st, node, g)
    if which == 'vg': return t.mk_tuple([val, g])
    return t.mk_tuple([g, t.item(val, const(1))]) if aux else g

  def b_map(self, args, kw, st, node):
    if len(args) < 2: return None
    es = [self.literal_elems(a, st) for a in args[1:]]
    if all(e is not None for e in es):
      return raw('list', *[self.call(args[0], list(x), [], st, node) for x in zip(*es)])
    if args[0].op in ('func', 'partial', 'bound', 'lam', 'cls', 'glob', 'wrapped'):
      ds = [self.domain(a, st) for a in args[1:]]
      doms = sorted({d for d, _, _ in ds})
      dom = doms[0] if len(doms) == 1 else raw('zipdom', *doms)
      i = fresh('i')
      self.index_syms[i] = dom
      lp = Loop(dom, i, 'comp')
      self.loops.append(lp)
      save = st.pc
      c = ds[0][2](i) if len(ds) == 1 else TRUE
      st.pc = t.b_and(save, c)
      v = self.call(args[0], [e(i) for _, e, _ in ds], [], st, node)
      v = self.resolve(v, st)
      st.pc = save
      self.loops.pop()
      return t.mk_map([i], v, dom, TRUE if c is TRUE else t.val(c))
    return None

  def b_functools__reduce(self, args, kw, st, node):
    if len(args) not in (2, 3) or kw: return None
    es = self.literal_elems(args[1], st)
    if es is None or not es and len(args) == 2: return None
    acc = args[2] if len(args) == 3 else es.pop(0)
    for x in es: acc = self.call(args[0], [acc, x], [], st, node)
    return acc

  def b_filter(self, args, kw, st, node):
    dom, elem, filt = self.domain(args[1], st)
    i = fresh('i')
    self.index_syms[i] = dom
    e = elem(i)
    v = e if args[0] is NONE else self.call(args[0], [e], [], st, node)
    c = t.b_and(filt(i), self.cond_of(v, st))
    return t.mk_map([i], e, dom, t.val(c))

  def b_sum(self, args, kw, st, node):
    e = self.literal_elems(args[0], st)
    if e is not None and (len(args) == 1):
      r = const(0)
      for x in e: r = t.add(r, x)
      return r
    v = self.resolve(args[0], st)
    if len(args) == 2:
      if self.deref_seq(args[1], st).op == 'list': return raw('flat', self.seq_of(v, st))
      return t.add(args[1], raw('call', glob('sum'), (self.seq_of(v, st),), ()))
    return raw('call', glob('sum'), (self.seq_of(v, st),), ())

  def b_any(self, args, kw, st, node): return self.anyall('any', args, st)
  def b_all(self, args, kw, st, node): return self.anyall('all', args, st)
  def anyall(self, g, args, st):
    e = self.literal_elems(args[0], st)
    if e is not None:
      r = FALSE if g == 'any' else TRUE
      for x in e:
        c = self.cond_of(x, st)
        r = t.b_or(r, c) if g == 'any' else t.b_and(r, c)
      return t.val(r)
    v = self.seq_of(self.resolve(args[0], st), st)
    if g == 'any': return raw('call', glob('any'), (v,), ())
    # all(p) == not any(not p)
    if v.op == 'map':
      i = fresh('i')
      b = t.val(t.b_not(t.cond(t.beta(v.args[0], [i]))))
      f = TRUE if v.args[2] is TRUE else t.beta(v.args[2], [i])
      return t.val(t.b_not(t.cond(raw('call', glob('any'), (t.mk_map([i], b, v.args[1], f),), ()))))
    return raw('call', glob('all'), (v,), ())

  def b_str(self, args, kw, st, node):
    if len(args) != 1: return None
    v = self.resolve(args[0], st)
    if t.is_const(v): return const(str(v.args[1]))
    if t.kind(v) == 'str': return v
    return raw('fmt', v, '')
  def b_int(self, args, kw, st, node):
    if len(args) == 1 and t.is_const(args[0]):
      try: return const(int(args[0].args[1]))
      except Exception: return None
    return None
  def b_float(self, args, kw, st, node):
    if len(args) == 1 and t.is_const(args[0]):
      try: return const(float(args[0].args[1]))
      except Exception: return None
    return None
  def b_reversed(self, args, kw, st, node):
    e = self.literal_elems(args[0], st)
    if e is not None: return raw('list', *e[::-1])
    return None
  def b_sorted(self, args, kw, st, node): return None
  def b_os__path__join(self, args, kw, st, node):
    if kw: return None
    out = []
    for a in args:
      a = self.resolve(a, st)
      if a.op == 'call' and t.is_glob(a.args[0], 'os.path.join'): out.extend(a.args[1])
      else: out.append(a)
    if all(t.is_const(a) for a in out):
      return const(os.path.join(*[a.args[1] for a in out]))
    return raw('call', glob('os.path.join'), tuple(out), ())
  def b_os__path__split(self, args, kw, st, node):
    a = self.resolve(args[0], st)
    return t.mk_tuple([raw('call', glob('os.path.dirname'), (a,), ()), raw('call', glob('os.path.basename'), (a,), ())])
  def b_slice(self, args, kw, st, node):
    if len(args) == 1: return raw('slice', NONE, args[0], NONE)
    return raw('slice', *(list(args) + [NONE] * (3 - len(args))))
  def _newarray(self, name, args, kw, st, node):
    v = self.opaque_call(glob(name), args, kw, st, node)
    return self.new_ref(v, st)
  def b_numpy__empty(self, args, kw, st, node): return self._newarray('numpy.empty', args, kw, st, node)
  def b_numpy__zeros(self, args, kw, st, node): return self._newarray('numpy.zeros', args, kw, st, node)
  def b_numpy__ones(self, args, kw, st, node): return self._newarray('numpy.ones', args, kw, st, node)
  def b_numpy__full(self, args, kw, st, node): return self._newarray('numpy.full', args, kw, st, node)
  def b_numpy__empty_like(self, args, kw, st, node): return self._newarray('numpy.empty_like', args, kw, st, node)
  def b_numpy__zeros_like(self, args, kw, st, node): return self._newarray('numpy.zeros_like', args, kw, st, node)

  def b_operator__itemgetter(self, args, kw, st, node): return None
  def b_zip(self, args, kw, st, node): return None
  def b_type(self, args, kw, st, node):
    q = self.class_of(args[0], st) if args else None
    if q and len(args) == 1: return raw('cls', q)
    return None
  def b_itertools__chain(self, args, kw, st, node):
    return t.cat([raw('list')] + [self.seq_of(self.resolve(a, st), st) for a in args])
  def b_dataclasses__replace(self, args, kw, st, node):
    return self.method_call(args[0], 'replace', [], kw, st, node) or raw('call', t.attr(self.resolve(args[0], st), 'replace'), (), tuple(sorted((k, self.to_term(v, st)) for k, v in kw)))

  # ------------------------------------------------------------ method calls on containers
  def method_call(self, b, name, args, kwargs, st, node):
    if b.op == 'ref':
      v = st.store.get(b)
      if v is None: return None
      if v.op == 'obj':
        if name == 'replace' and not args:
          fields = dict(v.args[1])
          for k, x in kwargs: fields[k if isinstance(k, str) else '**'] = x
          return self.new_ref(raw('obj', v.args[0], tuple(fields.items())), st)
        if name == '__init__': return NONE
        f = self.find_in_class(v.args[0], name)
        return None
      k = t.kind(v)
      islist = v.op in ('list', 'cat', 'listof', 'map', 'flat') or k == 'seq'
      if name == 'append':
        st.store[b] = t.cat([v, raw('list', args[0])])
        self.emit('mutate', t.attr(b, name), args, [], st, node)
        return NONE
      if name == 'extend':
        e = self.literal_elems(args[0], st)
        st.store[b] = t.cat([v, raw('list', *e) if e is not None else self.seq_of(self.resolve(args[0], st), st)])
        return NONE
      if name == 'insert' and t.is_const(args[0], 0):
        st.store[b] = t.cat([raw('list', args[1]), v]); return NONE
      if name in ('insert', 'remove', 'reverse'):
        st.store[b] = raw('seqop', name, v, tuple(self.resolve(a, st) for a in args)); return NONE
      if name == 'sort':
        kw2 = [(k, self.to_term(x, st, node)) for k, x in kwargs]
        st.store[b] = raw('call', glob('sorted'), (self.resolve(v, st),), tuple(sorted(kw2))); return NONE
      if name == 'clear':
        st.store[b] = raw('list') if islist else raw('dict'); return NONE
      if name == 'add':
        if v.op == 'set': st.store[b] = raw('set', *(v.args + ((args[0],) if args[0] not in v.args else ())))
        else: st.store[b] = raw('setadd', v, self.resolve(args[0], st))
        return NONE
      if name == 'copy': return self.new_ref(v, st)
      if k == 'set' and name in ('difference', 'union', 'intersection', 'issubset', 'issuperset') and len(args) == 1:
        x = self.resolve(args[0], st)
        y = self.resolve(v, st)
        if t.kind(x) != 'set': x = raw('setof', self.seq_of(x, st))
        if name == 'difference': return t.binop('-', y, x)
        if name == 'union': return t.binop('|', y, x)
        if name == 'intersection': return t.binop('&', y, x)
        if name == 'issubset': return t.cmp('<=', y, x)
        if name == 'issuperset': return t.cmp('<=', x, y)
      if k == 'set' and name == 'discard' or k == 'set' and name == 'remove':
        st.store[b] = t.binop('-', v, raw('set', self.resolve(args[0], st))); return NONE
      if k == 'set' and name == 'update':
        for a in args:
          x = self.resolve(a, st)
          v = st.store[b] = t.binop('|', v, x if t.kind(x) == 'set' else raw('setof', self.seq_of(x, st)))
        return NONE
      if name == 'update' and (k == 'map' or v.op in ('dict', 'setitem', 'dictupd', 'dictof', 'dictmerge', 'sym')):
        for a in args:
          o = self.deref_seq(a, st)
          if o.op in ('list', 'map'): o = self.dict_from_pairs(self.resolve(o, st))
          v = self.dict_update(v, o)
        for kk, x in kwargs:
          v = self.dict_set(v, const(kk), x) if isinstance(kk, str) else self.dict_update(v, x)
        st.store[b] = v
        return NONE
      if name == 'pop':
        if k == 'map' or v.op in ('dict', 'setitem', 'dictupd', 'dictof', 'dictmerge', 'sym', 'delitem'):
          if v.op == 'dict' and t.is_const(args[0]) and all(t.is_const(x) for x, _ in v.args):
            for kk, x in v.args:
              if kk is args[0]:
                st.store[b] = raw('dict', *[(p, q) for p, q in v.args if p is not args[0]])
                return x
            if len(args) > 1: return args[1]
          r = t.item(self.resolve(v, st), self.resolve(args[0], st)) if len(args) == 1 else raw('getdef', self.resolve(v, st), self.resolve(args[0], st), self.resolve(args[1], st))
          st.store[b] = raw('delitem', v, self.resolve(args[0], st))
          return r
        i = args[0] if args else const(-1)
        if v.op == 'list' and t.is_const(i) and v.args:
          l = list(v.args); x = l.pop(i.args[1]); st.store[b] = raw('list', *l); return x
        st.store[b] = raw('seqop', 'pop', v, (i,))
        return t.item(self.resolve(v, st), i)
      if name == 'setdefault':
        r = raw('getdef', self.resolve(v, st), self.resolve(args[0], st), self.resolve(args[1], st))
        st.store[b] = self.dict_set(v, args[0], r)
        return r
      if name == 'get' and (k == 'map' or v.op == 'sym'):
        return self.dict_get(v, args, st)
      if name in ('items', 'keys', 'values'):
        return raw('call', t.attr(self.resolve(v, st) if v.op != 'dict' else b, name), (), ()) if v.op != 'dict' else raw('call', t.attr(v, name), (), ())
      return self.opaque_call(t.attr(self.resolve(v, st), name), args, kwargs, st, node)
    if b.op in ('dict', 'setitem', 'dictof', 'dictupd') and name == 'get':
      return self.dict_get(b, args, st)
    if name == 'get' and not kwargs and len(args) in (1, 2) and b.op not in ('glob', 'self'):
      if b.op in ('sym', 'attr', 'item', 'call', 'getdef', 'nth'):
        bb = self.resolve(b, st)
        return raw('getdef', bb, self.resolve(args[0], st), self.resolve(args[1], st) if len(args) > 1 else NONE)
    if name == 'join' and t.kind(b) == 'str' and len(args) == 1:
      e = self.literal_elems(args[0], st)
      if e is not None:
        parts = []
        for i, x in enumerate(e):
          if i: parts.append(b)
          parts.append(x)
        return t.strcat(parts) if parts else const('')
    if name == 'format' and t.is_const(b) and isinstance(b.args[1], str):
      r = self.str_format(b.args[1], args, kwargs, st)
      if r is not None: return r
    if t.is_const(b) and isinstance(b.args[1], str) and all(t.is_const(a) for a in args) and not kwargs and name in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'split', 'replace', 'lstrip', 'rstrip'):
      try:
        r = getattr(b.args[1], name)(*[a.args[1] for a in args])
        return self.new_ref(raw('list', *[const(x) for x in r]), st) if isinstance(r, list) else const(r)
      except Exception:
        return None
    if name in ('items', 'keys', 'values') and not args and not kwargs:
      return raw('call', t.attr(self.resolve(b, st), name), (), ())
    if name == 'replace' and not args and b.op not in ('glob',):
      bb = self.resolve(b, st)
      kw = dict((k, self.to_term(v, st, node)) for k, v in kwargs if isinstance(k, str))
      stars = [(k, self.to_term(v, st, node)) for k, v in kwargs if not isinstance(k, str)]
      if not stars and bb.op == 'call' and bb.args[0].op == 'attr' and bb.args[0].args[1] == 'replace' and not bb.args[1] and all(isinstance(k, str) for k, _ in bb.args[2]):
        prev = dict(bb.args[2])
        prev.update(kw)
        kw = prev; bb = bb.args[0].args[0]
      v = raw('call', t.attr(bb, 'replace'), (), tuple(sorted(kw.items())) + tuple(stars))
      self.emit('call', t.attr(bb, 'replace'), [], sorted(kw.items()) + stars, st, node, v)
      return v
    return None

  def dict_get(self, v, args, st):
    d = self.resolve(args[1], st) if len(args) > 1 else NONE
    k = self.resolve(args[0], st)
    if v.op == 'dict' and t.is_const(k) and all(t.is_const(x) for x, _ in v.args):
      for kk, x in v.args:
        if kk is k: return x
      return args[1] if len(args) > 1 else NONE
    if v.op == 'setitem' and v.args[1] is k: return v.args[2]
    if v.op == 'setitem' and t.is_const(v.args[1]) and t.is_const(k): return self.dict_get(v.args[0], args, st)
    return raw('getdef', self.resolve(v, st), k, d)

  def str_format(self, s, args, kwargs, st):
    import string
    parts = []
    auto = 0
    try:
      for lit, field, spec, conv in string.Formatter().parse(s):
        if lit: parts.append(const(lit))
        if field is None: continue
        if field == '': v = args[auto]; auto += 1
        elif field.isdigit(): v = args[int(field)]
        else: v = dict(kwargs)[field]
        v = self.resolve(v, st)
        parts.append(self.formatted(v, conv or '', spec or ''))
    except Exception:
      return None
    return t.strcat(parts)

  # ------------------------------------------------------------ assignment
  def assign(self, tg, v, st, fr, mod, node=None):
    if isinstance(tg, ast.Name):
      f = fr
      d = st.frames[fr]
      nl = d.get('<nonlocal>')
      if nl and tg.id in nl:
        g = d.get('<parent>')
        while g is not None and tg.id not in st.frames[g]: g = st.frames[g].get('<parent>')
        if g is not None:
          st.setvar(g, tg.id, v); return
      st.setvar(fr, tg.id, v)
    elif isinstance(tg, (ast.Tuple, ast.List)):
      vv = self.deref_seq(v, st)
      star = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
      if star:
        k = star[0]; after = len(tg.elts) - k - 1
        for i in range(k): self.assign(tg.elts[i], self.proj(vv, i, st), st, fr, mod)
        if vv.op in ('tuple', 'list') and not any(x.op == 'star' for x in vv.args):
          mid = raw('list', *vv.args[k:len(vv.args) - after])
        else:
          mid = t.item(self.resolve(vv, st), raw('slice', const(k) if k else NONE, const(-after) if after else NONE, NONE))
        self.assign(tg.elts[k].value, mid if mid.op != 'list' else self.new_ref(mid, st), st, fr, mod)
        for i in range(after): self.assign(tg.elts[k + 1 + i], self.proj(vv, i - after, st), st, fr, mod)
      else:
        for i, e in enumerate(tg.elts): self.assign(e, self.proj(vv, i, st), st, fr, mod)
    elif isinstance(tg, ast.Subscript):
      b = self.eval(tg.value, st, fr, mod)
      i = self.resolve(self.eval(tg.slice, st, fr, mod), st)
      self.setitem(b, i, v, st, tg)
    elif isinstance(tg, ast.Attribute):
      b = self.eval(tg.value, st, fr, mod)
      self.setattr_(b, tg.attr, v, st, tg)
    elif isinstance(tg, ast.Starred):
      self.assign(tg.value, v, st, fr, mod)

  def proj(self, v, i, st):
    if v.op == 'ite':
      return t.mk_ite(raw('ite', v.args[0], TRUE, FALSE), self.proj(self.deref_seq(v.args[1], st), i, st), self.proj(self.deref_seq(v.args[2], st), i, st))
    if v.op in ('map', 'listof') and i >= 0:
      return self.nth(v, const(i))
    if v.op == 'obj':
      vals = [x for k, x in v.args[1]]
      if -len(vals) <= i < len(vals): return vals[i]
    r = self.resolve(v, st) if v.op not in ('tuple', 'list') else v
    return t.item(r, const(i))

  def setitem(self, b, i, v, st, node):
    self.emit('setitem', self.resolve(b, st) if b.op != 'ref' else b, [i, self.resolve(v, st)], [], st, node)
    if b.op == 'ref':
      cur = st.store[b]
      if cur.op == 'list' and t.is_const(i) and isinstance(i.args[1], int) and -len(cur.args) <= i.args[1] < len(cur.args):
        l = list(cur.args); l[i.args[1]] = v
        st.store[b] = raw('list', *l)
      elif cur.op == 'obj':
        pass
      else:
        st.store[b] = self.dict_set(cur, i, v)
      return
    if b.op == 'ite': return
    st.store[('item', b, i)] = v

  def setattr_(self, b, name, v, st, node):
    self.emit('setattr', b, [const(name), self.resolve(v, st)], [], st, node)
    if b.op == 'ref' and st.store[b].op == 'obj':
      o = st.store[b]
      f = dict(o.args[1]); f[name] = v
      st.store[b] = raw('obj', o.args[0], tuple(f.items()))
      return
    st.store[('attr', b, name)] = v

  # ------------------------------------------------------------ merging
  def merge(self, c, a, b):
    s = State()
    s.frames = dict(b.frames)
    for f, da in a.frames.items():
      db = b.frames.get(f)
      if db is None or db is da: s.frames[f] = da; continue
      d = dict(db)
      for k, v in da.items():
        w = db.get(k)
        if k.startswith('<'):
          d[k] = v; continue
        if w is None: d[k] = t.mk_ite(c, v, raw('unset', k)) if isinstance(v, T) else v
        elif w is not v: d[k] = t.val(t.mk_ite(c, v, w))
      for k, w in db.items():
        if k not in da and not k.startswith('<'): d[k] = t.mk_ite(c, raw('unset', k), w)
      s.frames[f] = d
    s.store = dict(b.store)
    for k, v in a.store.items():
      w = b.store.get(k)
      if w is None:
        if isinstance(k, tuple) and k[0] in ('attr', 'item'):
          w = t.attr(k[1], k[2]) if k[0] == 'attr' else t.item(k[1], k[2])
          s.store[k] = t.val(t.mk_ite(c, v, w))
        else: s.store[k] = v
      elif w is not v:
        s.store[k] = self.merge_val(c, v, w)
    for k, w in b.store.items():
      if k not in a.store and isinstance(k, tuple) and k[0] in ('attr', 'item'):
        v = t.attr(k[1], k[2]) if k[0] == 'attr' else t.item(k[1], k[2])
        s.store[k] = t.val(t.mk_ite(c, v, w))
    s.pc = b.pc
    s.assumed = t.b_and(a.assumed, b.assumed)
    return s

  def merge_val(self, c, v, w):
    if v.op == 'obj' and w.op == 'obj' and v.args[0] == w.args[0]:
      fv, fw = dict(v.args[1]), dict(w.args[1])
      out = []
      for k in list(fv) + [k for k in fw if k not in fv]:
        x, y = fv.get(k), fw.get(k)
        if x is None: out.append((k, y))
        elif y is None: out.append((k, x))
        else: out.append((k, t.val(t.mk_ite(c, x, y))))
      return raw('obj', v.args[0], tuple(out))
    if v.op == 'dict' and w.op == 'dict':
      kv, kw = [k for k, _ in v.args], [k for k, _ in w.args]
      if kv == kw:
        return raw('dict', *[(k, t.val(t.mk_ite(c, x, y))) for (k, x), (_, y) in zip(v.args, w.args)])
    if self.unrolling:
      # a conditional append in an unrolled loop, as in the comprehension
      for x, y, k in ((v, w, c), (w, v, t.b_not(c))):
        e = extension(x, y)
        if e: return t.cat([y, raw('opt', t.val(k), raw('list', *e))])
    return t.val(t.mk_ite(c, v, w))

  # ------------------------------------------------------------ statements
  def exec_block(self, stmts, st, fr, mod):
    exits = []
    for s in stmts:
      es = self.exec(s, st, fr, mod)
      nxt = None
      for e in es:
        if e.kind == 'fall': nxt = e.st
        else: exits.append(e)
      if nxt is None: return exits
      st = nxt
      if st.dead:
        exits.append(Exit('raise', st))
        return exits
    exits.append(Exit('fall', st))
    return exits

  def exec(self, s, st, fr, mod):
    m = getattr(self, 's_' + type(s).__name__, None)
    if m is None: return [Exit('fall', st)]
    r = m(s, st, fr, mod)
    return r if r is not None else [Exit('fall', st)]

  def s_Expr(self, s, st, fr, mod):
    s.value.is_stmt = True
    self.eval(s.value, st, fr, mod)

  def s_Assign(self, s, st, fr, mod):
    v = self.eval(s.value, st, fr, mod)
    for tg in s.targets: self.assign(tg, v, st, fr, mod)

  def s_AnnAssign(self, s, st, fr, mod):
    if s.value is not None:
      self.assign(s.target, self.eval(s.value, st, fr, mod), st, fr, mod)

  def s_AugAssign(self, s, st, fr, mod):
    if isinstance(s.target, ast.Name):
      cur = self.lookup(s.target.id, st, fr, mod)
    elif isinstance(s.target, ast.Subscript):
      cur = self.getitem(self.eval(s.target.value, st, fr, mod), self.eval(s.target.slice, st, fr, mod), st)
    else:
      cur = self.getattr_(self.eval(s.target.value, st, fr, mod), s.target.attr, st)
    v = self.eval(s.value, st, fr, mod)
    op = BIN[type(s.op)]
    c = self.deref_seq(cur, st); vv = self.deref_seq(v, st)
    if cur.op == 'ref' and op == '+' and c.op != 'obj':
      e = self.literal_elems(v, st)
      st.store[cur] = t.cat([c, raw('list', *e) if e is not None else self.seq_of(self.resolve(vv, st), st)])
      return
    r = self.binop(op, c, vv, st)
    self.assign(s.target, r, st, fr, mod)

  def s_Return(self, s, st, fr, mod):
    v = NONE if s.value is None else self.eval(s.value, st, fr, mod)
    if st.dead: return [Exit('raise', st)]
    return [Exit('return', st, v)]

  def s_Raise(self, s, st, fr, mod):
    ex = NONE
    if s.exc is not None:
      self.mute += 1
      ex = self.resolve(self.eval(s.exc, st, fr, mod), st)
      self.mute -= 1
    self.emit('raise', self.exc_type(ex), [ex], [], st, s)
    return [Exit('raise', st, ex)]

  def exc_type(self, ex):
    if ex.op == 'call': return ex.args[0]
    return ex

  def s_Assert(self, s, st, fr, mod):
    c = self.cond_of(self.eval(s.test, st, fr, mod), st)
    if c is TRUE: return
    s2 = st.copy(); s2.pc = t.b_and(st.pc, t.b_not(c))
    self.emit('raise', glob('AssertionError'), [], [], s2, s)
    st.assumed = t.b_and(st.assumed, t.b_or(t.b_not(t.b_and(self.outer[-1], st.pc)), c))

  def s_Pass(self, s, st, fr, mod): pass
  def s_Global(self, s, st, fr, mod): pass
  def s_Nonlocal(self, s, st, fr, mod):
    st.setvar(fr, '<nonlocal>', set(st.frames[fr].get('<nonlocal>', ())) | set(s.names))
  def s_Delete(self, s, st, fr, mod):
    for tg in s.targets:
      if isinstance(tg, ast.Subscript):
        b = self.eval(tg.value, st, fr, mod)
        i = self.resolve(self.eval(tg.slice, st, fr, mod), st)
        if b.op == 'ref':
          v = st.store[b]
          if v.op == 'dict' and t.is_const(i): st.store[b] = raw('dict', *[(p, q) for p, q in v.args if p is not i])
          else: st.store[b] = raw('delitem', v, i)
  def s_Import(self, s, st, fr, mod):
    for a in s.names:
      v = self.dotted(a.name if a.asname else a.name.split('.')[0])
      st.setvar(fr, a.asname or a.name.split('.')[0], v)
  def s_ImportFrom(self, s, st, fr, mod):
    for a in s.names:
      st.setvar(fr, a.asname or a.name, self.getattr_(self.dotted(s.module or ''), a.name, st))

  def s_FunctionDef(self, s, st, fr, mod):
    fid = self.newid()
    f = Func(s, mod, fr, (self.stack[-1][0] + '.' if self.stack else '') + s.name)
    f.defaults = [self.eval(d, st, fr, mod) for d in s.args.defaults]
    f.kwdefaults = [d and self.eval(d, st, fr, mod) for d in s.args.kw_defaults]
    self.funcs[fid] = f
    v = raw('func', fid)
    for d in reversed(s.decorator_list):
      n = self.deco_name(d, mod)
      if n in TRANSPARENT_DECOS: continue
      dv = self.eval(d, st, fr, mod)
      v = self.call(dv, [v], [], st, s)
    st.setvar(fr, s.name, v)
  s_AsyncFunctionDef = s_FunctionDef

  def s_ClassDef(self, s, st, fr, mod):
    q = f'{self.stack[-1][0] if self.stack else mod}.{s.name}'
    if fr in st.frames and self.class_frames.get(q, fr) != fr: q = f'{q}#{fr}'
    self.class_frames[q] = fr
    self.classes[q] = (mod, s)
    st.setvar(fr, s.name, raw('cls', q))

  def s_If(self, s, st, fr, mod):
    c = self.cond_of(self.eval(s.test, st, fr, mod), st)
    if st.dead: return [Exit('raise', st)]
    if c is TRUE: return self.exec_block(s.body, st, fr, mod)
    if c is FALSE: return self.exec_block(s.orelse, st, fr, mod)
    # path already decides it
    if t.implies(st.pc, c): return self.exec_block(s.body, st, fr, mod)
    if t.implies(st.pc, t.b_not(c)): return self.exec_block(s.orelse, st, fr, mod)
    pre = st.pc
    a = st.copy(); a.pc = t.b_and(pre, c)
    b = st.copy(); b.pc = t.b_and(pre, t.b_not(c))
    # `if c: raise .. else: X` is `if c: raise ..` followed by X
    ra, rb = always_raises(s.body), always_raises(s.orelse)
    if s.orelse and ra != rb:
      bad, good, rest = (s.body, s.orelse, b) if ra else (s.orelse, s.body, a)
      eb = self.exec_block(bad, a if ra else b, fr, mod)
      if all(e.kind == 'raise' for e in eb):
        out = self.join(c, pre, *((eb, [Exit('fall', rest)]) if ra else ([Exit('fall', rest)], eb)))
        st2 = next(e.st for e in out if e.kind == 'fall')
        return [e for e in out if e.kind != 'fall'] + self.exec_block(good, st2, fr, mod)
      ea, eb = (eb, self.exec_block(good, rest, fr, mod)) if ra else (self.exec_block(good, rest, fr, mod), eb)
      return self.join(c, pre, ea, eb)
    ea = self.exec_block(s.body, a, fr, mod)
    eb = self.exec_block(s.orelse, b, fr, mod)
    return self.join(c, pre, ea, eb)

  def join(self, c, pre, ea, eb):
    exits = []
    fa = fb = None
    for e in ea:
      if e.kind == 'fall': fa = e.st
      else: exits.append(e)
    for e in eb:
      if e.kind == 'fall': fb = e.st
      else: exits.append(e)
    if fa is None and fb is None: return exits
    pc = pre
    ass = TRUE
    for e in exits:
      if e.kind == 'raise': ass = t.b_and(ass, t.b_not(t.b_and(self.outer[-1], e.st.pc)))
      else: pc = t.b_and(pc, t.b_not(e.st.pc))
    if fa is not None and fb is not None:
      m = self.merge(c, fa, fb)
    else:
      m = fa or fb
    m.pc = pc
    m.dead = False
    m.assumed = t.b_and(m.assumed, ass)
    exits.append(Exit('fall', m))
    return exits

  def s_With(self, s, st, fr, mod):
    entered = []
    for i in s.items:
      c = self.eval(i.context_expr, st, fr, mod)
      ct = self.to_term(c, st, s)
      self.emit('enter', ct, [], [], st, s)
      self.withs.append(ct)
      entered.append(ct)
      if i.optional_vars is not None:
        v = c if c.op in ('ref',) else raw('entered', ct)
        self.assign(i.optional_vars, v, st, fr, mod)
    exits = self.exec_block(s.body, st, fr, mod)
    for ct in reversed(entered):
      self.withs.pop()
      for e in exits:
        if e.kind == 'fall' or (e.kind == 'return' and not any(x.kind == 'fall' for x in exits)):
          self.emit('exit', ct, [], [], e.st, s)
    return exits

  def s_Try(self, s, st, fr, mod):
    exc = raw('exc', self.try_label(s, mod), self.newid())
    pre = st.copy()
    self.trys.append((exc, tuple(self.handler_types(h, st, fr, mod) for h in s.handlers)))
    body = self.exec_block(s.body, st.copy(), fr, mod)
    self.trys.pop()
    out = []
    fall = None
    for e in body:
      if e.kind == 'fall': fall = e.st
      else: out.append(e)
    raised = [e for e in out if e.kind == 'raise']
    if s.handlers: out = [e for e in out if e.kind != 'raise']
    if fall is not None and s.orelse:
      eo = self.exec_block(s.orelse, fall, fr, mod)
      fall = None
      for e in eo:
        if e.kind == 'fall': fall = e.st
        else: out.append(e)
    atom = raw('ite', exc, TRUE, FALSE)
    if s.handlers:
      for e in out: e.st.pc = t.b_and(e.st.pc, t.b_not(atom))   # left without an exception
    ea = []
    for h in s.handlers:
      hs = pre.copy(); hs.pc = t.b_and(pre.pc, atom)
      # effects of the body may or may not have happened
      if h.name: hs.setvar(fr, h.name, raw('excval', exc))
      self.emit('except', None, [self.handler_types(h, st, fr, mod)], [], hs, h)
      eh = self.exec_block(h.body, hs, fr, mod)
      ea = ea + eh if not ea else ea + [e for e in eh if e.kind != 'fall']
    eb = [Exit('fall', fall)] if fall is not None else []
    res = self.join(atom, pre.pc, ea, eb) if s.handlers else eb
    res = res + out
    if s.finalbody:
      final = []
      emitted = False
      for e in res:
        self.mute += 1 if emitted else 0
        ef = self.exec_block(s.finalbody, e.st, fr, mod)
        if emitted: self.mute -= 1
        emitted = True
        for x in ef:
          if x.kind == 'fall': final.append(Exit(e.kind, x.st, e.value))
          else: final.append(x)
      return final
    return res

  def try_label(self, s, mod):
    return ''

  def handler_types(self, h, st, fr, mod):
    if h.type is None: return glob('BaseException')
    self.mute += 1
    v = self.eval(h.type, st, fr, mod)
    self.mute -= 1
    return v

  def s_Break(self, s, st, fr, mod): return [Exit('break', st)]
  def s_Continue(self, s, st, fr, mod): return [Exit('continue', st)]

  # ------------------------------------------------------------ loops
  def assigned_names(self, stmts):
    out = set()
    stack = list(stmts)
    while stack:
      x = stack.pop()
      if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
        out.add(x.name); continue
      if isinstance(x, (ast.Lambda, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
        for y in ast.walk(x):
          if isinstance(y, ast.NamedExpr): out.add(y.target.id)
        continue
      if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): out.add(x.id)
      stack.extend(ast.iter_child_nodes(x))
    return out

  def s_For(self, s, st, fr, mod):
    it = self.as_mapping(s.iter, s.target, s.body, self.eval(s.iter, st, fr, mod))
    lits = self.literal_elems(it, st)
    if lits is not None: return self.unroll(s, lits, st, fr, mod)
    dom, elem, filt = self.domain(it, st)
    # generator objects of the repository have been expanded into sequences
    return self.loop(s, dom, elem, filt, st, fr, mod)

  def unroll(self, s, lits, st, fr, mod):
    exits = []
    brk = []
    for e in lits:
      self.assign(s.target, e, st, fr, mod)
      self.unrolling += len(lits) > 4
      es = self.exec_block(s.body, st, fr, mod)
      self.unrolling -= len(lits) > 4
      pre = st.pc
      nxt = None
      for x in es:
        if x.kind in ('fall', 'continue'):
          nxt = x.st if nxt is None else self.merge_pc(x.st, nxt)
        elif x.kind == 'break': brk.append(x.st)
        else: exits.append(x)
      if nxt is None:
        st = None; break
      st = nxt
    if st is not None and s.orelse:
      es = self.exec_block(s.orelse, st, fr, mod)
      st = None
      for x in es:
        if x.kind == 'fall': st = x.st
        else: exits.append(x)
    for b in brk: st = b if st is None else self.merge_pc(b, st)
    if st is not None: exits.append(Exit('fall', st))
    return exits

  def merge_pc(self, a, b):
    """Merge two states on their own path conditions."""
    m = self.merge(a.pc, a, b)
    m.pc = t.b_or(a.pc, b.pc)
    return m

  def s_While(self, s, st, fr, mod):
    return self.loop(s, None, None, None, st, fr, mod)
  s_AsyncFor = s_For

  def loop(self, s, dom, elem, filt, st, fr, mod):
    is_for = dom is not None
    names = self.assigned_names(s.body + ([s.target] if is_for else []))
    tnames = self.assigned_names([s.target]) if is_for else set()
    carried = [n for n in sorted(names - tnames) if self.var_defined(n, st, fr)]
    idx = fresh('i')
    if is_for: self.index_syms[idx] = dom

    def setup(refs, over):
      b = st.copy()
      phis = {}
      for n in carried:
        p = fresh('phi_' + n)
        phis[p] = ('var', n, self.lookup(n, st, fr, mod))
        self.assign(ast.Name(id=n, ctx=ast.Store()), p, b, fr, mod)
      for r in refs:
        p = fresh('phi_ref')
        phis[p] = ('ref', r, st.store[r])
        b.store[r] = p
      for k in over:
        p = fresh('phi_ov')
        init = st.store.get(k)
        if init is None: init = t.attr(k[1], k[2]) if k[0] == 'attr' else t.item(k[1], k[2])
        phis[p] = ('ov', k, init)
        b.store[k] = p
      b.pc = TRUE
      return b, phis

    def run(refs, over, lp):
      b, phis = setup(refs, over)
      lp.phis = {}
      self.loops.append(lp)
      self.outer.append(t.b_and(self.outer[-1], st.pc))
      test = TRUE
      try:
        if is_for:
          self.assign(s.target, elem(idx), b, fr, mod)
          f = filt(idx)
          lp.filt = f
          b.pc = t.b_and(b.pc, f)
        else:
          test = self.cond_of(self.eval(s.test, b, fr, mod), b)
          lp.test = test
          lp.domain = raw('while')
        es = self.exec_block(s.body, b, fr, mod)
      finally:
        self.outer.pop()
        self.loops.pop()
      return phis, es, test

    # pass 1: discover mutated references
    self.mute += 1
    phis, es, _ = run([], [], Loop(dom, idx))
    self.mute -= 1
    refs, over = [], []
    for e in es:
      for k, v in e.st.store.items():
        if isinstance(k, T):
          if k in st.store and st.store[k] is not v and k not in refs: refs.append(k)
        elif st.store.get(k) is not v and k not in over and not any(mentions_any(x, [idx]) for x in k[1:] if isinstance(x, T)):
          over.append(k)
    # pass 2
    lp = Loop(dom, idx, 'for' if is_for else 'while')
    phis, es, test = run(refs, over, lp)
    exits = []
    fall = None
    brk = None
    for e in es:
      if e.kind in ('fall', 'continue'):
        fall = e.st if fall is None else self.merge_pc(e.st, fall)
      elif e.kind == 'break':
        brk = e.st if brk is None else self.merge_pc(e.st, brk)
      if e.kind in ('break', 'return'): lp.early = t.b_or(lp.early, e.st.pc)
    filt_d = lp.filt
    after = st.copy()
    end = fall or brk
    if end is not None:
      if fall is not None and brk is not None:
        brk_c = brk.pc
        end = self.merge(brk_c, brk, fall)
      nexts = {}
      for p, (k, key, init) in phis.items():
        if k == 'var': nexts[p] = self.lookup(key, end, fr, mod)
        else: nexts[p] = end.store[key]
        lp.phis[p] = (key, init, nexts[p])
      binit = None
      finals = self.summarise(dom, idx, phis, nexts, filt_d, test if not is_for else None, brk, end, st)
      # new objects created in the body stay reachable
      for k, v in end.store.items():
        if isinstance(k, T) and k not in after.store: after.store[k] = v
      for k, v in end.frames.items():
        if k not in after.frames: after.frames[k] = v
      for p, (k, key, init) in phis.items():
        v = finals[p]
        if k == 'var': self.assign(ast.Name(id=key, ctx=ast.Store()), v, after, fr, mod)
        else: after.store[key] = v
      # names first defined in the loop
      dd = end.frames[fr]
      base = st.frames[fr]
      for n in names:
        if n in dd and n not in base:
          v = self.resolve(dd[n], end)
          after.setvar(fr, n, self.last(dom, idx, v, phis))
      if is_for:
        for n in tnames:
          if n in dd: after.setvar(fr, n, self.last(dom, idx, self.resolve(dd[n], end), phis))
      after.assumed = t.b_and(after.assumed, TRUE)
    # returns inside the loop: first element whose condition holds
    for e in es:
      if e.kind == 'return':
        c = t.val(e.st.pc)
        v = self.to_term(e.value, e.st, s)
        ps = list(phis)
        if is_for and not mentions_any(c, ps) and not mentions_any(v, ps):
          found = t.cond(raw('call', glob('any'), (t.mk_map([idx], c, dom, TRUE),), ()))
          val = raw('first', dom, t.lam([idx], c), t.lam([idx], v))
        else:
          found = raw('ite', raw('truth', raw('loopret', self.newid())), TRUE, FALSE)
          val = raw('loopretval', v)
        r = e.st.copy()
        r.pc = t.b_and(st.pc, found)
        exits.append(Exit('return', r, val))
        after.pc = t.b_and(after.pc, t.b_not(found))
    if s.orelse:
      oe = self.exec_block(s.orelse, after, fr, mod)
      return exits + oe
    exits.append(Exit('fall', after))
    return exits

  def last(self, dom, idx, v, phis):
    if not t.mentions(v, idx) and not mentions_any(v, list(phis)): return v
    return raw('last', dom if dom is not None else raw('while'), t.lam([idx] + list(phis), v))

  def var_defined(self, n, st, fr):
    f = fr
    while f is not None:
      d = st.frames.get(f)
      if d is None: return False
      if n in d:
        return f == fr or n in (st.frames[fr].get('<nonlocal>') or ())
      f = d.get('<parent>')
    return False

  def summarise(self, dom, idx, phis, nexts, filt, test, brk, end, st):
    finals = {}
    res_next = {p: self.resolve_keep(v, end, phis) for p, v in nexts.items()}
    changed = [p for p in phis if res_next[p] is not p]
    for p in phis:
      if res_next[p] is p: finals[p] = phis[p][2]
    simple = dom is not None and brk is None
    hard = []
    allp = list(phis)
    for p in changed:
      n = res_next[p]
      init = phis[p][2]
      r = None
      if simple: r = self.simple_summary(dom, idx, p, n, init, filt, allp, st)
      if r is None: hard.append(p)
      else: finals[p] = r
    # the simple ones may be used by hard ones through their phi: keep joint fold for closure
    for p in hard:
      order = [p]
      k = 0
      while k < len(order):
        for q in allp:
          if q not in order and t.mentions(res_next[order[k]], q) and res_next[q] is not q: order.append(q)
        if brk is not None and k == 0:
          for q in allp:
            if q not in order and t.mentions(brk.pc, q) and res_next[q] is not q: order.append(q)
        if test is not None and k == 0:
          for q in allp:
            if q not in order and t.mentions(test, q) and res_next[q] is not q: order.append(q)
        k += 1
      consts = {q: phis[q][2] for q in allp if q not in order}
      bodies = [t.subst(res_next[q], consts) for q in order]
      if filt is not TRUE:
        bodies = [t.val(t.mk_ite(filt, b, q)) for b, q in zip(bodies, order)]
      inits = [self.resolve(phis[q][2], st) for q in order]
      bc = t.val(brk.pc) if brk is not None else FALSE
      bc = t.subst(bc, consts)
      body = t.mk_tuple(bodies + [bc if t.kind(bc) == 'bool' or True else bc])
      if dom is not None:
        f = raw('fold', dom, t.mk_tuple(inits), t.lam([idx] + order, body))
      else:
        f = raw('while', t.mk_tuple(inits), t.lam(order, t.subst(t.val(test), consts)), t.lam(order, body))
      finals[p] = raw('item', f, const(0))
    return finals

  def resolve_keep(self, v, end, phis):
    return self.resolve(v, end) if v.op != 'sym' else v

  def simple_summary(self, dom, idx, p, n, init, filt, allp, st):
    others = [q for q in allp if q is not p]
    # split conditionals where p is unchanged
    def split(x):
      """-> list of (cond diagram, leaf)"""
      return [(cube, leaf) for cube, leaf in t.leaves(x)]
    lv = split(n)
    upd = [(c, l) for c, l in lv if l is not p]
    if not upd: return init
    # no leaf may depend on the other carried values or conditions on p
    if mentions_any(n, others): return None
    conds = filt
    keepc = FALSE
    for c, l in lv:
      if any(t.mentions(a, p) for a in c): return None
    kinds = []
    if all(l.op == 'groupadd' and l.args[0] is p and not t.mentions(l.args[1], p) and not t.mentions(l.args[2], p) for c, l in upd) and init.op == 'dict' and not init.args:
      g0 = t.mk_tuple(list(upd[0][1].args[1:]))
      def go_b(x):
        if x.op == 'ite': return t.mk_ite(raw('ite', x.args[0], TRUE, FALSE), go_b(x.args[1]), go_b(x.args[2]))
        return g0 if x is p else t.mk_tuple(list(x.args[1:]))
      def go_c(x):
        if x.op == 'ite': return t.mk_ite(raw('ite', x.args[0], TRUE, FALSE), go_c(x.args[1]), go_c(x.args[2]))
        return FALSE if x is p else TRUE
      gc = t.b_and(filt, go_c(n))
      gm = t.mk_map([idx], self.cofactor(go_b(n), gc), dom, TRUE if gc is TRUE else t.val(gc))
      return raw('groupby', gm)
    for c, l in upd:
      if l.op == 'cat' and l.args[0] is p and not any(t.mentions(x, p) for x in l.args[1:]): kinds.append('cat')
      elif l.op == 'setitem' and self.setchain(l, p): kinds.append('set')
      elif l.op in ('poly',) and self.poly_incr(l, p) is not None: kinds.append('add')
      elif l.op == 'setadd' and l.args[0] is p and not t.mentions(l.args[1], p): kinds.append('setadd')
      else: return None
    if len(set(kinds)) != 1: return None
    k = kinds[0]
    def rebuild(fn, keep):
      def go(x):
        if x.op == 'ite': return t.mk_ite(raw('ite', x.args[0], TRUE, FALSE), go(x.args[1]), go(x.args[2]))
        return keep if x is p else fn(x)
      return go(n)
    def changed_cond():
      def go(x):
        if x.op == 'ite': return t.mk_ite(raw('ite', x.args[0], TRUE, FALSE), go(x.args[1]), go(x.args[2]))
        return FALSE if x is p else TRUE
      return t.b_and(filt, go(n))
    cc = changed_cond()
    if k == 'cat':
      single = all(len(l.args) == 2 and l.args[1].op == 'list' and len(l.args[1].args) == 1 for _, l in upd)
      if single:
        body = rebuild(lambda l: l.args[1].args[0], upd[0][1].args[1].args[0])
        body = self.cofactor(body, cc)
        m = t.mk_map([idx], body, dom, TRUE if cc is TRUE else t.val(cc))
      else:
        body = rebuild(lambda l: t.cat(list(l.args[1:])) if len(l.args) > 2 else l.args[1], raw('list'))
        m = raw('flat', t.mk_map([idx], body, dom, TRUE if filt is TRUE else t.val(filt)))
      init_v = init
      return t.cat([init_v, m]) if init_v.op != 'list' or init_v.args else m
    if k == 'add':
      body = rebuild(lambda l: self.poly_incr(l, p), const(0))
      if cc is not filt and len(upd) == 1: body = self.poly_incr(upd[0][1], p)
      else: cc = filt
      m = t.mk_map([idx], body, dom, TRUE if cc is TRUE else t.val(cc))
      return t.add(self.resolve(init, st), raw('call', glob('sum'), (m,), ()))
    if k == 'set':
      if any(l.args[0] is not p for _, l in upd): return None
      body = rebuild(lambda l: t.mk_tuple([l.args[1], l.args[2]]), t.mk_tuple([upd[0][1].args[1], upd[0][1].args[2]]))
      body = self.cofactor(body, cc)
      m = t.mk_map([idx], body, dom, TRUE if cc is TRUE else t.val(cc))
      if init.op == 'dict' and not init.args: return self.dict_from_pairs(m)
      return raw('dictupd', init, m)
    if k == 'setadd':
      body = rebuild(lambda l: l.args[1], upd[0][1].args[1])
      m = t.mk_map([idx], self.cofactor(body, cc), dom, TRUE if cc is TRUE else t.val(cc))
      if init.op == 'set' and not init.args: return raw('setof', m)
      return raw('setunion', init, raw('setof', m))
    return None

  def cofactor(self, body, cc):
    """Simplify body under the (filter) diagram cc when cc is a cube."""
    cs = t.cubes(cc, 4)
    if len(cs) == 1 and cs[0]: return t.assume(body, {a: b for a, b in cs[0].items()})
    return body

  def setchain(self, l, p):
    return l.args[0] is p and not t.mentions(l.args[1], p) and not t.mentions(l.args[2], p)

  def poly_incr(self, l, p):
    pd = t.poly_of(l)
    m = ((p, 1),)
    if pd.get(m) != 1: return None
    rest = {k: v for k, v in pd.items() if k != m}
    r = t.from_poly(rest)
    if t.mentions(r, p): return None
    return r

  # ------------------------------------------------------------ entry points
  def find(self, path):
    """'vmoe.mod:Class.method' or 'vmoe.mod:func' -> (module, node, cls) or None."""
    modname, q = path.split(':')
    m = self.module(modname)
    if not isinstance(m, Module): return None
    parts = q.split('.')
    e = m.names.get(parts[0])
    if e is None: return None
    if e[0] == 'from':      # re-exported
      return self.find(f'{e[1]}:{q if e[2] == parts[0] else ".".join([e[2]] + parts[1:])}')
    if len(parts) == 1: return (modname, e[1], None)
    if e[0] != 'class': return None
    cls = f'{modname}.{parts[0]}'
    self.classes.setdefault(cls, (modname, e[1]))
    f = self.find_in_class(cls, parts[1])
    if f is None: return None
    return (f[2], f[3], cls, f[1])

  def analyze(self, path, bind=None, self_bind=None, opaque=(), callhook=None, args=None, then=None, then_kw=(), attrs=None):
    """Abstractly run one function with symbolic parameters."""
    self.reset()
    self.opaque = set(opaque)
    self.callhook = callhook
    found = self.find(path)
    if found is None: raise AnalysisError(f'anchor {path} not found')
    st = State()
    st.frames[0] = {}
    for (b, n), v in (attrs or {}).items(): st.store[('attr', b, n)] = v
    bind = dict(bind or {})
    if len(found) == 4:
      modname, node, cls, defcls = found
      fn = self.mod_func(modname, node, cls=defcls)
      decos = [self.deco_name(d, modname) for d in node.decorator_list]
      selfv = raw('self', cls) if 'classmethod' not in decos else raw('cls', cls)
      if self_bind:
        for k, v in self_bind.items(): st.store[('attr', selfv, k)] = const(v) if not isinstance(v, T) else v
    else:
      modname, node, _ = found
      if not isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)): raise AnalysisError(f'{path} is not a function')
      fn = self.mod_func(modname, node)
      selfv = None; decos = []
    a = node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    av = []
    for i, n in enumerate(names):
      if i == 0 and selfv is not None and 'staticmethod' not in decos: av.append(selfv); continue
      v = bind.get(n, sym(n))
      v = const(v) if not isinstance(v, T) else v
      av.append(self.thaw(v, st))
    kw = []
    for x in a.kwonlyargs:
      v = bind.get(x.arg, sym(x.arg))
      kw.append((x.arg, const(v) if not isinstance(v, T) else self.thaw(v, st)))
    if a.vararg: av.append(raw('star', bind.get(a.vararg.arg, sym('*' + a.vararg.arg))))
    if a.kwarg: kw.append((raw('kwstar'), bind.get(a.kwarg.arg, sym('**' + a.kwarg.arg))))
    self.state = st
    v = self.call_func(fn, av, kw, st, node)
    first = v
    if then is not None:
      # call the returned function with symbolic arguments
      self.stack.append(('<then>', modname, 0))
      v = self.call(v, [self.thaw(x, st) for x in then], list(then_kw), st, node)
      self.stack.pop()
    r = Result()
    r.first = first
    r.raw = v
    r.dead = st.dead
    r.ret = self.to_term(v, st)
    r.events = self.events
    r.state = st
    r.selfv = selfv
    r.params = dict(zip(names, av))
    r.file = os.path.relpath(self.modules[modname].path, self.root)
    r.line = node.lineno
    r.path = path
    return r

  def session(self, callhook=None, opaque=()):
    """Fresh state for driving several abstract calls by hand."""
    self.reset()
    self.opaque = set(opaque)
    self.callhook = callhook
    st = State()
    st.frames[0] = {}
    return st

  def obj_of(self, path):
    """A symbolic instance of the class `mod:Class`, or None."""
    found = self.find(path)
    if found is None or not isinstance(found[1], ast.ClassDef): return None
    return raw('self', self.class_term(found[0], found[1]).args[0])

  def fn(self, path):
    found = self.find(path)
    if found is None: raise AnalysisError(f'anchor {path} not found')
    if len(found) == 4: return self.mod_func(found[0], found[1], cls=found[3])
    if isinstance(found[1], ast.ClassDef): return self.class_term(found[0], found[1])
    return self.mod_func(found[0], found[1])

  def thaw(self, v, st):
    """Mutable containers given as bindings become references."""
    if v.op in ('dict', 'list'): return self.new_ref(v, st)
    return v


def mentions_any(x, ss):
  if not ss: return False
  sub = t.subterms(x)
  return any(s in sub for s in ss)

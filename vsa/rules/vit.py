"""C37: the networks are the documented transformers: blocks, positions, pooling, heads, towers."""
import ast
import itertools

from .. import arith, compare, dicts, q, tensor as tz, terms as t, tq
from ..framework import prop
from ..terms import T, NONE, FALSE, TRUE, const, glob, raw, sym
from . import routers
from .moe import spec

V, TT, TR = 'vmoe.nn.vit_moe', 'vmoe.projects.contrastive.models', 'vmoe.projects.contrastive.trainer'
PC = 'vmoe.utils.partialclass'
L = 'flax.linen.'
B, H, W, C, N, Q = [sym(n) for n in ('B', 'H', 'W', 'C', 'N', 'Q')]
INP = sym('inputs')
SIG = {'Dropout': ('rate', 'broadcast_dims', 'deterministic'), 'Dense': ('features', 'use_bias'), 'Conv': ('features', 'kernel_size', 'strides', 'padding'), 'Embed': ('num_embeddings', 'features'),
       'LayerNorm': ('epsilon', 'dtype'), 'MultiHeadDotProductAttention': ('num_heads', 'dtype'), 'constant': ('value',)}


@prop('C37', 'Value-flow terms of the network: what every layer is applied to and the options it gets; index-notation normal forms of token, position and pooling arrays and of the contrastive logits and loss, compared with specification programs; path conditions of the refusals.', floor=100)
def c37(ctx):
  for f in (block, moe_block, encoder, positions, vision, map_head, external, text, two_tower, loss, embeds, defaults, routers.moe_block, routers.encoders_sum, routers.ensemble_encoder, routers.ensemble_block): ctx.section(f)


XAVIER = raw('call', glob(L + 'initializers.xavier_uniform'), (), ())


def par(r, k=1): return list(r.params.values())[k]


def ctor(x):
  """(class or callable, options) of a module construction; options given in steps are merged."""
  if x.op == 'obj':
    return raw('cls', x.args[0]), dict(x.args[1])
  if x.op != 'call': return None
  f, args, kw = x.args
  kw = {k: v for k, v in kw if isinstance(k, str)} if all(isinstance(k, str) for k, _ in kw) else None
  if kw is None: return None
  if f.op == 'opaque' and f.args[0].endswith('partialclass') or t.is_glob(f, 'functools.partial'):
    if not args or len(args) > 1: return None
    inner = ctor(args[0])
    return (inner[0], {**inner[1], **kw}) if inner else (args[0], kw)
  if f.op == 'call':
    inner = ctor(f)
    if inner and (f.args[0].op == 'opaque' or t.is_glob(f.args[0], 'functools.partial')): return (inner[0], {**inner[1], **kw}) if not args else None
    return None
  if f.op == 'glob':
    names = SIG.get(f.args[0].rsplit('.', 1)[-1], ())
    if len(args) > len(names): return None
    kw = {**dict(zip(names, args)), **kw}
  elif args: return None
  return f, kw


def layers(x, name):
  """Applications of layers of a kind within a term: [(application, options, inputs)]."""
  out = []
  for y in sorted({y for y in t.subterms(x)}, key=lambda y: y.uid):
    if y.op != 'call': continue
    c = ctor(y.args[0])
    if c is None: continue
    f = c[0]
    if callable(name) and name(f) or not callable(name) and ((f.op == 'glob' and f.args[0].rsplit('.', 1)[-1] == name) or (f.op == 'attr' and f.args[1] == name)): out.append((y, c[1], y))
  return out


def named(y, name):
  """Does this node refer to something of this name (or to something not followed)?"""
  return y.op in ('glob', 'cls', 'opaque', 'obj') and isinstance(y.args[0], str) and name in y.args[0] or y.op == 'attr' and y.args[1] == name or y.op == 'unknown'


def one(ctx, rule, w, x, name):
  ls = layers(x, name)
  if not ls and isinstance(name, str) and x.op not in ('unknown', 'raise') and not t.contains(x, lambda y: named(y, name)):
    ctx.ob(rule, w, False, f'{name} is not used')
    return None
  if len(ls) != 1:
    ctx.undecided(rule, w, f'{len(ls)} uses of {name}')
    return None
  return ls[0]


def check(ctx, rule, w, got, want, what):
  ok = True if got is want else compare.same(got, want) if isinstance(got, T) else None
  if ok is None: ctx.undecided(rule, w, f'{what}: {t.show(got, 3)}')
  else: ctx.ob(rule, w, ok, f'{what} is {t.show(got, 4)[:300]}, not {t.show(want, 4)[:300]}')
  return ok


def options(ctx, rule, w, opts, want, what):
  """want: option -> (value, default when left out)."""
  for k, v in want.items():
    v, d = v if isinstance(v, tuple) else (v, None)
    g = opts.get(k, d)
    if g is None: ctx.ob(rule, w, False, f'{what} is not given {k}')
    else: check(ctx, rule, w, g, v, f'{k} of {what}')


# ---------------------------------------------------------------- encoder block
def block(ctx):
  r = ctx.analyze(f'{V}:EncoderBlock.__call__')
  w = f'{r.file} EncoderBlock'
  S = lambda n: t.attr(r.selfv, n)
  INP = par(r)
  a = one(ctx, 'attention', w, r.ret, 'MultiHeadDotProductAttention')
  d = one(ctx, 'attention', w, r.ret, 'Dropout')
  m = one(ctx, 'mlp', w, r.ret, 'mlp_block')
  if a is None or d is None or m is None: return
  options(ctx, 'attention', w, a[1], {'num_heads': S('num_heads'), 'dropout_rate': (S('attention_dropout_rate'), const(0.0)), 'normalize_qk': (S('attention_qk_norm'), FALSE), 'deterministic': (S('deterministic'), NONE), 'dtype': (S('dtype'), NONE), 'broadcast_dropout': (FALSE, TRUE), 'kernel_init': (XAVIER, NONE)}, 'the attention')
  options(ctx, 'attention', w, d[1], {'rate': S('dropout_rate'), 'deterministic': (S('deterministic'), NONE)}, 'the dropout')
  options(ctx, 'mlp', w, m[1], {'dtype': (S('dtype'), NONE), 'deterministic': (S('deterministic'), FALSE)}, 'the MLP')
  lns = [y for y in layers(r.ret, 'LayerNorm')]
  first = [y for y in lns if y[0].args[1] == (INP,)]
  ki = q.kws(a[0])
  qi = ki.get('inputs_q', a[0].args[1][0] if a[0].args[1] else None)
  if qi is INP:
    ctx.ob('pre-norm', w, False, 'the attention gets the input of the block without normalisation')
    return
  if len(first) != 1:
    ctx.ob('pre-norm', w, False if len(lns) == 2 and not first else None or not lns, 'no layer normalisation is applied to the input of the block') if len(lns) == 2 and not first else ctx.undecided('pre-norm', w, f'{len(first)} normalisations of the input')
    return
  n1 = first[0][0]
  kw = q.kws(a[0])
  ins = list(a[0].args[1])
  qi = kw.get('inputs_q', ins[0] if ins else None)
  kv = [v for k, v in kw.items() if k in ('inputs_kv', 'inputs_k', 'inputs_v')] + ins[1:]
  if qi is not None: check(ctx, 'attention', w, qi, n1, 'the query')
  for v in kv: check(ctx, 'attention', w, v, n1, 'the key and value')
  if d[0].args[1]: check(ctx, 'attention', w, d[0].args[1][0], a[0], 'the input of the dropout')
  x1 = t.binop('+', d[0], INP)
  n2 = m[0].args[1][0] if m[0].args[1] else NONE
  second = [y for y in lns if y[0] is n2]
  if second: check(ctx, 'residual', w, n2.args[1][0], x1, 'what the second normalisation gets')
  else: check(ctx, 'residual', w, n2, raw('call', raw('call', glob(L + 'LayerNorm'), (), (('dtype', S('dtype')),)), (x1,), ()), 'the input of the MLP')
  for y in lns: options(ctx, 'pre-norm', w, y[1], {'dtype': (S('dtype'), NONE)}, 'a normalisation')
  made = [e for e in r.events if e.kind in ('call', 'new') and e.fn is not None and t.is_glob(e.fn, L + 'LayerNorm')]
  ctx.ob('own-parameters', w, len(made) >= 2 or not made, 'the two normalisations share their parameters')
  y = m[0]
  dense = t.binop('+', x1, y)
  moe = raw('tuple', t.binop('+', x1, t.item(y, const(0))), t.item(y, const(1)))
  lv = [v for c, v in t.leaves(r.ret)]
  if all(v in (dense, moe) for v in lv) and dense in lv and moe in lv: ctx.ob('residual', w, True)
  elif dense not in lv or moe not in lv:
    bad = [v for v in lv if v not in (dense, moe)]
    for v in bad:
      want = moe if v.op == 'tuple' else dense
      if v.op == 'tuple' and len(v.args) == 2:
        for g, x2, nm in zip(v.args, moe.args, ('output', 'metrics')): check(ctx, 'residual', w, g, x2, f'the {nm} of the block')
      else: check(ctx, 'residual', w, v, want, 'the output of the block')
    if not bad: ctx.undecided('residual', w, 'cases of the output')


# ---------------------------------------------------------------- MoE block
def moe_block(ctx):
  r = ctx.analyze(f'{V}:MlpBlock.__call__')
  w = f'{r.file} MlpBlock'
  if r.ret.op == 'call':
    d = q.kwarg(r.ret, 'deterministic', 1)
    ctx.ob('mlp', w, d is t.attr(r.selfv, 'deterministic'), f'the MLP runs with deterministic={t.show(d, 2) if d is not None else "default"}')
    ctx.ob('mlp', w, r.ret.args[1][:1] == (par(r),), f'the MLP is given {t.show(r.ret, 2)}')
  else: ctx.undecided('mlp', w, t.show(r.ret, 3))
  C_ = f'{V}.MlpMoeBlock.'
  r = ctx.analyze(f'{V}:MlpMoeBlock.__call__', opaque=[C_ + 'create_router', 'vmoe.moe.sparse_moe_spmd', C_ + 'create_split_rngs'])
  w = f'{r.file} MlpMoeBlock'
  S = lambda n: t.attr(r.selfv, n)
  ap = sorted({y for y in t.subterms(r.ret) if y.op == 'call' and y.args[0].op == 'call' and y.args[0].args[0].op == 'call' and y.args[0].args[0].args[0] is raw('opaque', 'vmoe.moe.sparse_moe_spmd')}, key=lambda y: y.uid)
  ro = sorted({y for y in t.subterms(r.ret) if y.op == 'call' and y.args[0].op == 'call' and y.args[0].args[0] is raw('opaque', C_ + 'create_router')}, key=lambda y: y.uid)
  if len(ap) == 1 and len(ro) == 1:
    ly = ap[0].args[0]
    options(ctx, 'experts', w, q.kws(ly), {'mlp_dim': S('mlp_dim'), 'dropout_rate': (S('dropout_rate'), const(0.0)), 'dtype': (S('dtype'), NONE), 'deterministic': (S('deterministic'), FALSE)}, 'the experts')
    mk = ly.args[0]
    ctx.ob('experts', w, mk.args[1][:1] == (raw('cls', f'{V}.MlpBlock'),), f'the experts are {t.show(mk, 2)}')
    kw = q.kws(mk)
    ctx.ob('experts', w, t.contains(kw.get('split_rngs', NONE), lambda y: y.op == 'opaque' or y is S('split_rngs')), f'the experts draw with split_rngs={t.show(kw.get("split_rngs", NONE), 2)}')
    va = kw.get('variable_axes')
    if va is not None and va.op == 'dict': ctx.ob('experts', w, any(t.is_const(k, 'params') and t.is_const(v, 0) for k, v in va.args), 'the experts share their parameters')
    if len(ap[0].args[1]) == 2:
      d, x = ap[0].args[1]
      check(ctx, 'experts', w, d, t.item(ro[0], const(0)), 'the dispatcher')
      if ro[0].args[1]: ctx.ob('experts', w, ro[0].args[1][0] is x, 'the router and the experts see different tokens')
    ctx.ob('experts', w, t.item(r.ret, const(1)) is t.item(ro[0], const(1)) or t.item(r.ret, const(1)).op not in ('item', 'dict'), f'the metrics are {t.show(t.item(r.ret, const(1)), 2)}')
  else: ctx.undecided('experts', w, f'{len(ap)} applications of the experts')
  r = ctx.analyze(f'{V}:MlpMoeBlock.create_split_rngs')
  w = f'{r.file} MlpMoeBlock.create_split_rngs'
  SR = t.attr(r.selfv, 'split_rngs')
  isb = [a for a in t.inner_atoms(r.ret) if a.op == 'isinstance' or q.is_call(a, 'isinstance') or (a.op == 'truth' and q.is_call(a.args[0], 'isinstance'))]
  if len(isb) == 1:
    for case in (True, False):
      x = t.assume(r.ret, {isb[0]: case})
      for k in ('params', 'dropout'):
        try: c, v = dicts.look(x, const(k))
        except dicts.Opaque as e:
          ctx.undecided('split-rngs', w, str(e))
          continue
        if case: ctx.ob('split-rngs', w, v is SR or v is not None and v.op == 'truth' and v.args[0] is SR, f'{k} is split if {t.show(v, 3) if v is not None else "never"}')
        elif v is not None and len(t.cond_atoms(t.cond(v))) == 1:
          a1, = t.cond_atoms(t.cond(v))
          good = a1.op == 'in' and t.is_const(a1.args[0], k) and t.mentions(a1, SR)
          ctx.ob('split-rngs', w, good and [t.cond(t.assume(t.cond(v), {a1: b})) for b in (True, False)] == [TRUE, FALSE] or a1.op != 'in', f'{k} is split if {t.show(v, 3)}')
        else: ctx.ob('split-rngs', w, v is not None and (v.op == 'in' and t.is_const(v.args[0], k) and t.mentions(v, SR) or v.op not in ('in', 'const')), f'{k} is split if {t.show(v, 3) if v is not None else "never"}')
  else: ctx.undecided('split-rngs', w, 'cases')
  for given in (True, False):
    rt = d_(name=sym('RN'), k=sym('KK'), **({'deterministic': sym('DET')} if given else {}))
    r = ctx.analyze(f'{V}:MlpMoeBlock.create_router', opaque=['vmoe.utils.parse_call'], self_bind={'router': rt})
    w = f'{r.file} MlpMoeBlock.create_router'
    S = lambda n: t.attr(r.selfv, n)
    x = r.ret
    if x.op != 'call':
      ctx.undecided('router', w, t.show(x, 3))
      continue
    ctx.ob('router', w, t.mentions(x.args[0], sym('RN')), 'the router is not of the class that its name option gives')
    parsed_router(ctx, w, x)
    flat, vague = {}, False
    pcall = next(iter(sorted((y for y in t.subterms(x) if y.op == 'call' and y.args[0] is raw('opaque', 'vmoe.utils.parse_call')), key=lambda y: y.uid)), NONE)
    named = {k for k, _ in x.args[2] if isinstance(k, str)}
    for k, v in x.args[2]:
      if isinstance(k, str): flat[k] = v
      else:
        for n in ('num_experts', 'k', 'dtype', 'deterministic', 'name'):
          try: c, val = dicts.look(v, const(n))
          except dicts.Opaque: c, val = None, None
          if n == 'name':
            if val is not None and any(x_ is sym('RN') for _, x_ in t.leaves(val)): flat['(name)'] = sym('RN')
          elif c is t.TRUE and val is not None: flat[n] = val
          elif n not in named and not (c is t.FALSE or val is not None and val.op == 'item' and val.args[0] is t.item(pcall, const(2))): vague = True
    if vague:
      ctx.undecided('router', w, t.show(x, 4))
      continue
    options(ctx, 'router', w, flat, {'num_experts': S('num_experts'), 'k': sym('KK'), 'dtype': (S('dtype'), NONE), 'deterministic': sym('DET') if given else S('deterministic')}, 'the router')
    ctx.ob('router', w, not any(v is sym('RN') for v in flat.values()), 'the class name of the router is given to it as an option')


  for rt in (NONE, d_(k=sym('KK'))):
    r = ctx.analyze(f'{V}:MlpMoeBlock.create_router', opaque=['vmoe.utils.parse_call'], self_bind={'router': rt})
    for y in q.calls(r.ret, 'vmoe.utils.parse_call') or [y for y in t.subterms(r.ret) if y.op == 'call' and y.args[0] is raw('opaque', 'vmoe.utils.parse_call')]:
      if y.args[1] and t.is_const(y.args[1][0]): ctx.ob('router', w, t.is_const(y.args[1][0], 'NoisyTopExpertsPerItemRouter'), f'the router of a block without a choice is {t.show(y.args[1][0])}')


def parsed_router(ctx, w, x):
  """The name of the router may hold a module and arguments: all three parts are used."""
  ps = sorted({y for y in t.subterms(x) if y.op == 'call' and y.args[0] is raw('opaque', 'vmoe.utils.parse_call')}, key=lambda y: y.uid)
  if len(ps) != 1:
    ctx.undecided('router', w, f'{len(ps)} parsed names')
    return
  p, = ps
  dm = q.kwarg(p, 'default_module', 1)
  if dm is None or t.is_const(dm) or dm.op == 'glob': ctx.ob('router', w, dm is not None and dm.op == 'glob' and dm.args[0].endswith('vmoe.nn.routing'), f'routers are looked up in {t.show(dm, 2) if dm is not None else "no module"}')
  if any(y.op != 'item' and p in y.args for y in t.subterms(x) if isinstance(y, T)): return      # passed on as a whole
  ctx.ob('router', w, x.args[0] is t.item(p, const(0)) or t.mentions(x.args[0], p), f'the router is {t.show(x.args[0], 3)}')
  for i, what in ((1, 'positional'), (2, 'named')):
    ctx.ob('router', w, t.mentions(raw('tuple', *x.args[1], *(v for _, v in x.args[2])), t.item(p, const(i))), f'the {what} arguments within the name of the router are dropped')


# ---------------------------------------------------------------- defaults
DEFAULTS = {
    V: {
        'MlpBlock': dict(dropout_rate=0.0, deterministic=False),
        'MlpMoeBlock': dict(dropout_rate=0.0, deterministic=False, router=None, dtype=None, split_rngs=False),
        'MapHead': dict(qk_norm=False),
        'EncoderBlock': dict(dtype=None, dropout_rate=0.0, attention_dropout_rate=0.0, attention_qk_norm=False, deterministic=False),
        'EncoderMoe': dict(dropout_rate=0.0, attention_dropout_rate=0.0, attention_qk_norm=False, moe=None, deterministic=False, dtype=None, position_emb=None, DEFAULT_SINCOS2D_TEMPERATURE=10000.0),
        'VisionTransformerMoe': dict(classifier='token', representation_size=None, deterministic=False, head_bias_init=0.0, head_kernel_zero_init=True, encoder_cls='EncoderMoe')},
    'vmoe.nn.vit_moe_ensemble': {'VisionTransformerMoeEnsemble': dict(encoder_cls='EncoderMoeEnsemble')},
}


def defaults(ctx):
  """What a layer does when an option is left out."""
  known = {n.name for mod in DEFAULTS for n in ctx.eng.module(mod).tree.body if isinstance(n, ast.ClassDef)}
  for mod, classes in DEFAULTS.items():
    m = ctx.eng.module(mod)
    for cls, want in classes.items():
      c = next((n for n in m.tree.body if isinstance(n, ast.ClassDef) and n.name == cls), None)
      if c is None: continue
      vals = {n.target.id: n.value for n in c.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None}
      vals.update({x.id: n.value for n in c.body if isinstance(n, ast.Assign) for x in n.targets if isinstance(x, ast.Name)})
      for k, v in want.items():
        g = vals.get(k)
        if isinstance(g, ast.Constant): ctx.ob('default', f'{mod} {cls}', g.value == v and isinstance(g.value, bool) == isinstance(v, bool), f'{k} is {g.value!r} when it is left out, not {v!r}')
        elif k.endswith('_cls') and isinstance(g, (ast.Name, ast.Attribute)) and ast.unparse(g).rpartition('.')[2] in known: g = ast.unparse(g).rpartition('.')[2]; ctx.ob('default', f'{mod} {cls}', g == v, f'{k} is {g} when it is left out, not {v}')


# ---------------------------------------------------------------- encoder
def unrolled(ctx, w, lam, inits, k, LY, ens, x0):
  """Three blocks written out, for each choice of the MoE layers: the class of every block, and where the members are copied."""
  inits = list(inits.args) if isinstance(inits, T) else list(inits)
  if any(y.op == 'unknown' for y in inits): return
  for n in range(4):
    for chosen in itertools.combinations(range(3), n):
      st = inits
      for i in range(3):
        y = t.beta(lam, [const(i)] + st)
        y = t.assume(y, {raw('in', const(i), LY): i in chosen})
        if y.op != 'tuple' or len(y.args) not in (len(st), len(st) + 1) or len(y.args) > len(st) and y.args[-1] is not FALSE:
          ctx.undecided('blocks', w, t.show(y, 2))
          return
        st = list(y.args)[:len(st)]
      got, x = [], st[k]
      while x is not inits[k]:
        if x.op == 'item' and t.is_const(x.args[1], 0) and x.args[0].op == 'call': x = x.args[0]
        if x.op != 'call': break
        c = ctor(x.args[0])
        if c is not None and c[0] is raw('cls', f'{V}.EncoderBlock'):
          mb = ctor(c[1].get('mlp_block', NONE))
          got.append(mb[0].args[0].rsplit('.', 1)[-1] if mb else '?')
          nm = c[1].get('name')
          if nm is not None and t.is_const(nm): got[-1] += ' ' + str(t.cval(nm))
          if len(x.args[1]) != 1: break
          x = x.args[1][0]
        elif q.is_call(x, 'jax.numpy.repeat'):
          got.append('copies')
          x = x.args[1][0]
        else: break
      if x is not inits[k] or any(g.startswith('?') for g in got):
        ctx.undecided('blocks', f'{w}, MoE layers {chosen} of 3', t.show(x, 3))
        continue
      moe = 'MlpMoeWithNoisyTopExpertsPerItemEnsembleRouter' if ens else 'MlpMoeBlock'
      want = []
      for i in range(3):
        if ens and chosen and i == chosen[0]: want.append('copies')
        want.append(moe if i in chosen else 'MlpBlock')
      kinds = [g.split(' ')[0] for g in got[::-1]]
      ctx.ob('blocks', f'{w}, MoE layers {chosen} of 3', kinds == want, f'the blocks are {kinds}, not {want}')
      names = [g.split(' ', 1)[1] for g in got if ' ' in g]
      ctx.ob('block-names', f'{w}, MoE layers {chosen} of 3', len(set(names)) == len(names), f'blocks share the name of their parameters: {names[::-1]}')


def encoder(ctx):
  LY, NE, MD2 = sym('LAYERS'), sym('NE'), sym('MD2')
  AP = f'{V}.EncoderMoe.add_position_emb'
  moe = raw('dict', (const('layers'), LY), (const('num_experts'), NE), (const('mlp_dim'), MD2))
  VE = 'vmoe.nn.vit_moe_ensemble'
  many = raw('dict', *moe.args, (const('ensemble_size'), sym('ES')))
  for nm, mo in (('moe', moe), ('dense', NONE), ('ensemble', many)):
    ens = nm == 'ensemble'
    r = ctx.analyze(f'{VE}:EncoderMoeEnsemble.__call__' if ens else f'{V}:EncoderMoe.__call__', self_bind={'moe': mo}, opaque=[PC, AP, VE + '._parse'])
    w = f'{r.file} EncoderMoe{"Ensemble" if ens else f" ({nm})"}'
    if ens: nm = 'moe'
    INP = par(r)
    S = lambda n: t.attr(r.selfv, n)
    out = t.item(r.ret, const(0))
    ln = ctor(out.args[0]) if out.op == 'call' else None
    if ln is None or not t.is_glob(ln[0], L + 'LayerNorm'):
      if t.contains(out, lambda y: t.is_glob(y, L + 'LayerNorm')): ctx.undecided('final-norm', w, t.show(out, 3))
      else: ctx.ob('final-norm', w, False, f'the output is {t.show(out, 3)}, without the final normalisation')
      x = out
    else:
      ctx.ob('final-norm', w, True)
      x = out.args[1][0]
    if not (x.op == 'item' and x.args[0].op == 'fold' and t.is_const(x.args[1])):
      ctx.undecided('blocks', w, t.show(x, 3))
      continue
    dom, inits, lam = x.args[0].args[:3]
    k = t.cval(x.args[1])
    check(ctx, 'blocks', w, dom.args[0] if dom.op == 'range' and len(dom.args) == 1 else dom, S('num_layers') if dom.op == 'range' and len(dom.args) == 1 else raw('call', glob('range'), (S('num_layers'),), ()), 'the number of blocks')
    x0 = inits.args[k] if isinstance(inits, T) else inits[k]
    pos = raw('call', raw('opaque', AP), (r.selfv, INP), ())
    d = ctor(x0.args[0]) if x0.op == 'call' else None
    if d is not None and t.is_glob(d[0], L + 'Dropout'):
      options(ctx, 'positions-first', w, d[1], {'rate': S('dropout_rate'), 'deterministic': (S('deterministic'), NONE)}, 'the dropout')
      x0 = x0.args[1][0]
    elif x0 is pos: ctx.ob('positions-first', w, False, 'Dropout is not used on the tokens')
    elif t.mentions(x0, pos) or not t.mentions(x0, INP): ctx.undecided('positions-first', w, t.show(x0, 3))
    if x0.op == 'call' and x0.args[0].op == 'opaque': ctx.ob('positions-first', w, x0.args[1][-1] is INP, f'positions are added to {t.show(x0, 3)}')
    else: ctx.ob('positions-first', w, t.contains(x0, lambda y: y.op == 'opaque' and y.args[0] == AP) or not t.mentions(x0, INP), 'no positions are added to the tokens')
    vs, body = t.open_lam(lam)
    nx = body.args[k]
    if nm == 'moe': unrolled(ctx, w, lam, inits, k, LY, ens, x0)
    elif t.contains(nx, lambda y: y is raw('cls', f'{V}.MlpMoeBlock')) and not t.contains(nx, lambda y: y.op in ('getdef', 'dictmerge', 'item')): ctx.ob('moe-layers', w, False, 'an encoder without MoE options has blocks of experts')
    cases = [(True, FALSE), (False, TRUE)]
    ats = sorted((a for a in t.inner_atoms(nx) if not (ens and a.op == 'truth' and a.args[0] in vs)), key=lambda a: a.uid)
    mem = raw('in', vs[0], LY)
    if nm == 'moe':
      if ats == [mem]: ctx.ob('moe-layers', w, True)
      elif len(ats) == 1 and ats[0].op == 'in' and t.mentions(ats[0], vs[0]):
        ok = check(ctx, 'moe-layers', w, ats[0].args[0], vs[0], 'the block tested against the MoE layers')
        if ok: check(ctx, 'moe-layers', w, ats[0].args[1], LY, 'the set of MoE layers')
      elif not t.mentions(nx, LY): ctx.ob('moe-layers', w, False, 'the list of MoE layers has no influence on the blocks')
      else: ctx.undecided('moe-layers', w, f'{[t.show(a, 3) for a in ats][:2]}')
    elif ats: ctx.undecided('moe-layers', w, f'{[t.show(a, 3) for a in ats][:2]}')
    for is_moe in ((True, False) if nm == 'moe' else (False,)):
      y = t.assume(nx, {a: is_moe for a in ats})
      if y is vs[1 + k]:
        ctx.ob('blocks', w, False, f'a block that is {"" if is_moe else "not "}in the MoE layers is left out')
        continue
      if is_moe and y.op == 'item':
        ctx.ob('threaded', w, t.is_const(y.args[1], 0), f'the next block gets {t.show(y, 2)}')
        y = y.args[0]
      c = ctor(y.args[0]) if y.op == 'call' else None
      if c is None or c[0] is not raw('cls', f'{V}.EncoderBlock'):
        ctx.undecided('blocks', w, t.show(y, 3))
        continue
      for _, gi in t.leaves(y.args[1][0] if y.args[1] else NONE):
        if ens and is_moe and q.is_call(gi, 'jax.numpy.repeat'): gi = gi.args[1][0]   # the members start here (C12)
        check(ctx, 'threaded', w, gi, vs[1 + k], 'the input of a block')
      options(ctx, 'block-options', w, c[1], {'num_heads': S('num_heads'), 'dropout_rate': (S('dropout_rate'), const(0.0)), 'attention_dropout_rate': (S('attention_dropout_rate'), const(0.0)), 'attention_qk_norm': (S('attention_qk_norm'), FALSE),
                                              'deterministic': (S('deterministic'), FALSE), 'dtype': (S('dtype'), NONE)}, 'a block')
      name = c[1].get('name')
      if name is not None: ctx.ob('block-names', w, t.mentions(name, vs[0]), f'every block has the name {t.show(name)}')
      mb = ctor(c[1].get('mlp_block', NONE)) if c[1].get('mlp_block') is not None else None
      if mb is None:
        ctx.undecided('mlp', w, 'the MLP of the block')
        continue
      wc = VE + '.MlpMoeWithNoisyTopExpertsPerItemEnsembleRouter' if is_moe and ens else f'{V}.MlpMoeBlock' if is_moe else f'{V}.MlpBlock'
      ctx.ob('mlp', w, mb[0] is raw('cls', wc), f'a block that is {"" if is_moe else "not "}in the MoE layers gets {t.show(mb[0])}')
      options(ctx, 'mlp', w, mb[1], {'mlp_dim': MD2 if is_moe else S('mlp_dim'), 'dropout_rate': (S('dropout_rate'), const(0.0)), **({'num_experts': NE} if is_moe else {}), **({'ensemble_size': sym('ES')} if is_moe and ens else {})}, f'the {"MoE" if is_moe else "MLP"}')
      ctx.ob('mlp', w, 'layers' not in mb[1], 'the list of MoE layers is given to the MLP')
      if not is_moe: ctx.ob('mlp', w, 'num_experts' not in mb[1], 'MoE options are given to the dense MLP')
    if nm == 'moe':
      st = [e for e in r.events if e.kind == 'setitem' and e.loops]
      for e in st:
        v = e.args[1]
        ok = v.op == 'item' and t.is_const(v.args[1], 1) and v.args[0].op == 'call'
        ctx.ob('metrics', w, ok or not (v.op == 'item' and v.args[0].op == 'call'), f'the metrics of a block are {t.show(v, 3)}')
        ctx.ob('metrics', w, t.mentions(e.args[0], e.loops[-1].idx), 'the metrics of the blocks overwrite each other')


# ---------------------------------------------------------------- positions
def d_(**kw): return raw('dict', *((const(k), v if isinstance(v, T) else const(v)) for k, v in kw.items()))


def positions(ctx):
  path = f'{V}:EncoderMoe.add_position_emb'
  A = lambda pe, shape=None: ctx.analyze(path, self_bind={'position_emb': pe}, attrs={(INP, 'shape'): t.mk_tuple(shape)} if shape else {})
  r = A(d_(name='none'))
  w = f'{r.file} EncoderMoe.add_position_emb'
  check(ctx, 'no-positions', w, r.ret, INP, 'the result for none')
  for pe in (NONE, d_(), d_(name='learned')):
    r = A(pe)
    y = r.ret
    c = ctor(y.args[0]) if y.op == 'call' else None
    if c is None:
      if y is INP or not t.contains(y, lambda z: z.op == 'glob' and z.args[0].endswith('AddPositionEmbs')) and not t.mentions(y, INP): ctx.ob('learned', w, False, f'without a choice of positions the result is {t.show(y, 3)}')
      elif y is INP or t.contains(y, lambda z: t.is_glob(z, 'jax.numpy.sin')): ctx.ob('learned', w, False, f'the result for learned positions is {t.show(y, 3)}')
      else: ctx.undecided('learned', w, t.show(y, 3))
      continue
    ctx.ob('learned', w, c[0].op == 'glob' and c[0].args[0].endswith('AddPositionEmbs') and y.args[1] == (INP,), f'the result for learned positions is {t.show(y, 3)}')
    if 'posemb_init' in c[1] or True: check(ctx, 'learned', w, c[1].get('posemb_init', NONE), raw('call', glob(L + 'initializers.normal'), (), (('stddev', const(0.02)),)), 'the initialiser')
  r = A(d_(name='unheard-of'))
  ctx.ob('unknown-positions', w, r.ret is NONE or any(e.pc is TRUE for e in q.raises(r)), 'an unknown kind of positions is accepted')
  ctx.ob('unknown-positions', w, any(e.pc is TRUE for e in q.raises(r)), 'an unknown kind of positions is accepted')
  four = t.mul(const(4), Q)
  for temp in (None, sym('TEMP')):
    pe = d_(name='sincos2d', h=H, w=W, **({'temperature': temp} if temp else {}))
    for n, sp in ((t.mul(H, W), 'embed_all'), (t.add(t.mul(H, W), const(1)), 'embed_rest')):
      r = A(pe, [B, n, four])
      w2 = f'{w} sincos2d, {"tokens" if sp == "embed_all" else "class token and tokens"}'
      tv = temp or t.attr(r.selfv, 'DEFAULT_SINCOS2D_TEMPERATURE')
      hw, n0 = t.mul(H, W), n
      lits = {}
      for a in t.inner_atoms(r.ret):
        if a.op == 'eq':
          dlt = t.sub(a.args[0], a.args[1])
          if t.is_const(dlt): lits[a] = t.cval(dlt) == 0
      with tq.Dec(ctx, 'sincos2d', w2):
        z = tz.Tensor()
        z.declare(INP, [B, n, four])
        for y in (sym('TEMP'), t.attr(r.selfv, 'DEFAULT_SINCOS2D_TEMPERATURE')): z.env[y] = tz.Arr((), y)
        z.size_env[Q] = Q
        got = z.arr(t.assume(r.ret, lits))
        emb = spec(ctx, 'sincos', 'vit', h=H, w=W, q=Q, temperature=tv)
        want = z.arr(spec(ctx, sp, 'vit', inputs=INP, emb=emb))
        ctx.ob('sincos2d', w2, z.same(got, want), f'the positions are {z.show(got)[:600]}')
  r = A(d_(name='sincos2d', h=H, w=W), [B, N, C])
  rs = q.raises(r)
  try:
    for c in (0, 4, 6, 7, 8, 10, 12, 16, 18):
      for n in (5, 6, 7, 8, 12):
        refused = any(arith.ev(t.val(e.pc), {C: c, N: n, H: 2, W: 3, B: 2}) for e in rs)
        want = c % 4 != 0 or c < 8 or n not in (6, 7)
        ctx.ob('sizes', w, refused == want, f'a hidden size of {c} and {n} tokens of a 2 x 3 grid are {"refused" if refused else "accepted"}')
  except (arith.Open, ZeroDivisionError) as e: ctx.undecided('sizes', w, str(e))


# ---------------------------------------------------------------- vision transformer
def vision(ctx):
  path = f'{V}:VisionTransformerMoe.__call__'
  MH = f'{V}.MapHead.__call__'
  for cls in ('token', '0', 'gap', 'map'):
    for sc in (False, True):
      pe = d_(name='sincos2d', temperature=sym('TEMP')) if sc else d_(name='learned')
      enc = d_(position_emb=pe, num_heads=sym('NH'), mlp_dim=sym('MD'), attention_qk_norm=sym('QK'), other=sym('OTHER'))
      r = ctx.analyze(path, self_bind={'encoder': enc, 'classifier': const(cls)}, opaque=[MH])
      w = f'{r.file} VisionTransformerMoe ({cls}{", sincos2d" if sc else ""})'
      INP = par(r)
      S = lambda n: t.attr(r.selfv, n)
      cv = one(ctx, 'patches', w, r.ret, 'Conv')
      en = one(ctx, 'encoder', w, r.ret, 'encoder_cls')
      if cv is None or en is None: continue
      options(ctx, 'patches', w, cv[1], {'features': S('hidden_size'), 'kernel_size': S('patch_size'), 'strides': (S('patch_size'), const(1)), 'padding': (const('VALID'), const('SAME'))}, 'the patch embedding')
      check(ctx, 'patches', w, cv[0].args[1][0], INP, 'what is cut into patches')
      X = sym('PATCHES')
      sub = lambda y: t.subst(y, {cv[0]: X})
      o = {k: sub(v) for k, v in en[1].items()}
      options(ctx, 'encoder', w, o, {'num_heads': sym('NH'), 'mlp_dim': sym('MD'), 'attention_qk_norm': sym('QK'), 'other': sym('OTHER'), 'deterministic': S('deterministic')}, 'the encoder')
      p = o.get('position_emb')
      if p is None: ctx.ob('grid', w, False, 'the encoder is not told about the positions')
      else:
        want = {'name': const('sincos2d' if sc else 'learned')}
        if sc: want.update(temperature=sym('TEMP'), h=t.item(t.attr(X, 'shape'), const(1)), w=t.item(t.attr(X, 'shape'), const(2)))
        for k, v in want.items():
          try: c, g = dicts.look(p, const(k))
          except dicts.Opaque as e:
            ctx.undecided('grid', w, str(e))
            continue
          if t.cond(c) is FALSE: ctx.ob('grid', w, False, f'the encoder is not told {k} of the positions')
          elif t.cond(c) is TRUE:
            alt = {'h': t.item(t.attr(X, 'shape'), const(-3)), 'w': t.item(t.attr(X, 'shape'), const(-2))}.get(k)
            if g is alt: ctx.ob('grid', w, True)
            else: check(ctx, 'grid', w, g, v, f'{k} of the positions')
          else: ctx.undecided('grid', w, f'{k} is given if {t.show(c, 3)}')
      with tq.Dec(ctx, 'tokens', w):
        z = tz.Tensor()
        z.declare(X, [B, H, W, C])
        seq = sub(en[0].args[1][0])
        ps = [y for y in t.subterms(seq) if q.is_mcall(y, 'param')]
        if cls == 'token':
          if len(ps) == 1:
            P = sym('CLS')
            pm = ps[0]
            if len(pm.args[1]) > 1 and pm.args[1][1].op == 'glob': ctx.ob('class-token', w, pm.args[1][1].args[0].endswith(('.zeros', '.zeros_init')), f'the class token starts as {t.show(pm.args[1][1])}')
            shp = q.kwarg(pm, 'unbox', None) or (pm.args[1][2] if len(pm.args[1]) > 2 else None)
            if shp is not None and shp.op in ('tuple', 'list'):
              ctx.ob('class-token', w, len(shp.args) == 3 and t.is_const(shp.args[0], 1) and t.is_const(shp.args[1], 1), f'the class token has the shape {t.show(shp, 3)}')
            seq = t.subst(seq, {pm: P})
            z.declare(P, [const(1), const(1), C])
            got, want = z.arr(seq), z.arr(spec(ctx, 'with_token', 'vit', patches=X, cls=P))
            ctx.ob('tokens', w, z.same(got, want), f'the tokens are {z.show(got)[:400]}')
          elif not ps: ctx.ob('class-token', w, False, 'no class token is added')
          else: ctx.undecided('class-token', w, f'{len(ps)} parameters')
        elif ps: ctx.ob('class-token', w, False, 'a class token is added that the classifier does not read')
        else:
          got, want = z.arr(seq), z.arr(spec(ctx, 'without_token', 'vit', patches=X))
          ctx.ob('tokens', w, z.same(got, want), f'the tokens are {z.show(got)[:400]}')
      # what follows the encoder
      ENC = sym('ENCODED')
      ret = t.subst(r.ret, {t.item(en[0], const(0)): ENC})
      head(ctx, r, w, ret, ENC, en[0], cls, S, True)
  r = ctx.analyze(path, self_bind={'encoder': d_(num_heads=sym('NH')), 'classifier': const('unheard-of')}, opaque=[MH])
  ctx.ob('unknown-classifier', f'{r.file} VisionTransformerMoe', any(e.pc is TRUE for e in q.raises(r)), 'an unknown classifier is accepted')


def head(ctx, r, w, ret, ENC, en, cls, S, has_rep):
  """The pooled representation, the optional hidden layer, the classification layer and the metrics."""
  nc = raw('truth', S('num_classes'))
  none = raw('is', *sorted([NONE, S('representation_size')])) if has_rep else None
  ats = {a for a in t.inner_atoms(ret) if t.mentions(a, S('num_classes')) or has_rep and t.mentions(a, S('representation_size'))}
  if nc not in ats or (has_rep and none not in ats):
    for nm, a in (('num_classes', nc), ('representation_size', none)):
      if a is not None and a not in ats:
        none_ = t.subst(ret, {S(nm): NONE})
        if not t.mentions(ret, S(nm)): ctx.ob('head', w, False, f'{nm} is not used')
        elif none_.op == 'tuple' and t.contains(none_.args[0], lambda y: (c_ := ctor(y)) is not None and t.is_glob(c_[0], L + 'Dense') and c_[1].get('features') is NONE): ctx.ob('head', w, False, f'without {nm} a layer of no size is built')
        else: ctx.undecided('head', w, f'the test of {nm}')
    return
  for withhead in (True, False):
    for rep in ((True, False) if has_rep else (False,)):
      x = t.assume(ret, {nc: withhead, **({none: not rep} if has_rep else {})})
      if x.op != 'tuple' or len(x.args) != 2:
        ctx.undecided('head', w, t.show(x, 2))
        continue
      out, met = x.args
      ctx.ob('metrics', w, met is t.item(en, const(1)) or met is t.subst(t.item(en, const(1)), {}) or not (met.op == 'item' and met.args[0] is en) and met.op != 'dict', f'the metrics are {t.show(met, 2)}')
      if withhead:
        c = ctor(out.args[0]) if out.op == 'call' else None
        if c is None or not t.is_glob(c[0], L + 'Dense'):
          if t.contains(out, lambda y: t.is_glob(y, L + 'Dense')) and not rep: ctx.undecided('head', w, t.show(out, 3))
          elif not t.mentions(out, S('num_classes')): ctx.ob('head', w, False, f'with num_classes set the output is {t.show(out, 3)}')
          else: ctx.undecided('head', w, t.show(out, 3))
          continue
        o = c[1]
        zero = raw('truth', S('head_kernel_zero_init'))
        options(ctx, 'head', w, {k: v for k, v in o.items() if k != 'kernel_init'}, {'features': S('num_classes')}, 'the classification layer')
        bi = o.get('bias_init')
        ctx.ob('head', w, bi is not None and t.mentions(bi, S('head_bias_init')), 'the bias of the classification layer does not start at head_bias_init')
        if bi is not None: 
          bc = ctor(bi)
          if bc and t.is_glob(bc[0], L + 'initializers.constant'): check(ctx, 'head', w, bc[1].get('value', NONE), S('head_bias_init'), 'the initial bias')
        ki = o.get('kernel_init')
        ctx.ob('head', w, ki is not None and t.mentions(ki, S('head_kernel_zero_init')), 'head_kernel_zero_init is not used')
        if ki is not None and zero in t.inner_atoms(ki):
          check(ctx, 'head', w, t.assume(ki, {zero: True}), glob(L + 'initializers.zeros'), 'the kernel with head_kernel_zero_init')
          check(ctx, 'head', w, t.assume(ki, {zero: False}), glob(L + 'linear.default_kernel_init'), 'the kernel without head_kernel_zero_init')
        out = out.args[1][0]
      if has_rep:
        if rep:
          if q.is_call(out, L + 'tanh', 'jax.numpy.tanh', 'jax.nn.tanh', L + 'activation.tanh'):
            ctx.ob('representation', w, True)
            out = out.args[1][0]
            c = ctor(out.args[0]) if out.op == 'call' else None
            if c is None or not t.is_glob(c[0], L + 'Dense'): ctx.ob('representation', w, False, f'representation_size gives {t.show(out, 3)}') if not t.mentions(out, S('representation_size')) else ctx.undecided('representation', w, t.show(out, 3))
            else:
              options(ctx, 'representation', w, c[1], {'features': S('representation_size')}, 'the hidden layer')
              out = out.args[1][0]
          elif ctor(out.args[0] if out.op == 'call' else NONE) and t.is_glob(ctor(out.args[0])[0], L + 'Dense') or out.op == 'call' and out.args[0].op == 'glob':
            ctx.ob('representation', w, False, f'with a representation size the representation is {t.show(out, 3)}, without tanh')
            continue
          else:
            ctx.undecided('representation', w, t.show(out, 3))
            continue
        else:
          c = ctor(out.args[0]) if out.op == 'call' else None
          if c and c[0].op == 'glob' and c[0].args[0].endswith('IdentityLayer'): out = out.args[1][0]
          elif t.contains(out, lambda y: t.is_glob(y, L + 'Dense', L + 'tanh')): ctx.ob('representation', w, False, f'without a representation size the representation is {t.show(out, 3)}')
      pooled(ctx, w, out, ENC, cls)


def pooled(ctx, w, out, ENC, cls):
  if cls == 'map':
    y = out
    if y.op == 'call' and y.args[0].op == 'opaque' and y.args[0].args[0].endswith('MapHead.__call__'):
      ob, x = y.args[1][0], y.args[1][-1]
      check(ctx, 'pooling', w, x, ENC, 'what the attention pooling gets')
      c = ctor(ob)
      if c: options(ctx, 'pooling', w, c[1], {'num_heads': sym('NH'), 'mlp_dim': sym('MD'), 'qk_norm': (sym('QK'), FALSE)}, 'the attention pooling')
      else: ctx.undecided('pooling', w, t.show(ob, 3))
    elif t.contains(y, lambda s: s.op == 'opaque'): ctx.undecided('pooling', w, t.show(y, 3))
    else: ctx.ob('pooling', w, False, f'attention pooling gives {t.show(y, 3)}')
    return
  with tq.Dec(ctx, 'pooling', w):
    z = tz.Tensor()
    z.declare(ENC, [B, N, C])
    got, want = z.arr(unwind(out, ENC, 3)), z.arr(spec(ctx, {'token': 'first', '0': 'first', 'first': 'first', 'last': 'last', 'gap': 'gap', 'gmp': 'gmp'}[cls], 'vit', x=ENC))
    ctx.ob('pooling', w, z.same(got, want), f'the representation is {z.show(got)[:300]}')


def unwind(x, a, rank):
  """Number of axes made explicit."""
  return t.subst(x, {t.attr(a, 'ndim'): const(rank)})


# ---------------------------------------------------------------- attention pooling
def map_head(ctx):
  r = ctx.analyze(f'{V}:MapHead.__call__', opaque=[f'{V}.MlpBlock.__call__'])
  w = f'{r.file} MapHead'
  X = par(r)
  S = lambda n: t.attr(r.selfv, n)
  a = one(ctx, 'map-head', w, r.ret, 'MultiHeadDotProductAttention')
  if a is None: return
  options(ctx, 'map-head', w, a[1], {'num_heads': S('num_heads'), 'normalize_qk': (S('qk_norm'), FALSE), 'kernel_init': (XAVIER, NONE), 'deterministic': (TRUE, NONE)}, 'the attention')
  kw = q.kws(a[0])
  ins = list(a[0].args[1])
  qi = kw.get('inputs_q', ins[0] if ins else None)
  kv = [v for k, v in kw.items() if k in ('inputs_kv', 'inputs_k', 'inputs_v')] + ins[1:]
  for v in kv: check(ctx, 'map-head', w, v, X, 'what the probe attends to')
  if qi is not None:
    ps = [y for y in t.subterms(qi) if q.is_mcall(y, 'param')]
    ctx.ob('map-head', w, bool(ps), f'the query is {t.show(qi, 3)}, not a learned probe')
    if len(ps) == 1:
      pa = list(ps[0].args[1])
      if len(pa) > 1: check(ctx, 'map-head', w, pa[1], XAVIER, 'the initialiser of the probe')
      if len(pa) > 2 and pa[2].op in ('tuple', 'list'): ctx.ob('map-head', w, len(pa[2].args) == 3 and t.is_const(pa[2].args[0], 1) and t.is_const(pa[2].args[1], 1), f'the probe has the shape {t.show(pa[2], 3)}')
      with tq.Dec(ctx, 'map-head', w):
        z = tz.Tensor()
        z.declare(X, [B, N, C]); z.declare(ps[0], [const(1), const(1), C])
        got, want = z.arr(qi), z.arr(spec(ctx, 'probe', 'vit', p=ps[0], b=B))
        ctx.ob('map-head', w, z.same(got, want), f'the query is {z.show(got)}')
  ml = [y for y in t.subterms(r.ret) if y.op == 'call' and y.args[0].op == 'opaque' and y.args[0].args[0].endswith('MlpBlock.__call__')]
  if len(ml) != 1:
    ctx.undecided('map-head', w, f'{len(ml)} MLPs')
    return
  ob, x = ml[0].args[1][0], ml[0].args[1][-1]
  c = ctor(ob)
  if c: options(ctx, 'map-head', w, c[1], {'mlp_dim': S('mlp_dim'), 'deterministic': (TRUE, FALSE)}, 'the MLP')
  ln = ctor(x.args[0]) if x.op == 'call' else None
  if ln is None or not t.is_glob(ln[0], L + 'LayerNorm'): check(ctx, 'map-head', w, x, raw('call', raw('call', glob(L + 'LayerNorm'), (), (('name', const('LayerNorm')),)), (a[0],), ()), 'the input of the MLP')
  else: check(ctx, 'map-head', w, x.args[1][0], a[0], 'what is normalised')
  AT, M = sym('ATT'), sym('MLP')
  with tq.Dec(ctx, 'map-head', w):
    z = tz.Tensor()
    z.declare(AT, [B, const(1), C]); z.declare(M, [B, const(1), C])
    got = z.arr(t.subst(t.subst(r.ret, {ml[0]: M}), {a[0]: AT}))
    want = z.arr(spec(ctx, 'head_first', 'vit', x=t.binop('+', AT, M)))
    ctx.ob('map-head', w, z.same(got, want), f'the pooled vector is {z.show(got)}')


# ---------------------------------------------------------------- wrapped models
def external(ctx):
  for cls in ('MlpMixer', 'VisionTransformer'):
    r = ctx.analyze(f'vmoe.nn.external:{cls}.__call__')
    w = f'{r.file} {cls}'
    INP = par(r)
    x = t.item(r.ret, const(0))
    tr = q.kwarg(x, 'train', 1) if x.op == 'call' else None
    if tr is None:
      ctx.undecided('external', w, t.show(x, 3))
      continue
    det = t.attr(r.selfv, 'deterministic')
    ctx.ob('external', w, t.cond(tr) is t.b_not(t.cond(det)) or t.mentions(tr, det) and t.cond(tr) is not t.cond(det), f'the model runs with train={t.show(tr, 3)}')
    ctx.ob('external', w, x.args[1][0] is INP, f'the model is given {t.show(x.args[1][0], 3)}')


# ---------------------------------------------------------------- text tower
def text(ctx):
  EC = f'{V}.EncoderMoe.__call__'
  for pool in ('last', 'first', 'gap', 'gmp', 'map'):
    enc = d_(position_emb=d_(name='learned'), num_heads=sym('NH'), mlp_dim=sym('MD'), attention_qk_norm=sym('QK'), num_layers=sym('NL'))
    r = ctx.analyze(f'{TT}:TextTransformer.__call__', self_bind={'encoder': enc, 'pool_type': const(pool)}, opaque=[EC, f'{V}.MapHead.__call__'])
    w = f'{r.file} TextTransformer ({pool})'
    S = lambda n: t.attr(r.selfv, n)
    es = [y for y in t.subterms(r.ret) if y.op == 'call' and y.args[0].op == 'opaque' and y.args[0].args[0] == EC]
    em = one(ctx, 'embedding', w, r.ret, 'Embed')
    X = par(r)
    ctx.ob('pooling', w, not any(e.pc is TRUE for e in q.raises(r)), f'the pooling {pool} is refused')
    if len(es) != 1 or em is None:
      ctx.undecided('encoder', w, f'{len(es)} encoders')
      continue
    options(ctx, 'embedding', w, em[1], {'num_embeddings': S('vocab_size'), 'features': S('hidden_size')}, 'the embedding')
    check(ctx, 'embedding', w, em[0].args[1][0], X, 'what is embedded')
    ob, x = es[0].args[1][0], es[0].args[1][-1]
    check(ctx, 'encoder', w, x, em[0], 'what is encoded')
    c = ctor(ob)
    if c: options(ctx, 'encoder', w, c[1], {'num_heads': sym('NH'), 'mlp_dim': sym('MD'), 'num_layers': sym('NL'), 'attention_qk_norm': (sym('QK'), FALSE), 'deterministic': (S('deterministic'), FALSE)}, 'the encoder')
    else: ctx.undecided('encoder', w, t.show(ob, 3))
    ENC = sym('ENCODED')
    ret = t.subst(r.ret, {t.item(es[0], const(0)): ENC})
    head(ctx, r, w, ret, ENC, es[0], pool, S, False)
  r = ctx.analyze(f'{TT}:TextTransformer.__call__', self_bind={'encoder': d_(num_heads=sym('NH')), 'pool_type': const('unheard-of')}, opaque=[EC])
  w = f'{r.file} TextTransformer'
  ctx.ob('unknown-pooling', w, any(e.pc is TRUE for e in q.raises(r)), 'an unknown pooling is accepted')
  r = ctx.analyze(f'{TT}:TextTransformer.__call__', self_bind={'encoder': d_(position_emb=d_(name='sincos2d')), 'pool_type': const('gap')}, opaque=[EC])
  ctx.ob('text-positions', w, any(e.pc is TRUE for e in q.raises(r)), 'two-dimensional positions are accepted for text')


# ---------------------------------------------------------------- two towers
def two_tower(ctx):
  PCALL = 'vmoe.utils.parse_call'
  I, X = sym('images'), sym('texts')
  img, txt = d_(name=sym('IN'), size=sym('IS')), d_(name=sym('TN'), size=sym('TS'))
  r = ctx.analyze(f'{TT}:TwoTower.__call__', self_bind={'image': img, 'text': txt}, opaque=[PCALL])
  w = f'{r.file} TwoTower'
  S = lambda n: t.attr(r.selfv, n)
  ni, nt = raw('is', *sorted([NONE, I])), raw('is', *sorted([NONE, X]))
  nb = raw('is', *sorted([NONE, S('bias_init')]))
  ctx.ob('inputs-required', w, any(t.cond(t.assume(t.val(e.pc), {ni: True, nt: True})) is TRUE for e in q.raises(r)), 'neither images nor texts is accepted')
  for lits in ({ni: False, nt: False}, {ni: False, nt: True}, {ni: True, nt: False}):
    ctx.ob('inputs-accepted', w, not any(t.cond(t.assume(t.val(e.pc), lits)) is TRUE for e in q.raises(r)), f'images {"not " if lits[ni] else ""}given and texts {"not " if lits[nt] else ""}given is refused')
  r2 = ctx.analyze(f'{TT}:TwoTower.__call__', self_bind={'image': d_(size=sym('IS')), 'text': d_(size=sym('TS'))}, opaque=[PCALL])
  for e in r2.events:
    if e.kind == 'call' and e.fn.op == 'opaque' and e.fn.args[0] == PCALL and len(e.args) == 2:
      want = 'VisionTransformerMoe' if 'vit_moe' in t.show(e.args[1], 3) or 'vmoe.nn' in t.show(e.args[1], 3) else 'TextTransformer'
      if t.is_const(e.args[0]): ctx.ob('tower-default', e.where(), e.args[0].args[1] == want, f'the default tower is {t.show(e.args[0])} instead of {want}')
      else: ctx.undecided('tower-default', e.where(), t.show(e.args[0], 3))
  def towers(x, given): return sorted({y for y in t.subterms(x) if y.op == 'call' and given in y.args[1] and y.args[0].op == 'call'}, key=lambda y: y.uid)
  M, D = sym('M'), sym('D')
  for case, lits in (('both', {ni: False, nt: False}), ('images only', {ni: False, nt: True}), ('texts only', {ni: True, nt: False})):
    for bias in ((True, False) if case == 'both' else (False,)):
      x = t.assume(r.ret, {**lits, nb: not bias})
      w2 = f'{w} ({case}{", bias" if bias else ""})'
      if x.op != 'tuple' or len(x.args) != 2:
        ctx.undecided('towers', w2, t.show(x, 3))
        continue
      out, met = x.args
      ts = {'img': towers(x, I), 'txt': towers(x, X)}
      for k, inp, none_ in (('img', I, ni), ('txt', X, nt)):
        if lits[none_]:
          bad = [e for e in r.events if e.kind == 'call' and inp in e.args and e.fn.op in ('call', 'new') and t.cond(t.assume(t.val(e.pc), lits)) is not FALSE]
          ctx.ob('towers', w2, not bad, f'the {k} tower is applied although its input is not given')
      if case != 'both': ctx.ob('logits', w2, out is not NONE and not t.contains(out, lambda y: y.op == 'call' and y.args[0].op == 'glob' and y.args[0].args[0].rsplit('.', 1)[-1] in ('einsum', 'matmul', 'dot', 'dot_general', 'inner', 'tensordot', 'vdot') and NONE in y.args[1]), f'the result is {t.show(out, 3)}')
      elif not bias: ctx.ob('logits', w2, not t.mentions(out, S('bias_init')), 'a bias is added although none is asked for')
      use = {'both': ('img', 'txt'), 'images only': ('img',), 'texts only': ('txt',)}[case]
      if any(len(ts[k]) != 1 for k in use):
        if any(not ts[k] for k in use): ctx.ob('towers', w2, False, f'no tower is applied to the {[k for k in use if not ts[k]]}')
        else: ctx.undecided('towers', w2, 'towers')
        continue
      for k in use:
        y = ts[k][0]
        kw = dict((a, b) for a, b in y.args[0].args[2])
        ctx.ob('tower-options', w2, kw.get('deterministic') is S('deterministic'), f'the {k} tower gets deterministic={t.show(kw["deterministic"], 2) if "deterministic" in kw else "default"}')
        fed = [e.args[0] for e in r.events if e.kind == 'call' and e.fn is not None and e.fn.op == 'attr' and e.fn.args[1] in ('update', '__ior__') and e.args and t.mentions(y.args[0], e.fn.args[0])]
        src = raw('tuple', y.args[0], *fed)
        ctx.ob('tower-options', w2, t.mentions(src, sym('IS' if k == 'img' else 'TS')) and not t.mentions(src, sym('TS' if k == 'img' else 'IS')), f'the {k} tower is built from the wrong options')
        ctx.ob('tower-options', w2, t.mentions(y.args[0].args[0], sym('IN' if k == 'img' else 'TN')) and not t.mentions(y.args[0].args[0], sym('TN' if k == 'img' else 'IN')), f'the {k} tower is built from the wrong class')
        try: c, v = dicts.look(met, const(k))
        except dicts.Opaque as e: ctx.undecided('tower-metrics', w2, str(e))
        else:
          ctx.ob('tower-metrics', w2, t.cond(c) is TRUE and v is t.item(y, const(1)), f'the metrics of {k} are {t.show(v, 3) if v is not None else "missing"}')
      try: c, v = dicts.look(met, const('auxiliary_loss'))
      except dicts.Opaque as e: ctx.undecided('tower-loss', w2, str(e))
      else:
        if t.cond(c) is t.FALSE or v is None: ctx.ob('tower-loss', w2, False, 'no auxiliary loss is reported for the training loss')
        else:
          lv = t.assume(v, {a: True for a in t.cond_atoms(c)})
          for k in use: ctx.ob('tower-loss', w2, t.contains(lv, lambda y: t.is_const(y, 'auxiliary_loss')) and t.mentions(lv, ts[k][0]), f'the auxiliary loss of the {k} tower is left out: {t.show(lv, 3)}')
          for y in sorted({y for y in t.subterms(lv) if y.op == 'map' and y.args[0].op == 'lam' and t.contains(y.args[0], lambda u: t.is_const(u, 'auxiliary_loss'))}, key=lambda y: y.uid):
            f_ = y.args[2] if len(y.args) > 2 else None
            i_ = sym('i#tower')
            b_ = t.beta(y.args[0], [i_])
            if b_.op == 'item' and t.is_const(b_.args[1], 'auxiliary_loss'):
              at = raw('in', b_.args[1], b_.args[0])
              if f_ is None or not isinstance(f_, T) or f_ is TRUE or f_ is NONE: ctx.ob('tower-loss', w2, False, 'a tower without an auxiliary loss is not skipped')
              elif f_.op == 'lam':
                g_ = t.cond(t.beta(f_, [i_]))
                ctx.ob('tower-loss', w2, t.cond(t.assume(t.val(g_), {at: True})) is not FALSE, 'the towers with an auxiliary loss are skipped')
                if t.mentions(t.val(g_), at): ctx.ob('tower-loss', w2, t.cond(t.assume(t.val(g_), {at: False})) is FALSE, 'a tower without an auxiliary loss is not skipped')
          for n in ('max', 'min', 'mean', 'prod', 'average', 'stop_gradient'):
            ctx.ob('tower-loss', w2, not t.contains(lv, lambda y: y.op == 'call' and y.args[0].op == 'glob' and y.args[0].args[0].rsplit('.', 1)[-1] == n), f'the auxiliary losses are combined by {n}')
      with tq.Dec(ctx, 'logits', w2):
        z = tz.Tensor()
        ZI, ZT, P, PB = sym('ZI'), sym('ZT'), sym('PS'), sym('PB')
        z.declare(ZI, [M, D]); z.declare(ZT, [N, D])
        for s in (P, PB): z.env[s] = tz.Arr((), s)
        sub = {t.item(ts[k][0], const(0)): s for k, s in (('img', ZI), ('txt', ZT)) if k in use}
        o = t.subst(out, sub)
        ps = {t.cval_or(y.args[1][0]): y for y in sorted({y for y in t.subterms(o) if q.is_mcall(y, 'param')}, key=lambda y: y.uid)}
        U = {'img': spec(ctx, 'unit', 'vit', z=ZI), 'txt': spec(ctx, 'unit', 'vit', z=ZT)}
        if case != 'both': want = U[use[0]]
        else:
          if len(ps) != (2 if bias else 1):
            if len(ps) < (2 if bias else 1): ctx.ob('logits', w2, False, f'the logits have no learned {"scale and bias" if bias else "scale"}')
            else: ctx.undecided('logits', w2, f'{len(ps)} parameters')
            continue
          sc = [y for y in ps.values() if t.mentions(y, S('scale_init'))]
          bs = [y for y in ps.values() if t.mentions(y, S('bias_init'))]
          if len(sc) != 1 or (bias and len(bs) != 1):
            ctx.ob('logits', w2, False, 'the scale or the bias does not start at its option')
            continue
          ini = ctor(sc[0].args[1][1]) if len(sc[0].args[1]) > 1 else None
          if ini: check(ctx, 'logits', w2, ini[1].get('value', NONE), raw('call', glob('jax.numpy.log'), (S('scale_init'),), ()), 'the initial log scale')
          if bias:
            ini = ctor(bs[0].args[1][1]) if len(bs[0].args[1]) > 1 else None
            if ini: check(ctx, 'logits', w2, ini[1].get('value', NONE), S('bias_init'), 'the initial bias')
          o = t.subst(o, {sc[0]: P, **({bs[0]: PB} if bias else {})})
          want = spec(ctx, 'logits_bias' if bias else 'logits', 'vit', zimg=U['img'], ztxt=U['txt'], s=P, **({'b': PB} if bias else {}))
        got, wa = z.arr(o), z.arr(want)
        ctx.ob('logits', w2, z.same(got, wa), f'the result is {z.show(got)[:400]}')


# ---------------------------------------------------------------- loss
def loss(ctx):
  r = ctx.analyze(f'{TR}:sigmoid_loss')
  w = f'{r.file} sigmoid_loss'
  X = par(r, 0)
  for dims in ([N, N], [sym('%batch'), N, N]):
    with tq.Dec(ctx, 'sigmoid-loss', w):
      z = tz.Tensor()
      z.declare(X, dims)
      got, want = z.arr(r.ret), z.arr(spec(ctx, 'sigmoid_loss', 'vit', x=X))
      ctx.ob('sigmoid-loss', w, z.same(got, want), f'the loss is {z.show(got)[:400]}')
  n, sh = t.attr(X, 'ndim'), t.attr(X, 'shape')
  length = lambda y: y is n or y is raw('len', sh) or q.is_call(y, 'len') and y.args[1] == (sh,) or q.is_call(y, 'jax.numpy.ndim') and y.args[1] == (X,)
  def pos(y, k):
    """Axis of a size of the logits of rank k."""
    if y.op != 'item' or y.args[0] is not sh or not t.is_const(y.args[1]) or not isinstance(y.args[1].args[1], int): return None
    i = y.args[1].args[1]
    return i + k if -k <= i < 0 else i if 0 <= i < k else None
  def truth(pc, k, square):
    lits = {}
    for a in t.cond_atoms(pc):
      if a.op in ('lt', 'le', 'eq') and len(a.args) == 2:
        x, y = a.args
        if length(x) or length(y):
          u, v = (const(k) if length(c) else c for c in (x, y))
          if t.is_const(u) and t.is_const(v): lits[a] = {'lt': u.args[1] < v.args[1], 'le': u.args[1] <= v.args[1], 'eq': u.args[1] == v.args[1]}[a.op]
        elif a.op == 'eq':
          i, j = pos(x, k), pos(y, k)
          if i is not None and j is not None: lits[a] = i == j or square and {i, j} == {k - 2, k - 1}
    return t.cond(t.assume(pc, lits))
  rs = [t.val(e.pc) for e in q.raises(r)]
  for k in (2, 3, 4):
    for square in (True, False):
      vals = [truth(pc, k, square) for pc in rs]
      what = f'{"square" if square else "non-square"} logits of rank {k}'
      if TRUE in vals: ctx.ob('sigmoid-loss', w, not square, f'{what} are refused')
      elif all(v is FALSE for v in vals): ctx.ob('sigmoid-loss', w, square, f'{what} are accepted')
      else: ctx.undecided('sigmoid-loss', w, f'shape test: {what}')


# ---------------------------------------------------------------- which input is embedded
def embeds(ctx):
  F, E = 'vmoe.evaluate.fewshot.FewShotPeriodicAction', 'vmoe.projects.contrastive.evaluators.'
  for fn, cls in (('create_fewshot_hook', F), ('create_retrieval_hook', E + 'RetrievalPeriodicAction'), ('create_zeroshot_hook', E + 'ZeroShotPeriodicAction')):
    r = ctx.analyze(f'{TR}:{fn}', opaque=['vmoe.train.trainer.create_flax_model', 'vmoe.train.trainer.override_base_config', cls])
    w = f'{r.file} {fn}'
    mk = [e for e in r.events if e.kind == 'call' and e.fn.op == 'opaque' and e.fn.args[0] == cls]
    if len(mk) != 1 or q.ekw(mk[0], 'apply_fn') is None or q.ekw(mk[0], 'apply_fn').op != 'lam' or q.ekw(mk[0], 'apply_fn').args[1] != 2:
      ctx.undecided('embedded', w, 'apply_fn')
      continue
    (v, x), body = t.open_lam(q.ekw(mk[0], 'apply_fn'))
    aps = sorted({y for y in t.subterms(body) if q.is_mcall(y, 'apply')}, key=lambda y: y.uid)
    if not aps:
      ctx.undecided('embedded', w, t.show(body, 3))
      continue
    im, tx = raw('getdef', x, const('image'), NONE), raw('getdef', x, const('labels'), NONE)
    no = raw('is', *sorted([NONE, im]))
    for case in ((None,) if cls == F else (True, False)):
      y = body if case is None else t.assume(body, {no: not case})
      if case is not None:
        if y.op != 'tuple' or len(y.args) != 3:
          ctx.undecided('embedded', w, t.show(y, 3))
          continue
        k = 0 if case else 1
        ctx.ob('embedded', w, y.args[1 - k] is NONE and y.args[2] is NONE and y.args[k] is not NONE, f'the embedding of {"images" if case else "texts"} is returned as {t.show(y, 2)}')
        y = y.args[k]
        y = y.args[0] if y.op == 'item' and t.is_const(y.args[1], 0) else y
      if not q.is_mcall(y, 'apply'):
        ctx.undecided('embedded', w, t.show(y, 3))
        continue
      kw = q.kws(y)
      pos = list(y.args[1])
      gi, gt = kw.get('images', pos[1] if len(pos) > 1 else None), kw.get('texts', pos[2] if len(pos) > 2 else None)
      ctx.ob('embedded', w, bool(pos) and pos[0] is v, f'the model is applied to {t.show(pos[0], 3) if pos else "no parameters"}')
      wi, wt = (x, NONE) if case is None else (im, tx)
      if gi is not None and gt is not None: ctx.ob('embedded', w, gi is wi and gt is wt or gi is t.assume(wi, {}) and not t.mentions(gi, tx) and gt is NONE or gt is wt and gi is NONE, f'the model gets images={t.show(gi, 2)}, texts={t.show(gt, 2)}')

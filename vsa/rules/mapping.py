"""C28: initialization from a checkpoint: every array to the target that its rule names."""
from .. import arith, dicts, q, tensor as tz, terms as t, tq
from ..framework import prop
from ..terms import T, NONE, FALSE, TRUE, const, glob, raw, sym
from .ckpt_api import defaults
from .mesh import tup
from .moe import spec
from .optim import is_op
from .utilities import deep, strip

M = 'vmoe.initialization.mapping'
R = 'vmoe.initialization.rules'
B, A, NS = f'{M}._flat_state_dict_mapping_build', f'{M}._flat_state_dict_mapping_apply', f'{M}._natural_sort'
GS = f'{R}.RegexRule.get_shape_dtype'


def cls(n): return raw('cls', f'{R}.{n}')


def isa(x, n): return raw('isinstance', x, cls(n))


@prop('C28', 'Value-flow terms of the mapping loop for every kind of rule, first-match normal form of the rule search, path conditions of the rejections, symbolic lookup of the applied result, index notation of the transformations.', floor=60)
def c28(ctx):
  for f in (whole, build, apply_, find, parse, unknown, transformations, arrays, zoom, vit_zoom, grid, order, entries, from_vmoe, from_vit, from_orbax, strict_defaults, meshes): ctx.section(f)


def whole(ctx):
  r = ctx.analyze(f'{M}:map_state_dict', opaque=[B, A])
  w = f'{r.file} map_state_dict'
  src, tgt = sym('source'), sym('target')
  x = r.ret
  if not (q.is_call(x, 'flax.serialization.from_state_dict') and len(x.args[1]) == 2):
    ctx.ob('target-structure', w, x.op == 'call' and not q.is_call(x, 'flax.traverse_util.unflatten_dict'), 'the result does not have the structure of the target')
    return
  ctx.ob('target-structure', w, x.args[1][0] is tgt, f'the result has the structure of {t.show(x.args[1][0], 3)}')
  un = x.args[1][1]
  if not (q.is_call(un, 'flax.traverse_util.unflatten_dict') and is_op(un.args[1][0], A)):
    if is_op(un, A): ctx.ob('target-structure', w, False, 'the joined names are not split again')
    else: ctx.undecided('target-structure', w, t.show(un, 3))
    return
  ap = un.args[1][0]
  an = ('txs_flat', 'target_flat', 'raise_if_dtype_mismatched', 'raise_if_shape_mismatched')
  a = dict(zip(an, ap.args[1])); a.update(q.kws(ap))
  bn = ('source_flat', 'target_flat', 'rules', 'raise_if_source_unmatched', 'raise_if_target_unmatched')
  bd = a.get('txs_flat', NONE)
  if not is_op(bd, B):
    ctx.undecided('target-structure', w, t.show(bd, 3))
    return
  b = dict(zip(bn, bd.args[1])); b.update(q.kws(bd))
  for n, o in (('source_flat', src), ('target_flat', tgt)):
    f = b.get(n, NONE)
    ctx.ob('own-tree', w, q.is_call(f, 'flax.traverse_util.flatten_dict') and f.args[1][0] is raw('call', glob('flax.serialization.to_state_dict'), (o,), ()), f'the {n[:6]} is {t.show(f, 4)}')
    if q.is_call(f, 'flax.traverse_util.flatten_dict'):
      ctx.ob('own-tree', w, q.kwarg(f, 'sep', 3, NONE) is q.kwarg(un, 'sep', 1, NONE) and t.is_const(q.kwarg(f, 'sep', 3, NONE), '/'), 'names are not joined by slashes')
      ctx.ob('own-tree', w, q.kwarg(f, 'keep_empty_nodes', 1, FALSE) is TRUE, f'empty parts of the {n[:6]} are lost')
  ctx.ob('own-tree', w, a.get('target_flat') is b.get('target_flat'), 'values are kept from another tree than the target')
  for n, d in (('raise_if_dtype_mismatched', a), ('raise_if_shape_mismatched', a), ('raise_if_source_unmatched', b), ('raise_if_target_unmatched', b), ('rules', b)):
    if n in d: ctx.ob('strictness', w, d[n] is sym(n), f'{n} is {t.show(d[n], 3)}')
    else: ctx.ob('strictness', w, False, f'{n} is not passed on')


def build(ctx):
  r = ctx.analyze(f'{M}:_flat_state_dict_mapping_build', opaque=[NS, f'{R}.Rules.find', f'{R}.Rules.parse', f'{R}.RegexRule.get_transformation', f'{R}.RegexRule.rename', GS])
  w = f'{r.file} _flat_state_dict_mapping_build'
  S, TG, rules = sym('source_flat'), sym('target_flat'), sym('rules')
  parsed = {raw('isinstance', rules, cls('Rules')): True}
  f = r.ret.args[0] if r.ret.op == 'item' and r.ret.args[0].op == 'fold' else None
  if f is None:
    if t.contains(r.ret, lambda y: y.op == 'attr' and y.args[1] in ('get_transformation', 'rename')) and not t.contains(r.ret, lambda y: y.op == 'attr' and y.args[1] == 'append' or y.op in ('append', 'fold')): ctx.ob('stacked', w, False, f'no array is added to the ones stacked before: {t.show(r.ret, 4)}')
    else: ctx.undecided('each-source', w, t.show(r.ret, 3))
    return
  dom = deep(f.args[0], parsed)
  inner = dom
  while True:
    if is_op(inner, NS): inner = inner.args[1][0]
    elif inner.op in ('totuple', 'listof'): inner = inner.args[0]
    elif q.is_mcall(inner, 'keys'): inner = inner.args[0].args[0]
    elif inner.op == 'keys': inner = inner.args[0]
    else: break
  if inner is S:
    ctx.ob('each-source', w, True)
    ctx.ob('stack-order', w, t.contains(dom, lambda y: is_op(y, NS)), 'arrays are not stacked in the natural order of their names')
  elif q.is_call(inner, 'sorted', 'reversed', 'set') or dom.op == 'map' and dom.args[2] is not TRUE: ctx.ob('each-source', w, False, f'the sources are visited as {t.show(dom, 4)}')
  else:
    ctx.undecided('each-source', w, t.show(dom, 3))
    return
  (i0, *acc), body = t.open_lam(f.args[2])
  lp = next((l for e in r.events for l in e.loops if l.domain is f.args[0]), None)
  if lp is None:
    ctx.undecided('each-source', w, 'nothing happens in the loop')
    return
  i = lp.idx
  body = t.subst(body, {i0: i})
  key = raw('nth', f.args[0], i)
  key2 = deep(key, parsed)
  body = deep(body, parsed)
  if len(acc) < 1 or body.op != 'tuple':
    ctx.undecided('each-source', w, t.show(body, 3))
    return
  out = acc[0]
  nxt, early = body.args[0], body.args[-1]
  ctx.ob('each-source', w, early is FALSE, f'the remaining sources are skipped if {t.show(early, 3)}')
  fs = {y for y in t.subterms(body) if y.op == 'call' and y.args[0].op in ('attr', 'opaque') and (y.args[0].args[-1] == 'find' or y.args[0].args[0] == f'{R}.Rules.find')}
  if len(fs) != 1:
    ctx.undecided('each-source', w, f'{len(fs)} searches for a rule')
    return
  rl = fs.pop()
  unp = deep(f, {k: False for k in parsed})
  for y in t.subterms(unp):
    if not (y.op == 'call' and y.args[0].op in ('attr', 'opaque') and (y.args[0].args[-1] == 'find' or y.args[0].args[0] == f'{R}.Rules.find')): continue
    b = y.args[0].args[0] if y.args[0].op == 'attr' else y.args[1][0]
    ctx.ob('own-rule', w, b is not rules and t.mentions(b, rules), f'rules that are not parsed are searched as {t.show(b, 3)}')
  ctx.ob('own-rule', w, rl.args[1][-1] is key2, f'the rule is the one for {t.show(rl.args[1][-1], 3)}')
  none = raw('is', *sorted([NONE, rl]))
  src = t.item(S, key2)
  EN = lambda x: [a for a in t.inner_atoms(nxt) | ats | sats if a.op == 'isinstance' and a.args[0] is x and a.args[1].op in ('glob', 'cls') and str(a.args[1].args[0]).endswith('EmptyNode')]
  raises = [e for e in r.events if e.kind == 'raise']
  pcs = [(e, t.cond(deep(t.val(t.b_and(e.pc, TRUE)), parsed))) for e in raises]
  ats = set()
  for e, c in pcs: ats |= t.inner_atoms(c)
  sats = set()
  kinds = {'dropped': (False, 'DropRule'), 'renamed': (False, 'RegexRule'), 'stacked': (False, 'StackRule'), 'unmatched': (True, None)}
  flag = raw('truth', sym('raise_if_source_unmatched'))
  for kd, (nn, c) in kinds.items():
    lits = {none: nn}
    if not nn:
      for n in ('DropRule', 'StackRule', 'RegexRule'): lits[isa(rl, n)] = n == c or n == 'RegexRule' and c == 'StackRule'
    x = deep(nxt, lits)
    strs = {a: False for a in t.inner_atoms(x) if a.op == 'isinstance' and t.is_glob(a.args[1], 'str')}
    x = deep(x, strs)
    own = {a: a.args[1] in (cls('RegexRule'), cls('Rule')) for a in t.inner_atoms(x) if a.op == 'isinstance' and a.args[0].op == 'obj' and a.args[0].args[0] == f'{R}.RegexRule'}
    x = deep(x, own)
    strs = {**strs, **own}
    if kd == 'dropped':
      ctx.ob('dropped', w, x is out, f'a source that should be dropped gives {t.show(x, 4)}')
      continue
    dst = None
    if not nn: dst = raw('call', t.attr(rl, 'rename'), (key2,), ())
    dsts = [d for d in ([dst] if dst is not None else identity_names(x, ats, key2))]
    sats.clear()
    for e, c in pcs: sats |= t.inner_atoms(t.cond(deep(deep(c, lits), strs)))
    # both are empty: nothing to copy
    hit = False
    for d in dsts:
      tv = t.item(TG, d)
      es, et = EN(src), EN(tv)
      e1 = deep(x, {**{a: True for a in es}, **{a: True for a in et}})
      if es: ctx.ob('empty', w, e1 is out, f'an empty source gives {t.show(e1, 3)}')
      y = deep(x, {**{a: False for a in es}, **{a: False for a in et}})
      if y.op == 'ite' and kd == 'stacked':
        hi = deep(y, {t.in_(d, out): True})
        want = raw('setitem', out, d, raw('call', t.attr(t.item(out, d), 'append'), (src,), ()))
        ctx.ob('stacked', w, hi is want, f'the next array to stack gives {t.show(hi, 4)}')
        y = deep(y, {t.in_(d, out): False})
      elif kd == 'stacked' and y.op == 'setitem' and y.args[0] is out and not t.mentions(y.args[2], t.item(out, d)): ctx.ob('stacked', w, False, f'the next array to stack replaces the others: {t.show(y, 4)}')
      elif kd == 'stacked': ctx.undecided('stacked', w, t.show(y, 3))
      if y.op != 'setitem' or y.args[0] is not out:
        ctx.undecided(kd, w, t.show(y, 4)) if y is not out else ctx.ob(kd, w, False, 'the source is not copied')
        continue
      ctx.ob(kd, w, y.args[1] is d, f'the source is copied to {t.show(y.args[1], 4)}')
      v = y.args[2]
      if kd != 'unmatched': ctx.ob(kd, w, v is raw('call', t.attr(rl, 'get_transformation'), (src, tv), ()), f'the new value is {t.show(v, 4)}')
      else:
        a = list(v.args[1]) if v.op == 'call' else [dict(v.args[1]).get('array')] if v.op == 'obj' else []
        ctx.ob(kd, w, src in a and (v.op != 'call' or tv in a), f'the new value is {t.show(v, 4)}')
      hit = True
      # rejections
      def need(rule, bad, text):
        rej = FALSE
        for e, c in pcs: rej = t.b_or(rej, t.cond(deep(deep(c, lits), strs)))
        if t.implies(bad, rej): ctx.ob(rule, w, True)
        else:
          ctx.ob(rule, w, False, text)
      need('rejected', t.b_not(t.cond(t.in_(d, TG))), 'a source whose target does not exist is accepted')
      if es and et:
        mism = t.b_and(t.cond(es[0]), t.b_not(t.cond(et[0])))
        mism2 = t.b_and(t.b_not(t.cond(es[0])), t.cond(et[0]))
        need('rejected', t.b_and(t.b_or(mism, mism2), t.cond(t.in_(d, TG))), 'an empty part is matched with an array')
      elif es or et: ctx.ob('rejected', w, False, 'an empty part is matched with an array')
      used = [a for a in sorted(sats, key=lambda a: a.uid) if a.op == 'truth' and a.args[0].op == 'item' and a.args[0].args[1] is d and a.args[0].args[0] not in (TG, S) or a.op == 'in' and a.args[0] is d and a.args[1] not in (TG, S)]
      for a in used:
        nx = lp.phis.get(a.args[0].args[0] if a.op == 'truth' else a.args[1])
        X = a.args[0].args[0] if a.op == 'truth' else a.args[1]
        if nx is None:
          if not t.contains(X, lambda y: y in lp.phis) and not any(e2.kind in ('mutate', 'setitem') and e2.loops and (e2.kind == 'mutate' or e2.fn is X) for e2 in r.events): ctx.ob('rejected', w, False, 'the targets in use are not noted')
          else: ctx.undecided('rejected', w, t.show(X, 3))
          continue
        nx = deep(deep(deep(nx[2], parsed), lits), strs)
        nx = deep(nx, {**{y: False for y in es + et}, a: False})
        nx = deep(nx, {y: False for y in t.inner_atoms(nx) if y.op == 'isinstance'})
        if nx.op == 'setitem' and a.op == 'truth': ctx.ob('rejected', w, nx.args[1] is d and t.cond(nx.args[2]) is TRUE, f'the targets in use are noted as {t.show(nx, 4)}')
        elif nx.op == 'setitem' and a.op == 'in': ctx.ob('rejected', w, nx.args[1] is d, f'the targets in use are noted as {t.show(nx, 4)}')
        elif nx.op == 'sym': ctx.ob('rejected', w, False, 'the targets in use are not noted')
      if kd != 'stacked':
        if used: need('rejected', t.b_and(t.cond(used[0]), t.cond(t.in_(d, TG))), 'two sources are copied to the same target')
        else: ctx.ob('rejected', w, False, 'two sources may be copied to the same target')
      elif used:
        rej = FALSE
        for e, c in pcs: rej = t.b_or(rej, t.cond(deep(deep(c, lits), strs)))
        ok = t.assume(t.val(rej), {t.in_(d, TG): True, **{a: False for a in es + et}})
        ctx.ob('stacked', w, not t.mentions(ok, used[0]), 'a second array to stack is rejected')
    if not hit: ctx.undecided(kd, w, t.show(x, 4))
    if kd == 'unmatched':
      rej = FALSE
      for e, c in pcs: rej = t.b_or(rej, t.cond(deep(c, lits)))
      ctx.ob('strictness', w, t.implies(t.cond(flag), rej), 'a source without rule is accepted although this should be an error')
  # targets left over
  tf = raw('truth', sym('raise_if_target_unmatched'))
  last = [(e, c) for e, c in pcs if tf in t.inner_atoms(t.cond(c)) or c is tf]
  if not last: ctx.ob('strictness', w, False, 'targets without source are accepted although this should be an error')
  for e, c in last:
    k = [lp for lp in e.loops]
    ctx.ob('strictness', w, len(k) == 1, 'targets left over are not checked one by one')
    cc = t.assume(c, {tf: True})
    # a target that was not used and is not empty is an error
    res = t.assume(t.cond(cc), {a: False for a in t.cond_atoms(t.cond(cc)) if a.op in ('isinstance', 'truth', 'in')})
    ctx.ob('strictness', w, t.cond(res) is TRUE, f'an unmatched target is an error only if {t.show(cc, 4)}')
    for a in sorted(t.cond_atoms(t.cond(cc)), key=lambda a: a.uid):
      if a.op in ('isinstance', 'truth', 'in'): ctx.ob('strictness', w, t.cond(t.assume(t.cond(cc), {a: True})) is FALSE, f'a target is an error although {t.show(a, 3)}')
    for what, ops in (('has a source', ('truth', 'in')), ('is empty', ('isinstance',))):
      if not any(a.op in ops for a in t.cond_atoms(t.cond(cc))) and all(a.op in ('isinstance', 'truth', 'in') for a in t.cond_atoms(t.cond(cc))): ctx.ob('strictness', w, k and k[0].domain.op == 'map', f'a target is an error although it {what}')
    ctx.ob('strictness', w, t.assume(c, {tf: False}) is FALSE, 'unmatched targets are an error although they should be kept')
    if k:
      dm = k[0].domain
      while dm.op in ('keys', 'dictupd') or q.is_mcall(dm, 'items', 'keys'):
        nx = dm.args[0] if dm.op != 'call' else dm.args[0].args[0]
        if dm.op == 'dictupd' and nx.op == 'dict' and not nx.args: nx = dm.args[1].args[1]
        dm = nx
      if dm is not TG: ctx.undecided('strictness', w, t.show(k[0].domain, 4))


def identity_names(x, ats, key):
  """Names under which a source without rule is stored: the name itself, or an identity substitution of it."""
  out = []
  for y in t.subterms(x):
    if y.op == 'setitem': out.append(y.args[1])
  return [d for d in dict.fromkeys(out) if d is key or d.op == 'call' and key in d.args[1] and ident(d, key)]


def ident(d, key):
  pat = [y.args[1] for y in t.subterms(d) if t.is_const(y) and isinstance(y.args[1], str)]
  return set(pat) <= {'^(.*)$', r'\1', '(.*)', '^.*$', r'\g<0>', '.*'}


def apply_(ctx):
  k0, k1 = const('a/x'), const('b/y')
  tx = [sym('tx0'), sym('tx1')]
  for n in (1, 2):
    keys = [k0, k1][:n]
    r = ctx.analyze(f'{M}:_flat_state_dict_mapping_apply', bind=dict(txs_flat=raw('dict', *[(k, x) for k, x in zip(keys, tx)])))
    w = f'{r.file} _flat_state_dict_mapping_apply ({n} arrays)'
    TG = sym('target_flat')
    for k, x in zip(keys, tx):
      try: c, v = dicts.look(r.ret, k)
      except dicts.Opaque as e:
        ctx.undecided('applied', w, str(e))
        continue
      ctx.ob('applied', w, t.cond(c) is TRUE, f'{t.show(k, 2)} is only there if {t.show(t.val(c), 3)}')
      v = dicts.rewrite(v)
      new = raw('call', x, (), ())
      td = t.attr(x, 'target_shape_dtype')
      dt, sh = t.attr(td, 'dtype'), t.attr(td, 'shape')
      cast = raw('call', t.attr(new, 'astype'), (dt,), ())
      a_dt = t.eq(t.attr(new, 'dtype'), dt)
      for same_dt in (True, False):
        cur = new if same_dt else cast
        y = deep(v, {a_dt: same_dt})
        a_sh = [t.eq(t.attr(cur, 'shape'), sh), t.eq(t.attr(new, 'shape'), sh)]
        for same_sh in (True, False):
          z = deep(y, {a: same_sh for a in a_sh})
          want = [cur] if same_sh else [raw('call', glob('jax.numpy.broadcast_to'), (cur, sh), ())]
          if not same_sh and not same_dt: want.append(raw('call', t.attr(raw('call', glob('jax.numpy.broadcast_to'), (new, sh), ()), 'astype'), (dt,), ()))
          if same_dt: want += [raw('call', t.attr(u, 'astype'), (dt,), ()) for u in want]
          if same_sh: want += [raw('call', glob('jax.numpy.broadcast_to'), (u, sh), ()) for u in want]
          if z.op == 'ite': ctx.undecided('applied', w, t.show(z, 4))
          else: ctx.ob('applied', w, z in want, f'{t.show(k, 2)} becomes {t.show(z, 5)} with {"the same" if same_dt else "another"} type and {"the same" if same_sh else "another"} shape')
    # other values are kept
    ko = sym('k')
    try:
      c, v = dicts.look(r.ret, ko)
      lits = {t.eq(ko, k): False for k in keys}
      lits.update({a: False for a in t.inner_atoms(v) | t.inner_atoms(t.cond(c)) if a.op == 'in' and a.args[0] is ko and a.args[1] is not TG})
      v = dicts.rewrite(t.assume(v, lits)); c = t.assume(t.val(c), lits)
      ctx.ob('kept', w, v is t.item(TG, ko) and t.cond(c) is t.cond(t.in_(ko, TG)), f'a value without source becomes {t.show(v, 4)}')
    except dicts.Opaque as e: ctx.undecided('kept', w, str(e))
    for nm, what in (('raise_if_dtype_mismatched', 'dtype'), ('raise_if_shape_mismatched', 'shape')):
      fl = raw('truth', sym(nm))
      rej = FALSE
      for e in r.events:
        if e.kind == 'raise' and fl in t.cond_atoms(t.cond(e.pc)): rej = t.b_or(rej, t.cond(e.pc))
      for x in tx[:n]:
        new = raw('call', x, (), ())
        td = t.attr(x, 'target_shape_dtype')
        same = t.eq(t.attr(new, what), t.attr(td, what))
        fix = {t.eq(t.attr(new, 'dtype'), t.attr(td, 'dtype')): True} if what == 'shape' else {}
        bad = t.b_and(t.b_not(t.cond(same)), t.cond(fl))
        ctx.ob('strictness', w, t.implies(bad, t.cond(deep(t.val(rej), fix))), f'another {what} is accepted although this should be an error')
        ctx.ob('strictness', w, deep(t.val(rej), {fl: False}) is FALSE, f'another {what} is an error although it should be converted')
    js = [e for e in r.events if e.kind == 'jit']
    for e in js:
      o = q.ekw(e, 'out_shardings', None) if hasattr(q, 'ekw') else q.ekws(e).get('out_shardings')
      if o is None: continue
      for k, x in zip(keys, tx):
        try:
          c, v = dicts.look(o, k)
          ctx.ob('sharding', w, v is t.attr(t.attr(x, 'target_shape_dtype'), 'sharding'), f'{t.show(k, 2)} is divided by {t.show(v, 4)}')
        except dicts.Opaque as ex: ctx.undecided('sharding', w, str(ex))
    if js and not any('out_shardings' in q.ekws(e) for e in js): ctx.ob('sharding', w, False, 'the new values are not divided like the target')


def find(ctx):
  r = ctx.analyze(f'{R}:Rules.find')
  w = f'{r.file} Rules.find'
  me = ctx.eng.obj_of(f'{R}:Rules')
  rs = t.attr(me, 'rules')
  fs = [y for y in t.subterms(r.ret) if y.op == 'first']
  if len(set(fs)) != 1:
    if t.contains(r.ret, lambda y: y.op == 'last'): ctx.ob('first-match', w, False, 'the last matching rule is used')
    if r.ret.op == 'item' and r.ret.args[0].op == 'fold' and isinstance(t.cval_or(r.ret.args[1]), int):
      f = r.ret.args[0]
      (i, *acc), body = t.open_lam(f.args[2])
      k = t.cval_or(r.ret.args[1])
      if body.op == 'tuple' and k < len(acc) and body.args[-1] is FALSE:
        b = t.assume(body.args[k], {raw('is', *sorted([NONE, acc[k]])): False, raw('truth', acc[k]): True})
        ctx.ob('first-match', w, b is acc[k] or b.op != 'ite' and t.mentions(b, acc[k]), 'a later matching rule replaces the first')
    ctx.undecided('first-match', w, t.show(r.ret, 3))
    return
  f = fs[0]
  if q.is_call(f.args[0], 'reversed') or f.args[0].op == 'item': ctx.ob('first-match', w, False, f'the rules are tried in the order {t.show(f.args[0], 3)}')
  elif f.args[0] is rs: ctx.ob('first-match', w, True)
  else: ctx.undecided('first-match', w, t.show(f.args[0], 3))
  (i,), c = t.open_lam(f.args[1])
  ru = raw('nth', f.args[0], i)
  se = [raw('call', t.attr(t.attr(ru, 'pattern'), 'search'), (sym('key'),), ()), raw('call', glob('re.search'), (t.attr(ru, 'pattern'), sym('key')), ())]
  got = t.cond(c)
  if any(got is t.cond(s) or got is t.b_not(t.cond(raw('is', *sorted([NONE, s])))) for s in se): ctx.ob('first-match', w, True)
  elif t.contains(c, lambda y: y.op == 'attr' and y.args[1] in ('search', 'match', 'fullmatch')): ctx.ob('first-match', w, False, f'a rule applies if {t.show(c, 4)}')
  elif got in (TRUE, FALSE): ctx.ob('first-match', w, False, f'a rule applies if {t.show(c, 4)}')
  else: ctx.undecided('first-match', w, t.show(c, 3))
  ctx.ob('first-match', w, t.beta(f.args[2], [i]) is ru, 'another rule than the matching one is used')
  for l, y in t.leaves(r.ret): ctx.ob('first-match', w, y is f or y is NONE, f'without matching rule the result is {t.show(y, 3)}')


FORMS = [((), 'RegexRule', {}), (('reshape',), 'ReshapeRule', {'shape': NONE}), (('reshape', sym('sh')), 'ReshapeRule', {'shape': sym('sh')}), (('squeeze', sym('ax')), 'SqueezeRule', {'axis': sym('ax')}),
         (('stack', sym('ax')), 'StackRule', {'axis': sym('ax')}), (('expand_tile', sym('ax'), sym('rp')), 'ExpandTileRule', {'axis': sym('ax'), 'reps': sym('rp')}), (('vit_zoom',), 'VitZoomRule', {}), (('zoom',), 'ZoomRule', {})]


def parse(ctx):
  p, rp = sym('p'), sym('r')
  rc = raw('call', glob('re.compile'), (p,), ())
  for form, cn, fields in FORMS:
    ru = raw('tuple', p, rp, *[x if isinstance(x, T) else const(x) for x in form])
    other = sym('other_rule')
    r = ctx.analyze(f'{R}:Rules.parse', bind=dict(rules=raw('list', ru, other)))
    w = f'{r.file} Rules.parse {form[:1]}'
    rnone = raw('is', *sorted([NONE, rp]))
    lits = {isa(ru, 'Rule'): False, isa(other, 'Rule'): True, raw('truth', rp): True, rnone: False, t.eq(rp, const('')): False}
    x = r.ret
    x = deep(x, lits)
    x = deep(x, {a: False for a in t.inner_atoms(x) if a.op == 'isinstance' and t.is_glob(a.args[1], 'str')})
    no = [e for e in r.events if e.kind == 'raise' and t.cond(deep(t.val(e.pc), {**lits, **{raw('isinstance', sym(z), glob('int')): True for z in ('ax', 'rp')}})) is TRUE]
    ctx.ob('parsed', w, not no, f'a rule {form[:1]} is rejected' + (f' at line {no[0].line}' if no else ''))
    if no: continue
    l = dict(x.args[1]).get('rules') if x.op == 'obj' else None
    if l is None or l.op not in ('list', 'tuple'):
      ctx.undecided('parsed', w, t.show(x, 4))
      continue
    ctx.ob('parsed', w, len(l.args) == 2 and l.args[1] is other, f'the rules become {t.show(l, 3)}: not one each, in order')
    v = l.args[0]
    if v.op != 'obj':
      ctx.undecided('parsed', w, t.show(v, 3))
      continue
    f = dict(v.args[1])
    ctx.ob('parsed', w, v.args[0] == f'{R}.{cn}', f'a rule {form[:1]} becomes a {v.args[0].split(".")[-1]}')
    ctx.ob('parsed', w, f.get('pattern') in (rc, p) and f.get('replacement') is rp, f'pattern and replacement become {t.show(f.get("pattern", NONE), 3)}, {t.show(f.get("replacement", NONE), 3)}')
    for n, e in fields.items(): ctx.ob('parsed', w, f.get(n) is e, f'{n} becomes {t.show(f.get(n, NONE), 3)}')
    if not form:
     for nn in (True, False):
      y = deep(r.ret, {**lits, raw('truth', rp): False, rnone: nn, t.eq(rp, const('')): not nn})
      y = deep(y, {a: False for a in t.inner_atoms(y) if a.op == 'isinstance' and t.is_glob(a.args[1], 'str')})
      l = dict(y.args[1]).get('rules') if y.op == 'obj' else None
      if l is not None and l.args and l.args[0].op == 'obj': ctx.ob('parsed', w, l.args[0].args[0] == f'{R}.DropRule', f'a rule without replacement becomes a {l.args[0].args[0].split(".")[-1]}')


def unknown(ctx):
  p, rp = sym('p'), sym('r')
  ru = raw('tuple', p, rp, const('no such transformation'))
  r = ctx.analyze(f'{R}:Rules.parse', bind=dict(rules=raw('list', ru)))
  rej = FALSE
  for e in r.events:
    if e.kind == 'raise': rej = t.b_or(rej, t.cond(deep(t.val(e.pc), {isa(ru, 'Rule'): False})))
  ctx.ob('rejected', f'{r.file} Rules.parse', rej is TRUE, 'an unknown transformation is accepted') if rej in (TRUE, FALSE) else ctx.undecided('rejected', f'{r.file} Rules.parse', t.show(t.val(rej), 3))


TR = {'RegexRule': ('CopyTransformation', {'array': 'S'}), 'ExpandTileRule': ('ExpandTileTransformation', {'array': 'S', 'axis': 'axis', 'reps': 'reps'}), 'ReshapeRule': ('ReshapeTransformation', {'array': 'S'}),
      'SqueezeRule': ('SqueezeTransformation', {'array': 'S', 'axis': 'axis'}), 'StackRule': ('StackTransformation', {'axis': 'axis'}), 'VitZoomRule': ('VitZoomTransformation', {'source': 'S'}),
      'ZoomRule': ('ZoomTransformation', {'source': 'S'})}


def transformations(ctx):
  S, TG = sym('source'), sym('target')
  for rn, (tn, fields) in TR.items():
    r = ctx.analyze(f'{R}:{rn}.get_transformation', opaque=[GS])
    w = f'{r.file} {rn}.get_transformation'
    me = ctx.eng.obj_of(f'{R}:{rn}')
    v = r.ret
    if v.op != 'obj':
      ctx.undecided('transformation', w, t.show(v, 3))
      continue
    ctx.ob('transformation', w, v.args[0] == f'{R}.{tn}', f'it becomes a {v.args[0]}')
    f = dict(v.args[1])
    for n, e in fields.items(): ctx.ob('transformation', w, f.get(n) is (S if e == 'S' else t.attr(me, e)), f'{n} is {t.show(f.get(n, NONE), 3)}')
    sd = f.get('target_shape_dtype', NONE)
    ctx.ob('transformation', w, is_op(sd, GS) and sd.args[1][-1] is TG or not is_op(sd, GS) and t.mentions(sd, TG) and not t.mentions(sd, S), f'the expected shape and type are {t.show(sd, 3)}')
    if rn in ('VitZoomRule', 'ZoomRule'):
      tv, own = f.get('target', NONE), raw('isinstance', TG, glob('jax.ShapeDtypeStruct'))
      ctx.ob('transformation', w, deep(tv, {own: False}) is TG, f'the array in the target is {t.show(deep(tv, {own: False}), 3)}')
      ctx.ob('transformation', w, deep(tv, {own: True}) is NONE, f'the shape of the target is taken for an array: {t.show(deep(tv, {own: True}), 3)}')
    if rn == 'StackRule': ctx.ob('transformation', w, f.get('to_stack', NONE).op == 'list' and f['to_stack'].args == (S,), 'the first array is not the first in the stack')
    if rn == 'ReshapeRule':
      sh = f.get('shape', NONE)
      ms = t.attr(me, 'shape')
      for l in ({raw('truth', ms): True, raw('is', *sorted([NONE, ms])): False}, {raw('truth', ms): False, raw('is', *sorted([NONE, ms])): True}):
        y = t.assume(sh, l)
        ctx.ob('transformation', w, y is (ms if l[raw('truth', ms)] else t.attr(TG, 'shape')), f'the new shape is {t.show(y, 3)}')
  r = ctx.analyze(f'{R}:RegexRule.get_shape_dtype', opaque=['vmoe.partitioning.get_array_sharding_or_default'])
  w = f'{r.file} RegexRule.get_shape_dtype'
  ar = sym('array')
  if q.is_call(r.ret, 'jax.ShapeDtypeStruct'):
    ctx.ob('transformation', w, q.kwarg(r.ret, 'shape', 0) is t.attr(ar, 'shape') and q.kwarg(r.ret, 'dtype', 1) is t.attr(ar, 'dtype'), f'{t.show(r.ret, 3)}')
    s = q.kwarg(r.ret, 'sharding', 2, NONE)
    ctx.ob('sharding', w, t.mentions(s, ar), f'the sharding of the target is {t.show(s, 3)}')
  else: ctx.undecided('transformation', w, t.show(r.ret, 3))
  r = ctx.analyze(f'{R}:RegexRule.rename')
  w = f'{r.file} RegexRule.rename'
  me = ctx.eng.obj_of(f'{R}:RegexRule')
  pt, rp, k = t.attr(me, 'pattern'), t.attr(me, 'replacement'), sym('key')
  ok = r.ret in (raw('call', t.attr(pt, 'sub'), (rp, k), ()), raw('call', glob('re.sub'), (pt, rp, k), ()))
  if ok or t.contains(r.ret, lambda y: y is t.attr(pt, 'sub') or t.is_glob(y, 're.sub')): ctx.ob('renamed', w, ok, f'the new name is {t.show(r.ret, 4)}')
  else: ctx.undecided('renamed', w, t.show(r.ret, 3))


def arrays(ctx):
  def run(n, **attrs):
    me = ctx.eng.obj_of(f'{R}:{n}')
    r = ctx.analyze(f'{R}:{n}.__call__', attrs={(me, k): v for k, v in attrs.items()})
    return r, f'{r.file} {n}.__call__', me
  r, w, me = run('CopyTransformation')
  ctx.ob('arrays', w, r.ret is t.attr(me, 'array'), f'a copy is {t.show(r.ret, 3)}')
  X = sym('X')
  def cmp(n, want, dims, **attrs):
    r, w, me = run(n, **attrs)
    with tq.Dec(ctx, 'arrays', w):
      z = tz.Tensor()
      z.declare(X, dims)
      g, v = z.arr(r.ret), z.arr(want)
      ctx.ob('arrays', w, z.same(g, v), f'{z.show(g)}, not {z.show(v)}')
  m, n_ = sym('m'), sym('n')
  bc = lambda sl, sh: raw('call', glob('jax.numpy.broadcast_to'), (t.item(X, tup(sl)), tup(sh)), ())
  full = raw('slice', NONE, NONE, NONE)
  cmp('ExpandTileTransformation', bc((NONE, full, full), (const(3), m, n_)), [m, n_], array=X, axis=const(0), reps=const(3))
  cmp('ExpandTileTransformation', bc((full, NONE, full), (m, const(3), n_)), [m, n_], array=X, axis=const(1), reps=const(3))
  cmp('ExpandTileTransformation', bc((full, full, NONE), (m, n_, const(3))), [m, n_], array=X, axis=const(2), reps=const(3))
  cmp('ExpandTileTransformation', bc((NONE, full, NONE, full), (const(3), m, const(5), n_)), [m, n_], array=X, axis=tup((const(0), const(2))), reps=tup((const(3), const(5))))
  for ax, d in ((0, [const(1), m, n_]), (1, [m, const(1), n_]), (-1, [m, n_, const(1)])):
    cmp('SqueezeTransformation', raw('call', glob('jax.numpy.reshape'), (X, tup((m, n_))), ()), d, array=X, axis=const(ax))
  cmp('ReshapeTransformation', raw('call', glob('jax.numpy.reshape'), (X, tup((n_, m))), ()), [t.mul(m, n_)], array=X, shape=tup((n_, m)))
  me = ctx.eng.obj_of(f'{R}:StackTransformation')
  Y = sym('Y')
  for ax in (0, 1):
    r, w, _ = run('StackTransformation', to_stack=raw('list', X, Y), axis=const(ax))
    with tq.Dec(ctx, 'arrays', w):
      z = tz.Tensor()
      z.declare(X, [m, n_]); z.declare(Y, [m, n_])
      g, v = z.arr(r.ret), z.arr(raw('call', glob('jax.numpy.stack'), (raw('list', X, Y), const(ax)), ()))
      ctx.ob('arrays', w, z.same(g, v), f'{z.show(g)}, not {z.show(v)}')
  r = ctx.analyze(f'{R}:StackTransformation.append', attrs={(me, 'to_stack'): raw('list', X)})
  w = f'{r.file} StackTransformation.append'
  v = r.ret
  if v.op == 'call' and v.args[0].op == 'attr' and v.args[0].args[1] == 'replace': new = q.kws(v).get('to_stack', NONE)
  elif v.op == 'obj': new = dict(v.args[1]).get('to_stack', NONE)
  else: new = None
  if new is None: ctx.undecided('arrays', w, t.show(v, 3))
  else: ctx.ob('arrays', w, new.op == 'list' and new.args == (X, sym('x')), f'after appending the stack is {t.show(new, 3)}')


def zoom_call(ctx, w, x, src, tgt_shape, src_shape):
  """_zoom(src, shape/dtype of the result, target/source per axis)"""
  Z = f'{R}.ZoomTransformation._zoom'
  if not is_op(x, Z):
    ctx.undecided('zoom', w, t.show(x, 3))
    return
  a = list(x.args[1][1:]) + [v for k, v in x.args[2]]
  if len(a) != 3:
    ctx.undecided('zoom', w, t.show(x, 3))
    return
  s, sd, z = a
  ctx.ob('zoom', w, s is src, f'{t.show(s, 4)} is resized')
  if q.is_call(sd, 'jax.ShapeDtypeStruct'): ctx.ob('zoom', w, q.kwarg(sd, 'shape', 0) is tgt_shape, f'the new shape is {t.show(q.kwarg(sd, "shape", 0), 4)}')
  z = strip(z)
  if z.op == 'map':
    (i, *_), b = t.open_lam(z.args[0])
    want = t.div(raw('nth', tgt_shape, i), raw('nth', src_shape, i))
    ctx.ob('zoom', w, b is want and z.args[2] is TRUE, f'the factors are {t.show(b, 4)}')
  else: ctx.undecided('zoom', w, t.show(z, 3))


def zoom(ctx):
  me = ctx.eng.obj_of(f'{R}:ZoomTransformation')
  r = ctx.analyze(f'{R}:ZoomTransformation.__call__', opaque=[f'{R}.ZoomTransformation._zoom'])
  w = f'{r.file} ZoomTransformation.__call__'
  S, TG, SD = t.attr(me, 'source'), t.attr(me, 'target'), t.attr(me, 'target_shape_dtype')
  for none in (True, False):
    x = deep(r.ret, {raw('is', *sorted([NONE, TG])): none})
    zoom_call(ctx, w, x, S, t.attr(SD if none else TG, 'shape'), t.attr(S, 'shape'))


def vit_zoom(ctx):
  me = ctx.eng.obj_of(f'{R}:VitZoomTransformation')
  G, Z = f'{R}.VitZoomTransformation._get_tok_and_grid_shape', f'{R}.ZoomTransformation._zoom'
  r = ctx.analyze(f'{R}:VitZoomTransformation.__call__', opaque=[Z, G])
  w = f'{r.file} VitZoomTransformation.__call__'
  S, TG, SD = t.attr(me, 'source'), t.attr(me, 'target'), t.attr(me, 'target_shape_dtype')
  full = raw('slice', NONE, NONE, NONE)
  def clean(x):
    def f(y):
      if y.op == 'item' and y.args[1].op == 'tuple' and y.args[1].args and all(z is full for z in y.args[1].args): return clean(y.args[0])
    return t.transform(x, f, {})
  for none in (True, False):
    tv = SD if none else TG
    x0 = deep(r.ret, {raw('is', *sorted([NONE, TG])): none, raw('isinstance', tv, glob('jax.ShapeDtypeStruct')): none})
    gs = {y for y in t.subterms(x0) if is_op(y, G)}
    g = {v: next((y for y in gs if y.args[1][-1] is v), None) for v in (S, tv)}
    if g[S] is None or g[tv] is None or len(gs) != 2:
      off = [y.args[1][-1] for y in gs if y.args[1][-1] in (SD, TG) and y.args[1][-1] is not tv]
      if off: ctx.ob('zoom', w, False, f'the grid is that of {t.show(off[0], 2)} where the target is {t.show(tv, 2)}')
      else: ctx.undecided('zoom', w, f'{len(gs)} grids')
      continue
    for st in (True, False):
      for tt in (True, False):
        x = clean(deep(x0, {raw('truth', t.item(g[S], const(0))): st, raw('truth', t.item(g[tv], const(0))): tt}))
        txt = f'{w} ({"token" if st else "no token"} to {"token" if tt else "no token"}{", shape only" if none else ""})'
        tok = None
        if tt:
          if not (q.is_call(x, 'jax.numpy.concatenate') and x.args[1] and x.args[1][0].op in ('list', 'tuple') and len(x.args[1][0].args) == 2):
            ctx.ob('token', txt, not is_op(x, Z) and not q.is_mcall(x, 'reshape'), 'the target has a token but the result has none')
            continue
          ax = q.kwarg(x, 'axis', 1, const(0))
          ctx.ob('token', txt, t.is_const(ax, 1) or t.is_const(ax, -2), f'the token is joined along axis {t.show(ax, 2)}')
          tok, x = x.args[1][0].args
          own = S if st else TG
          one = t.item(own, tup((full, raw('slice', NONE, const(1), NONE), full)))
          one2 = t.item(own, tup((full, raw('slice', NONE, const(1), NONE))))
          if not st and none:
            nm = [y for y in t.subterms(tok) if q.is_call(y, 'jax.random.normal')]
            if len(nm) == 1:
              sh = q.kwarg(nm[0], 'shape', 1, NONE)
              ctx.ob('token', txt, tok is t.mul(const(0.02), nm[0]), f'a new token is {t.show(tok, 3)}')
              if sh.op == 'tuple': ctx.ob('token', txt, len(sh.args) == 3 and all(t.is_const(y, 1) for y in sh.args[:2]), f'a new token has shape {t.show(sh, 3)}')
            elif t.mentions(tok, TG): ctx.ob('token', txt, False, f'a new token is {t.show(tok, 3)}')
            else: ctx.undecided('token', txt, t.show(tok, 3))
          if st or not none: ctx.ob('token', txt, tok in (one, one2), f'the token is {t.show(tok, 4)}')
        elif q.is_call(x, 'jax.numpy.concatenate'):
          ctx.ob('token', txt, False, 'the target has no token but the result has one')
          continue
        ctx.ob('zoom', txt, not is_op(x, Z), 'the grid is not flattened again')
        if q.is_mcall(x, 'reshape'):
          sh = x.args[1][0].args if len(x.args[1]) == 1 and x.args[1][0].op in ('tuple', 'list') else x.args[1]
          if len(sh) == 3 and all(t.is_const(y) or y.op in ('item', 'nth', 'attr') for y in sh):
            hs = [y for y in (t.item(t.attr(v, 'shape'), const(k)) for v in (S, tv, x.args[0].args[0]) for k in (2, 3, -1))] + [t.item(g[v], const(1)) for v in (S, tv)]
            ctx.ob('zoom', txt, t.is_const(sh[0], 1) and (t.is_const(sh[1], -1) and not t.is_const(sh[2]) or t.is_const(sh[2], -1) and not t.is_const(sh[1])), f'the grid is flattened to {t.show(tup(sh), 4)}')
            if sh[2].op == 'item' and t.is_const(sh[2].args[1]) and sh[2].args[0].op == 'attr': ctx.ob('zoom', txt, t.cval(sh[2].args[1]) in (2, 3, -1), f'the grid is flattened to {t.show(tup(sh), 4)}')
          elif len(sh) != 3: ctx.ob('zoom', txt, False, f'the grid is flattened to {t.show(tup(sh), 4)}')
        if q.is_mcall(x, 'reshape') or q.is_call(x, 'jax.numpy.reshape'): x = x.args[0].args[0] if q.is_mcall(x, 'reshape') else x.args[1][0]
        grid = S
        if st: grid = t.item(S, tup((full, raw('slice', const(1), NONE, NONE), full)))
        alts = [raw('call', t.attr(gr, 'reshape'), (t.item(g[S], const(1)),), ()) for gr in ([grid, t.item(S, tup((full, raw('slice', const(1), NONE, NONE))))] if st else [grid])]
        src = x.args[1][1] if is_op(x, Z) and len(x.args[1]) > 1 and x.args[1][1] in alts else alts[0]
        zoom_call(ctx, txt, x, src, t.item(g[tv], const(1)), t.item(g[S], const(1)))
  # incompatible shapes
  good = ((1, 4, 7), (1, 9, 7))
  for none in (True, False):
    tv = SD if none else TG
    for a, b, what in (good + (None,), ((2, 4, 7), good[1], 'a source with several rows'), ((1, 2, 2, 7), good[1], 'a source of four dimensions'), ((4, 7), good[1], 'a source of two dimensions'), (good[0], (2, 9, 7), 'a target with several rows'),
                       (good[0], (1, 3, 3, 7), 'a target of four dimensions'), (good[0], (1, 7), 'a target of two dimensions'), ((1, 4, 8), good[1], 'another hidden size'), (good[0], (1, 9, 8), 'another hidden size')):
      at = {}
      for v, sh in ((S, a), (tv, b)): at.update({(v, 'shape'): tup([const(k) for k in sh]), (v, 'ndim'): const(len(sh)), (v, 'size'): const(int(__import__('math').prod(sh)))})
      try: r2 = ctx.analyze(f'{R}:VitZoomTransformation.__call__', opaque=[Z, G], attrs=at)
      except Exception as ex:
        ctx.undecided('rejected', w, str(ex)[:80])
        continue
      rej = FALSE
      for e in r2.events:
        if e.kind == 'raise': rej = t.b_or(rej, t.cond(deep(t.val(e.pc), {raw('is', *sorted([NONE, TG])): none})))
      if rej not in (TRUE, FALSE): ctx.undecided('rejected', w, t.show(t.val(rej), 3))
      else: ctx.ob('rejected', w, (rej is TRUE) == (what is not None), f'{what} is accepted' if what else 'a possible zoom is rejected')


def grid(ctx):
  v, n, h = sym('value'), sym('n'), sym('h')
  r = ctx.analyze(f'{R}:VitZoomTransformation._get_tok_and_grid_shape', attrs={(v, 'shape'): tup((const(1), n, h))})
  w = f'{r.file} VitZoomTransformation._get_tok_and_grid_shape'
  rej = FALSE
  for e in r.events:
    if e.kind == 'raise': rej = t.b_or(rej, t.cond(e.pc))
  rej = t.val(rej)
  fails, und = None, None
  for k in range(1, 300):
    env = {n: k, h: 7}
    s = int(k ** .5 + 1e-9)
    try:
      no = arith.ev(rej, env)
      if k not in (s * s, s * s + 1):
        if not no: fails = f'{k} tokens are accepted'
      elif no: fails = f'{k} tokens are rejected'
      elif arith.ev(r.ret, env) != (k != s * s, (1, s, s, 7)): fails = f'{k} tokens are read as {arith.ev(r.ret, env)}'
    except (arith.Open, TypeError, ValueError, ZeroDivisionError) as e: und = str(e)
    if fails or und: break
  if und: ctx.undecided('grid', w, und)
  else: ctx.ob('grid', w, not fails, fails or '')


def order(ctx):
  r = ctx.analyze(f'{M}:_natural_sort')
  w = f'{r.file} _natural_sort'
  x = r.ret
  if not q.is_call(x, 'sorted'):
    ctx.undecided('stack-order', w, t.show(x, 3))
    return
  ctx.ob('stack-order', w, x.args[1][0] is sym('names') or strip(x.args[1][0]) is sym('names'), 'other names are sorted')
  kw = q.kws(x)
  ctx.ob('stack-order', w, kw.get('reverse', FALSE) is FALSE, 'names are sorted backwards')
  k = kw.get('key')
  if k is None: ctx.ob('stack-order', w, False, 'numbers in names are compared as text')
  else: ctx.ob('stack-order', w, t.contains(k, lambda y: q.is_call(y, 'float', 'int')), 'numbers in names are compared as text')


I = 'vmoe.initialization.initialization'
MSD = f'{M}.map_state_dict'
RCP = 'vmoe.checkpoints.partitioned.restore_checkpoint'


def entries(ctx):
  """The public initializers: the restored checkpoint, the target and the rules of the caller, with the caller's strictness."""
  for n, where in (('orbax', 'directory'), ('vit', 'filepath'), ('vmoe', 'prefix')):
    r = ctx.analyze(f'{I}:initialize_from_{n}', opaque=[MSD, RCP, 'vmoe.partitioning.tree_axis_resources_from_regexes'])
    w = f'{r.file} initialize_from_{n}'
    for l, x in t.leaves(r.ret):
      if not is_op(x, MSD):
        if x is sym('target') or x is NONE: ctx.ob('entry', w, False, f'the result is {t.show(x, 3)}')
        else: ctx.undecided('entry', w, t.show(x, 3))
        continue
      a = dict(zip(('source', 'target', 'rules'), x.args[1]))
      a.update({k: v for k, v in x.args[2] if isinstance(k, str)})
      ctx.ob('entry', w, a.get('target') is sym('target') and a.get('rules') is sym('rules'), f'target and rules are {t.show(a.get("target", NONE), 3)}, {t.show(a.get("rules", NONE), 3)}')
      kw = [v for k, v in x.args[2] if isinstance(k, T) and k.op == 'kwstar'] + [v for k, v in x.args[2] if not isinstance(k, (str, T))]
      ctx.ob('entry', w, any(v is sym('**map_state_dict_kwargs') for v in kw) or not any(k.endswith('matched') for k in a if k not in ('source', 'target', 'rules')) and len(x.args[2]) > 0, 'the strictness asked for is lost')
      for k, v in a.items():
        if k.startswith('raise_if'): ctx.ob('entry', w, False, f'{k} is always {t.show(v, 2)}')
      s = a.get('source', NONE)
      ctx.ob('entry', w, t.mentions(s, sym(where)), f'the source is {t.show(s, 3)}, not the checkpoint')
      if n == 'vmoe' and is_op(s, RCP):
        b = dict(zip(('prefix', 'tree', 'axis_resources', 'thread_pool'), s.args[1])); b.update({k: v for k, v in s.args[2]})
        ctx.ob('entry', w, b.get('prefix') is sym('prefix'), f'the checkpoint restored is {t.show(b.get("prefix", NONE), 3)}')
  # bfloat16 arrays saved by numpy are void
  r = ctx.analyze(f'{R}:ZoomTransformation._zoom')
  w = f'{r.file} ZoomTransformation._zoom'
  zs = {y for y in t.subterms(r.ret) if q.is_call(y, 'scipy.ndimage.zoom')}
  if len(zs) != 1: ctx.undecided('zoom', w, f'{len(zs)} calls of scipy.ndimage.zoom')
  for z in zs:
    ctx.ob('zoom', w, q.kwarg(z, 'zoom', 1, NONE) is sym('zoom'), f'the factors are {t.show(q.kwarg(z, "zoom", 1, NONE), 3)}')
    ctx.ob('zoom', w, t.is_const(q.kwarg(z, 'order', 3, const(3)), 1), 'the interpolation is not linear')


# ---------------------------------------------------------------- where the arrays come from
TAR = 'vmoe.partitioning.tree_axis_resources_from_regexes'


def leaf(x):
  """The value at any leaf of a tree, in terms of the leaves of the trees it was mapped from."""
  if q.is_call(x, 'jax.tree.map') and len(x.args[1]) >= 2 and x.args[1][0].op == 'lam': return t.beta(x.args[1][0], [leaf(y) for y in x.args[1][1:]])
  if q.is_call(x, 'flax.serialization.from_state_dict') and len(x.args[1]) == 2: return leaf(x.args[1][1])
  if q.is_call(x, 'flax.serialization.to_state_dict') and len(x.args[1]) == 1: return leaf(x.args[1][0])
  return raw('leaf', x)


def tar(ctx, w, s, trees, rg, always=False):
  """The division of an array that is read: by the rules of the caller for the name of the array itself."""
  if s.op != 'leaf' or not is_op(s.args[0], TAR):
    ctx.ob('read-sharding', w, False, f'an array is read with the division {t.show(s, 4)}') if t.kind(s) != 'top' and s.op in ('leaf', 'const', 'call', 'sym') and not t.contains(s, lambda y: is_op(y, TAR)) else ctx.undecided('read-sharding', w, t.show(s, 4))
    return
  c = s.args[0]
  a = dict(zip(('tree', 'axis_resources_regexes'), c.args[1])); a.update(q.kws(c))
  tr, g = a.get('tree', NONE), a.get('axis_resources_regexes', NONE)
  ctx.ob('read-sharding', w, tr in trees, f'the division is looked up for the arrays of {t.show(tr, 3)}')
  y = t.assume(g, {raw('truth', rg): True, raw('is', *sorted([NONE, rg])): False})
  ctx.ob('read-sharding', w, y is rg, f'the rules of division are {t.show(g, 3)}')


def named(ctx, w, s, mesh):
  if not q.is_call(s, 'jax.sharding.NamedSharding'):
    ctx.ob('read-sharding', w, False, f'an array is read with the sharding {t.show(s, 4)}') if s.op in ('leaf', 'const', 'sym') else ctx.undecided('read-sharding', w, t.show(s, 4))
    return None
  ctx.ob('read-sharding', w, q.kwarg(s, 'mesh', 0, NONE) is mesh, f'the mesh is {t.show(q.kwarg(s, "mesh", 0, NONE), 3)}')
  return q.kwarg(s, 'spec', 1, NONE)


def source_of(ctx, n, opaque):
  r = ctx.analyze(f'{I}:initialize_from_{n}', opaque=[MSD, TAR] + opaque)
  w = f'{r.file} initialize_from_{n}'
  out = []
  for l, x in t.leaves(r.ret):
    if is_op(x, MSD): out.append(dict(zip(('source', 'target', 'rules'), x.args[1]), **{k: v for k, v in x.args[2] if isinstance(k, str)}).get('source', NONE))
  if not out: ctx.undecided('read', w, t.show(r.ret, 3))
  return r, w, out


def from_vmoe(ctx):
  r, w, srcs = source_of(ctx, 'vmoe', [RCP])
  mesh, rg, pf, tg = sym('mesh'), sym('axis_resources_regexes'), sym('prefix'), sym('target')
  for s in srcs:
    if not is_op(s, RCP):
      ctx.undecided('read', w, t.show(s, 3))
      continue
    b = dict(zip(('prefix', 'tree', 'thread_pool'), s.args[1])); b.update(q.kws(s))
    if 'thread_pool' in b: ctx.ob('read', w, b['thread_pool'] in (sym('thread_pool'), NONE), f'the thread pool is {t.show(b["thread_pool"], 3)}')
    tree = b.get('tree', NONE)
    if tree is NONE:
      ctx.ob('read', w, False, 'the checkpoint is read without the shapes and divisions of its arrays')
      continue
    vers = {a for a in t.inner_atoms(tree) if a.op == 'eq' and any(y.op == 'enum' and y.args[1] == 'UNKNOWN' for y in a.args)}
    ctx.ob('legacy', w, len(vers) == 1, 'files of the old layout are not told from those of the new one') if len(vers) != 1 and not any(q.is_call(y, 'getattr') for y in t.subterms(tree)) else None
    idx = None
    for old in (False, True):
      y = deep(tree, {a: old for a in vers})
      v = leaf(y)
      if not q.is_call(v, 'jax.ShapeDtypeStruct'):
        ctx.undecided('read', w, t.show(v, 4))
        continue
      sh, dt, sd = q.kwarg(v, 'shape', 0, NONE), q.kwarg(v, 'dtype', 1, NONE), q.kwarg(v, 'sharding', 2, NONE)
      src = sh.args[0] if sh.op == 'attr' and sh.args[1] == 'shape' else None
      ctx.ob('read', w, src is not None and dt is t.attr(src, 'dtype'), f'an array is read with shape {t.show(sh, 3)} and type {t.show(dt, 3)}')
      if src is not None:
        if src.op == 'attr' and src.args[0].op == 'leaf': ctx.ob('read', w, src.args[1] == 'global_shape', f'an array is read with the shape {t.show(src, 3)}')
        ix = src.args[0].args[0] if src.op == 'attr' and src.args[0].op == 'leaf' else src.args[0] if src.op == 'leaf' else None
        if ix is not None and ix.op == 'item':
          ctx.ob('read', w, t.is_const(ix.args[1], 'index'), f'shapes are those of {t.show(ix, 3)}')
          f = ix.args[0]
          if f.op == 'call' and len(f.args[1]) >= 1: ctx.ob('read', w, f.args[1][0] is t.strcat([pf, const('.index')]), f'the index is read from {t.show(f.args[1][0], 4)}')
          idx = ix
        elif ix is tg: ctx.ob('read', w, False, 'arrays are read with the shapes of the target')
        else: ctx.undecided('read', w, t.show(src, 3))
      spec_ = named(ctx, w, sd, mesh)
      if spec_ is not None: tar(ctx, w, spec_, [z for z in t.subterms(y) if q.is_call(z, 'jax.tree.map', 'flax.serialization.from_state_dict')] + ([idx] if idx is not None else []) + ([tg] if old else []), rg)
      if old: ctx.ob('legacy', w, t.contains(y, lambda z: q.is_call(z, 'flax.serialization.from_state_dict') and z.args[1][0] is tg), 'the arrays of an old file do not get the structure of the target')
      else: ctx.ob('legacy', w, not t.mentions(y, tg), 'the arrays that are read depend on the target')
    rs = [e for e in r.events if e.kind == 'raise']
    rej = FALSE
    for e in rs: rej = t.b_or(rej, t.cond(t.val(e.pc)))
    ne = {a for a in t.inner_atoms(rej) if a.op == 'eq' and all(q.is_call(z, 'jax.tree.structure') for z in a.args)}
    if vers: ctx.ob('legacy', w, bool(ne) and t.implies(t.b_and(t.cond(next(iter(vers))), t.b_not(t.cond(next(iter(ne))))), rej), 'an old file of another structure than the target is accepted')
    if vers: ctx.ob('legacy', w, t.cond(t.assume(rej, {next(iter(vers)): False})) is FALSE, 'a file of the new layout is rejected')
    if vers and ne: ctx.ob('legacy', w, t.cond(t.assume(rej, {**{a: True for a in ne}})) is FALSE, 'an old file with the structure of the target is rejected')
    for a in vers:
      g = next((y for y in a.args if y.op != 'enum'), NONE)
      if g.op == 'getdef':
        ctx.ob('legacy', w, t.is_const(g.args[1], 'version') and g.args[2].op == 'enum' and g.args[2].args[1] == 'UNKNOWN', f'the version of a file is {t.show(g, 4)}')


def from_vit(ctx):
  LD = 'vit_jax.checkpoint.load'
  r, w, srcs = source_of(ctx, 'vit', [])
  mesh, rg = sym('mesh'), sym('axis_resources_regexes')
  for s in srcs:
    v = leaf(s)
    ls = {y for y in t.subterms(v) if y.op == 'leaf'}
    if len(ls) != 1:
      ctx.undecided('read', w, t.show(v, 4))
      continue
    x = ls.pop()
    ctx.ob('read', w, q.is_call(x.args[0], LD) and q.kwarg(x.args[0], 'path', 0, NONE) is sym('filepath'), f'the arrays are those of {t.show(x.args[0], 4)}')
    void = [a for a in t.inner_atoms(v) if a.op in ('is', 'eq') and t.contains(a, lambda y: t.is_glob(y, 'numpy.void'))]
    has = [a for a in t.inner_atoms(v) if a.op == 'hasattr']
    if len(void) != 1:
      if v is x: ctx.ob('read', w, False, 'bfloat16 arrays are left as void')
      elif not void and t.contains(v, lambda y: q.is_mcall(y, 'view')): ctx.ob('read', w, False, 'arrays of a known type are taken for bfloat16')
      else: ctx.undecided('read', w, t.show(v, 4))
      continue
    b = t.assume(v, {void[0]: True, **{a: True for a in has}})
    if q.is_mcall(b, 'view'): ctx.ob('read', w, b.args[0].args[0] is x and t.is_glob(b.args[1][0], 'jax.numpy.bfloat16'), f'a void array is {t.show(b, 4)}')
    else: ctx.ob('read', w, b is not x, 'bfloat16 arrays are left as void') if b is x else ctx.undecided('read', w, t.show(b, 4))
    for l in ({void[0]: False, **{a: True for a in has}}, {a: False for a in has}):
      if l: ctx.ob('read', w, t.assume(v, l) is x, f'an array becomes {t.show(t.assume(v, l), 4)}')
    bad = [e for e in r.events if e.kind == 'raise' and t.contains(t.val(e.pc), lambda y: y.op == 'attr' and y.args[1] == 'itemsize')]
    ctx.ob('read', w, bool(bad), 'void arrays of any size are taken for bfloat16')
    for e in bad:
      two = [a for a in t.inner_atoms(t.val(e.pc)) if a.op == 'eq' and t.contains(a, lambda y: y.op == 'attr' and y.args[1] == 'itemsize')]
      if len(two) == 1:
        ctx.ob('read', w, any(t.is_const(y, 2) for y in two[0].args), f'void arrays must have {t.show(two[0], 3)}')
        ctx.ob('read', w, t.cond(t.assume(t.val(e.pc), {two[0]: True})) is FALSE, 'bfloat16 arrays are rejected')
        vo = [a for a in t.inner_atoms(t.val(e.pc)) if t.contains(a, lambda y: t.is_glob(y, 'numpy.void'))]
        ctx.ob('read', w, t.cond(t.assume(t.val(e.pc), {**{a: False for a in vo}})) is FALSE, 'arrays of a known type are rejected')
    js = [e for e in r.events if e.kind == 'jit']
    if len(js) != 1:
      ctx.undecided('read-sharding', w, f'{len(js)} compiled functions') if js else ctx.ob('read-sharding', w, t.contains(raw('tuple', *[a for e in r.events if e.kind == 'call' for a in e.args]), lambda y: is_op(y, TAR)) and False or any(e.kind == 'call' and t.is_glob(e.fn, 'jax.device_put') for e in r.events), 'the arrays are not divided over the mesh')
      continue
    e = js[0]
    o = q.ekws(e).get('out_shardings')
    if o is None:
      ctx.ob('read-sharding', w, False, 'the arrays are not divided as the rules say')
      continue
    y = deep(o, {raw('is', *sorted([NONE, rg])): True, raw('truth', rg): False})
    lf = leaf(y)
    if q.is_call(lf, 'jax.sharding.PartitionSpec'): ctx.ob('read-sharding', w, not lf.args[1], f'without rules an array is divided by {t.show(lf, 3)}')
    elif lf.op == 'leaf' and is_op(lf.args[0], TAR): pass
    else: ctx.undecided('read-sharding', w, t.show(lf, 4))
    y = deep(o, {raw('is', *sorted([NONE, rg])): False, raw('truth', rg): True})
    tar(ctx, w, leaf(y), [s], rg)
    inn = [x for x in r.events if x.kind == 'enter' and x.fn is mesh and x.seq < e.seq]
    out = [x for x in r.events if x.kind == 'exit' and x.fn is mesh and x.seq > e.seq]
    ns = t.contains(o, lambda y: q.is_call(y, 'jax.sharding.NamedSharding'))
    ctx.ob('read-sharding', w, ns or bool(inn and out), 'the specifications are used outside of the mesh')


def from_orbax(ctx):
  r, w, srcs = source_of(ctx, 'orbax', [])
  mesh, rg, dr = sym('mesh'), sym('axis_resources_regexes'), sym('directory')
  for s in srcs:
    if not q.is_mcall(s, 'restore'):
      ctx.undecided('read', w, t.show(s, 3))
      continue
    ctx.ob('read', w, bool(s.args[1]) and s.args[1][0] is dr, f'the checkpoint is read from {t.show(s.args[1][0], 3) if s.args[1] else None}')
    ra = q.kws(s).get('restore_args')
    if ra is None:
      ctx.ob('read-sharding', w, False, 'the arrays are read without their divisions')
      continue
    if not q.is_call(ra, 'jax.tree.map'):
      ctx.undecided('read', w, t.show(ra, 3))
      continue
    v = leaf(ra)
    st = ra.args[1][1]
    x = leaf(st)
    none = raw('is', *sorted([NONE, x]))
    isl = q.kws(ra).get('is_leaf')
    if none in t.inner_atoms(v) or isl is not None:
      ctx.ob('read', w, isl is not None and isl.op == 'lam' and t.cond(t.beta(isl, [NONE])) is TRUE, 'values that are None are no leaves of the tree')
      if isl is not None and isl.op == 'lam': ctx.ob('read', w, t.cond(t.beta(isl, [raw('tuple', sym('p'))])) is FALSE, 'parts of the tree are taken for values')
      ctx.ob('read', w, t.assume(v, {none: True}) is NONE, f'a value that is None is read with {t.show(t.assume(v, {none: True}), 3)}')
    v = t.assume(v, {none: False})
    sd = [a for a in t.inner_atoms(v) if a.op == 'isinstance' and a.args[0] is x]
    if len(sd) != 1:
      if v is NONE or q.is_call(v, 'orbax.checkpoint.RestoreArgs', 'orbax.checkpoint.ArrayRestoreArgs'): ctx.ob('read', w, False, f'every value is read with {t.show(v, 3)}')
      else: ctx.undecided('read', w, t.show(v, 4))
      continue
    a, b = t.assume(v, {sd[0]: True}), t.assume(v, {sd[0]: False})
    ctx.ob('read', w, q.is_call(b, 'orbax.checkpoint.RestoreArgs'), f'a value that is no array is read with {t.show(b, 3)}')
    if not q.is_call(a, 'orbax.checkpoint.ArrayRestoreArgs'):
      ctx.ob('read-sharding', w, False, f'an array is read with {t.show(a, 3)}')
      continue
    k = q.kws(a)
    ctx.ob('read', w, k.get('dtype', t.attr(x, 'dtype')) is t.attr(x, 'dtype') and k.get('global_shape', t.attr(x, 'shape')) is t.attr(x, 'shape'), f'an array is read as {t.show(a, 4)}')
    if 'sharding' not in k: ctx.ob('read-sharding', w, False, 'the arrays are read without their divisions')
    else:
      sp = named(ctx, w, k['sharding'], mesh)
      if sp is not None: tar(ctx, w, sp, [st], rg)
    # the structure
    if not (q.is_call(st, 'flax.serialization.from_state_dict') and q.is_call(st.args[1][1], 'flax.traverse_util.unflatten_dict')):
      ctx.ob('read', w, False, 'the shapes of the arrays are not read') if q.is_mcall(st, 'structure') or st.op == 'ite' else ctx.undecided('read', w, t.show(st, 4))
      continue
    S0, un = st.args[1]
    d = un.args[1][0]
    while d.op == 'dictof': d = d.args[0]
    if q.is_mcall(d, 'map', 'imap') and d.args[1][0].op == 'lam': fn, it = d.args[1][:2]
    elif d.op == 'map' and d.args[2] is TRUE: fn, it = d.args[0], d.args[1]
    else:
      if q.is_call(d, 'flax.traverse_util.flatten_dict'): ctx.ob('read', w, False, 'the shapes of the arrays are not read')
      else: ctx.undecided('read', w, t.show(d, 4))
      continue
    fl = it.args[0].args[0] if q.is_mcall(it, 'items') else it.args[0] if it.op == 'items' else None
    if fl is None or not q.is_call(fl, 'flax.traverse_util.flatten_dict'):
      ctx.undecided('read', w, t.show(it, 4))
      continue
    ctx.ob('read', w, leaf(fl.args[1][0]) is leaf(S0), f'shapes are read for {t.show(fl.args[1][0], 3)}')
    sep = lambda c, i: q.kwarg(c, 'sep', i, NONE)
    ctx.ob('read', w, sep(fl, 3) is sep(un, 1), 'names are joined and split differently')
    ctx.ob('read', w, q.kwarg(fl, 'keep_empty_nodes', 1, FALSE) is TRUE, 'empty parts of the checkpoint are lost')
    kk, vv = sym('k'), sym('v')
    if d.op == 'map':
      (i,), y = t.open_lam(fn)
      y = t.subst(y, {raw('nth', it, i): tup((kk, vv))})
    else: y = t.beta(fn, [tup((kk, vv))])
    isstr = [a for a in t.inner_atoms(y) if a.op == 'isinstance' and a.args[0] is vv and t.is_glob(a.args[1], 'str')]
    pre = [a for a in t.inner_atoms(y) if a.op == 'truth' and q.is_mcall(a.args[0], 'startswith') and a.args[0].args[0].args[0] is vv]
    if len(pre) != 1:
      if y is tup((kk, vv)): ctx.ob('read', w, False, 'the shapes of the arrays are not read')
      elif not pre and not t.contains(y, lambda z: t.is_const(z, 'PLACEHOLDER://')): ctx.ob('read', w, False, f'a value that is no array becomes {t.show(y, 4)}')
      else: ctx.undecided('read', w, t.show(y, 4))
      continue
    PH = 'PLACEHOLDER://'
    ctx.ob('read', w, t.is_const(pre[0].args[0].args[1][0], PH), f'arrays are marked by {t.show(pre[0].args[0].args[1][0], 3)}')
    ctx.ob('read', w, bool(isstr), 'values that are no strings are searched')
    for l in ({a: False for a in isstr}, {**{a: True for a in isstr}, pre[0]: False}):
      z = t.assume(y, l)
      ctx.ob('read', w, z is tup((kk, vv)), f'a value that is no array becomes {t.show(z, 4)}')
    z = t.assume(y, {**{a: True for a in isstr}, pre[0]: True})
    if z.op != 'tuple' or len(z.args) != 2 or not q.is_call(z.args[1], 'jax.ShapeDtypeStruct'):
      ctx.ob('read', w, z is not tup((kk, vv)), 'the shapes of the arrays are not read') if z is tup((kk, vv)) else ctx.undecided('read', w, t.show(z, 4))
      continue
    ctx.ob('read', w, z.args[0] is kk, f'the name of an array becomes {t.show(z.args[0], 3)}')
    sh, dt = strip(q.kwarg(z.args[1], 'shape', 0, NONE)), q.kwarg(z.args[1], 'dtype', 1, NONE)
    if q.is_call(dt, 'jax.numpy.dtype', 'numpy.dtype'): dt = dt.args[1][0]
    if sh.op == 'item' and dt.op == 'item':
      ctx.ob('read', w, t.is_const(sh.args[1], 'shape') and t.is_const(dt.args[1], 'dtype') and sh.args[0] is dt.args[0], f'an array has shape {t.show(sh, 3)} and type {t.show(dt, 3)}')
    else: ctx.undecided('read', w, t.show(z, 4))
    op = {e.args[0] for e in r.events if e.kind == 'call' and e.fn.op == 'glob' and e.fn.args[0].endswith('GFile') and e.args}
    for p in op:
      if q.is_call(p, 'os.path.join') and len(p.args[1]) == 3:
        a, b, c = p.args[1]
        ctx.ob('read', w, a is dr and t.is_const(c, '.zarray'), f'the shape of an array is read from {t.show(p, 3)}')
        if b.op == 'item' and b.args[1].op == 'slice': ctx.ob('read', w, t.is_const(b.args[1].args[0], len(PH)) and b.args[1].args[1] is NONE and b.args[1].args[2] is NONE, f'the shape of an array is read from {t.show(p, 5)}')
        elif q.is_mcall(b, 'removeprefix'): ctx.ob('read', w, t.is_const(b.args[1][0], PH), f'the shape of an array is read from {t.show(p, 5)}')
        elif b.op == 'item': ctx.ob('read', w, False, f'the shape of an array is read from {t.show(p, 5)}')


def strict_defaults(ctx):
  defaults(ctx, f'{M}:map_state_dict', {'raise_if_dtype_mismatched': False, 'raise_if_shape_mismatched': True, 'raise_if_source_unmatched': True, 'raise_if_target_unmatched': True})


def meshes(ctx):
  """Resizing within a mesh: the same function, on the whole array; arrays without sharding are replicated."""
  MP = glob('jax.interpreters.pxla.thread_resources.env.physical_mesh')
  src, sd, zm = None, None, None
  for bare in (True, False):
    r = ctx.analyze(f'{R}:ZoomTransformation._zoom', attrs={(MP, 'empty'): const(bare)})
    w = f'{r.file} ZoomTransformation._zoom'
    src, sd, zm = list(r.params.values())[-3:]
    x, sp = r.ret, None
    wsc = lambda y: y if not q.is_call(y, 'jax.lax.with_sharding_constraint') else y.args[1][0]
    if x.op == 'call' and x.args[0].op == 'call' and t.contains(x.args[0].args[0], lambda y: y.op == 'glob' and 'shard_map' in y.args[0]):
      sm = x.args[0]
      for k in ('in_specs', 'out_specs'):
        s = q.kws(sm).get(k)
        if s is None: continue
        bad = t.contains(s, lambda y: t.is_const(y) and isinstance(t.cval(y), str))
        ctx.ob('zoom', w, not bad, f'only a part of the array is resized: {k}={t.show(s, 4)}')
      f = sm.args[1][0]
      a = t.assume(x.args[1][0], {y: False for y in t.inner_atoms(x.args[1][0]) if y.op == 'is'})
      ctx.ob('zoom', w, a is src or q.is_call(a, 'jax.lax.with_sharding_constraint') and a.args[1][0] is src and q.is_call(a.args[1][1], 'jax.sharding.PartitionSpec') and not a.args[1][1].args[1], f'{t.show(a, 4)} is resized')
      x = t.beta(f, [src]) if f.op == 'lam' else x
    if not q.is_call(x, 'jax.pure_callback'):
      ctx.undecided('zoom', w, t.show(x, 4))
      continue
    f, s, *a = x.args[1]
    ctx.ob('zoom', w, s is sd, f'the resized array is {t.show(s, 3)}')
    ctx.ob('zoom', w, a == [src], f'{t.show(tup(a), 3)} is resized')
    if f.op == 'lam':
      y = t.beta(f, [sym('xx')])
      if q.is_call(y, 'scipy.ndimage.zoom'):
        ctx.ob('zoom', w, q.kwarg(y, 'input', 0, NONE) is sym('xx') and q.kwarg(y, 'zoom', 1, NONE) is zm and t.is_const(q.kwarg(y, 'order', 3, const(3)), 1), f'the array is resized by {t.show(y, 4)}')
      else: ctx.undecided('zoom', w, t.show(y, 4))
  r = ctx.analyze('vmoe.partitioning:get_array_sharding_or_default')
  w = f'{r.file} get_array_sharding_or_default'
  a, = r.params.values()
  h = [y for y in t.inner_atoms(r.ret) if y.op == 'hasattr']
  if len(h) == 1:
    y = t.assume(r.ret, {h[0]: True})
    ctx.ob('sharding', w, t.is_const(h[0].args[1], 'sharding') and y is t.attr(a, 'sharding'), f'the sharding of an array is {t.show(y, 3)}')
    y = t.assume(r.ret, {h[0]: False})
    if q.is_call(y, 'jax.sharding.NamedSharding'):
      s = q.kwarg(y, 'spec', 1, NONE)
      ctx.ob('sharding', w, q.is_call(s, 'jax.sharding.PartitionSpec') and all(z is NONE for z in s.args[1]), f'an array without sharding is divided by {t.show(s, 3)}')
      m = q.kwarg(y, 'mesh', 0, NONE)
      if q.is_call(m, 'jax.sharding.Mesh'): ctx.ob('sharding', w, not t.contains(m, lambda z: q.is_call(z, 'jax.local_devices')), 'the default mesh has the local devices only')
    else: ctx.undecided('sharding', w, t.show(y, 3))
  else: ctx.undecided('sharding', w, t.show(r.ret, 3))

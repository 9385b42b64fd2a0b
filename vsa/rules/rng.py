"""C14: PRNG keys are never used twice, and every step hands fresh keys to the next one."""
import ast

from .. import q
from .. import terms as t
from ..framework import prop
from ..terms import TRUE, FALSE, NONE, raw, const, glob, sym, T

SPLIT = 'jax.random.split'
CREATE = ('PRNGKey', 'key', 'key_data', 'wrap_key_data', 'clone')
CARRY = ('replace', 'update', 'create')


def split_(k, n): return raw('call', glob(SPLIT), (k, n), ())


def norm(x):
  """Key trees are pointwise: a map over a tree of keys is written as the function of the tree."""
  def f(y):
    if y.op == 'call' and q.is_call(y, 'jax.tree.map') and len(y.args[1]) == 2 and y.args[1][0].op == 'lam' and y.args[1][0].args[1] == 1:
      return norm(t.beta(y.args[1][0], [norm(y.args[1][1])]))
    if y.op == 'dictupd' and y.args[0] is raw('dict') and y.args[1].op == 'map':
      r = dictmap(y.args[1])
      if r is not None: return r
    if y.op == 'dictmap':
      return None
    if q.is_call(y, SPLIT) and (y.args[2] or len(y.args[1]) == 1):
      k = q.kwarg(y, 'key', 0)
      n = q.kwarg(y, 'num', 1, const(2))
      return split_(norm(k), n)
    if y.op == 'nth' and q.is_call(y.args[0], SPLIT): return t.item(norm(y.args[0]), y.args[1])
    if y.op == 'item' and y.args[0].op in ('call', 'item', 'dictupd'):
      b = norm(y.args[0])
      if q.is_call(b, SPLIT) and t.is_const(y.args[1]) and isinstance(y.args[1].args[1], int) and y.args[1].args[1] < 0:
        return t.item(b, t.add(b.args[1][1], y.args[1]))
      if b is not y.args[0]: return t.item(b, y.args[1])
    return None
  return t.transform(x, f)


def dictmap(m):
  """{k: f(v) for k, v in D.items()} as f(D)."""
  lam, it, filt = m.args
  if filt is not TRUE or lam.args[1] != 1: return None
  if not (q.is_mcall(it, 'items')): return None
  d = it.args[0].args[0]
  syms, b = t.open_lam(lam)
  if b.op != 'tuple' or len(b.args) != 2: return None
  k, v = b.args
  if k is not t.item(syms[0], const(0)): return None
  out = t.subst(v, {t.item(syms[0], const(1)): norm(d), t.item(d, k): norm(d)})
  return None if t.mentions(out, syms[0]) else norm(out)


def bound(x):
  """A parameter of an abstracted function (opened lambda)."""
  return x.op == 'sym' and str(x.args[0]).startswith('l_')


def keys_of(e):
  """(kind, key, detail) of the keys a call uses."""
  f = e.fn
  if f is None or e.kind != 'call': return
  if f.op == 'glob' and f.args[0].startswith('jax.random.'):
    n = f.args[0].rsplit('.', 1)[1]
    if n in CREATE: return
    k = q.ekw(e, 'key', 0)
    if k is None: return
    if n == 'split': yield 'split', k, q.ekw(e, 'num', 1, const(2))
    elif n == 'fold_in': yield 'fold_in', k, q.ekw(e, 'data', 1)
    else: yield 'draw', k, raw('call', f, tuple(e.args), tuple(sorted(e.kwargs, key=lambda kv: str(kv[0]))))
    return
  if f.op == 'glob' and f.args[0] == 'jax.tree.map' and len(e.args) == 2 and isinstance(e.args[0], T) and e.args[0].op == 'lam' and e.args[0].args[1] == 1:
    whole = norm(raw('call', f, tuple(e.args), tuple(e.kwargs)))
    for x in t.subterms(whole):
      if q.is_call(x, SPLIT) and x.args[1]: yield 'split', x.args[1][0], x.args[1][1] if len(x.args[1]) > 1 else const(2)
      elif x.op == 'call' and x.args[0].op == 'glob' and x.args[0].args[0].startswith('jax.random.') and x.args[0].args[0].rsplit('.', 1)[1] not in CREATE and x.args[1]:
        yield ('fold_in' if x.args[0].args[0].endswith('fold_in') else 'draw'), x.args[1][0], x
    return
  if f.op == 'attr' and f.args[1] in CARRY: return
  if f.op == 'attr' and f.args[1].startswith('apply_gradients'): return
  if f.op in ('cls',): return
  for kw, v in e.kwargs:
    if kw == 'rngs' and v is not NONE: yield 'apply', v, raw('call', f, tuple(e.args), tuple(sorted(e.kwargs, key=lambda kv: str(kv[0]))))


def uses(r, lits):
  """Distinct uses of keys: (key, use, path condition, event)."""
  out = {}
  for e in r.events:
    if e.kind != 'call': continue
    pc = t.cond(t.assume(t.val(e.pc), lits))
    if pc is FALSE: continue
    for kind, k, d in keys_of(e):
      for ls, kk in t.leaves(norm(t.assume(k, lits))):
        if kk is NONE or bound(kk): continue
        c = pc
        for a, v in ls.items():
          d1 = raw('ite', a, TRUE, FALSE)
          c = t.b_and(c, d1 if v else t.b_not(d1))
        if c is FALSE: continue
        out.setdefault((kk, kind, norm(t.assume(d, lits)) if d is not None else None), []).append((c, e))
  return out


def reuse(r, lits):
  """Pairs of different uses of one key that can happen in one run."""
  u = uses(r, lits)
  by = {}
  for (k, kind, d), ev in u.items(): by.setdefault(k, []).append((kind, d, ev))
  for k, us in by.items():
    for i in range(len(us)):
      for j in range(i + 1, len(us)):
        if us[i][0] == us[j][0] == 'fold_in': continue
        for c1, e1 in us[i][2]:
          for c2, e2 in us[j][2]:
            if t.b_and(c1, c2) is not FALSE: yield k, us[i], us[j], e1, e2


def loop_reuse(r, lits):
  """Keys used in every iteration of a loop without depending on it."""
  for e in r.events:
    if e.kind != 'call' or e.fn is None or e.fn.op != 'glob': continue
    n = e.fn.args[0]
    if n in ('jax.lax.fori_loop', 'jax.lax.scan', 'jax.lax.while_loop', 'jax.lax.map'):
      for a in e.args:
        if isinstance(a, T) and a.op == 'lam':
          syms, body = t.open_lam(t.assume(a, lits) if lits else a, 'it')
          for x in t.subterms(body):
            if x.op != 'call': continue
            for kw, v in x.args[2]:
              if kw == 'rngs' and v is not NONE and not any(t.mentions(v, s) for s in syms): yield v, e
            if x.args[0].op == 'glob' and x.args[0].args[0].startswith('jax.random.') and x.args[0].args[0].rsplit('.', 1)[1] not in CREATE + ('fold_in', 'split') and x.args[1] and \
               not t.contains(x.args[1][0], lambda y: y in syms or y.op == 'bv'): yield x.args[1][0], e
  for e in r.events:
    if e.kind != 'call' or not e.loops: continue
    for kind, k, d in keys_of(e):
      if kind in ('fold_in', 'split') or bound(k): continue
      for l in e.loops:
        vs = [l.idx] + [p for p in (l.phis.values() if isinstance(l.phis, dict) else l.phis)]
        vs = [v for v in vs if isinstance(v, T)]
        if not any(t.mentions(k, v) for v in vs) and not t.contains(k, lambda y: y.op in ('phi', 'loop')): yield k, e


def carried(x):
  """The keys stored in a returned state: every rngs field of a replace / constructor / gradient application."""
  out = []
  for y in t.subterms(x):
    if y.op == 'obj':
      for k, v in y.args[1]:
        if k == 'rngs': out.append(v)
    if y.op == 'call' and y.args[0].op == 'attr' and (y.args[0].args[1] in CARRY or y.args[0].args[1].startswith('apply_gradients')):
      for k, v in y.args[2]:
        if k == 'rngs': out.append(v)
  return out


STEPS = [
    ('vmoe.train.trainer:train_step', 'state', None),
    ('vmoe.projects.contrastive.trainer:train_step', 'state', None),
    ('vmoe.evaluate.evaluator:evaluate_step', 'state', 'vmoe.evaluate.evaluator:EvalState'),
    ('vmoe.evaluate.fewshot:_fewshot_step', 'state', None),
]


def positional(r, i): return list(r.params.values())[i]


def first_param(ctx, path):
  found = ctx.eng.find(path)
  return None if found is None else (found[1].args.posonlyargs + found[1].args.args)[0].arg


@prop('C14', 'Key linearity over the value-flow terms of every step function: no key (or tree of keys) has two different uses on one path, none is used in a loop it does not depend on, and the '
             'keys stored in the new state are derived by a split of the incoming ones and not used in the step; streams are different children of one split.', floor=18)
def c14(ctx):
  for path, p, cls in STEPS: ctx.section(one_step, path, cls)
  for f in (attack, attack_wrapper, mixup_wrapper, all_streams, children, fewshot_seed): ctx.section(f)


def one_step(ctx, path, cls):
  p = first_param(ctx, path)
  if p is None:
    ctx.undecided('step', path, 'no such function')
    return
  o = ctx.eng.obj_of(cls) if cls else None
  r = ctx.analyze(path, bind={p: o} if o is not None else {})
  st = positional(r, 0)
  step(ctx, path, r, t.attr(st, 'rngs'), r.ret, {})


def attack(ctx):
  # the attack: incoming keys are the third argument
  path = 'vmoe.projects.adversarial_attacks.attacks:stateless_attack_pgd'
  r = ctx.analyze(path)
  k = positional(r, 2)
  nn = {raw('is', *sorted([NONE, k])): False}
  step(ctx, path, r, k, None, nn, nxt=t.item(r.ret, const(1)), extra=[r.ret])
  pgd_indices(ctx, path, r, k, nn)


def attack_wrapper(ctx):
  st, im, lb = sym('state'), sym('images'), sym('labels')
  path = 'vmoe.train.trainer:wrap_train_step_with_adversarial_attack'
  r = ctx.analyze(path, bind=dict(max_epsilon=const(0.25), num_updates=const(3)), then=[st, im, lb], opaque=['vmoe.projects.adversarial_attacks.attacks.stateless_attack_pgd'])
  w = f'{r.file} wrap_train_step_with_adversarial_attack'
  at = [e for e in r.events if e.kind == 'call' and e.fn.op == 'opaque']
  inner = [e for e in r.events if e.kind == 'call' and e.fn is sym('train_step_fn')]
  if len(at) == 1 and len(inner) == 1:
    call = next((x for a in inner[0].args for x in t.subterms(a) if x.op == 'call' and x.args[0].op == 'opaque'), None)
    ctx.ob('attack-keys', w, q.ekw(at[0], 'rngs', 2) is t.attr(st, 'rngs'), 'the attack does not use the keys of the state')
    ctx.ob('attack-keys-threaded', w, call is not None and norm(t.attr(inner[0].args[0], 'rngs')) is t.item(call, const(1)),
           f'the training step after the attack gets the keys {t.show(t.attr(inner[0].args[0], "rngs"), 5)}, which the attack may have used')
  else: ctx.undecided('attack-keys', w, f'{len(at)} attacks, {len(inner)} steps')


def mixup_wrapper(ctx):
  st, im, lb = sym('state'), sym('images'), sym('labels')
  path = 'vmoe.train.trainer:wrap_train_step_with_mixup'
  r = ctx.analyze(path, bind=dict(concentration=const(0.5)), then=[st, im, lb])
  w = f'{r.file} wrap_train_step_with_mixup'
  for k, a, b, e1, e2 in reuse(r, {}): ctx.ob('key-used-once', w, False, f'key {t.show(k, 5)} is used at {e1.where()} and again at {e2.where()}')
  ctx.ob('key-used-once', w, True)
  inner = [e for e in r.events if e.kind == 'call' and e.fn is sym('train_step_fn')]
  if len(inner) == 1:
    call = raw('call', inner[0].fn, tuple(inner[0].args), tuple(inner[0].kwargs))
    given = t.attr(inner[0].args[0], 'rngs')
    new = norm(t.attr(t.item(r.ret, const(0)), 'rngs'))
    mine = norm(t.item(new, const('mixup')))
    for e in r.events:
      if e.kind == 'setitem' and t.is_const(e.args[0], 'mixup') and norm(e.fn) is new: mine = norm(e.args[1])
    ctx.ob('next-mixup-key', w, t.item(r.ret, const(0)) is not t.item(call, const(0)), 'with frozen keys the returned state is the one of the inner step, without the next mixup key')
    drawn = [norm(k) for e in r.events for kind, k, d in keys_of(e) if kind == 'draw']
    src = [x for x in t.subterms(mine) if q.is_call(x, SPLIT)]
    ok = mine.op == 'item' and bool(src) and t.mentions(mine, t.attr(st, 'rngs')) and mine not in drawn
    ctx.ob('next-mixup-key', w, ok, f'the mixup key of the new state is {t.show(mine, 6)}: not a fresh child of the old one')
    ctx.ob('other-keys-kept', w, t.contains(new, lambda x: x.op == 'attr' and x.args[1] == 'rngs' and t.contains(x.args[0], lambda y: y.op == 'call' and y.args[0] is inner[0].fn)),
           'the new state does not carry the other keys the training step returned')
    ctx.ob('given-state-not-changed', w, not [e for e in r.events if (e.kind == 'setitem' and e.fn is t.attr(st, 'rngs')) or
                                              (e.kind == 'call' and e.fn.op == 'attr' and e.fn.args[0] is t.attr(st, 'rngs') and e.fn.args[1] in ('pop', 'update', 'clear', 'popitem', 'setdefault'))],
           'the keys of the given state are changed in place')
    sd = [x for x in drawn if x in [norm(k) for e in r.events for kind, k, d in keys_of(e) if kind == 'split']]
    ctx.ob('mixup-key-fresh', w, not sd, 'a key is both split and drawn from')
  else: ctx.undecided('next-mixup-key', w, f'{len(inner)} steps')


def all_streams(ctx):
  r = ctx.analyze('vmoe.utils:make_rngs')
  streams(ctx, r, 'vmoe/utils.py make_rngs', r.ret, *[list(r.params.values())[i] for i in (0, 1)])


def children(ctx):
  r = ctx.analyze('vmoe.utils:tree_rngs_split', bind={list_params(ctx, 'vmoe.utils:tree_rngs_split')[1]: const(3)})
  w = 'vmoe/utils.py tree_rngs_split'
  k = positional(r, 0)
  ch = [norm(t.item(r.ret, const(i))) for i in range(3)]
  want = [t.item(split_(k, const(3)), const(i)) for i in range(3)]
  if r.ret.op == 'tuple' and all(x.op == 'item' for x in ch):
    ctx.ob('children', w, len(r.ret.args) == 3 and sorted(ch) == sorted(want), f'the trees returned are {[t.show(x, 5) for x in ch]}, not the 3 different children of one split')
  else: ctx.undecided('children', w, t.show(r.ret, 4))


def list_params(ctx, path):
  f = ctx.eng.find(path)
  return [a.arg for a in f[1].args.posonlyargs + f[1].args.args]


def streams(ctx, r, w, ret, names, seed):
  for ls, v in t.leaves(ret):
    if v is raw('dict'): continue
    pairs = v.args[1] if v.op == 'dictupd' and v.args[0] is raw('dict') else v
    if pairs.op == 'map' and pairs.args[2] is TRUE:
      syms, b = t.open_lam(pairs.args[0])
      if b.op == 'tuple' and len(b.args) == 2:
        key, val = b.args[0], norm(b.args[1])
        idx = val.args[1] if val.op in ('item', 'nth') else None
        sp = val.args[0] if idx is not None else None
        ok = sp is not None and q.is_call(sp, SPLIT) and t.mentions(sp, seed) and idx is not None and t.contains(idx, lambda y: y is syms[0])
        n_ok = ok and len(sp.args[1]) > 1 and (sp.args[1][1] is raw('call', glob('len'), (names,), ()))
        folded = q.is_call(val, 'jax.random.fold_in') and t.contains(val, lambda y: y is syms[0])
        ctx.ob('streams-differ', w, ok or folded, f'stream {t.show(key, 3)} gets the key {t.show(val, 5)}, which does not depend on the stream')
        if ok: ctx.ob('enough-keys', w, n_ok, f'the seed is split in {t.show(sp.args[1][1] if len(sp.args[1]) > 1 else NONE, 4)} keys, not one per stream')
        ctx.ob('stream-name', w, key is t.nth(names, syms[0]) or key is t.item(names, syms[0]) or t.mentions(key, names) or key is syms[0], f'keys are stored under {t.show(key, 4)}')
        continue
    ctx.undecided('streams-differ', w, t.show(v, 4))


def step(ctx, path, r, incoming, ret, lits, nxt=None, extra=()):
  w = f'{r.file} {path.split(":")[1]}'
  bad = False
  for k, a, b, e1, e2 in reuse(r, lits):
    bad = True
    ctx.ob('key-used-once', w, False, f'key {t.show(k, 5)} is used by {a[0]} at {e1.where()} and by {b[0]} at {e2.where()} on the same path')
    break
  if not bad: ctx.ob('key-used-once', w, True)
  lr = list(loop_reuse(r, lits))
  ctx.ob('key-differs-per-iteration', w, not lr, f'key {t.show(lr[0][0], 5)} is used in every iteration of the loop at {lr[0][1].where()}' if lr else '')
  us = uses(r, lits)
  ctx.ob('keys-come-from-state', w, bool(us) and all(t.mentions(k, incoming) or t.contains(k, lambda y: bound(y) or y.op == 'bv') or t.contains(k, lambda y: y.op == 'call' and 'loop' in str(y.args[0].args[0])) for k, _, _ in us),
         'a key that does not come from the state is used: ' + '; '.join(t.show(k, 4) for k, _, _ in us if not t.mentions(k, incoming))[:200])
  nx = [nxt] if nxt is not None else carried(ret)
  if not nx:
    ctx.ob('keys-handed-on', w, False, 'the new state does not get new keys')
    return
  used = {k for k, kind, _ in us}
  for x in nx:
    for ls, k in t.leaves(norm(t.assume(x, lits))):
      if k is NONE and nxt is not None: continue
      if q.is_call(k, 'jax.lax.fori_loop') or (k.op == 'item' and q.is_call(k.args[0], 'jax.lax.fori_loop')):
        loop_carry(ctx, w, k, lits)
        continue
      ok = k is not incoming and k not in used and t.contains(k, lambda y: q.is_call(y, SPLIT)) and t.mentions(k, incoming)
      ctx.ob('keys-handed-on', w, ok, f'the next step starts from {t.show(k, 6)}, ' + ('the key this step started from' if k is incoming else 'which this step already used' if k in used else 'not derived from the old keys'))


def loop_carry(ctx, w, k, lits):
  """Keys carried by a fori_loop: component c of the body result must be a fresh child of component c."""
  loop = k.args[0] if k.op == 'item' else k
  lam = next((a for a in loop.args[1] if a.op == 'lam'), None)
  if lam is None or k.op != 'item':
    ctx.undecided('keys-handed-on', w, t.show(k, 4))
    return
  syms, body = t.open_lam(lam, 'it')
  c = k.args[1]
  nxt = norm(t.item(body, c))
  cur = t.item(syms[-1], c)
  used = set()
  for x in t.subterms(body):
    if x.op == 'call':
      for kw, v in x.args[2]:
        if kw == 'rngs': used.add(norm(v))
  ctx.ob('keys-handed-on', w, nxt is not cur and nxt not in used and t.mentions(nxt, cur) and t.contains(nxt, lambda y: q.is_call(y, SPLIT)),
         f'microsteps hand on the keys {t.show(nxt, 6)}: ' + ('the same in every microstep' if nxt is cur else 'already used in the microstep' if nxt in used else 'not derived from the previous ones'))


def pgd_indices(ctx, path, r, k, lits):
  """Children used in the loop are 0..updates-1, the returned one is another."""
  w = f'{r.file} stateless_attack_pgd'
  nxt = [x for _, x in t.leaves(norm(t.assume(t.item(r.ret, const(1)), lits))) if x is not NONE]
  loops = [e for e in r.events if e.kind == 'call' and e.fn.op == 'glob' and e.fn.args[0] == 'jax.lax.fori_loop']
  if len(nxt) != 1 or len(loops) != 1 or nxt[0].op != 'item' or not q.is_call(nxt[0].args[0], SPLIT):
    ctx.undecided('attack-key-index', w, 'unusual form')
    return
  lo, hi = loops[0].args[0], loops[0].args[1]
  lam = next((a for a in loops[0].args if isinstance(a, T) and a.op == 'lam'), None)
  syms, body = t.open_lam(lam, 'it')
  n = nxt[0].args[0].args[1][1]
  us = set()
  for x in t.subterms(t.assume(body, lits)):
    if x.op == 'call':
      for kw, v in x.args[2]:
        if kw == 'rngs':
          for _, y in t.leaves(norm(t.assume(v, lits))): us.add(y)
  us.discard(NONE)
  for u in us:
    if not (u.op == 'item' and q.is_call(u.args[0], SPLIT)):
      ctx.undecided('attack-key-index', w, t.show(u, 4))
      continue
    # index i + c with i in [lo, hi): all different; must avoid the returned index and stay below n
    off = t.sub(u.args[1], syms[0])
    if t.mentions(off, syms[0]) or u.args[0] is not nxt[0].args[0]:
      ctx.undecided('attack-key-index', w, t.show(u.args[1], 4))
      continue
    first, last = t.add(lo, off), t.sub(t.add(hi, off), const(1))
    last_ok = t.sub(nxt[0].args[1], last)          # returned index - last used index
    before = t.sub(first, nxt[0].args[1])
    room = t.sub(t.sub(n, const(1)), last)
    pos = lambda z: t.is_const(z) and z.args[1] >= 1
    nn = lambda z: t.is_const(z) and z.args[1] >= 0
    ctx.ob('attack-key-index', w, (pos(last_ok) or pos(before)) and nn(room),
           f'updates use the children {t.show(first, 3)}..{t.show(last, 3)} of {t.show(n, 3)} and the attack returns child {t.show(nxt[0].args[1], 3)}')


def fewshot_seed(ctx):
  path = 'vmoe.evaluate.fewshot:FewShotPeriodicAction._make_callback_fn'
  if ctx.eng.find(path) is None:
    ctx.undecided('fewshot-seed', path, 'no such function')
    return
  for fold in (True, False):
    sy = {n: sym(n) for n in ('step', 'time', 'variables')}
    r = ctx.analyze(path, bind=dict(report_progress=NONE, seed_fold_in_step=TRUE if fold else FALSE, main_task=NONE), then=list(sy.values()),
                    opaque=['vmoe.evaluate.fewshot._compute_fewshot_metrics', 'vmoe.evaluate.fewshot._find_best_l2_reg', 'vmoe.data.pjit_utils.prefetch_to_device'])
    w = f'{r.file} FewShotPeriodicAction'
    ev = [e for e in r.events if e.kind == 'call' and e.fn.op == 'opaque' and e.fn.args[0].endswith('_compute_fewshot_metrics')]
    if len(ev) != 1:
      ctx.undecided('fewshot-seed', w, f'{len(ev)} evaluations')
      return
    e = ev[0]
    stv = e.args[4] if len(e.args) > 4 else q.ekw(e, 'state')
    rn = t.attr(stv, 'rngs') if stv.op != 'obj' else dict(stv.args[1]).get('rngs', NONE)
    seeds = [x for x in t.subterms(rn) if q.is_call(x, 'jax.random.PRNGKey', 'jax.random.key')]
    sub = [l.idx for l in e.loops if t.mentions(l.domain, sym('seeds_per_step'))] or [l.idx for l in e.loops]
    pseed = e.args[8] if len(e.args) > 8 else q.ekw(e, 'seed')
    if not fold:
      for what, x in (('keys', rn), ('selection of few-shot examples', pseed)):
        if x is not None: ctx.ob('fewshot-step', w, not t.mentions(x, sy['step']), f'the {what} depend on the step although seed_fold_in_step is not set')
      continue
    ctx.ob('fewshot-seed', w, any(t.mentions(x, sym('seed')) for x in seeds), 'the keys do not depend on the seed')
    ctx.ob('fewshot-step', w, t.mentions(rn, sy['step']), 'the keys do not depend on the step although seed_fold_in_step is set')
    ctx.ob('fewshot-sub-seed', w, any(t.mentions(rn, i) for i in sub), 'the keys do not depend on the sub-seed')
    if pseed is not None:
      for nm, s in (('seed', sym('seed')), ('step', sy['step'])):
        ctx.ob('fewshot-permutation', w, t.mentions(pseed, s), f'the selection of few-shot examples does not depend on the {nm}')
      ctx.ob('fewshot-permutation', w, any(t.mentions(pseed, i) for i in sub), 'the selection of few-shot examples does not depend on the sub-seed')

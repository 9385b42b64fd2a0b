"""C25: calls written as strings; C34: lock-step iteration."""
import itertools

from .. import dicts, q, terms as t
from ..framework import prop
from ..terms import T, NONE, FALSE, TRUE, const, glob, raw, sym
from .mesh import tup

U = 'vmoe.utils'


def deep(x, lits):
  """Specialise also inside the atoms, until nothing changes."""
  for _ in range(8):
    y = t.assume(x, lits)
    if y is x: return x
    x = y
  return x


def strip(x):
  while x.op in ('totuple', 'listof') or q.is_call(x, 'tuple', 'list'): x = x.args[0] if x.op in ('totuple', 'listof') else x.args[1][0]
  return x


@prop('C25', 'Value-flow terms of the returned callable and arguments for every form of the parsed expression; effect analysis (no evaluation of source text); path conditions of the rejections.', floor=15)
def c25(ctx):
  ctx.section(call_strings)
  ctx.section(partial)


def call_strings(ctx):
  r = ctx.analyze(f'{U}:parse_call')
  w = f'{r.file} parse_call'
  s, dm = sym('string'), sym('default_module')
  bad = [e for e in r.events if e.kind == 'call' and t.is_glob(e.fn, 'eval', 'exec', 'compile', 'subprocess.run', 'os.system')]
  ctx.ob('only-literals', w, not bad, f'the string is evaluated as code ({bad[0].where() if bad else ""})')
  parses = [y for y in t.subterms(r.ret) if q.is_call(y, 'ast.parse')]
  if len(set(parses)) != 1 or not parses[0].args[1] or parses[0].args[1][0] is not s:
    ctx.undecided('parsed', w, 'the string is not parsed by ast.parse')
    return
  E = t.attr(parses[0], 'body')
  isi = lambda x, n: raw('isinstance', x, glob(f'ast.{n}'))
  for call in (True, False):
    l0 = {isi(E, 'Call'): call}
    ret = deep(r.ret, l0)
    F = t.attr(E, 'func') if call else E
    what = 'a call' if call else 'a bare name'
    for form in ('Name', 'Attribute'):
      l1 = {**l0, **{isi(F, n): n == form for n in ('Name', 'Attribute', 'Call')}}
      l1[isi(E, 'Call')] = call
      x = deep(ret, l1)
      strs = {a: True for a in t.inner_atoms(x) if a.op == 'isinstance' and t.is_glob(a.args[1], 'str') and a.args[0] is not dm}
      x = deep(x, strs)
      if x.op != 'tuple' or len(x.args) != 3:
        ctx.undecided('callable', w, t.show(x, 3))
        continue
      f, a, k = x.args
      v = t.attr(F, 'value')
      mods = []
      if form == 'Name':
        want_name = t.attr(F, 'id')
        for str_ in (True, False):
          fx = deep(f, {raw('isinstance', dm, glob('str')): str_})
          m = raw('call', glob('importlib.import_module'), (dm,), ()) if str_ else dm
          mods.append((fx, m, 'a string' if str_ else 'a module'))
      else:
        want_name = t.attr(F, 'attr')
        m = raw('call', glob('importlib.import_module'), (t.item(s, raw('slice', NONE, t.attr(v, 'end_col_offset'), NONE)),), ())
        m2 = raw('call', glob('importlib.import_module'), (raw('call', glob('ast.unparse'), (v,), ()),), ())
        mods.append((f, m2 if t.mentions(f, m2) else m, 'a dotted name'))
      for fx, m, d in mods:
        if q.is_call(fx, 'getattr') and len(fx.args[1]) >= 2:
          ctx.ob('callable', w, fx.args[1][1] is want_name, f'the function looked up for {what} is {t.show(fx.args[1][1], 4)}')
          ok = fx.args[1][0] is m
          known = t.contains(fx.args[1][0], lambda y: y is dm or y.op == 'attr' and y.args[1] == 'end_col_offset')
          if not ok and form == 'Attribute' and not known: ctx.undecided('callable', w, t.show(fx.args[1][0], 4))
          else: ctx.ob('callable', w, ok, f'the module in which the function is looked up ({d}, {what}) is {t.show(fx.args[1][0], 5)}')
        else: ctx.undecided('callable', w, t.show(fx, 4))
      if call:
        a = strip(a)
        if a.op == 'map':
          (i, *_), b = t.open_lam(a.args[0])
          e = raw('nth', t.attr(E, 'args'), i)
          ctx.ob('arguments', w, a.args[1] is t.attr(E, 'args') and a.args[2] is TRUE and b is raw('call', glob('ast.literal_eval'), (e,), ()), f'the positional arguments are {t.show(a, 5)}')
        else: ctx.ob('arguments', w, False, f'the positional arguments of a call are {t.show(a, 5)}') if a.op in ('tuple', 'list') else ctx.undecided('arguments', w, t.show(a, 4))
        m = k.args[1] if k.op == 'dictupd' and k.args[0].op == 'dict' and not k.args[0].args else k.args[0] if k.op == 'dictof' else k
        if m.op == 'map':
          (i, *_), b = t.open_lam(m.args[0])
          e = raw('nth', t.attr(E, 'keywords'), i)
          ctx.ob('arguments', w, m.args[1] is t.attr(E, 'keywords') and m.args[2] is TRUE and b is t.mk_tuple([t.attr(e, 'arg'), raw('call', glob('ast.literal_eval'), (t.attr(e, 'value'),), ())]), f'the keyword arguments are {t.show(m, 5)}')
        elif k.op == 'dict': ctx.ob('arguments', w, False, f'the keyword arguments of a call are {t.show(k, 3)}')
        else: ctx.undecided('arguments', w, t.show(k, 4))
      else:
        ctx.ob('arguments', w, strip(a).op in ('tuple', 'list') and not strip(a).args and (k.op == 'dict' and not k.args or q.is_call(k, 'dict') and not k.args[1] and not k.args[2]), f'a bare name has arguments {t.show(a, 3)}, {t.show(k, 3)}')
    # neither a name nor an attribute: rejected
    rej = FALSE
    for e in r.events:
      if e.kind == 'raise': rej = t.b_or(rej, t.cond(deep(t.val(e.pc), l0)))
    other = t.b_and(t.b_not(t.cond(isi(F, 'Name'))), t.b_not(t.cond(isi(F, 'Attribute'))))
    if rej is FALSE: ctx.ob('rejected', w, False, 'nothing is rejected')
    else: ctx.ob('rejected', w, t.implies(other, rej), f'{what} of something that is not a name is accepted')


def partial(ctx):
  """The subclass passes base arguments first; keywords of the call override base keywords."""
  more, z, w_, bb = sym('more'), sym('z'), sym('w'), sym('bb')
  r = ctx.analyze(f'{U}:partialclass', bind=dict(base_args=tup([sym('a0')]), base_kwargs=raw('dict', (const('extra'), w_), (const('b'), bb))), then=(more,), then_kw=[('extra', z), ('c', sym('cc'))])
  w = f'{r.file} partialclass'
  ini = [e for e in r.events if e.kind == 'superinit']
  if len(ini) != 1:
    ctx.undecided('partial', w, t.show(r.ret, 3))
    return
  e = ini[0]
  pos = []
  for x in e.args: pos += list(x.args[0].args) if x.op == 'star' and x.args[0].op in ('tuple', 'list') else [x]
  kw = {}
  for k, v in e.kwargs:
    if isinstance(k, str): kw[k] = v
    elif v.op == 'dict': kw.update({n.args[1]: x for n, x in v.args if t.is_const(n)})
    else: kw['**'] = v
  if any(x.op in ('star', 'cat') for x in pos) or '**' in kw:
    ctx.undecided('partial', w, str(e))
    return
  ctx.ob('partial', w, pos == [sym('a0'), more], f'the positional arguments are {", ".join(t.show(x, 3) for x in pos)}')
  ctx.ob('partial', w, kw == {'extra': z, 'b': bb, 'c': sym('cc')}, 'keywords given when the class is instantiated do not replace, or lose, those given before')


@prop('C34', 'Exhaustive abstract execution of the step function over the (exhausted / not exhausted) patterns of up to four iterators, on path conditions of the extracted terms; value-flow terms of the wrappers.', floor=30)
def c34(ctx):
  ctx.section(zip_step)
  ctx.section(zip_wrappers)


def zip_step(ctx):
  me = ctx.eng.obj_of(f'{U}:SafeZipIterator')
  for n in range(5):
    its = [sym(f'it{k}') for k in range(n)]
    r = ctx.analyze(f'{U}:SafeZipIterator.__next__', attrs={(me, 'iterators'): tup(its)})
    w = f'{r.file} SafeZipIterator.__next__ ({n} iterators)'
    nexts = {}
    for e in r.events:
      if e.kind == 'call' and t.is_glob(e.fn, 'next') and e.args and e.args[0] in its:
        tr = [x for x, hs in e.trys if any(t.contains(h, lambda y: t.is_glob(y, 'StopIteration')) for h in hs)]
        if len(e.args) == 1 and tr: nexts.setdefault(e.args[0], []).append((tr[-1], raw('call', glob('next'), (e.args[0],), ())))
    if set(nexts) != set(its) or any(len(v) != 1 for v in nexts.values()):
      ctx.undecided('step', w, f'{len(nexts)} of {n} iterators advanced under a StopIteration handler')
      continue
    for pat in itertools.product((False, True), repeat=n):
      lits = {nexts[i][0][0]: p for i, p in zip(its, pat)}
      lits.update({raw('truth', a): v for a, v in lits.items()})
      stop = err = other = FALSE
      for e in r.events:
        if e.kind != 'raise': continue
        c = t.cond(deep(t.val(t.b_and(e.pc, e.assumed)), lits))
        x = e.fn if e.fn is not None else e.args[0]
        nm = x.args[0] if x.op in ('obj', 'glob') and isinstance(x.args[0], str) else ''
        if x.op == 'call' and x.args[0].op == 'glob': nm = x.args[0].args[0]
        if nm.endswith('StopIteration'): stop = t.b_or(stop, c)
        elif nm.endswith('SafeZipIteratorError'): err = t.b_or(err, c)
        else: other = t.b_or(other, c)
      if any(z not in (TRUE, FALSE) for z in (stop, err, other)):
        ctx.undecided('step', w, f'{pat}: {t.show(t.val(stop), 3)} / {t.show(t.val(err), 3)}')
        continue
      txt = ''.join('x' if p else '.' for p in pat) or 'none'
      if all(pat): ctx.ob('ends-together', w, stop is TRUE and err is FALSE and other is FALSE, f'when all are exhausted ({txt}), iteration does not just end')
      elif any(pat): ctx.ob('different-length', w, err is TRUE, f'when only some are exhausted ({txt}), it is not reported')
      else:
        v = strip(deep(r.ret, lits))
        want = [nexts[i][0][1] for i in its]
        ctx.ob('elements', w, stop is FALSE and err is FALSE and other is FALSE, 'an error is raised although no sequence is exhausted')
        if v.op in ('tuple', 'list', 'cat'): ctx.ob('elements', w, v.op != 'cat' and list(v.args) == want, f'the elements are {t.show(v, 4)}')
        else: ctx.undecided('elements', w, t.show(v, 4))


def zip_wrappers(ctx):
  Z = raw('call', glob('vmoe.utils.safe_zip'), (raw('star', sym('*iterables')),), ())
  r = ctx.analyze(f'{U}:safe_zip')
  w = f'{r.file} safe_zip'
  ctx.ob('wrapper', w, r.ret is Z or q.is_call(r.ret, 'iter') and r.ret.args[1][0] is Z, f'safe_zip is {t.show(r.ret, 4)}')
  r = ctx.analyze(f'{U}:safe_map')
  w = f'{r.file} safe_map'
  x = r.ret
  if x.op == 'map':
    (i, *_), b = t.open_lam(x.args[0])
    ctx.ob('wrapper', w, x.args[1] is Z and x.args[2] is TRUE, f'safe_map goes over {t.show(x.args[1], 4)}')
    ctx.ob('wrapper', w, b is raw('call', sym('f'), (raw('star', raw('nth', Z, i)),), ()), f'safe_map yields {t.show(b, 4)}')
  elif q.is_call(x, 'itertools.starmap', 'map') and len(x.args[1]) == 2: ctx.ob('wrapper', w, q.is_call(x, 'itertools.starmap') and list(x.args[1]) == [sym('f'), Z], f'safe_map is {t.show(x, 4)}')
  else: ctx.undecided('wrapper', w, t.show(x, 3))
  r = ctx.analyze(f'{U}:SafeZipIterator.__init__')
  w = f'{r.file} SafeZipIterator.__init__'
  for e in r.events:
    if e.kind == 'setattr' and t.is_const(e.args[1], 'iterators') if len(e.args) > 2 else False:
      v = strip(e.args[2])
      if v.op == 'map':
        ctx.ob('wrapper', w, v.args[2] is TRUE, 'some iterators are left out')
  r = ctx.analyze(f'{U}:SafeZipIterator.__iter__')
  ctx.ob('wrapper', f'{r.file} SafeZipIterator.__iter__', r.ret is ctx.eng.obj_of(f'{U}:SafeZipIterator') or r.ret.op == 'self', f'iterating starts over: {t.show(r.ret, 3)}')

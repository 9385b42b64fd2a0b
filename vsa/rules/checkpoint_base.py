"""C01 atomic publication, C02 discovery of complete checkpoints."""
import ast
import re
from .. import terms as t
from .. import q
from ..terms import TRUE, FALSE, NONE, raw, const, glob, sym
from ..framework import prop, where
from ..engine import Module

OPENERS = ('tensorflow.io.gfile.GFile', 'tensorflow.gfile.GFile', 'open', 'io.open', 'tensorflow.io.gfile.Open')
RENAMES = ('tensorflow.io.gfile.rename', 'os.rename', 'os.replace', 'shutil.move')
COPIES = ('tensorflow.io.gfile.copy', 'shutil.copy', 'shutil.copyfile', 'shutil.copy2')
REMOVES = ('tensorflow.io.gfile.remove', 'os.remove', 'os.unlink', 'tensorflow.io.gfile.rmtree', 'shutil.rmtree')


def write_mode(e):
  m = q.ekw(e, 'mode', 1, const('r'))
  return not (t.is_const(m) and isinstance(m.args[1], str)) or any(c in m.args[1] for c in 'wax+')


def publication(ctx, r, label, need=True):
  """Typestate of every file opened for writing during the analysed entry point."""
  opens = [e for e in q.ev(r, *OPENERS) if write_mode(e)]
  if need: ctx.ob('writes-through-open', label, bool(opens), 'no file is opened for writing')
  renames = q.ev(r, *RENAMES)
  matched = set()
  for o in opens:
    path = q.ekw(o, 'name', 0)
    w = o.where()
    tmp = q.temp_of(path)
    if not ctx.ob('opens-temporary-name', w, tmp is not None,
                  f'opened for writing under {t.show(path, 8)}, not under .tmp.<basename> next to the final name'): continue
    final = tmp[0]
    handle = o.value
    rn = [e for e in renames if q.ekw(e, 'src', 0) is path]
    if not ctx.ob('renamed-to-final', w, bool(rn), f'temporary file is never renamed to {t.show(final, 6)}'): continue
    matched.update(rn)
    for e in rn:
      ctx.ob('rename-destination', e.where(), q.ekw(e, 'dst', 1) is final,
             f'renamed to {t.show(q.ekw(e, "dst", 1), 8)} instead of the final name {t.show(final, 6)}')
    ctx.ob('renamed-on-every-path', w, any(t.implies(t.b_and(o.pc, e.assumed), e.pc) for e in rn) ,
           'some path writes the temporary file and does not rename it')
    # closed before it is renamed
    closes = [e for e in r.events if (e.kind == 'exit' and e.fn is handle) or
              (e.kind == 'call' and e.fn is not None and e.fn.op == 'attr' and e.fn.args[1] == 'close'
               and e.fn.args[0] in (handle, raw('entered', handle)))]
    for e in rn:
      ctx.ob('closed-before-rename', e.where(), any(c.seq < e.seq and t.implies(e.pc, c.pc) for c in closes),
             'the temporary file is renamed before it is closed (its bytes may not be there yet)')
      # no try handler may publish after a failed write
      bad = [c for c in t.cond_atoms(e.pc) if c.op == 'exc' and t.implies(e.pc, raw('ite', c, TRUE, FALSE))]
      ctx.ob('no-rename-after-failure', e.where(), not bad and not any(c.kind == 'except' for c in []),
             'rename happens on an exception path')
      swallowed = [tr for tr in o.trys if tr not in e.trys and tr[1]]
      ctx.ob('failed-write-not-published', e.where(), not swallowed or not t.implies(TRUE, e.pc) and False or not swallowed,
             'an exception while writing is swallowed and the partial file is then renamed')
    # the bytes written
    writes = [e for e in r.events if e.kind == 'call' and e.fn is not None and e.fn.op == 'attr' and e.fn.args[1] in ('write', 'writelines')
              and e.fn.args[0] in (handle, raw('entered', handle))]
    for x in rn:
      last = [e for e in writes if e.seq > x.seq]
      ctx.ob('no-write-after-rename', x.where(), not last, 'bytes are written after publication')
    ctx.ob('bytes-written', w, bool(writes) and any(t.implies(o.pc, e.pc) for e in writes), 'nothing is written to the temporary file on some path')
  for e in renames:
    if e in matched: continue
    ctx.ob('rename-of-written-temp', e.where(), False, 'rename of a file that was not written as a temporary here')
  for e in q.ev(r, *REMOVES):
    ctx.ob('no-removal-while-saving', e.where(), False, 'a file is deleted while saving: a crash there leaves no checkpoint')
  for e in q.ev(r, *COPIES):
    ctx.ob('no-copy-publication', e.where(), False, 'copying is not atomic')
  return opens


@prop('C01', 'every file opened for writing by a checkpoint saver is the temporary sibling of the final name, is closed, and is then '
      'renamed (only) to that final name on every non-failing path; nothing else in the package writes files except the listed exporter', floor=30)
def c01(ctx):
  r = ctx.analyze('vmoe.checkpoints.base:save_checkpoint')
  opens = publication(ctx, r, 'save_checkpoint')
  # what is written and where
  for o in opens:
    tmp = q.temp_of(q.ekw(o, 'name', 0))
    if tmp: ctx.ob('final-is-requested-path', o.where(), tmp[0] is sym('filepath'), f'final name is {t.show(tmp[0], 6)}, not the requested path')
  for e in q.ev(r, *RENAMES):
    ow = q.ekw(e, 'overwrite', 2, FALSE)
    ctx.ob('overwrite-honoured', e.where(), e.fn.args[0] == 'os.replace' or ow is sym('overwrite'),
           f'overwrite={t.show(ow, 4)} does not follow the caller')
  writes = [e for e in r.events if e.kind == 'call' and e.fn is not None and e.fn.op == 'attr' and e.fn.args[1] == 'write']
  for e in writes:
    ctx.ob('writes-serialized-tree', e.where(), t.mentions(e.args[0], sym('tree')), 'the bytes written do not derive from the given tree')
  ctx.ob('returns-path', where(r), r.ret is sym('filepath'), f'returns {t.show(r.ret, 6)}')
  for ep in ('save_checkpoint_async', 'save_multiple_checkpoints_async'):
    r2 = ctx.analyze(f'vmoe.checkpoints.base:{ep}')
    publication(ctx, r2, ep)
  r3 = ctx.analyze('vmoe.checkpoints.partitioned:save_checkpoint')
  publication(ctx, r3, 'partitioned.save_checkpoint')
  # who may write: every other opener in the package
  n = 0
  for m in ctx.eng.all_modules():
    mod = ctx.eng.module(m)
    if not isinstance(mod, Module): continue
    for node in ast.walk(mod.tree):
      if isinstance(node, ast.Call):
        f = node.func
        nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
        if nm not in ('GFile', 'open', 'Open'): continue
        n += 1
        modes = [a for a in node.args[1:2]] + [k.value for k in node.keywords if k.arg == 'mode']
        consts = {g.id: s.value for s in mod.tree.body if isinstance(s, (ast.Assign, ast.AnnAssign)) for g in (s.targets if isinstance(s, ast.Assign) else [s.target]) if isinstance(g, ast.Name)}
        modes = [consts.get(x.id, x) if isinstance(x, ast.Name) else x for x in modes]
        if any(not isinstance(x, ast.Constant) for x in modes):
          ctx.undecided('sole-writer', f'{m.replace(".", "/")}.py', f'line {node.lineno}: mode {ast.unparse(modes[0])}')
          continue
        wr = any(any(c in str(x.value) for c in 'wax+') for x in modes)
        if not wr: continue
        ok = m.startswith('vmoe.checkpoints.') or m == 'vmoe.projects.adversarial_attacks.lib' or not m.startswith('vmoe.')
        ctx.ob('sole-writer', f'{m.replace(".", "/")}.py', ok, f'line {node.lineno}: opens a file for writing outside the checkpoint writer')
  ctx.note(f'{n} open sites in the package')


# ---------------------------------------------------------------- C02
REF_REGEX = r'^(.*?)(_[0-9]+)?(\.[a-zA-Z]+)?(-[0-9]+-of-[0-9]+)?$'
SAMPLES = ['ckpt', '/d/ckpt', '/d/ckpt_0', '/d/ckpt_1', '/d/ckpt_10', '/d/ckpt_999', '/d/ckpt_5.index', '/d/ckpt_5.data', '/d/ckpt_19.Zz',
           '/d/ckpt_5.data-00000-of-00001', '/d/ckpt_5.data-12345-of-67890', '/d/ckpt_7-0-of-3', '/d/ckpt-0-of-3', '/d/ckpt.foo',
           '/d/a_b_3.index', '/d/a_1/ckpt_20', '/d/x.y/ckpt_2.index', '/d/.tmp.ckpt_4.data-9-of-10', '/d/.tmp.ckpt_4', '/d/ck-pt_08.a',
           '/d/ckpt_5.data-3-of-10', '/d/run-1-of-2/ckpt_30.index-00011-of-00099', 'ckpt_12345678901.bb']


def regex_agrees(ctx, pat, label):
  try:
    a, b = re.compile(REF_REGEX), re.compile(pat)
    bad = [s for s in SAMPLES if (a.fullmatch(s) and a.fullmatch(s).groups()) != (b.fullmatch(s) and b.fullmatch(s).groups())]
  except (re.error, IndexError) as ex:
    bad = [str(ex)]
  ctx.ob('checkpoint-name-grammar', label, not bad, f'name grammar {pat!r} parses {bad[:3]} differently from <prefix>[_step][.suffix][-i-of-n]')


@prop('C02', 'the yielded steps come from int() of the step field of files globbed as <prefix>*, are guarded by absence from the step set of '
      'the temp-file glob (same temporary name as the writer) and by inclusion of all required suffixes, in numeric order', floor=10)
def c02(ctx):
  p = 'vmoe.checkpoints.base:iterate_complete_steps_for_prefix'
  r = ctx.analyze(p)
  w = where(r)
  globs = q.ev(r, 'tensorflow.io.gfile.glob', 'glob.glob')
  prefix = sym('prefix')
  main, tmp = [], []
  for g in globs:
    a = g.args[0]
    if a is t.strcat([prefix, const('*')]): main.append(g); continue
    parts = list(a.args) if a.op == 'strcat' else [a]
    ok = False
    if t.is_const(parts[-1]) and parts[-1].args[1].endswith('*'):
      head = parts[:-1] + ([const(parts[-1].args[1][:-1])] if parts[-1].args[1] != '*' else [])
      head = head[0] if len(head) == 1 else t.strcat(head)
    else:
      head = None
    if head is None:
      s = q.split_path(a)
      if s and t.is_const(s[1][-1]) and s[1][-1].args[1].endswith('*'):
        nm = s[1][:-1] + [const(s[1][-1].args[1][:-1])]
        head = raw('call', glob('os.path.join'), (s[0], t.strcat(nm)), ())
    if head is not None:
      tm = q.temp_of(head)
      ok = tm is not None and tm[0] is prefix and len(tm[1]) == 2 and t.is_const(tm[1][0], '.tmp.')
    if ok: tmp.append(g)
    else: ctx.ob('glob-pattern', g.where(), False, f'pattern {t.show(a, 10)} is neither <prefix>* nor the temporary sibling pattern')
  ctx.ob('lists-final-files', w, len(main) >= 1, 'final files are not listed')
  ctx.ob('lists-temp-files', w, len(tmp) >= 1, 'temporary files of the prefix are not listed: unfinished checkpoints go unnoticed')
  if not main or not tmp: return
  G, GT = main[0].value, tmp[0].value
  ys = [e for e in r.events if e.kind == 'yield']
  yf = [e for e in r.events if e.kind == 'yieldfrom']
  whole = [r.ret]
  # everything the result depends on
  dep = t.subterms(r.ret)
  ctx.ob('result-from-final-files', w, G in dep, 'result does not derive from the listed files')
  ctx.ob('result-excludes-temp', w, GT in dep, 'the temporary files do not influence the result')
  ints = [x for x in dep if q.is_call(x, 'int')]
  ctx.ob('steps-numeric', w, any(t.mentions(x, 'x') or q.mcalls(x, 'group') or q.calls(x, 're.sub') or x for x in ints) and bool(ints),
         'steps are not converted to integers, so they are not ordered numerically')
  # exclusion by step only
  tmaps = [x for x in dep if x.op == 'map' and x.args[1] is GT]
  ctx.ob('temp-files-reduced-to-steps', w, bool(tmaps), 'no collection of steps is computed from the temporary files')
  for m in tmaps:
    i, body = t.open_lam(m.args[0])
    bads = [x for x in t.subterms(body) if q.is_mcall(x, 'group') and t.is_const(x.args[1][0]) and x.args[1][0].args[1] in (3, 4, 0, 1)
            ] if not body.op == 'const' else []
    ctx.ob('temp-exclusion-by-step', w, not bads and not m.args[2] is not TRUE,
           'a temporary file only excludes its own suffix/shard (or only some temporary files count), so a step with an unfinished shard can be reported')
  # polarity
  neg = False
  allpcs = [e.pc for e in ys + yf]
  maps = [x for x in dep if x.op == 'map' and x.args[2] is not TRUE]
  filt_conds = []
  for x in maps:
    filt_conds.append(t.cond(t.open_lam(x.args[2])[1]))
  for e in ys:
    ctx.ob('no-early-stop', w, not q.early(e), 'the listing may stop before the last step')
    for l in e.loops:
      if l.filt is not TRUE: filt_conds.append(l.filt)
  for c in allpcs + filt_conds:
    for a in t.cond_atoms(c):
      if t.mentions(a, GT):
        if a.op == 'in' and t.mentions(a.args[1], GT): 
          if t.implies(c, t.b_not(raw('ite', a, TRUE, FALSE))): neg = True
        elif a.op == 'truth':
          if t.implies(c, t.b_not(raw('ite', a, TRUE, FALSE))): neg = True
        elif a.op == 'is' or a.op == 'eq':
          neg = neg or False
  for x in dep:
    if x.op == 'bin' and x.args[0] == '-' and t.mentions(x.args[2], GT) and not t.mentions(x.args[1], GT): neg = True
    if x.op == 'poly':
      for m, c in x.args:
        if c == -1 and any(t.mentions(y, GT) for y, _ in m): neg = True
  ctx.ob('temp-steps-excluded', w, neg, 'steps with a temporary file are not removed from the result')
  # required suffixes
  suff = sym('suffixes')
  okS = False
  for c in allpcs + filt_conds:
    for a in t.cond_atoms(c):
      if a.op != 'truth': continue
      x = a.args[0]
      na = t.implies(c, t.b_not(raw('ite', a, TRUE, FALSE)))
      if x.op == 'bin' and x.args[0] == '-' and t.mentions(x.args[1], suff) and t.mentions(x.args[2], G) and not t.mentions(x.args[1], G) and na: okS = True
      if q.is_call(x, 'any') and x.args[1][0].op == 'map' and t.mentions(x.args[1][0].args[1], suff) and na:
        okS = okS or t.mentions(x, G)
      if q.is_call(x, 'all') and t.mentions(x, suff) and t.mentions(x, G) and not na: okS = True
  ctx.ob('all-suffixes-required', w, okS, 'a step is reported although not every required suffix is known to be present')
  # default suffixes: None = no requirement beyond a plain file
  # order
  sorts = [x for x in dep if q.is_call(x, 'sorted')]
  okO = False
  for x in sorts:
    rev = q.kwarg(x, 'reverse', default=FALSE)
    if rev is sym('decreasing'): okO = True
    elif rev.op == 'truth' and rev.args[0] is sym('decreasing'): okO = True
    key = q.kwarg(x, 'key', default=None)
    if key is not None and key.op == 'lam':
      i, b = t.open_lam(key)
      ctx.ob('sort-key-step', w, b is i[0] or b is t.item(i[0], const(0)) , f'sort key is {t.show(b, 6)}, not the step')
  # reversed() conditional form
  if not okO:
    for cube, leaf in t.leaves(r.ret):
      pass
    okO = any(x.op == 'ite' and x.args[0].op == 'truth' and x.args[0].args[0] is sym('decreasing') for x in dep) and bool(sorts)
  ctx.ob('steps-ordered', w, okO, 'steps are not sorted in the requested direction')
  regs = {x.args[1][0] for x in q.calls(r.ret, 're.compile')} | {x.args[1][0] for x in q.calls(r.ret, 're.fullmatch', 're.match')}
  pats = [x.args[1] for x in regs if t.is_const(x)]
  if pats == [] : ctx.note('no constant name grammar found')
  for x in pats: regex_agrees(ctx, x, w)
  # files without a step number are an error, not a step
  rz = [e for e in q.raises(r)]
  ctx.ob('stepless-files-rejected', w, any(e.fn is glob('ValueError') for e in rz), 'files without step number are not rejected')
  # latest
  r2 = ctx.analyze('vmoe.checkpoints.base:find_latest_complete_checkpoint_for_prefix', opaque=['vmoe.checkpoints.base.iterate_complete_steps_for_prefix'])
  w2 = where(r2)
  its = [e for e in r2.events if e.kind == 'call' and e.fn.op == 'opaque']
  ctx.ob('latest-uses-complete-steps', w2, bool(its), 'latest checkpoint is not looked up among the complete steps')
  for e in its:
    ctx.ob('latest-prefix', e.where(), q.ekw(e, 'prefix', 0) is sym('prefix') and q.ekw(e, 'suffixes', 1) is suff, 'prefix/suffixes are not forwarded')
    dec = q.ekw(e, 'decreasing', 2, FALSE)
    S = e.value
    first = None
    # value returned when there is a step
    nones = [l for c, l in t.leaves(r2.ret) if l is NONE]
    ctx.ob('latest-none-if-empty', w2, bool(nones), 'does not return None when nothing is complete')
    vals = [l for c, l in t.leaves(r2.ret) if l is not NONE]
    for v in vals:
      ok, why = latest_value(v, S, dec)
      ctx.ob('latest-is-highest', w2, ok, why)


def latest_value(v, S, dec):
  """v must be prefix + '_' + <highest element of S>."""
  if v.op == 'first':
    i = t.fresh('i')
    body = t.beta(v.args[2], [i])
    if v.args[0] is not S or t.cond(t.beta(v.args[1], [i])) is not TRUE: return False, 'not the first complete step'
    exp = [sym('prefix'), const('_'), raw('nth', S, i)]
    hi = dec is TRUE
    v = body
    el = raw('nth', S, i)
  else:
    el = None; hi = None
    for x in t.subterms(v):
      if q.is_call(x, 'next') and x.args[1][0] in (S, raw('call', glob('iter'), (S,), ())): el, hi = x, dec is TRUE
      if q.is_call(x, 'max') and x.args[1][0] in (S, raw('listof', S)): el, hi = x, True
      if x.op == 'item' and x.args[0] in (S, raw('listof', S)) and t.is_const(x.args[1]):
        el = x; hi = (dec is TRUE) if x.args[1].args[1] == 0 else (dec is FALSE) if x.args[1].args[1] == -1 else False
    if el is None:
      # loops that return at once
      for x in t.subterms(v):
        if x.op == 'nth' and x.args[0] is S: el, hi = x, dec is TRUE
    if el is None: return False, f'latest is {t.show(v, 8)}'
  parts = [q.unfmt(p) for p in (v.args if v.op == 'strcat' else (v,))]
  if not hi: return False, 'does not pick the highest step'
  ok = len(parts) == 3 and parts[0] is sym('prefix') and t.is_const(parts[1], '_') and parts[2] is el
  return ok, f'path {t.show(v, 8)} is not <prefix>_<step>'

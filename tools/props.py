"""Single source of properties.jsonl and MANIFEST.json (python3 tools/props.py rewrites both)."""
import json
import os

P = []
NA = []


def P_(pid, title, statement, over, text, why, files, mech, tech, note, state=None, observe=None):
  P.append(dict(
      id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=state or [], observe_at=observe or [], hook_needed=None),
      _tech=tech, _note=note))


def N_(pid, title, statement, over, text, why, files, mech, reason):
  P.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)))
  NA.append(dict(property=pid, reason=reason))


TRUST = (' Decides the value-flow part named in DESIGN.md on every path of the current source; '
         'trusts the documented behaviour of jax, flax, numpy, tensorflow, msgpack and optax.')

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_list.py')).read())


def main():
  root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  assert len({p['id'] for p in P}) == len(P)
  for p in P: assert len(p['title']) <= 80, p['title']
  with open(f'{root}/properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
  m = dict(version=1, setup_cmd='python3 -m compileall -q vsa', checks=[
      dict(property=p['id'], quick_cmd=f'python3 -m vsa {p["id"]}', thorough_cmd=f'python3 -m vsa {p["id"]}',
           evidence_file=f'evidence/{p["id"]}.json', technique=p['_tech'], level='other', level_note=p['_note'] + TRUST)
      for p in P if '_tech' in p], not_applicable=NA,
           notes='All checks are static: python3 standard library only, no code of /repo is imported or executed. See DESIGN.md.')
  with open(f'{root}/MANIFEST.json', 'w') as f: json.dump(m, f, indent=1); f.write('\n')


main()

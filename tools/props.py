"""Single source of properties.jsonl and MANIFEST.json.

Run `python3 tools/props.py` to regenerate both (they are committed).
"""
import importlib.util
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(pid, title, statement, over, quant, tests, files, mechanism, observe,
         technique, note, state=()):
  assert len(title) <= 80, (pid, len(title))
  PROPS.append(dict(
      pid=pid, technique=technique, note=note,
      line={
          'id': pid, 'title': title, 'statement': ' '.join(statement.split()),
          'quantifier': {'over': over, 'text': ' '.join(quant.split())},
          'why_tests_cant': ' '.join(tests.split()),
          'anchors': {
              'files': files,
              'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
              'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
              'observe_at': observe, 'hook_needed': None}}))


exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())


def level_of(pid):
  src = open(os.path.join(HERE, 'checks', pid.lower() + '.py')).read()
  return re.search(r"^LEVEL = '(\w+)'", src, re.M).group(1)


def main():
  with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fp:
    for p in PROPS:
      fp.write(json.dumps(p['line']) + '\n')
  checks = []
  na = []
  for p in PROPS:
    pid = p['pid']
    if not os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')):
      na.append({'property': pid, 'reason': 'no check has been built'})
      continue
    checks.append({
        'property': pid, 'quick_cmd': f'./check.sh {pid}',
        'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {pid}',
        'evidence_file': f'evidence/{pid}.json',
        'technique': p['technique'], 'level': level_of(pid),
        'level_note': ' '.join(p['note'].split())})
  m = {'version': 1,
       'setup_cmd': './check.sh setup',
       'checks': checks, 'not_applicable': na,
       'notes': 'No hooks are compiled into /repo: the checks own file-system '
                'operations, task scheduling, clocks and devices from outside. '
                'Findings and fixes: known_findings.jsonl, DESIGN.md.'}
  with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
    json.dump(m, fp, indent=1)
    fp.write('\n')
  design(checks)


def design(checks):
  """Fills the template tools/design.in.md."""
  claimed = {c['property']: c for c in checks}
  out = []
  for p in PROPS:
    l = p['line']
    out += [f"### {p['pid']} {l['title']}", '', l['statement'], '']
    if p['pid'] not in claimed:
      out += ['Not claimed: no check has been built.', '']
      continue
    src = open(os.path.join(HERE, 'checks', p['pid'].lower() + '.py')).read()
    ns = {}
    for name in ('RULE', 'ASSUMPTIONS'):
      m = re.search(r'^' + name + r' = ((?:\(|\[).*?(?:\)|\])\n|.*?\n)(?=\n|[A-Z#])', src, re.M | re.S)
      ns[name] = eval(m.group(1)) if m else ''
    out += [f"*Method*: {p['technique']} ({claimed[p['pid']]['level']}). "
            f"*Space*: {l['quantifier']['text']} "
            f"*Enumerated/oracle*: {' '.join(ns['RULE'].split())}. "
            f"*Bounds*: {'; '.join(ns['ASSUMPTIONS'])}. {' '.join(p['note'].split())} "
            f"*Why tests cannot settle it*: {l['why_tests_cant']}", '']
  fixed = []
  for line in open(os.path.join(HERE, 'known_findings.jsonl')):
    if line.startswith('fixed:'):
      fixed.append('* ' + line[len('fixed:'):].strip())
    elif line.startswith('{'):
      k = json.loads(line)
      fixed.append(f"* known, not repaired: property={k['property']} {k['what']}")
  path = os.path.join(HERE, 'tools', 'caught.json')
  caught = json.load(open(path)) if os.path.exists(path) else {}
  seeds = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
  sd = os.path.join(HERE, 'seeded')
  for sid in sorted(caught):
    mp = os.path.join(sd, sid, 'meta.json')
    if os.path.exists(mp):
      m = json.load(open(mp))
      seeds.append(f"| {sid} | {m['property']} | {m['needs']} | {caught[sid]} |")
  s = open(os.path.join(HERE, 'tools', 'design.in.md')).read()
  s = (s.replace('@@PROPS@@', '\n'.join(out).strip())
       .replace('@@FIXED@@', '\n'.join(fixed)).replace('@@SEEDS@@', '\n'.join(seeds)))
  with open(os.path.join(HERE, 'DESIGN.md'), 'w') as fp:
    fp.write(s)


if __name__ == '__main__':
  main()

"""Writes ../properties.jsonl and ../MANIFEST.json."""
import json
import os

from properties import P

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, 'pbt', 'props'))
        if f.startswith('c') and f.endswith('.py')}

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['pid']
        f.write(json.dumps(dict(
            id=p['pid'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['quant']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'],
                         state=p['state'],
                         mechanism=[dict(name=a, where=b)
                                    for a, b in p['mech']],
                         observe_at=p['observe'] or
                         ['return values of the public functions'],
                         hook_needed=None))) + '\n')

checks = [dict(property=p['pid'],
               quick_cmd=f"./check.sh {p['pid']} quick",
               thorough_cmd=f"./check.sh {p['pid']} thorough",
               evidence_file=f"evidence/{p['pid']}.json",
               technique=p['technique'], level='exploration',
               level_note=p['note'])
          for p in P if p['pid'] in have]
na = [dict(property=p['pid'], reason='check not written yet')
      for p in P if p['pid'] not in have]
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks,
                   not_applicable=na,
                   notes='One generated-input check per property; see '
                   'DESIGN.md.'), f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(checks), 'claimed')


# DESIGN.md ------------------------------------------------------------------
import glob
import subprocess

CODE = """
import sys, json, importlib
sys.path.insert(0, %r)
from pbt import core
core.bootstrap()
out = []
for pid in %r:
    r = importlib.import_module('pbt.props.' + pid.lower()).R
    out.append([pid, r.rule, [[s.name, s.quick * (6 if s.weight < 3 else 3) +
                               len(s.examples),
                               ' '.join((s.check.__doc__ or '').split())]
                              for s in r.subs]])
print(json.dumps(out))
""" % (ROOT, [p['pid'] for p in P])
txt = subprocess.run(['/opt/venv/bin/python', '-B', '-c', CODE], check=True,
                     capture_output=True, text=True).stdout
out = [open(os.path.join(ROOT, 'tools', 'design_head.md')).read()]
out.append('\n| bug | property | needs | first missed |\n|---|---|---|---|\n')
missed = open(os.path.join(ROOT, 'tools', 'missed.txt')).read().split()
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    name = os.path.basename(os.path.dirname(f))
    out.append(f"| {name} | {m['property']} | {m['needs']} | "
               f"{'yes' if name in missed else ''} |\n")
out.append('\n## Sub-checks\n\nCases of the quick tier (examples '
           'included; the thorough tier runs about 20 times as many per '
           'process).\n')
title = {p['pid']: p['title'] for p in P}
for pid, rule, subs in json.loads(txt):
    out.append(f'\n### {pid} {title[pid]}\n\n{rule}\n\n')
    for name, n, doc in subs:
        out.append(f"* `{name}` ({n}){': ' + doc if doc else ''}\n")
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
    f.write(''.join(out))

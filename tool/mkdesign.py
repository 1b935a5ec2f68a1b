#!/usr/bin/env python3
"""Fills DESIGN.md from DESIGN.in.md, props.py, known_findings.txt and seeded/*/meta.json."""
import json, os, sys, glob, re
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path[:0] = [here, root]; sys.dont_write_bytecode = True
import props
from fvlint.checks import REGISTRY
from design_notes import NOTES, CAUGHT
s = open(os.path.join(root, 'tool', 'DESIGN.in.md')).read()
out = ['## Properties', '', 'Statements are in `properties.jsonl`. Cost: 8 s for exporting the syntax trees plus the analysis (seconds) per check.', '']
for p in props.PROPS:
    if p['id'] in REGISTRY:
        out += ['* **%s – %s.** %s *Bounds:* %s. *Deciding method:* %s.' % (p['id'], p['title'], NOTES.get(p['id'], ''), p['quant'], p['technique'])]
out += ['', '### Not addressed by this family', '']
for p in props.PROPS:
    if p['id'] not in REGISTRY:
        out += ['* **%s – %s.** %s' % (p['id'], p['title'], p['na'])]
s = s.replace('@PROPS@', '\n'.join(out))
fx, kn = [], []
for l in open(os.path.join(root, 'known_findings.txt')):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m: fx.append('* %s (`%s`): %s' % m.groups())
    m = re.match(r'finding: property=(\S+) key=(\S+) :: (.*)', l)
    if m: kn.append('* %s `%s`: %s' % m.groups())
s = s.replace('@FIXED@', '\n'.join(fx)).replace('@KNOWN@', '\n'.join(kn))
t = ['| id | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f)); i = f.split('/')[-2]
    t.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), CAUGHT.get(i, m['property'])))
s = s.replace('@SEEDS@', '\n'.join(t))
open(os.path.join(root, 'DESIGN.md'), 'w').write(s)

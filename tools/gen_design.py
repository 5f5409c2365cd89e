#!/usr/bin/env python3
"""Assembles DESIGN.md from design_text.py, properties.jsonl, checks.json, the harnesses' scenario declarations,
known-findings.txt and tools/detection.json (results of the planted bugs)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import design_text as D

props = [json.loads(l) for l in open(V + '/properties.jsonl') if l.strip()]
checks = json.load(open(V + '/checks.json'))
o = [D.INTRO]
o.append("## The properties\n\nFormat: what is explored and the oracle; then the scenarios with their bounds *quick/thorough* (E1: deviations; E2: depth, or the bound the scenario defines).\n")
for p in props:
    i = p['id']
    o.append("### %s - %s\n" % (i, p['title']))
    o.append(D.HOW[i] + "\n")
    for part in checks[i]['parts']:
        src = open(V + '/' + part['src']).read()
        sc = []
        for m in re.finditer(r'(?:MC|SEQ)_SCENARIO\(\s*(\w+)\s*,([^{]*?)\)\s*(?:\\\s*)?\{', src):
            if m.group(1).endswith('_') : continue
            q = re.search(r'\.Q\((\d+)\)', m.group(2)); t = re.search(r'\.T\((\d+)\)', m.group(2))
            mc = part['mode'] == 'mc'
            fl = re.findall(r'\.(Spurious|Delay|ForkEach|UnlockPoints|Leaks)\(', m.group(2))
            sc.append("%s %s/%s%s" % (m.group(1), q.group(1) if q else '2' if mc else '?', t.group(1) if t else '10' if mc else '?', ' (' + ', '.join(fl) + ')' if fl else ''))
        o.append("- %s, `%s`%s\n" % ({'mc': 'E1'}.get(part['mode'], 'E2'), part['src'], ': ' + '; '.join(sc) if sc else ' (scenarios instantiated from a template, see the file)'))
o.append("## Not claimed: assumptions and limits\n")
o += ["- " + l for l in D.ASSUME.strip().split('\n')]
o.append("\n## Findings\n\nGenuine defects found by these checks on the original tree and repaired in /repo (one `fix:` commit each; the history is in `known-findings.txt`, and the checks report them again if they return):\n")
kf = open(V + '/known-findings.txt').read().split('\n')
for l in kf:
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', l)
    if m: o.append("- %s `%s` %s" % m.groups())
o.append("\nKnown findings (not repaired; reported as KNOWN-FINDING):\n")
for l in kf:
    m = re.match(r'finding: property=(\w+) scenario=(\w+) match=.* :: (.*)', l)
    if m: o.append("- %s (scenario %s): %s" % m.groups())
o.append("\n## False alarms corrected\n\n" + D.FALSE_ALARMS)
p = V + '/tools/detection.json'
if os.path.exists(p):
    det = json.load(open(p))
    o.append("## Planted bugs\n\n" + det['text'] + "\n")
    o.append("| change | property | needs | caught by |\n|---|---|---|---|")
    for s in det['seeds']: o.append("| %s | %s | %s | %s |" % tuple(s))
open(V + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')

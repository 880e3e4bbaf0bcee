#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the checks present (run by hand)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INFO = {}
exec(open(V + '/tools/manifest_info.py').read(), globals())
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    f = 'checks/%s.py' % i.lower()
    if os.path.exists(V + '/' + f) and i in INFO:
        t, level, note = INFO[i]
        checks.append({'property': i, 'quick_cmd': '/usr/bin/python3.12 %s --tier quick' % f,
                       'thorough_cmd': '/usr/bin/python3.12 %s --tier thorough' % f,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': level, 'level_note': note})
    else:
        na.append({'property': i, 'reason': NOT.get(i, 'no check has been built for it yet')})
json.dump({'version': 1, 'setup_cmd': '/usr/bin/python3.12 -m compileall -q lib checks >/dev/null 2>&1; /usr/bin/python3.12 tools/selfcheck.py',
           'hooks': {'guard': 'none', 'enable': 'No change to /repo is needed: hooks are LD_PRELOAD shims (lib/shim.c) and sanitizer builds, made at check time from the current tree.', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'Every check builds a private copy of the current /repo tree under /tmp and removes it. See DESIGN.md.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)

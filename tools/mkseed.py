#!/usr/bin/python3.12
"""tools/mkseed.py ID PROPERTY 'needs' 'breaks' <<< edits: create seeded/ID/patch.diff and meta.json.
stdin: python that sees sub(path, old, new) and applies edits to a scratch copy."""
import json, os, subprocess, sys, shutil
sid, prop, needs, breaks = sys.argv[1:5]
top = '/tmp/seed-mk-%d' % os.getpid()
subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', top, 'HEAD'])
try:
    def sub(path, old, new, count=1):
        p = os.path.join(top, path)
        s = open(p).read()
        assert s.count(old) == count, (path, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    exec(sys.stdin.read())
    d = subprocess.check_output(['git', '-C', top, 'diff'])
    assert d
    dst = '/verif/seeded/' + sid
    os.makedirs(dst, exist_ok=True)
    open(dst + '/patch.diff', 'wb').write(d)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(dst + '/meta.json', 'w'), indent=1)
    sys.stdout.write(d.decode())
finally:
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'remove', '--force', top])

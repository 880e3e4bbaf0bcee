#!/usr/bin/python3.12
"""tools/seedtest.py [--demo-only|--check] ID...: vet planted bugs in scratch copies of /repo.

For each ID: the demo passes on the unchanged tree, the patch applies, the tree builds, the
demo fails, the stable tests pass (in a copy of /opt/vp that points at the copy), and the
property's quick check (with BV_REPO at the copy) reports it."""
import json, os, re, shutil, subprocess, sys
V = '/verif'

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def rm(p):
    assert p.startswith('/tmp/seed-')
    shutil.rmtree(p, ignore_errors=True)

def one(sid, mode):
    d = V + '/seeded/' + sid
    meta = json.load(open(d + '/meta.json'))
    top = '/tmp/seed-' + sid
    rm(top)
    os.mkdir(top)
    repo = top + '/repo'
    res = {}
    sh('cp -a /repo %s' % repo)
    vp = top + '/vp'
    sh('mkdir %s && cp /opt/vp/*.sh /opt/vp/*.py /opt/vp/*.json %s/ 2>/dev/null; test ! -d /opt/vp/bin || cp -a /opt/vp/bin %s/' % (vp, vp, vp))
    sh("sed -i 's#/opt/vp#%s#g; s#/repo\\b#%s#g' %s/*.sh %s/*.py" % (vp, repo, vp, vp))
    demo = top + '/demo'
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    b = sh('bash %s/build.sh' % vp, cwd=repo)
    if b.returncode: return 'base build failed ' + b.stdout[-500:].decode('utf8', 'replace')
    r = sh('timeout 300 bash %s/demo.sh' % demo, cwd=repo)
    res['demo_base'] = r.returncode
    if r.returncode: res['base_out'] = r.stdout[-800:].decode('utf8', 'replace')
    a = sh('git apply %s/patch.diff' % d, cwd=repo)
    if a.returncode: return 'patch does not apply: ' + a.stdout.decode()
    b = sh('bash %s/build.sh' % vp, cwd=repo)
    res['build'] = b.returncode
    r = sh('timeout 300 bash %s/demo.sh' % demo, cwd=repo)
    res['demo_patched'] = r.returncode
    if mode != 'demo':
        pid = meta['property']
        r = sh('%s checks/%s.py --tier quick --seed 1 | head -c 1200' % (sys.executable, pid.lower()), cwd=V, env=dict(os.environ, BV_REPO=repo, VERIF_SEED='1'))
        o = r.stdout.decode('utf8', 'replace')
        res['caught'] = bool(re.search('VIOLATION property=%s ' % pid, o))
        res['check'] = o[:700] if not os.environ.get('BV_BRIEF') else o[-100:]
    if mode == 'all':
        r = sh('bash %s/test.sh %s/t.json' % (vp, top), cwd=repo)
        try:
            p = set(json.load(open(top + '/t.json'))['passed'])
            st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            res['tests_lost'] = sorted(st - p - {'test.int.test_index::test_index_basic'})   # (sampledata links name /repo)
        except Exception as e:
            res['tests_lost'] = repr(e) + r.stdout[-300:].decode('utf8', 'replace')
    rm(top)
    return res

mode = 'all'
for a in sys.argv[1:]:
    if a == '--demo-only': mode = 'demo'; continue
    if a == '--check': mode = 'check'; continue
    x = one(a, mode)
    print('==', a)
    if isinstance(x, str): print(x)
    else:
        for k, v in x.items(): print('  ', k, ':', v)
    sys.stdout.flush()

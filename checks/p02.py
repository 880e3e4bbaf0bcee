#!/usr/bin/python3.12
"""P02: an incremental save stores what a fresh save would."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from bv import *
from reader import Repo, FormatError, read_refs
from fsops import Mutator


def canon(walk):
    out = {}
    for p, e in walk.items():
        m = dict(e['meta'] or {})
        m.pop('atime', None)
        h = m.pop('hardlink', None)
        out[p] = dict(kind=e['kind'], meta=m, data=hashlib.sha1(e.get('data', b'')).hexdigest(), chunked=e.get('chunked'),
                      linked=h is not None)
    return out


def groups(walk):
    g = {}
    for p, e in walk.items():
        h = (e['meta'] or {}).get('hardlink')
        if h is not None:
            g.setdefault(h, set()).add(p)
    return sorted(tuple(sorted(v)) for v in g.values())


def src_groups(s):
    return sorted({e['links'] for e in s.values() if e.get('links') and e['type'] == stat.S_IFREG})


def tree_of(rp, tip, src, strip):
    oid = rp.commit(tip)['tree']
    if not strip:
        for n in fse(src).strip(b'/').split(b'/'):
            _, es = rp.dir_entries(oid)
            m = [e for e in es if e[0] == n]
            if len(m) != 1:
                raise Violation('stored path to the root is missing %r' % n)
            oid = m[0][3]
    return oid


def compare(c, where, walk_inc, walk_new, state, hist):
    a, b = canon(walk_new), canon(walk_inc)
    for p in sorted(set(a) | set(b)):
        if a.get(p) != b.get(p):
            raise Violation('%s: %r differs: fresh save has %s, incremental save has %s; history %s'
                            % (where, p, q(a.get(p)), q(b.get(p)), hist))
    if set(state) != set(b):
        raise Violation('%s: saved paths differ from the filesystem: missing %s extra %s; history %s' % (
            where, q(sorted(set(state) - set(b))[:5]), q(sorted(set(b) - set(state))[:5]), hist))
    for p, s in state.items():
        w = walk_inc[p]
        m = w['meta']
        if not m:
            raise Violation('%s: no metadata for %r; history %s' % (where, p, hist))
        if m['mode'] != (s['type'] | s.get('mode', m['mode'] & 0o7777)) or m['mtime'] != s['mtime'] \
           or (m['uid'], m['gid']) != s['owner']:
            raise Violation('%s: stale metadata for %r: stored %s, actual %s; history %s' % (where, p, q(m), q(s), hist))
        if 'sha' in s and hashlib.sha1(w['data']).hexdigest() != s['sha']:
            raise Violation('%s: stale content for %r; history %s' % (where, p, hist))
        if 'target' in s and w['data'] != s['target']:
            raise Violation('%s: stale symlink %r; history %s' % (where, p, hist))
    gi, gn, gs = groups(walk_inc), groups(walk_new), src_groups(state)
    gi2 = [g for g in gi if len(g) > 1]
    if gi2 != gs:
        raise Violation('%s: hard link groups stored %s, actual %s (fresh save %s); history %s' % (where, q(gi2), q(gs), q(gn), hist))


def case(c, p):
    r = c.rng
    src = c.dir + '/src'
    os.mkdir(src)
    repo = c.bup_dir
    strip = r.random() < .7
    so = ['--strip'] if strip else []
    cfg = []
    if r.random() < .4: cfg.append(('bup.split.trees', 'true'))
    if r.random() < .3: cfg.append(('bup.split.files', 'legacy:14'))
    def mkrepo(d):
        c.bup('init', repo=d)
        for k, v in cfg:
            c.git('config', k, v, repo=d)
    mkrepo(repo)
    repo2 = c.dir + '/repo2'
    mkrepo(repo2)
    mu = Mutator(r, src, names=None if p == 'hostile' else lambda r, taken: next(
        n for n in iter(lambda: b'%s%d' % (r.choice([b'a', b'b', b'a.', b'a-', b'c']), r.randint(0, 9 if len(taken) < 20 else 999)), None) if n not in taken),
        special=p == 'hostile')
    hist = []
    tips = []
    for _ in range(r.randint(2, 10)):
        mu.step()
    steps = c.check.pick(5, 9)
    first = True
    for i in range(steps):
        for j in range(0 if first else r.randint(0, 4)):
            if r.random() < .75:
                hist.append(mu.step())
                continue
            _, dirs = mu._paths()
            sub = r.choice(dirs)
            k = r.choice(['index', 'indexsub', 'savesub', 'smaller', 'smaller', 'invalid', 'indexsmall', 'rmgc', 'save2', 'tree', 'clear', 'indexidx'])
            hist.append(k)
            if k == 'index': c.bup('index', src)
            elif k == 'indexsub': c.bup('index', sub)
            elif k == 'invalid': c.bup('index', '--fake-invalid', r.choice([fse(src), sub]))
            elif k == 'savesub':
                c.bup('index', sub)
                c.bup('save', '-q', '-n', 'sub', sub)
            elif k in ('smaller', 'indexsmall'):
                if k == 'smaller': c.bup('index', src)
                c.bup('save', '-q', '-n', 'small', '--smaller', str(r.choice([1, 100, 1500, 5000])), *so, src)
            elif k == 'tree':
                c.bup('index', src)
                c.bup('save', '-q', '-t', *so, src)
            elif k == 'clear':
                c.bup('index', '--clear')
            elif k == 'indexidx':
                c.bup('midx', '-f')
            elif k == 'save2':
                c.bup('index', src)
                c.bup('save', '-q', '-f', repo + '/bupindex', '-n', 'main', *so, src, repo=repo2)
            elif k == 'rmgc':
                refs = [b for b in ('small', 'sub') if fse('refs/heads/' + b) in read_refs(repo)]
                if refs:
                    c.bup('rm', '--unsafe', *refs)
                    c.bup('gc', '--unsafe', '--threshold', '0')
        first = False
        hist.append('SAVE')
        state = snap(src)
        c.bup('index', *(['--no-check-device'] if r.random() < .1 else []), src)
        use2 = r.random() < .2
        if use2:
            c.bup('save', '-q', '-f', repo + '/bupindex', '-n', 'main', *so, src, repo=repo2)
        else:
            c.bup('save', '-q', '-n', 'main', *so, src)
        dest = repo2 if use2 else repo
        fresh = c.dir + '/fresh%d' % i
        mkrepo(fresh)
        c.bup('index', src, repo=fresh)
        c.bup('save', '-q', '-n', 'main', *so, src, repo=fresh)
        a, b = Repo(dest), Repo(fresh)
        ta, tb = a.refs()[b'refs/heads/main'], b.refs()[b'refs/heads/main']
        wi = a.walk_dir(tree_of(a, ta, src, strip))
        wn = b.walk_dir(tree_of(b, tb, src, strip))
        compare(c, 'save %d' % i, wi, wn, state, hist[-30:])
        force_rmtree(fresh)
        if not use2:
            h = [o for o, _ in a.history(ta)]
            if h[1:len(tips) + 1] != tips[::-1]:
                raise Violation('earlier saves of the branch changed: %r vs %r; history %s' % ([x.hex() for x in h], [x.hex() for x in tips], hist))
            tips.append(ta)
        c.eval()
        c.count('saves_compared')
        c.count('entries_compared', len(state))
        c.count('hardlink_groups_compared', len(src_groups(state)))
        c.sig(tuple(hist[-12:]), tree_sig(state))
    for o in a.reachable(a.refs().values()):
        c.count('objects_reachable')
    for op in hist:
        c.count('op_' + op)
    c.sample({'history': hist, 'config': cfg, 'strip': strip})


if __name__ == '__main__':
    k = Check('P02', rule='One case = a random history of filesystem mutations, index and save runs; at every SAVE the stored tree is compared with that of '
              'an index+save in a brand-new repository and with an lstat snapshot (metadata except atime, content, hard link groups). Distinct: by recent '
              'operation history and tree structure.',
              assumptions=['filesystem changes do not race the index run', 'the kernel updates ctime on every change'])
    n = k.pick(26, 900)
    k.run_cases([('%s-%d' % (('plain', 'hostile')[i % 3 == 2], i), ('plain', 'hostile')[i % 3 == 2]) for i in range(n)], case)
    k.finish()

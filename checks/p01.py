#!/usr/bin/python3.12
"""P01: save then restore reproduces the tree."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from bv import *
from reader import Repo, FormatError

EDGE = [0, 1, 63, 64, 65, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537,
        131071, 131072, 262144, 1048575, 1048576, 1048577]


def case(c, kind):
    r = c.rng
    src = c.dir + '/src'
    if kind == 'sizes':
        os.mkdir(src)
        for n in r.sample(EDGE, 8):
            for k in ('rand', 'zero', 'rep'):
                with open('%s/%s-%d' % (src, k, n), 'wb') as f:
                    f.write(gen_data(r, n, k))
    elif kind == 'wide':
        # enough entries for (several levels of) tree splitting
        os.mkdir(src)
        for i in range(r.randint(600, 1800)):
            n = fse(src) + b'/' + (b'%d' % i if r.random() < .7 else b'%d-' % i + r.choice([b'x.bup', b'\xff', b'.bupl', b'a b', b'x..1.bupd']))
            if r.random() < .1:
                os.mkdir(n)
            elif r.random() < .1:
                os.symlink(b't%d' % i, n)
            else:
                with open(n, 'wb') as f:
                    f.write(b'%d' % (i if r.random() < .5 else 1))
                if r.random() < .3:
                    os.chmod(n, r.randint(0, 0o777))
    elif kind == 'deep':
        p = fse(src)
        os.mkdir(p)
        for i in range(r.randint(20, 90)):
            p = p + b'/' + r.choice([b'd', b'a.b', b'x.bup', b'\xff', b'd' * 20])
            os.mkdir(p)
            if r.random() < .4:
                with open(p + b'/f', 'wb') as f:
                    f.write(gen_data(r, r.randint(0, 100)))
    else:
        TreeGen(r, maxentries=r.choice([3, 12, 40, 80])).make(src)
    want = snap(src)
    c.eval()
    c.bup('init')
    cfg = {}
    if r.random() < .55 or kind == 'wide' and r.random() < .8:
        c.git('config', 'bup.split.trees', 'true')
        cfg['trees'] = 1
    if r.random() < .5:
        f = r.choice(['legacy:13', 'legacy:13', 'legacy:14', 'legacy:16', 'legacy:17', 'legacy:20'])
        c.git('config', 'bup.split.files', f)
        cfg['files'] = f
    opts = []
    if r.random() < .4:
        opts.append('-%d' % r.choice([0, 1, 6, 9]))
    top = r.random() < .3
    strip = [] if top else ['--strip']
    c.bup('index', src)
    c.bup('save', '-q', '-n', 'main', *opts, *strip, src)
    out = c.dir + '/out'
    path = '/main/latest' + (src if top else '') + '/.'
    ropts = r.choice([[], ['--sparse'], ['--numeric-ids'], ['-v'], ['-j1'] if 0 else []])
    c.bup('restore', *ropts, '-C', out, path)
    got = snap(out)
    now = snap(src)
    d = diff_snap(want, now, ('before save', 'source after'))
    c.require(not d, 'saving changed the source tree: %s', '; '.join(d))
    d = diff_snap(want, got, ('saved', 'restored'))
    c.require(not d, '%s tree (config %r, save %r, restore %r) restored differently: %s',
              kind, cfg, opts, ropts, '; '.join(d))
    # The stored form itself, through the independent decoder.
    rp = Repo(c.bup_dir)
    tip = rp.refs()[b'refs/heads/main']
    oid = rp.commit(tip)['tree']
    if top:
        for n in fse(src).strip(b'/').split(b'/'):
            recs, es = rp.dir_entries(oid)
            m = [e for e in es if e[0] == n]
            c.require(len(m) == 1 and len(es) == 1, 'stored path to the root is wrong: %s', q(es))
            oid = m[0][3]
    stored = rp.walk_dir(oid)
    check_stored(c, want, stored, src)
    c.count('entries_compared', len(want))
    c.count('bytes_compared', sum(e.get('size', 0) for e in want.values()))
    for e in want.values():
        c.count('entries_%o' % e['type'])
        if e.get('xattr'): c.count('entries_with_xattr_or_acl')
        if e.get('links'): c.count('entries_hardlinked')
    if any(e.get('chunked') for e in stored.values()): c.count('cases_with_chunked_files')
    if any(x.endswith(b'.bupd') for x in names_in(rp, oid)): c.count('cases_with_split_dirs')
    if len(want) > 1:
        c.sig(kind, tree_sig(want), tuple(cfg), tuple(opts))
    c.sample({'kind': kind, 'config': cfg, 'save': opts, 'restore': ropts, 'entries': len(want),
              'names': [q(x, 60) for x in sorted(want)[1:6]]})


def names_in(rp, oid):
    return [n for m, n, s in rp.tree(oid)]


def check_stored(c, want, stored, src):
    c.require(set(want) == set(stored), 'stored paths differ: missing %s, extra %s',
              q(sorted(set(want) - set(stored))[:5]), q(sorted(set(stored) - set(want))[:5]))
    for p, w in want.items():
        s = stored[p]
        m = s['meta']
        c.require(m, 'no metadata stored for %r', p)
        c.require(m['mode'] == (w['type'] | w.get('mode', m['mode'] & 0o7777)), 'stored mode of %r is %o, not %o', p, m['mode'],
                  w['type'] | w.get('mode', 0))
        c.require(m['mtime'] == w['mtime'], 'stored mtime of %r is %d, not %d', p, m['mtime'], w['mtime'])
        c.require((m['uid'] % 2**32, m['gid'] % 2**32) == w['owner'], 'stored owner of %r is %r, not %r', p, (m['uid'], m['gid']), w['owner'])
        if 'sha' in w:
            c.require(hashlib.sha1(s['data']).hexdigest() == w['sha'], 'stored content of %r differs', p)
            c.require(m.get('size') in (None, w['size']), 'stored size of %r is %r, not %d', p, m.get('size'), w['size'])
        if 'target' in w:
            c.require(s['data'] == w['target'] == m.get('target'), 'stored target of %r', p)


if __name__ == '__main__':
    k = Check('P01', rule='One case = one random tree (hostile names, modes, owners, times, xattrs, ACLs, hard links, special files; or size-edge, '
              'wide, deep variants) saved under a random split/compression configuration, restored, and compared by lstat/content, and decoded '
              'from the packs by an independent reader. Non-trivial: more than one entry; distinct by tree structure signature and options.',
              assumptions=['ctime and atime are not compared (restore cannot set ctime; reading updates atime)',
                           'runs as root on a filesystem with user xattrs and POSIX ACLs'])
    n = k.pick(170, 2500)
    kinds = ['tree'] * 10 + ['sizes', 'wide', 'deep']
    k.run_cases([('%s-%d' % (kinds[i % len(kinds)], i), kinds[i % len(kinds)]) for i in range(n)], case)
    k.finish()

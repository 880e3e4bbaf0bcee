#!/usr/bin/env python3
"""P24: restore writes only where told and honours its options."""
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import grp, pwd
from bv import *
from reader import enc_vint, enc_vuint, enc_bvec


def as_nobody(groups=(65534,)):
    def f():
        os.setgroups(list(groups))
        os.setgid(65534)
        os.setuid(65534)
    return f


def chown_r(p, uid=65534, gid=65534):
    for dp, dn, fn in os.walk(os.fsencode(p)):
        for n in [b'.'] + fn + dn:
            os.chown(os.path.join(dp, n), uid, gid, follow_symlinks=False)


def surroundings(c, out):
    """Everything in the case directory except the output directory."""
    s = {}
    for n in os.listdir(os.fsencode(c.dir)):
        if n not in (b'home',):
            p = os.fsencode(c.dir) + b'/' + n
            if os.path.isdir(p) and not os.path.islink(p):
                s.update({n + b'/' + k: v for k, v in snap(p).items()})
            else:
                s[n] = {'mtime': os.lstat(p).st_mtime_ns, 'size': os.lstat(p).st_size}
    o = os.path.relpath(os.fsencode(out), os.fsencode(c.dir))
    return {k: v for k, v in s.items() if not (k.rstrip(b'/') + b'/').startswith(o + b'/')}


def name_of(uid):
    try: return pwd.getpwuid(uid).pw_name.encode()
    except KeyError: return b''


def gname_of(gid):
    try: return grp.getgrgid(gid).gr_name.encode()
    except KeyError: return b''


def owner_model(owner, numeric, maps, me=None, groups=()):
    uid, gid = owner
    user, group = name_of(uid), gname_of(gid)
    user, group = maps['user'].get(user, user), maps['group'].get(group, group)
    uid, gid = maps['uid'].get(uid, uid), maps['gid'].get(gid, gid)
    if me is None:
        if not numeric and uid != 0 and user:
            try: uid = pwd.getpwnam(user.decode()).pw_uid
            except KeyError: pass
        if not numeric and gid != 0 and group:
            try: gid = grp.getgrnam(group.decode()).gr_gid
            except KeyError: pass
        return uid, gid
    out = gid if gid in groups else me[1]
    if not numeric and gid != 0 and group and group in [gname_of(x) for x in groups]:
        out = grp.getgrnam(group.decode()).gr_gid
    return me[0], out


def gen_maps(r):
    opts, maps = [], {'user': {}, 'group': {}, 'uid': {}, 'gid': {}}
    if r.random() < .45:
        return opts, maps
    for _ in range(r.randint(1, 5)):
        k = r.choice(['user', 'group', 'uid', 'gid'])
        if k in ('user', 'group'):
            old = r.choice([b'root', b'daemon', b'nobody' if k == 'user' else b'nogroup', b'users' if k == 'group' else b'bin', b'nosuch'])
            new = r.choice([b'', b'', b'root', b'daemon', b'bin', b'nosuch', b'mail'])
        else:
            old, new = r.choice([0, 1, 1000, 65534, 12345, 4242, 100]), r.choice([0, 1, 7, 31337, 65534])
        maps[k][old] = new
        v = b'%s=%s' % (old, new) if k in ('user', 'group') else b'%d=%d' % (old, new)
        opts += [b'--map-%s=%s' % (k.encode(), v)] if r.random() < .5 else [b'--map-' + k.encode(), v]
    return opts, maps


def gen_rx(c, r, paths):
    """Random exclusion patterns, many derived from real paths."""
    pats, opts = [], []
    if r.random() < .4:
        return pats, opts
    for _ in range(r.randint(1, 3)):
        p = r.choice(paths) if paths else b'/x'
        k = r.randint(0, 8)
        b = p.rstrip(b'/')
        pat = [re.escape(p) + b'$', re.escape(b) + b'/.', b'^' + re.escape(b), re.escape(b.split(b'/')[-1]), b'/' + re.escape(b.split(b'/')[-1]) + b'/$',
               b'[a-c]$', b'^/[^/]*$', b'\\.bup', b'/..?/$'][k]
        if pat: pats.append(pat)
    lines = []
    for p in pats:
        if b'\n' in p.replace(b'\\\n', b'\n') or r.random() < .6:
            opts += [b'--exclude-rx=' + p] if r.random() < .6 or p.startswith(b'-') else [b'--exclude-rx', p]
        else:
            lines.append(p)
    if lines:
        f = os.fsencode(c.tmp('rx'))
        with open(f, 'wb') as fh: fh.write((b'\n' if r.random() < .3 else b'') + b'\n\n'.join(lines) + (b'\n' if r.random() < .7 else b''))
        opts += [b'--exclude-rx-from', f]
    return pats, opts


def select(want, sub, name, pats):
    """What restoring `sub` (relative path in the save) writes: {rel: entry}.
    name None: the contents only."""
    rxs = [re.compile(p) for p in pats]
    res = {}
    def one(p, full, rel):
        e = want[p]
        d = stat.S_ISDIR(e['type'])
        if any(x.search(full + (b'/' if d else b'')) for x in rxs):
            return
        res[rel] = e
        if d: kids(p, full, rel)
    def kids(p, full, rel):
        for q2 in children.get(p, ()):
            n = q2[len(p) + 1:] if p else q2
            one(q2, full + b'/' + n, rel + b'/' + n if rel else n)
    children = {}
    for k in want:
        if k: children.setdefault(os.path.dirname(k), []).append(k)
    if name is None: kids(sub, b'', b'')
    else: one(sub, b'/' + name, name)
    return res


def relink(src_of, res):
    """Hard-link groups as seen from what was restored together."""
    groups = {}
    for rel, p in src_of.items():
        l = res[rel].get('links')
        if l: groups.setdefault(l, []).append(rel)
    for rel in list(res):
        e = dict(res[rel])
        l = e.pop('links', None)
        if l and len(groups[l]) > 1: e['links'] = tuple(sorted(groups[l]))
        res[rel] = e
    return res


def opts_case(c, n):
    r = c.rng
    user = r.random() < .25
    src = c.dir + '/src'
    tg = TreeGen(r, maxentries=r.choice([8, 30, 60]), times='sane' if user else 'wild', xattr=not user and r.random() < .3, special=not user)
    tg.make(src)
    if user:
        for dp, dn, fn in os.walk(os.fsencode(src)):
            for x in [dp] + [dp + b'/' + y for y in fn]:
                if not os.path.islink(x): os.chmod(x, os.lstat(x).st_mode & 0o777 | 0o700)
    want = snap(src)
    c.bup('init')
    if r.random() < .4: c.git('config', 'bup.split.trees', 'true')
    c.bup('index', src)
    c.bup('save', '-q', '-n', 'main', '-d', '1400000000', '--strip', src)
    c.bup('tag', 'v1', 'main')
    if user: chown_r(c.bup_dir)
    os.makedirs(c.dir + '/home', exist_ok=True)
    os.chmod(c.dir, 0o755)
    c.env['BUP_TEST_LEVEL'] = '1'
    groups = (65534, r.choice([1, 100, 4242]))
    for i in range(n):
        numeric = r.random() < .4
        # ACLs name their users, so they are left to P01 when names are mapped
        mopts, maps = gen_maps(r)
        sparse = r.random() < .4
        base = r.choice(['/main/latest', '/main/latest', '/main/2014-05-13-165320', '/.tag/v1'])
        sels = r.sample(sorted(want), min(len(want), r.choice([1, 1, 1, 2, 3])))
        if r.random() < .2: sels = [b'']
        paths, res, dot, src_of = [], {}, None, {}
        every = [b'/' + k + (b'/' if stat.S_ISDIR(v['type']) else b'') for k, v in want.items()]
        pats, xopts = gen_rx(c, r, every)
        for s in sels:
            e = want[s]
            isdir = stat.S_ISDIR(e['type'])
            form = r.choice(['plain', 'slash', 'dot']) if isdir else 'plain'
            nm = s.split(b'/')[-1] if s else os.fsencode(base.split('/')[-1])
            got = select(want, s, nm if form == 'plain' else None, pats)
            pref = s
            if any(k.split(b'/')[0] == x.split(b'/')[0] for k in got for x in res) or form == 'dot' and dot is not None:
                continue
            paths.append(os.fsencode(base) + (b'/' + s if s else b'') + {'plain': b'', 'slash': b'/', 'dot': b'/.'}[form])
            res.update(got)
            for rel in got:
                src_of[rel] = pref
            if form == 'dot': dot = e; last = paths.pop()
        if dot is not None: paths.append(last)
        if not paths:
            continue
        verb = r.choice([0, 0, 1, 2])
        out = c.tmp('out')
        cwd = c.tmp('cwd')
        os.mkdir(cwd)
        o = list(mopts) + list(xopts)
        if numeric: o.append('--numeric-ids')
        if sparse: o.append('--sparse')
        o += ['-v'] * verb
        if r.random() < .2: o += ['-r', '-:' + c.bup_dir]
        incwd = r.random() < .3
        if incwd: os.mkdir(out)
        else: o += [r.choice(['-C', '--outdir']), out]
        if user:
            for x in (c.dir, cwd, c.dir + '/home') + ((out,) if incwd else ()): os.chown(x, 65534, 65534)
        before = surroundings(c, out)
        umask = r.choice([0o022, 0o077, 0])
        pre = as_nobody(groups) if user else None
        x = c.bup('restore', *o, *paths, ok=None, cwd=out if incwd else cwd,
                  preexec=lambda: (os.umask(umask), pre and pre()))
        what = 'restore %s%s' % (q(o + paths, 600), ' as nobody' if user else '')
        after = surroundings(c, out)
        d = diff_snap(before, after, ('before', 'after'))
        c.require(not d, '%s changed something outside the output directory: %s', what, '; '.join(d))
        c.require(x.rc == 0, '%s failed: %r', what, x)
        got = snap(out)
        res = relink(src_of, dict(res))
        for k, e in list(res.items()):
            e = res[k] = dict(e)
            e['owner'] = owner_model(e['owner'], numeric, maps, (65534, 65534) if user else None, groups)
        root = got.pop(b'')
        if dot is not None:
            w = {k: v for k, v in dot.items() if k != 'links'}
            w['owner'] = owner_model(w['owner'], numeric, maps, (65534, 65534) if user else None, groups)
            d = diff_snap({b'.': w}, {b'.': root})
            c.require(not d, '%s: metadata of the output directory: %s', what, '; '.join(d))
        ig = ('xattr',) if mopts and tg.xattr else ()
        d = diff_snap(res, got, ('expected', 'restored'), ignore=ig)
        c.require(not d, '%s: %s', what, '; '.join(d))
        if verb and not any(b'\n' in k for k in res):
            lines = sorted(l for l in x.out.split(b'\n') if l)
            exp = []
            for k, e in res.items():
                if stat.S_ISDIR(e['type']): exp.append(b'/' + k + b'/')
                elif verb > 1: exp.append(b'/' + k + (b'@ -> ' + e['target'] if 'target' in e else b''))
            if not any(b'\n' in e for e in exp):
                c.require(lines == sorted(exp), '%s printed %s, expected %s', what, q(lines), q(sorted(exp)))
                c.count('verbose_outputs')
        c.eval()
        c.count('entries_restored', len(res))
        if pats: c.count('restores_with_exclusions')
        if len(res) and any(maps.values()): c.count('restores_with_mappings')
        c.sig(tree_sig(res), tuple(o), len(paths))
        force_rmtree(out); os.rmdir(cwd)


def sparse_case(c, n):
    """Content is exact and long zero runs take no space."""
    r = c.rng
    src = c.dir + '/src'
    os.mkdir(src)
    data = {}
    for i in range(n):
        d = bytearray()
        nz = 0
        for _ in range(r.randint(0, 8)):
            k = r.random()
            if k < .5:
                l = r.choice([1, 511, 512, 513, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20, r.randint(1, 200000)])
                d += b'\0' * l
            else:
                l = r.choice([1, 2, 511, 512, 513, 8191, r.randint(1, 100000)])
                x = bytearray(r.randbytes(l))
                if r.random() < .3:
                    for _ in range(20): x[r.randrange(l)] = 0
                d += x; nz += l + 8192
        data[b'%d' % i] = (bytes(d), nz)
        with open(src + '/%d' % i, 'wb') as f: f.write(d)
    c.bup('init')
    if r.random() < .7: c.git('config', 'bup.split.files', r.choice(['legacy:13', 'legacy:16', 'legacy:20']))
    c.bup('index', src)
    c.bup('save', '-q', '-n', 'main', '--strip', src)
    for sp in (True, False):
        out = c.tmp('out')
        c.bup('restore', '-q', *(['--sparse'] if sp else []), '-C', out, '/main/latest/')
        for k, (d, nz) in data.items():
            p = os.fsencode(out) + b'/' + k
            with open(p, 'rb') as f:
                got = f.read()
            c.require(got == d, 'restore%s: %r has %d bytes, wanted %d, first difference at %s', ' --sparse' if sp else '', k, len(got), len(d),
                      next((i for i, (a, b) in enumerate(zip(got, d)) if a != b), None))
            used = os.stat(p).st_blocks * 512
            if sp:
                c.require(used <= nz + 16384, 'restore --sparse: %r (%d bytes, about %d not in zero runs) occupies %d', k, len(d), nz, used)
                c.count('sparse_files')
                if len(d) - used > 65536: c.count('sparse_files_with_holes')
            c.eval()
            c.sig('sparse', sp, len(d), nz)
        shutil.rmtree(out)


def clobber_case(c, n):
    """The output directory already holds things, links out of it included."""
    r = c.rng
    src = c.dir + '/src'
    names = lambda rr, taken: rr.choice([x for x in (b'a', b'b', b'c', b'd', b'e', b'f', b'g') if x not in taken] or [b'z%d' % rr.randint(0, 10**6)])
    TreeGen(r, maxentries=14, maxdepth=2, special=False, xattr=False, names=names, times='sane', big=False).make(src)
    want = snap(src)
    c.bup('init')
    c.bup('index', src)
    c.bup('save', '-q', '-n', 'main', '--strip', src)
    chown_r(c.bup_dir)
    os.chown(c.dir, 65534, 65534)
    for i in range(n):
        can = c.dir + '/canary'
        shutil.rmtree(can, ignore_errors=True)
        os.makedirs(can + '/d/a')
        for f in ('f', 'g', 'd/a/b', 'd/b'):
            with open(can + '/' + f, 'wb') as fh: fh.write(b'canary ' + f.encode())
        out = c.tmp('out')
        os.mkdir(out)
        occupied = set()
        def occupy(p, depth):
            k = r.choice(['link-file', 'link-dir', 'dangling', 'file', 'hard', 'empty', 'fifo', 'full'])
            if k == 'link-file': os.symlink(can + '/f', p)
            elif k == 'link-dir': os.symlink(can + '/d', p)
            elif k == 'dangling': os.symlink(can + '/new', p)
            elif k == 'file':
                with open(p, 'wb') as f: f.write(b'old')
                os.chmod(p, 0o444)
            elif k == 'hard': os.link(can + '/g', p)
            elif k == 'empty': os.mkdir(p)
            elif k == 'fifo': os.mkfifo(p)
            else:
                os.mkdir(p)
                with open(p + b'/keep', 'wb') as f: f.write(b'keep')
                occupied.add(p)
        tops = [k for k in want if k and b'/' not in k]
        for t in tops:
            if r.random() < .6: occupy(os.fsencode(out) + b'/' + t, 0)
        if r.random() < .5:
            with open(out + '/unrelated', 'wb') as f: f.write(b'x')
            os.symlink(can + '/d', out + '/unrelated-link')
        root = r.random() < .5
        chown_r(out); chown_r(can)
        os.chown(out, 65534, 65534)
        before = surroundings(c, out)
        if any(os.path.isfile(out + '/' + os.fsdecode(t)) for t in tops): pass
        had = snap(out)
        for e in before.values():
            if isinstance(e, dict): e.pop('links', None)
        path = r.choice([b'/main/latest/', b'/main/latest/.'] + [b'/main/latest/' + t for t in tops])
        x = c.bup('restore', '-C', out, path, *(['--sparse'] if r.random() < .3 else []), ok=None, preexec=None if root else as_nobody())
        what = 'restore of %r over existing entries (%s)' % (path, {k: oct(v['type']) for k, v in had.items()})
        after = surroundings(c, out)
        for e in after.values():
            if isinstance(e, dict): e.pop('links', None)
        d = diff_snap(before, after, ('before', 'after'))
        c.require(not d, '%s changed something outside the output directory: %s', what, '; '.join(d))
        got = snap(out)
        for k in had:
            if k.startswith(b'unrelated'):
                c.require({**had[k], 'links': 0} == {**got.get(k, {}), 'links': 0}, '%s changed %r', what, k)
        for p in occupied:
            rel = os.path.relpath(p, os.fsencode(out))
            c.require(rel + b'/keep' in got, '%s removed %r', what, rel + b'/keep')
        if x.rc == 0:
            sub = path[len(b'/main/latest/'):]
            sel = select(want, sub, sub, []) if sub not in (b'', b'.') else select(want, b'', None, [])
            for k, e in sel.items():
                g = got.get(k)
                bad = not g or [f for f in ('type', 'mode', 'mtime', 'sha', 'target') if g.get(f) != e.get(f)]
                c.require(not bad, '%s reported success but %r is %s, not %s', what, k, q(g), q(e))
            c.count('clobber_success')
        else:
            c.count('clobber_refused')
        c.eval()
        c.sig('clobber', sorted((k, v['type']) for k, v in had.items()), path, x.rc)
        force_rmtree(out)


def rec(**f):
    """One encoded metadata record."""
    out = b''
    mode = f.get('mode', 0o100644)
    common = b''.join([enc_vint(mode), enc_vint(f.get('uid', 65534)), enc_bvec(f.get('user', b'')), enc_vint(f.get('gid', 65534)), enc_bvec(f.get('group', b'')),
                       enc_vint(f.get('rdev', 0)), enc_vint(1400000000), enc_vuint(0), enc_vint(1400000000), enc_vuint(0), enc_vint(1400000000), enc_vuint(0), enc_vint(f.get('size', -1))])
    out += enc_vuint(10) + enc_bvec(common)
    if 'path' in f: out += enc_vuint(1) + enc_bvec(enc_bvec(f['path']))
    if 'target' in f: out += enc_vuint(3) + enc_bvec(f['target'])
    if 'hardlink' in f: out += enc_vuint(8) + enc_bvec(f['hardlink'])
    if 'acl' in f: out += enc_vuint(11) + enc_bvec(b''.join(enc_bvec(x) for x in f['acl']))
    if 'attr' in f: out += enc_vuint(6) + enc_bvec(enc_vuint(f['attr']))
    if 'xattr' in f: out += enc_vuint(7) + enc_bvec(enc_vuint(len(f['xattr'])) + b''.join(enc_bvec(a) + enc_bvec(b) for a, b in f['xattr']))
    return out + enc_vuint(0)


class Craft:
    """Writes arbitrary (also invalid) objects into a repository."""
    def __init__(self, c):
        self.c = c
    def obj(self, kind, data):
        import zlib
        raw = kind + b' %d\0' % len(data) + data
        h = hashlib.sha1(raw).hexdigest()
        p = '%s/objects/%s/%s' % (self.c.bup_dir, h[:2], h[2:])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p):
            with open(p, 'wb') as f: f.write(zlib.compress(raw, 1))
        return bytes.fromhex(h)
    def tree(self, ents, sort=True):
        if sort: ents = sorted(ents, key=lambda e: e[1] + b'/' if stat.S_ISDIR(e[0]) else e[1])
        return self.obj(b'tree', b''.join(b'%o %s\0%s' % e for e in ents))
    def commit(self, tree, ref='main'):
        o = self.obj(b'commit', b'tree %s\nauthor a <a@b> 1400000000 +0000\ncommitter a <a@b> 1400000000 +0000\n\nx\n' % tree.hex().encode())
        with open(self.c.bup_dir + '/refs/heads/' + ref, 'w') as f: f.write(o.hex() + '\n')
        return o


def hostile_case(c, n):
    r = c.rng
    c.bup('init')
    k = Craft(c)
    deep = c.dir + '/o/u/t'
    os.makedirs(deep)
    os.makedirs(c.dir + '/home', exist_ok=True)
    can = c.dir + '/canary'
    os.makedirs(can + '/d/s')
    for f in ('f', 'd/x', 'd/s/y'):
        with open(can + '/' + f, 'wb') as fh: fh.write(b'canary ' + f.encode())
        os.chmod(can + '/' + f, 0o640)
    bc = os.fsencode(can)
    def content(): return k.obj(b'blob', b'evil ' + r.randbytes(4))
    def mktree(depth):
        ents, recs, names = [], {}, set()
        dot = rec(mode=0o40755)
        if depth and r.random() < .35:
            dot = rec(mode=r.choice([0o120777, 0o100644, 0o010644, 0o40755, 0]), target=r.choice([bc + b'/d', b'../../../../../canary/d', b'..']),
                      **({'path': bc + b'/evil'} if r.random() < .3 else {}))
        for _ in range(r.randint(1, 6)):
            nm = r.choice([b'a', b'b', b'c', b'd', b'x', b'y', b's', b'f', b'..', b'.', b'a/x', b'a/evil', b'b/x', b'../evil', b'../../../../canary/evil', b'../../../../canary/f',
                           bc + b'/evil', bc + b'/f', b'./a', b'a/../../evil', b'a/', b'a/s', b'.git', b'...', b'', b'..\n'])
            dup = nm in names
            if dup and r.random() < .6: continue
            names.add(nm)
            t = r.choice(['file', 'file', 'link', 'link', 'dir', 'chunk', 'metalink', 'metadir', 'hard', 'linkacl'])
            if t == 'dir' and depth > 2: t = 'file'
            if t in ('file', 'hard', 'metalink', 'metadir'):
                e = (0o100644, nm, content())
                m = {'file': lambda: rec(mode=r.choice([0o100644, 0o104755, 0o100000])),
                     'hard': lambda: rec(mode=0o100644, hardlink=r.choice([b'/h1', b'/h2', bc + b'/f', b'../../../../canary/f'])),
                     'metalink': lambda: rec(mode=0o120777, target=r.choice([bc + b'/f', bc + b'/new', bc + b'/d'])),
                     'metadir': lambda: rec(mode=0o40755)}[t]()
            elif t in ('link', 'linkacl'):
                tg = r.choice([bc + b'/d', bc + b'/f', bc + b'/new', b'../../../../canary/d', b'..', b'.', b'../../../../canary/f', b'a'])
                e = (0o120000, nm, k.obj(b'blob', tg))
                f = {}
                if t == 'linkacl':
                    f = r.choice([{'acl': (b'u::rw,u:daemon:rwx,g::---,m::rwx,o::rwx', b'u::rw,u:1:rwx,g::---,m::rwx,o::rwx', b'', b'')}, {'attr': 0x40}, {'xattr': [(b'user.evil', b'1')]}, {'attr': 0x80}])
                m = rec(mode=r.choice([0o120777, 0o120777, 0o120777, 0o100666]), **({'target': tg} if r.random() < .9 else {}), **f)
            elif t == 'chunk':
                e = (0o40000, nm + b'.bup', k.tree([(0o100644, b'000000', content()), (0o100644, b'000005', content())]))
                m = rec(mode=r.choice([0o100600, 0o100600, 0o120777]), **({'target': bc + b'/d'} if r.random() < .5 else {}))
            else:
                e = (0o40000, nm, mktree(depth + 1))
                m = b''
            ents.append(e)
            recs[len(ents) - 1] = m
        order = sorted(range(len(ents)), key=lambda i: ents[i][1] + b'/' if stat.S_ISDIR(ents[i][0]) else ents[i][1])
        if r.random() < .25: r.shuffle(order)
        bm = b''.join([dot] + [recs[i] for i in order])
        out = [ents[i] for i in order]
        if r.random() < .85: out = [(0o100644, b'.bupm', k.obj(b'blob', bm))] + out
        return k.tree(out, sort=False)
    for i in range(n):
        k.commit(mktree(0))
        out = c.tmp('x')
        out = deep + '/' + os.path.basename(out)
        chown_r(c.dir)
        before = surroundings(c, deep)
        form = r.choice(['/main/latest/', '/main/latest/.', '/main/latest', '/main/latest/a', '/main/latest/b/'])
        x = c.bup('restore', *r.choice([[], ['--sparse'], ['--numeric-ids']]), '-C', out, form, ok=None, preexec=as_nobody(), cwd=deep)
        after = surroundings(c, deep)
        d = diff_snap(before, after, ('before', 'after'))
        tree = q(run(['git', '--git-dir', c.bup_dir, 'ls-tree', 'main^{tree}'], env=c.env).out, 600)
        c.require(not d, 'restoring a hostile save (%s) wrote outside the output directory: %s (tree %s; result %r)', form, '; '.join(d), tree, x)
        extra = [y for y in os.listdir(deep) if y != os.path.basename(out)]
        c.require(not extra, 'restoring a hostile save (%s) wrote beside the output directory: %r (tree %s)', form, extra, tree)
        c.eval()
        c.count('hostile_saves')
        made = len(snap(out)) - 1 if os.path.isdir(out) else 0
        c.count('hostile_entries_restored', made)
        c.sig('hostile', tree, form)
        force_rmtree(out)


def go(c, p):
    {'opts': opts_case, 'sparse': sparse_case, 'clobber': clobber_case, 'hostile': hostile_case}[p[0]](c, p[1])


if __name__ == '__main__':
    k = Check('P24', rule='One evaluation = one bup restore whose output was compared entry by entry with a model of the requested paths, exclusion patterns and ownership mappings, or (hostile saves, output directory '
              'already holding links and files) whose effects outside the output directory were looked for in a full snapshot. Distinct: structure of what was restored x options; crafted tree x path form.',
              assumptions=['Python re is what the documentation promises for patterns', 'hostile saves are restored as an unprivileged user inside the scratch directory'])
    subprocess.run(['chmod', '-R', 'a+rX', k.bupdir], check=True)
    a, b, d, e = k.pick((40, 6, 16, 24), (500, 60, 150, 300))
    k.run_cases([('opts-%d' % i, ('opts', 8)) for i in range(a)] + [('sparse-%d' % i, ('sparse', 12)) for i in range(b)] +
                [('clobber-%d' % i, ('clobber', 8)) for i in range(d)] + [('hostile-%d' % i, ('hostile', 12)) for i in range(e)], go)
    k.need('hostile_saves', 50)
    k.need('sparse_files_with_holes', 5)
    k.need('restores_with_exclusions', 20)
    k.finish()

#!/usr/bin/env python3
"""P21: indexing and saving select and place exactly the paths requested."""
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from bv import *
from fsops import Mutator
from reader import Repo

_names = [b'a', b'b', b'c', b'ab', b'a.b', b'a-', b'a b', b'a ', b' a', b'd', b'd.d', b'd0', b'd-x', b'dd', b'x', b'x.bup', b'.x', b'caf\xc3\xa9', b'\xff', b'b\t', b'A', b'=', b'[x]', b'a+', b'(', b'z' * 40, b'-n', b'#c', b'e', b'f', b'g']


def names(r, taken=()):
    for _ in range(60):
        n = r.choice(_names)
        if n not in taken: return n
    return b'u%d' % r.randint(0, 10**9)


class Model:
    """What the index holds: {absolute path: (type, size)}."""
    def __init__(self, c, src):
        self.c, self.src = c, os.fsencode(src)
        self.state = {}
        self.dev = {}

    def getdev(self, p):
        best = 0
        for m, d in self.dev.items():
            if p == m or p.startswith(m + b'/'):
                if len(m) >= best: best, r = len(m), d
        return r if best else 0

    def scan(self, roots, excl, rxs, xdev, repo):
        """roots: absolute paths."""
        red = [p for p in roots if not any(o != p and (p.startswith(o + b'/')) for o in roots)]
        for root in sorted(set(red), reverse=True):
            got = {}
            def walk(p, st, dev):
                isd = stat.S_ISDIR(st.st_mode)
                got[p] = (stat.S_IFMT(st.st_mode), st.st_size)
                if isd and (not xdev or self.getdev(p) == dev):
                    kids(p, dev)
            def kids(p, dev):
                for n in os.listdir(p):
                    k = p + b'/' + n
                    st = os.lstat(k)
                    isd = stat.S_ISDIR(st.st_mode)
                    if k in excl or any(x.search(k + (b'/' if isd else b'')) for x in rxs) or isd and k == repo:
                        continue
                    walk(k, st, self.getdev(k) if k in roots else dev)
            walk(root, os.lstat(root), self.getdev(root))
            for k in [k for k in self.state if k == root or k.startswith(root + b'/')]:
                del self.state[k]
            self.state.update(got)

    def under(self, roots):
        return {p: e for p, e in self.state.items() if any(p == o or p.startswith(o + b'/') for o in roots)}


def spell(c, r, p, isdir, exclude=False):
    """Another way to write an absolute path (the process runs in src)."""
    src = os.fsencode(c.src)
    rel = p[len(src) + 1:]
    k = r.randint(0, 6)
    if c.absolute: k = r.choice([0, 4, 5])
    if p == src and c.absolute: out = src
    elif p == src:
        out = r.choice([src, src + b'/', b'.', b'./', src + b'/.', os.fsencode(c.dir) + b'/lnk/', b'../src'])
    elif k <= 1: out = p
    elif k == 2: out = rel
    elif k == 3: out = b'./' + rel
    elif k == 4: out = os.fsencode(c.dir) + b'/lnk/' + rel
    elif k == 5: out = src + b'//' + rel
    else: out = b'../src/' + rel
    if isdir and not out.endswith(b'/') and r.random() < .3: out += b'/'
    return b'./' + out if out.startswith(b'-') else out


def gen_index(c, r, m, roots):
    """Random selection options -> (argv, excluded paths, regexes, xdev)."""
    a, excl, rxs = [], set(), []
    allp = []
    for dp, dn, fn in os.walk(m.src):
        for n in dn: allp.append((dp + b'/' + n, not os.path.islink(dp + b'/' + n)))
        for n in fn: allp.append((dp + b'/' + n, False))
    allp = [x for x in allp if x[0] not in roots and not x[0].startswith(os.fsencode(c.bup_dir))]
    fromfile, rxfile = [], []
    if allp and r.random() < .55:
        for _ in range(r.randint(1, 3)):
            p, d = r.choice(allp)
            if r.random() < .15: p += b'.nosuch'; d = False
            if any(o == p or o.startswith(p + b'/') for o in roots): continue
            excl.add(p)
            s = spell(c, r, p, d)
            if r.random() < .55: a += r.choice([[b'--exclude=' + s], [b'--exclude', s]])
            elif s.strip() == s: fromfile.append(r.choice([b'', b'', b' ', b'\t']) + s + r.choice([b'', b'', b' ']))
            else: a.append(b'--exclude=' + s)
    if allp and r.random() < .45:
        for _ in range(r.randint(1, 2)):
            p, d = r.choice(allp)
            b = p.split(b'/')[-1]
            e = re.escape
            x = r.choice([e(p) + b'$', e(p) + (b'/$' if d else b'$'), b'^' + e(p), b'/' + e(b) + b'$', b'/' + e(b) + b'/$', b'/' + e(b) + b'/.', e(p) + b'/.', b'/a[^/]*$', b'\\.bup', e(b)[:3] if b'\\' not in e(b)[:3] and b'[' not in e(b)[:3] else e(b), b'/d/a'])
            rx = re.compile(x)
            # a pattern that matches a requested root is left out
            if any(rx.search(o + b'/') or rx.search(o) for o in roots) or rx.search(m.src + b'/'): continue
            rxs.append(rx)
            if r.random() < .6: a += r.choice([[b'--exclude-rx=' + x], [b'--exclude-rx', x] if not x.startswith(b'-') else [b'--exclude-rx=' + x]])
            else: rxfile.append(x)
    for opt, ls in ((b'--exclude-from', fromfile), (b'--exclude-rx-from', rxfile)):
        if ls or r.random() < .08:
            f = os.fsencode(c.tmp('list'))
            with open(f, 'wb') as fh: fh.write(r.choice([b'', b'\n']) + r.choice([b'\n', b'\n\n']).join(ls) + r.choice([b'', b'\n', b'\n\n']))
            a += [opt, f]
            c.count('exclude_files')
    x = r.random() < .4 and bool(m.dev)
    if x: a.append(r.choice([b'-x', b'--xdev', b'--one-file-system']))
    return a, excl, rxs, x


def norm(p):
    return os.path.normpath(p)


def place(p, isdir, mode, arg):
    """Archive path of a selected path (b'' is the root)."""
    d = p if isdir else os.path.dirname(p)
    def fin(base, rest):
        out = (base.strip(b'/') + b'/' + rest.strip(b'/')).strip(b'/')
        return out if isdir else (out + b'/' + os.path.basename(p)).strip(b'/')
    if mode in ('strip', 'strip-path'):
        for b in sorted(arg, key=len, reverse=True):
            if d == b or d.startswith(b + b'/'):
                return fin(b'', d[len(b):])
    elif mode == 'graft':
        for old, new in arg:
            if d == old or d.startswith(old + b'/') or old == b'/':
                return fin(new, d[len(old):] if old != b'/' else d)
    return fin(b'', d)


def case(c, n):
    r = c.rng
    c.src = c.dir + '/src'
    c.absolute = False
    src = os.fsencode(c.src)
    TreeGen(r, maxentries=r.choice([10, 25, 45]), maxdepth=4, special=r.random() < .3, xattr=False, owners=False, times='sane', big=False, modes=False, names=names).make(c.src)
    os.symlink('src', c.dir + '/lnk')
    os.mkdir(c.dir + '/home')
    if r.random() < .2:
        d = [x for x, _, _ in os.walk(src)]
        c.bup_dir = os.fsdecode(r.choice(d)) + '/the-repo'
        c.count('cases_with_repository_inside')
    else:
        c.bup_dir = c.dir + '/repo'
    c.bup('init')
    m = Model(c, src)
    env = {}
    if r.random() < .5:
        dirs = [x for x, _, _ in os.walk(src) if x != src and not x.startswith(os.fsencode(c.bup_dir))]
        for i, d in enumerate(r.sample(dirs, min(len(dirs), r.randint(1, 4)))): m.dev[d] = 7777 + i % 3
        env = {'LD_PRELOAD': c.check.scratch + '/devshim.so', 'BV_DEVS': c.dir + '/devs'}
    mut = Mutator(r, c.src, names=names, big=False, special=False) if c.bup_dir == c.dir + '/repo' else None
    ix = []
    if r.random() < .2:
        ix = ['-f', r.choice([c.dir + '/my-index', 'idx-rel'])]
        if ix[1] == 'idx-rel': ix[1] = '../idx-rel' # (relative to src)
    first, saved = True, False
    for i in range(n):
        if first or r.random() < .6:
            full = first or r.random() < .5
            if full and not first and mut:
                for _ in range(r.randint(1, 4)):
                    try: mut.step()
                    except OSError: pass
            for d in list(m.dev):
                if not os.path.isdir(d): del m.dev[d]
            every = [(dp, True) for dp, _, _ in os.walk(src) if not dp.startswith(os.fsencode(c.bup_dir))]
            every += [(dp + b'/' + f, False) for dp, dn, fn in os.walk(src) for f in fn + [x for x in dn if os.path.islink(dp + b'/' + x)] if not dp.startswith(os.fsencode(c.bup_dir))]
            if full: roots = [(src, True)] + (r.sample(every, min(len(every), r.randint(1, 2))) if r.random() < .4 else [])
            else: roots = r.sample(every, min(len(every), r.randint(1, 3)))
            if m.dev:
                with open(c.dir + '/devs', 'w') as f:
                    for dp, dn, fn in os.walk(src):
                        for x in [dp] + [dp + b'/' + y for y in fn + dn]:
                            d = m.getdev(x)
                            if d: f.write('%d %d\n' % (os.lstat(x).st_ino, d))
            rp = [p for p, _ in roots]
            cwd = c.src
            if r.random() < .25 and not any(x.startswith('..') for x in ix):
                cwd = r.choice([d for d, isd in every if isd])
                if not os.path.isdir(cwd): cwd = c.src
            c.absolute = cwd != c.src
            a, excl, rxs, xd = gen_index(c, r, m, rp)
            argv = ['index'] + r.choice([[], ['-u']]) + ix + a + [spell(c, r, p, d) for p, d in roots]
            c.bup(*argv, cwd=cwd, env=env)
            c.absolute = False
            m.scan(rp, excl, rxs, xd, os.fsencode(c.bup_dir))
            hist = q(argv, 500)
            first = False
            # what the index itself says
            ls = c.bup('index', '-s', *ix, c.src, cwd=c.src, env=env).out.split(b'\n')
            got = sorted(norm(l[2:]) for l in ls if l and not l.startswith(b'D '))
            want = sorted(norm(p) for p in m.under([src]))
            anc = {os.path.dirname(p) for p in want}
            for p in list(anc):
                while len(p) > len(src): p = os.path.dirname(p); anc.add(p)
            # directories known only as the way to something are listed as well
            got = [p for p in got if p in m.state or p not in anc]
            c.require(got == want, 'after %s, the index lacks %s and has extra %s', hist, q(sorted(set(want) - set(got))), q(sorted(set(got) - set(want))))
            c.eval(); c.count('index_runs'); c.count('paths_indexed', len(want))
            if xd: c.count('index_runs_xdev')
            c.sig('index', argv[1:])
        # save some of it
        cand = sorted(p for p in m.state if p != src)
        srcs = [src] if r.random() < .35 or not cand else r.sample(cand, min(len(cand), r.randint(1, 3)))
        if src not in m.state and any(s == src for s in srcs): pass
        # sources below the repository or no longer there are not tried
        srcs = [s for s in srcs if os.path.lexists(s)]
        if not srcs: continue
        isd = {s: os.path.isdir(s) and not os.path.islink(s) for s in srcs}
        mode = r.choice(['none', 'none', 'strip', 'strip-path', 'graft'])
        o, arg, simple = [], None, True
        if mode == 'strip':
            o, arg = ['--strip'], [s for s in srcs]
            simple = all(isd.values())
        elif mode == 'strip-path':
            base = r.choice([src, os.path.dirname(src), b'/tmp', srcs[0], os.path.dirname(srcs[0]), src[:-1], srcs[0][:-1] if len(srcs[0]) > 4 else src])
            base = os.path.normpath(base)
            o, arg = [r.choice([b'--strip-path=', b'--strip-path=']) + (spell(c, r, base, False) if base.startswith(src + b'/') and os.path.lexists(base) else base)], [base]
            simple = all((s if isd[s] else os.path.dirname(s)) == base or s.startswith(base + b'/') for s in srcs) or not any(p == base or p.startswith(base + b'/') for p in m.under(srcs))
        elif mode == 'graft':
            arg = []
            for _ in range(r.choice([1, 1, 2, 3])):
                old = r.choice([src, os.path.dirname(src), srcs[0], os.path.dirname(srcs[0]), r.choice(cand) if cand else src, srcs[0][:-1] if len(srcs[0]) > 4 else src, b'/'])
                old = os.path.normpath(old)
                new = r.choice([b'/', b'/g', b'/g/h', b'/gg', b'/tmp', b'/g/h/i', old])
                if b'=' in old or b'=' in new or os.path.islink(old) or not os.path.isdir(old) and os.path.lexists(old): continue
                if any(x.startswith(old.rstrip(b'/') + b'/') or old.startswith(x.rstrip(b'/') + b'/') or x == old for x, _ in arg): continue
                arg.append((old, new))
            if not arg: mode = 'none'
            for old, new in arg: o.append(r.choice([b'--graft=%s=%s']) % (spell(c, r, old, False) if old.startswith(src + b'/') and os.path.lexists(old) and b'=' not in c.src.encode() else old, new))
            simple = len(arg) == 1 and all((s if isd[s] else os.path.dirname(s)) == arg[0][0] or s.startswith(arg[0][0].rstrip(b'/') + b'/') for s in srcs)
        small = None
        if r.random() < .25:
            small = r.choice([1, 100, 500, 1024, 1500])
            o += ['--smaller=' + ('1k' if small == 1024 else str(small))]
        argv = ['save', '-t'] + ix + o + [spell(c, r, s, isd[s]) for s in srcs]
        res = c.bup(*argv, cwd=c.src, env=env, ok=None)
        what = '%s (after %s)' % (q(argv, 500), hist)
        sel = m.under(srcs)
        want, clash, maybe = {b'': ('dir', None)}, False, set()
        for p, (t, sz) in sel.items():
            d = t == stat.S_IFDIR
            if small and not d and sz >= small:
                # (may still be there as part of an unchanged directory)
                if saved: maybe.add(place(p, d, mode, arg))
                continue
            w = place(p, d, mode, arg)
            e = ('dir' if d else 'link' if t == stat.S_IFLNK else 'file', p)
            if w in want and w and (want[w][1] not in (None, p)): clash = True
            if not (w in want and d): want[w] = e
            elif w: want[w] = e
            x = os.path.dirname(w)
            while x:
                if want.get(x, ('dir',))[0] != 'dir': clash = True
                want.setdefault(x, ('dir', None))
                x = os.path.dirname(x)
        c.eval(); c.count('saves'); c.sig('save', argv[1:], sorted(sel)[:40])
        if not res.rc: saved = True
        if clash or mode != 'none' and not simple:
            if res.rc:
                c.count('saves_refused_rearrangement'); continue
            if clash:
                c.require(not clash, '%s maps two paths to one and reported success', what)
        if len(want) == 1 and res.rc and not m.under(srcs).get(srcs[0], (0,))[0] == stat.S_IFDIR:
            c.count('empty_saves_refused'); continue
        c.require(res.rc == 0, '%s failed: %r', what, res)
        rp = Repo(c.bup_dir)
        got = rp.walk_dir(bytes.fromhex(res.out.decode().strip()))
        miss, extra = sorted(set(want) - set(got)), sorted(set(got) - set(want) - maybe)
        saved = True
        c.require(not miss and not extra, '%s: the save lacks %s and has extra %s', what, q(miss), q(extra))
        for w, (k, p) in want.items():
            g = got[w]
            c.require(g['kind'] == k, '%s: %r is a %s', what, w, g['kind'])
            if p is None: continue
            st = os.lstat(p)
            if g['meta'] and w and (simple or k != 'dir'): c.require(g['meta']['mode'] == st.st_mode and g['meta']['mtime'] == st.st_mtime_ns, '%s: %r does not have the metadata of %r', what, w, p)
            if k == 'link': c.require(g['data'] == os.readlink(p), '%s: target of %r', what, w)
            if k == 'file' and stat.S_ISREG(st.st_mode):
                with open(p, 'rb') as f: c.require(f.read() == g['data'], '%s: %r does not have the content of %r', what, w, p)
        c.count('saves_compared'); c.count('saves_' + mode); c.count('paths_placed', len(want))


def refuse_case(c, n):
    """Paths that cannot be selected are reported."""
    r = c.rng
    c.src = c.dir + '/src'
    os.makedirs(c.src + '/a/b')
    os.mkdir(c.dir + '/home')
    for f in ('a/f', 'a/b/g', 'ab', 'a.x'):
        with open(c.src + '/' + f, 'w') as fh: fh.write(f)
    c.bup('init')
    c.bup('index', '--exclude', c.src + '/a', c.src)
    for p in ('a', 'a/f', 'a/b', 'nosuch', 'a/nosuch', 'ab/x'):
        res = c.bup('save', '-t', c.src + '/' + p, ok=None)
        c.require(res.rc != 0, 'saving %s, which is not in the index, reported success: %r', p, res)
        c.eval(); c.sig('refuse', p)
    for p in ('nosuch', 'ab/x'):
        res = c.bup('index', c.src + '/' + p, ok=None)
        c.require(res.rc != 0, 'indexing %s, which does not exist, reported success: %r', p, res)
        c.eval(); c.sig('refuse-index', p)
    res = c.bup('save', '-n', 'both', '--strip', c.src + '/ab', c.src + '/nosuch', ok=None)
    c.require(res.rc != 0, 'saving a missing path along with another one reported success')
    c.eval()


def go(c, p):
    {'case': case, 'refuse': refuse_case}[p[0]](c, p[1])


if __name__ == '__main__':
    k = Check('P21', rule='One evaluation = one bup index run whose resulting index listing was compared with a model of the requested roots and exclusion options, or one bup save whose decoded tree was compared, path by path, with '
              'a model of the requested paths and strip/graft options. Distinct: command lines with their selections.',
              assumptions=['Python re defines patterns', 'file system boundaries are simulated by reporting other device numbers for some inodes', 'rearrangements that map two paths to one, or that interleave, may be refused (non-zero exit)'])
    cc(VERIF + '/lib/c/devshim.c', k.scratch + '/devshim.so')
    a = k.pick(64, 900)
    k.run_cases([('refuse-0', ('refuse', 1))] + [('case-%d' % i, ('case', k.pick(6, 8))) for i in range(a)], go, workers=12)
    k.need('saves_compared', 100)
    k.need('index_runs_xdev', 10)
    k.finish()

"""Random bup histories: a World owns a source tree, a repository (and a second one) and
issues commands; helpers verify what every command must leave behind."""
import os, re, shutil, stat, zlib
from bv import Violation, TreeGen, gen_data, gen_name, fse, q, run, snap, diff_snap
from fsops import Mutator
from reader import Repo, FormatError

T0 = 1400000000


def verify_closed(path, extra_roots=(), full=True, all_objects=False):
    """Every ref and everything reachable is present and hashes to its name.
    Returns (Repo, refs, reachable)."""
    rp = Repo(path, full=full)
    refs = rp.refs()
    seen = rp.reachable(list(refs.values()) + list(extra_roots))
    for o in seen:
        rp.get(o)
    if all_objects:
        for o in rp.all_oids():
            k, d = rp.get(o)
            if k != b'blob':
                rp.reachable([o])
    return rp, refs, seen


def copy_repo(a, b):
    if os.path.exists(b):
        force(b)
    r = run(['cp', '-a', '--reflink=auto', a, b])
    if r.rc:
        raise RuntimeError(repr(r))


def force(p):
    from bv import force_rmtree
    force_rmtree(p)


class Cmd:
    def __init__(self, kind, args, input=None, repo=None, env=None, ok=(0,), writes=()):
        self.kind, self.args, self.input, self.repo, self.env, self.ok = kind, args, input, repo, env or {}, ok
        self.writes = writes    # names of refs it may change (None: any)

    def __repr__(self):
        return '%s: bup %s' % (self.kind, ' '.join(x.decode('utf8', 'backslashreplace') if isinstance(x, bytes) else str(x)
                                                   for x in self.args))


class World:
    """One repository at c.bup_dir, one source tree, one foreign repository."""
    def __init__(self, c, r=None, small=False, packlimit=None, times='sane', names=None, entries=14, strip=False):
        self.c, self.strip = c, strip
        self.r = r = r or c.rng
        self.small = small
        self.src = c.dir + '/src'
        self.repo = c.bup_dir
        self.other = c.dir + '/other'
        self.t = T0
        self.names = names or gen_name
        self.entries = entries
        self.limit = packlimit if packlimit is not None else r.choice([3000, 20000, 100000, 1000000])
        self.log = []
        self.nsave = 0
        self.mut = None
        self.trees = None
        c.bup('init')
        self._config(c.bup_dir)
        self.branches = []

    def _config(self, repo):
        c, r = self.c, self.r
        c.git('config', 'pack.packSizeLimit', str(self.limit), repo=repo)
        if self.trees is None or r.random() < .1:
            self.trees = r.random() < .3
        if self.trees:
            c.git('config', 'bup.split.trees', 'true', repo=repo)

    # -- source tree -----------------------------------------------------------
    def make_src(self):
        TreeGen(self.r, maxentries=self.entries, maxdepth=3, special=False, xattr=False, owners=False, times='sane',
                names=self.names, big=not self.small, modes=False).make(self.src)
        self.mut = Mutator(self.r, self.src, names=self.names, big=not self.small, special=False)

    def mutate(self, n=None):
        if self.mut is None:
            self.make_src()
            return
        for _ in range(n or self.r.randint(1, 4)):
            self.mut.step()

    def date(self):
        self.t += self.r.choice([60, 3600, 86400, 86400 * 20])
        return ['-d', str(self.t)]

    def data(self):
        return gen_data(self.r, self.r.choice([None, self.r.randint(0, 3000)] + ([] if self.small else [self.r.randint(20000, 200000)])))

    def branch(self, new=.35):
        b = [x for x in self.branches]
        if not b or self.r.random() < new:
            n = self.r.choice(['main', 'b1', 'b2', 'x-y', 'a.b'])
            if n not in self.branches:
                self.branches.append(n)
            return n
        return self.r.choice(b)

    # -- commands --------------------------------------------------------------
    def index(self, *more):
        return Cmd('index', ['index', *more, self.src])

    def save(self, branch=None, remote=None):
        b = branch or self.branch()
        if b not in self.branches:
            self.branches.append(b)
        a = ['save', '-q', '-n', b] + self.date()
        if self.strip or self.r.random() < .7:
            a.append('--strip')
        if self.r.random() < .3:
            a.append('-%d' % self.r.choice([0, 1, 9]))
        if remote:
            a += ['-r', remote]
        return Cmd('save', a + [self.src], writes=[b'refs/heads/' + fse(b)])

    def split(self, branch=None, remote=None, unnamed=.25):
        r = self.r
        a = ['split', '-q']
        w = []
        if r.random() < unnamed:
            a.append(r.choice(['-b', '-t', '-c']))
        else:
            b = branch or self.branch()
            if b not in self.branches:
                self.branches.append(b)
            a += ['-n', b]
            w = [b'refs/heads/' + fse(b)]
        if '-b' not in a:
            if r.random() < .3:
                a += ['--fanout=%d' % r.choice([2, 4, 128])]
            a += self.date()
        if r.random() < .3:
            a += ['--max-pack-size=%d' % r.choice([2000 if self.small else 20000, 30000])]
        if remote:
            a += ['-r', remote]
        return Cmd('split', a, input=self.data(), writes=w)

    def run(self, cmd, ok=True, **kw):
        self.log.append(repr(cmd))
        env = dict(cmd.env)
        env.update(kw.pop('env', {}))
        return self.c.bup(*cmd.args, input=cmd.input, repo=cmd.repo or self.repo, env=env, ok=ok, **kw)

    def do_save(self, branch=None, remote=None, mutate=True):
        if mutate or self.mut is None:
            self.mutate()
        self.run(self.index())
        return self.run(self.save(branch, remote))

    def do_split(self, **kw):
        return self.run(self.split(**kw))

    def refs(self, repo=None):
        from reader import read_refs
        return read_refs(fse(repo or self.repo))

    def setup(self, n=5, split=.35):
        for _ in range(n):
            if self.r.random() < split:
                self.do_split()
            else:
                self.do_save()

    def make_other(self, n=3, share=True):
        """A second repository, partly sharing history and data."""
        r = self.r
        if share and self.refs():
            copy_repo(self.repo, self.other)
        else:
            self.c.bup('init', repo=self.other)
            self._config(self.other)
        for _ in range(n):
            if r.random() < .5:
                x = self.split(unnamed=0)
                x.repo = self.other
                self.run(x)
            else:
                self.mutate()
                for x in self.index(), self.save():
                    x.repo = self.other
                    self.run(x)

    def some_paths(self, repo=None):
        """vfs paths of saves: [(branch, save-path)]"""
        out = []
        for ref in sorted(self.refs(repo)):
            if ref.startswith(b'refs/heads/'):
                b = ref[11:]
                if b'/' in b:
                    continue
                l = self.c.bup('ls', b'/' + b, repo=repo or self.repo).out.split(b'\n')
                out += [(b, b'/' + b + b'/' + x) for x in l if x and x != b'latest']
        return out

    def get(self, remote=None):
        """A get from self.other into self.repo; may be refused legitimately."""
        r = self.r
        refs = self.refs(self.other)
        heads = sorted(x[11:] for x in refs if x.startswith(b'refs/heads/'))
        saves = self.some_paths(self.other)
        m = r.choice(['--ff:', '--append:', '--pick:', '--force-pick:', '--new-tag:', '--replace:', '--unnamed', '--ff', '--append'])
        b, s = r.choice(saves)
        dest = fse(self.branch())
        if m in ('--ff', '--append'):
            a = [m, b'/' + b]; w = [b'refs/heads/' + b]
        elif m == '--unnamed':
            a = [m, s]; w = []
        elif m in ('--ff:', '--append:', '--replace:'):
            x = r.choice([b'/' + b, s]) if m != '--replace:' else b'/' + b
            a = [m, x, b'/' + dest]; w = [b'refs/heads/' + dest]
        elif m in ('--pick:', '--force-pick:'):
            a = [m, s, b'/' + dest]; w = [b'refs/heads/' + dest]
        else:
            t = b'gt%d' % r.randint(0, 5)
            a = [m, s, b'/.tag/' + t]; w = [b'refs/tags/' + t]
        if w and w[0][11:].decode() not in self.branches and w[0].startswith(b'refs/heads'):
            self.branches.append(w[0][11:].decode())
        pre = ['-r', remote] if remote else []
        return Cmd('get' + m, ['get', *pre, '-s', self.other, *a], ok=(0, 1), writes=w)

    def tag(self):
        r = self.r
        heads = sorted(x for x in self.refs() if x.startswith(b'refs/heads/'))
        t = b't%d' % r.randint(0, 5)
        if b'refs/tags/' + t in self.refs() and r.random() < .5:
            return Cmd('tag-d', ['tag', '-d', t], writes=[b'refs/tags/' + t])
        o = self.refs()[r.choice(heads)]
        h = Repo(self.repo).history(o)
        return Cmd('tag', ['tag', '-f', t, r.choice(h)[0].hex()], writes=[b'refs/tags/' + t])

    def rm(self):
        r = self.r
        saves = self.some_paths()
        heads = sorted({b for b, _ in saves})
        if r.random() < .4 and len(heads) > 1:
            b = r.choice(heads)
            if b.decode() in self.branches:
                self.branches.remove(b.decode())
            return Cmd('rm-branch', ['rm', '--unsafe', b'/' + b], writes=[b'refs/heads/' + b])
        k = r.sample(saves, min(len(saves), r.randint(1, 3)))
        return Cmd('rm-save', ['rm', '--unsafe'] + [p for _, p in k], writes=[b'refs/heads/' + b for b, _ in k])

    def gc(self, threshold=None):
        t = self.r.choice([0, 0, 1, 10, 50, 90, 100]) if threshold is None else threshold
        a = ['gc', '--unsafe', '--threshold', str(t)]
        if self.r.random() < .3:
            a.append('-%d' % self.r.choice([0, 9]))
        return Cmd('gc', a)

    def prune(self):
        r = self.r
        a = ['prune-older', '--unsafe', '--wrt', str(self.t + 100)]
        for k in ('all', 'dailies', 'monthlies', 'yearlies'):
            if r.random() < .5:
                a += ['--keep-%s-for' % k, r.choice(['1d', '3d', '2m', '1y', '3w'])]
        if len(a) == 4:
            a += ['--keep-all-for', '20d']
        if r.random() < .5:
            a += ['--no-gc']
        return Cmd('prune', a, writes=None)

    def maint(self):
        return self.r.choice([Cmd('midx-a', ['midx', '-a']), Cmd('midx-f', ['midx', '-f']), Cmd('bloom', ['bloom']),
                              Cmd('bloom-f', ['bloom', '-f']), Cmd('fsck-q', ['fsck', '--quick']), Cmd('init', ['init']),
                              Cmd('midx-check', ['midx', '--check', '-a']), Cmd('fsck', ['fsck', '-j4'])])

    def rewrite(self):
        r = self.r
        saves = self.some_paths(self.other)
        b, s = r.choice(saves)
        dest = b'rw%d' % r.randint(0, 3)
        m, x = r.choice([('--append:', b'/' + b), ('--pick:', s)])
        return Cmd('rewrite', ['get', '-s', self.other, '--rewrite', m, x, b'/' + dest], ok=(0, 1), writes=[b'refs/heads/' + dest])

    def step(self, remote=None, gc=True):
        """One random command (with what has to precede it)."""
        r = self.r
        k = r.random()
        if not self.refs() or k < .3:
            self.mutate()
            self.run(self.index())
            return self.save(remote=remote)
        if k < .45: return self.split(remote=remote)
        if k < .55 and os.path.isdir(self.other): return self.get(remote)
        if k < .60 and os.path.isdir(self.other) and not remote: return self.rewrite()
        if k < .68 and any(x.startswith(b'refs/heads/') for x in self.refs()): return self.tag()
        if k < .78: return self.rm() if any(x.startswith(b'refs/heads/') for x in self.refs()) else self.split()
        if k < .84 and gc: return self.gc()
        if k < .88 and gc: return self.prune()
        return self.maint()


def check_reads(c, repo=None, n=3, r=None, lenient=False):
    """bup itself can read what the refs name: join/ls -R/restore of some branches,
    compared with the independent decoder."""
    repo = repo or c.bup_dir
    rp = Repo(repo, lenient=lenient)
    refs = rp.refs()
    heads = sorted(x for x in refs if x.startswith(b'refs/heads/') and b'/' not in x[11:])
    r = r or c.rng
    for h in (heads if len(heads) <= n else r.sample(heads, n)):
        tree = rp.commit(refs[h])['tree']
        ents = rp.tree(tree)
        names = [e[1] for e in ents]
        recs, es = rp.dir_entries(tree)
        if recs is None and len(es) == 1 and es[0][0] == b'data':
            out = c.bup('join', h[11:], repo=repo).out
            want = rp.content(es[0][3], es[0][1] if es[0][2] else 0o100644)
            c.require(out == want, 'bup join %r returned %d bytes, not the %d stored', h, len(out), len(want))
            c.count('joins_checked')
        else:
            d = c.tmp('restore')
            c.bup('restore', '-q', '-C', d, b'/' + h[11:] + b'/latest/.', repo=repo)
            w = rp.walk_dir(tree)
            for p, e in w.items():
                fp = os.path.join(fse(d), p)
                if e['kind'] == 'file' and e['meta'] is not None and stat.S_ISREG(e['meta'].get('mode', 0)):
                    with open(fp, 'rb') as f:
                        c.require(f.read() == e['data'], 'restored %r of %r differs from what is stored', p, h)
                elif not os.path.lexists(fp):
                    raise Violation('restore of %r lacks %r' % (h, p))
            c.count('restores_checked')
            c.count('restored_entries', len(w))
            force(d)


def drop_objects(c, repo, gone, r, deltas=.3, parts=None):
    """Repack repo so that it holds everything it did except the objects in gone (and no derived files)."""
    rp = Repo(repo)
    keep = sorted(rp.all_oids() - set(gone))
    r.shuffle(keep)
    pd = os.path.join(fse(repo), b'objects/pack')
    new = os.path.join(fse(repo), b'objects/newpack')
    os.makedirs(new)
    n = parts or r.choice([1, 1, 2, 4])
    for i in range(n):
        part = keep[i::n]
        if not part: continue
        if r.random() < deltas:
            opt = ['--window=10', '--depth=20', '--no-reuse-delta'] + (['--delta-base-offset'] if r.random() < .5 else [])
        else:
            opt = ['--window=0']
        res = run(['git', '--git-dir', repo, '-c', 'pack.threads=1', '-c', 'core.bigFileThreshold=64m', 'pack-objects', '-q'] + opt + [new + b'/pack'],
                  env=c.env, input=b''.join(b'%s\n' % o.hex().encode() for o in part))
        if res.rc: raise EnvError('pack-objects: %r' % res)
    for x in os.listdir(pd):
        os.unlink(os.path.join(pd, x))
    for x in os.listdir(new):
        os.rename(os.path.join(new, x), os.path.join(pd, x))
    os.rmdir(new)
    left = Repo(repo).all_oids()
    if left != set(keep): raise EnvError('repacking lost objects')
    return left

#!/usr/bin/env python3
"""P15: bup get copies exactly what was asked for."""
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from bv import *
from scen import *
from reader import Repo, parse_tree, parse_commit, read_refs
import time as timem
import reader
reader.Pack.deltas = True

H, T = b'refs/heads/', b'refs/tags/'


class Src:
    """A source repository whose contents we know: refs, commits, trees, and how the vfs names them."""
    def __init__(self, c, r, path):
        self.c, self.r, self.path = c, r, path
        c.bup('-d', path, 'init')
        if r.random() < .2: self.cfg('bup.split.trees', 'true')
        t0 = r.randint(10**9, 2 * 10**9)
        self.names = r.sample(['a', 'b', 'main', 'x.y', 'a-b', 'über', 'with_long_name' * 4, '-d'], r.randint(2, 4))
        self.names = [n for n in self.names if n != '-d'] or ['a']
        tree = c.tmp('tree')
        TreeGen(r, maxentries=10, maxdepth=3, special=False, times='sane').make(tree)
        os.makedirs(tree + '/sub/deep', exist_ok=True)
        with open(tree + '/sub/deep/file', 'wb') as f: f.write(r.randbytes(r.choice([10, 40000])))
        with open(tree + '/big', 'wb') as f: f.write(r.randbytes(60000))
        idx = c.tmp('idx')
        for n in self.names:
            for i in range(r.randint(1, 4)):
                t0 += r.randint(1, 100000)
                with open(tree + '/sub/f%d' % r.randint(0, 3), 'wb') as f: f.write(b'%d' % r.randint(0, 5))
                c.bup('-d', path, 'index', '-f', idx, '-u', tree)
                c.bup('-d', path, 'save', '-qf', idx, '-n', n, '-d', str(t0), *(['--strip'] if r.random() < .8 else []), tree)
        g = lambda *a, **k: self.git(*a, **k)
        # commits by other tools: unusual names, dates and messages
        if r.random() < .7:
            n = r.choice(self.names)
            for _ in range(r.randint(1, 3)):
                t0 += r.randint(1, 100000)
                tip = g('rev-parse', 'refs/heads/' + n).strip()
                tz = r.choice(['+0000', '-0330', '+1400', '-1200', '+0545', '+0001'])
                e = {'GIT_AUTHOR_NAME': r.choice(['A U Thor', 'ünï', 'x', "O'Neil, Jr."]), 'GIT_AUTHOR_EMAIL': r.choice(['a@b', '', 'é@x']), 'GIT_AUTHOR_DATE': '%d %s' % (t0, tz),
                     'GIT_COMMITTER_NAME': 'c', 'GIT_COMMITTER_EMAIL': 'c@d', 'GIT_COMMITTER_DATE': '%d %s' % (t0 + 5, r.choice(['+0000', '-0330']))}
                msg = r.choice([b'', b'\n', b'one line', b'one line\n', b'subject\n\nbody\n\n\nmore\n', b'tree 123\nparent 456\n', b'utf8 \xc3\xa9\n', b'latin \xe9\n', b'\n\nleading\n', b'nul-free \x01\x7f'])
                o = g('commit-tree', tip.decode() + '^{tree}', '-p', tip.decode(), input=msg, env=e).strip()
                g('update-ref', 'refs/heads/' + n, o.decode())
        self.tags = {}
        heads = {n: g('rev-parse', 'refs/heads/' + n).strip().decode() for n in self.names}
        n = r.choice(self.names)
        for t, what in (('tc', heads[n]), ('told', heads[n] + '~1'), ('tt', heads[n] + '^{tree}'), ('tb', heads[n] + ':sub/f9')):
            x = run(['git', '--git-dir', path, 'rev-parse', '--verify', '-q', what], env=c.env)
            if x.rc == 0 and r.random() < .8:
                g('update-ref', 'refs/tags/' + t, x.out.strip().decode())
        if r.random() < .4:
            g('update-ref', 'refs/tags/tb', g('hash-object', '-w', '--stdin', input=b'blob').strip().decode())
        if r.random() < .5: g('repack', '-adq'); g('prune')
        self.load()

    def cfg(self, k, v): self.git('config', k, v)

    def git(self, *a, input=None, env=None):
        x = run(['git', '--git-dir', self.path] + list(a), env={**self.c.env, **(env or {})}, input=input)
        if x.rc: raise RuntimeError(repr(x))
        return x.out

    def load(self):
        """(re)read refs, histories and save names."""
        self.rp = Repo(self.path)
        self.refs = read_refs(self.path)
        self.saves = {}
        for n, o in self.refs.items():
            if n.startswith(H):
                out = self.c.bup('-d', self.path, 'ls', '--commit-hash', '/' + os.fsdecode(n[11:])).out
                self.saves[n[11:]] = {l.split(b' ', 1)[1]: bytes.fromhex(l[:40].decode()) for l in out.splitlines() if not l.startswith(b'0' * 40)}
                hist = self.hist(o)
                self.c.require(sorted(self.saves[n[11:]].values()) == sorted(hist), 'bup ls of %r shows other saves than its history', n)

    def commit(self, o): return parse_commit(self.rp.get(o)[1])
    def hist(self, o):
        """Oldest first."""
        h = []
        while o:
            h.append(o)
            p = self.commit(o)['parents']
            o = p[0] if p else None
        return h[::-1]

    def source(self, r):
        """(path, kind, oid, default destination or None) of something that may be asked for."""
        k = r.choice(['branch', 'branch', 'save', 'save', 'save', 'latest', 'tag', 'tag', 'dir', 'top', 'file', 'missing', 'root', 'tags'])
        b = r.choice(sorted(self.saves))
        tags = sorted(n for n in self.refs if n.startswith(T))
        pre = r.choice([b'', b'/'])
        if k == 'branch': return pre + b + r.choice([b'', b'', b'/']), 'branch', self.refs[H + b], b'/' + b
        if k == 'save':
            s = r.choice(sorted(self.saves[b]))
            return pre + b + b'/' + s, 'save', self.saves[b][s], b'/' + b
        if k == 'latest': return pre + b + b'/latest', 'save', self.refs[H + b], b'/' + b
        if k == 'tag' and tags:
            t = r.choice(tags)
            kind = {b'commit': 'commit', b'tree': 'tree', b'blob': 'blob'}[self.rp.get(self.refs[t])[0]]
            return pre + b'.tag/' + t[10:], kind, self.refs[t], b'/.tag/' + t[10:]
        if k in ('dir', 'top', 'file'):
            s = r.choice(sorted(self.saves[b]))
            ents = {n: (m, o) for m, n, o in parse_tree(self.rp.get(self.commit(self.saves[b][s])['tree'])[1])}
            if k == 'top': return pre + b + b'/' + s + b'/', 'save', self.saves[b][s], b'/' + b
            if b'sub' in ents and b'.bupd' not in str(ents).encode():
                sub = {n: (m, o) for m, n, o in parse_tree(self.rp.get(ents[b'sub'][1])[1])}
                if k == 'dir': return pre + b + b'/' + s + b'/sub' + r.choice([b'', b'/']), 'tree', ents[b'sub'][1], None
                fs = [n for n in sub if n.startswith(b'f') and n[1:].isdigit() and stat.S_ISREG(sub[n][0])]
                if fs:
                    f = r.choice(sorted(fs))
                    return pre + b + b'/' + s + b'/sub/' + f, 'blob', sub[f][1], None
            return pre + b, 'branch', self.refs[H + b], b'/' + b
        if k == 'root': return b'/', 'root', None, None
        if k == 'tags': return b'/.tag', 'tags', None, None
        return pre + b'nosuch', None, None, None


class New:
    """A commit get has to make: this tree, author and message on top of that parent."""
    def __init__(self, parent, of=None, tree=None): self.parent, self.of, self.tree = parent, of, tree


def model(src, specs, drefs, dkind, isancestor):
    """Reference semantics.  specs: [(method, (path, kind, oid, default), dest or None)].
    Returns None if the whole request is refused, or (refs, reports, unnamed oids)."""
    refs = dict(drefs)
    kinds = {n: dkind(o) for n, o in drefs.items()}
    rep, unnamed = [], []
    # first everything that is decided before anything is done
    plan, tags = [], set()
    for m, (path, kind, oid, dflt), dest in specs:
        if kind in (None, 'root', 'tags'): return None
        if m == 'unnamed':
            if dest is not None: return None
            plan.append((m, kind, oid, None)); continue
        d = dest
        if m == 'ff':
            if kind not in ('branch', 'save', 'commit'): return None
            if d is None: d = dflt
        elif m == 'append':
            if kind not in ('branch', 'save', 'commit', 'tree'): return None
            if d is None: d = dflt
        elif m in ('pick', 'force-pick'):
            if kind not in ('commit', 'save'): return None
            if d is None: d = dflt
        elif m == 'new-tag':
            if d is None and dflt and dflt.startswith(b'/.tag/'): d = dflt
        elif m == 'replace':
            if d is None and dflt and (dflt.startswith(b'/.tag/') or kind == 'branch'): d = dflt
        if d is None: return None
        d = os.path.normpath(b'/' + d.lstrip(b'/'))
        parts = d[1:].split(b'/')
        tag = d.startswith(b'/.tag/')
        ref = T + d[6:] if tag else H + d[1:]
        if not tag and (d == b'/' or d.startswith(b'/.')): return None
        inside = not tag and len(parts) > 1 and H + parts[0] in drefs
        if inside: return 'unclear'
        if m in ('ff', 'append') and tag: return None
        if m == 'new-tag' and (not tag or ref in drefs): return None
        if m == 'pick' and tag and ref in drefs: return None
        if m == 'replace' and not tag and kind not in ('branch', 'save', 'commit'): return None
        if tag:
            if ref in tags and m not in ('replace', 'force-pick'): return None
            tags.add(ref)
        plan.append((m, kind, oid, ref))
    for m, kind, oid, ref in plan:
        old = refs.get(ref)
        if m == 'unnamed':
            unnamed.append(oid); continue
        if m == 'ff':
            if old is not None and not isancestor(old, oid): return None
            new = oid
        elif m == 'append':
            if kind == 'tree': new = New(old, tree=oid)
            else:
                new = old
                for x in src.hist(oid): new = New(new, of=x)
        elif m in ('pick', 'force-pick'):
            parent = old
            if ref.startswith(T) and old is not None and kinds[ref] != b'commit': parent = None
            new = New(parent, of=oid)
        else:
            new = oid
        refs[ref] = new
        kinds[ref] = b'commit' if isinstance(new, New) else src.rp.get(new)[0]
        rep.append((ref, new))
    return refs, rep, unnamed


def gen_specs(r, src, dst_names, dst_tags):
    specs = []
    if r.random() < .15:       # several to one place
        tag = r.random() < .35
        d = r.choice([b'.tag/new', b'.tag/tc', b'.tag/tt'] if tag else [b'new'] + dst_names)
        while len(specs) < r.randint(2, 4):
            s = src.source(r)
            m = r.choice(['force-pick', 'force-pick', 'replace'] if tag else ['append', 'append', 'pick', 'replace', 'ff'])
            if s[1] in ('save', 'commit') or s[1] in ('branch', 'tree') and m in ('append', 'replace', 'ff')[:1 if s[1] == 'tree' else 3]:
                specs.append((m, s, d))
        return specs
    for _ in range(r.choice([1, 1, 1, 1, 2, 2, 3, 4])):
        m = r.choice(['ff', 'ff', 'append', 'append', 'pick', 'pick', 'force-pick', 'new-tag', 'replace', 'replace', 'unnamed'])
        s = src.source(r)
        dest = None
        if m != 'unnamed' and r.random() < .65:
            pool = [b'new', b'other'] + dst_names * 2 + ([x[2] for x in specs if x[2]] * 3)
            tpool = [b'.tag/new', b'/.tag/new2'] + [b'.tag/' + t for t in dst_tags] * 2
            odd = [b'/', b'.tag', b'/.x', b'.', b'/./new', b'a/..', b'.tag/../new']
            dest = r.choice(tpool) if r.random() < {'new-tag': .85, 'force-pick': .6, 'replace': .4, 'pick': .3}.get(m, .1) else r.choice(pool) if r.random() < .93 else r.choice(odd)
            if dest not in odd and dest[:1] != b'/' and r.random() < .3: dest = b'/' + dest
        specs.append((m, s, dest))
    return specs


def files(d):
    out = {}
    for dp, _, fn in os.walk(fse(d)):
        for f in fn:
            p = os.path.join(dp, f)
            if f.endswith((b'.midx', b'.bloom')) or b'index-cache' in p: continue
            with open(p, 'rb') as fh: out[p] = hashlib.sha1(fh.read()).hexdigest()
    return out


def check_commit(c, src, rd, oid, want, memo, what):
    """oid is what `want` (an oid, New or None) describes, down its whole history."""
    while True:
        if not isinstance(want, New):
            c.require(oid == want, '%s: found %s, expected %s', what, oid and oid.hex(), want and want.hex())
            return
        k, d = rd.get(oid)
        c.require(k == b'commit', '%s: %s is a %r', what, oid.hex(), k)
        g = parse_commit(d)
        if want.of:
            w = src.commit(want.of)
            c.require(g['tree'] == w['tree'] and g['message'] == w['message'] and g['author'] == w['author'],
                      '%s: copied commit %s has author %r, message %r, tree %s; the original %s has %r, %r, %s', what, oid.hex(), g['author'], g['message'], g['tree'].hex(), want.of.hex(), w['author'], w['message'], w['tree'].hex())
            c.count('commits_copied')
        else:
            c.require(g['tree'] == want.tree and abs(g['author'][2] - timem.time()) < 600, '%s: commit made for tree %s is %r', what, want.tree.hex(), d[:300])
            c.count('tree_commits')
        c.require(abs(g['committer'][2] - timem.time()) < 600, '%s: committer date of %s is not now: %r', what, oid.hex(), g['committer'])
        c.require(len(g['parents']) == (1 if want.parent else 0), '%s: commit %s has parents %s, expected %s', what, oid.hex(), g['parents'], want.parent)
        if not g['parents']: return
        oid, want = g['parents'][0], want.parent


def case(c, n):
    r = c.rng
    src = Src(c, r, c.dir + '/src')
    bases = []
    # destinations: empty, older copy, diverged copy, unrelated, with clashing tags
    d0 = c.dir + '/d0'
    c.bup('-d', d0, 'init')
    bases.append(d0)
    d1 = c.dir + '/d1'
    copy_repo(src.path, d1)
    for nm in list(src.saves):
        h = src.hist(src.refs[H + nm])
        q_ = r.random()
        if q_ < .3 and len(h) > 1: run(['git', '--git-dir', d1, 'update-ref', H + nm, r.choice(h[:-1]).hex()], env=c.env)
        elif q_ < .45: run(['git', '--git-dir', d1, 'update-ref', '-d', H + nm], env=c.env)
        elif q_ < .6: run(['git', '--git-dir', d1, 'update-ref', H + nm, src.refs[H + r.choice(sorted(src.saves))].hex()], env=c.env)
    bases.append(d1)
    d2 = c.dir + '/d2'
    c.bup('-d', d2, 'init')
    mine = c.tmp('mine')
    TreeGen(r, maxentries=5, special=False, times='sane').make(mine)
    idx = c.tmp('idx2')
    c.bup('-d', d2, 'index', '-f', idx, '-u', mine)
    for nm in r.sample([os.fsdecode(x) for x in src.saves] + ['mine'], r.randint(1, 2)):
        c.bup('-d', d2, 'save', '-qf', idx, '-n', nm, mine)
    tip = run(['git', '--git-dir', d2, 'for-each-ref', '--format=%(objectname)'], env=c.env).out.split()[0].decode()
    for t, w in (('tc', tip), ('tt', tip + '^{tree}'), ('new', tip)):
        if r.random() < .5:
            o = run(['git', '--git-dir', d2, 'rev-parse', w], env=c.env).out.strip().decode()
            run(['git', '--git-dir', d2, 'update-ref', 'refs/tags/' + t, o], env=c.env)
    bases.append(d2)
    split = run(['git', '--git-dir', src.path, 'config', 'bup.split.trees'], env=c.env).out.strip()
    if split:
        for d in bases: run(['git', '--git-dir', d, 'config', 'bup.split.trees', 'true'], env=c.env)
    srcstate = files(src.path)
    for i in range(n):
        same = r.random() < .12
        base = src.path if same else r.choice(bases)
        dst = c.tmp('dst')
        copy_repo(base, dst)
        s = src
        drefs = read_refs(dst)
        rd0 = Repo(dst)
        specs = gen_specs(r, src, [x[11:] for x in drefs if x.startswith(H)], [x[10:] for x in drefs if x.startswith(T)])
        anc = lambda a, b: a in src.hist(b)
        m = model(src, specs, drefs, lambda o: rd0.get(o)[0], anc)
        if m == 'unclear': continue
        args = []
        for meth, (p, *_), dest in specs: args += ['--' + meth + (':' if dest is not None else ''), p] + ([dest] if dest is not None else [])
        opts = r.sample([['-c'], ['-t'], ['--print-tags'], ['-v'], ['-9'], ['--compress', '0']], r.randint(0, 3))
        flags = [o[0] for o in opts]
        opts = sum(opts, [])
        if r.random() < .3: opts.append('--copy')
        remote = not same and r.random() < .25
        env = {'BUP_TEST_LEVEL': '1'} if remote else {}
        if same: x = c.bup('-d', dst, 'get', *opts, *args, ok=None)
        elif remote: x = c.bup('-d', src.path if r.random() < .7 else d0, 'get', '-s', src.path, '-r', '-:' + dst, *opts, *args, ok=None, env=env)
        else: x = c.bup('-d', dst, 'get', '-s', src.path, *opts, *args, ok=None)
        what = 'bup get %s (source %s, destination %s%s)' % (q(args, 500), {k.decode(errors='replace'): v.hex()[:8] for k, v in src.refs.items()},
                                                           {k.decode(errors='replace'): v.hex()[:8] for k, v in drefs.items()}, ', remote' if remote else '')
        got = read_refs(dst)
        if not same: c.require(files(src.path) == srcstate, '%s changed the source repository', what)
        if m is None:
            c.require(x.rc != 0, '%s should have been refused, but succeeded', what)
            c.require(got == drefs, '%s failed, as it should, but changed refs from %s to %s', what, drefs, got)
            c.require(b'Traceback' not in x.err, '%s crashed instead of being refused: %s', what, q(x.err, 800))
            c.count('refusals')
        else:
            refs, rep, unnamed = m
            c.require(x.rc == 0, '%s failed: %r', what, x)
            c.require(set(got) == set(refs), '%s left the refs %s, expected %s', what, sorted(got), sorted(refs))
            rd, _, seen = verify_closed(dst, extra_roots=unnamed, full=False)
            for ref, w in refs.items():
                check_commit(c, src, rd, got[ref], w, None, '%s: ref %r' % (what, ref))
            # what it printed
            if not remote and '-v' not in flags or True:
                lines = x.out.split()
                want = []
                for ref, w in rep:
                    if ref.startswith(T):
                        if '--print-tags' in flags: want.append(('tag', ref, w))
                    else:
                        if '-t' in flags: want.append(('tree', ref, w))
                        if '-c' in flags: want.append(('commit', ref, w))
                c.require(len(lines) == len(want), '%s printed %r, expected %d ids', what, x.out, len(want))
                for l, (kind, ref, w) in zip(lines, want):
                    o = bytes.fromhex(l.decode())
                    if kind == 'tree':
                        wt = (src.commit(w)['tree'] if not isinstance(w, New) else src.commit(w.of)['tree'] if w.of else w.tree)
                        c.require(o == wt, '%s printed tree %s for %r, expected %s', what, l, ref, wt.hex())
                    else:
                        check_commit(c, src, rd, o, w, None, '%s: printed %s for %r' % (what, kind, ref))
                    c.count('printed_ids')
            c.count('transfers')
            c.count('via_remote', int(remote))
            c.count('repeated_destination', int(len({a for a, _ in rep}) < len(rep)))
            for ref, w in rep: c.count('refs_' + ('made' if isinstance(w, New) else 'copied'))
        c.eval()
        c.sig(base[-3:], [(a, b[1], (b[3] or b'')[:6], (d or b'')[:6], d is not None) for a, b, d in specs], m is None, remote, i if m else 0)
        force_rmtree(dst)


if __name__ == '__main__':
    k = Check('P15', rule='One evaluation = one bup get with 1-4 targets between generated repositories (destination empty, older, diverged, unrelated or the same), whose resulting refs, new commits (tree, author, dates, message, '
              'parents), reachable objects and printed ids, or refusal with no ref changed, were compared with a reference model of the documented methods. Distinct: destination x methods x kinds of source and destination.',
              assumptions=['git plumbing builds unusual source commits correctly', 'destinations below an existing branch name, which no ref name allows, are only required to be harmless elsewhere (P06)'])
    a, b = k.pick((16, 14), (160, 60))
    k.run_cases([('get-%d' % i, b) for i in range(a)], case)
    k.need('transfers', 60)
    k.need('refusals', 40)
    k.need('repeated_destination', 5)
    k.need('via_remote', 5)
    k.finish()

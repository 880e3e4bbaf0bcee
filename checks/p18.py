#!/usr/bin/python3.12
"""P18: the validators fail exactly when something is missing, name it, and change nothing."""
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from bv import *
from scen import *
from reader import Repo, parse_tree, parse_commit, decode_bupm, FormatError


def graph(rp):
    """{oid: (kind, children)} for every stored object, read before anything is removed."""
    g = {}
    for o in rp.all_oids():
        k, d = rp.get(o)
        ch = []
        if k == b'tree': ch = [x[2] for x in parse_tree(d, o)]
        elif k == b'commit':
            x = parse_commit(d)
            ch = [x['tree']] + list(x['parents'])
        elif k == b'tag': ch = [bytes.fromhex(d[7:47].decode())]
        g[o] = (k, ch)
    return g


def missing_from(g, left, roots):
    """What is reachable, through what is still there, but is not there itself."""
    seen, miss, todo = set(), set(), list(roots)
    while todo:
        o = todo.pop()
        if o in seen: continue
        seen.add(o)
        if o not in left:
            miss.add(o); continue
        todo.extend(g[o][1])
    return miss, seen


def state(repo):
    """Everything in the repository except derived files."""
    out = {}
    for d, ds, fs in os.walk(fse(repo)):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith((b'.midx', b'.bloom')): continue
            st = os.lstat(p)
            with open(p, 'rb') as fh: out[p] = (st.st_mode, st.st_size, hashlib.sha1(fh.read()).hexdigest())
    return out


def pick_gone(r, g, rp, roots):
    """A set of objects to lose, and what kind of loss it is."""
    allo = sorted(g)
    _, live = missing_from(g, set(g), roots)
    kinds = {}
    for o in allo: kinds.setdefault(g[o][0], []).append(o)
    trees = kinds.get(b'tree', [])
    t = r.choice(['none', 'none', 'blob', 'blob', 'tree', 'commit', 'many', 'bupm', 'chunk', 'pack', 'first', 'last', 'dead', 'all', 'roots', 'subgraph'])
    if t == 'none': return t, set()
    if t in ('blob', 'tree', 'commit'): return t, set(r.sample(kinds.get(t.encode(), allo), 1))
    if t == 'many': return t, set(r.sample(allo, r.randint(1, max(1, len(allo) // 3))))
    if t == 'bupm':
        c = [x[2] for o in trees for x in parse_tree(rp.get(o)[1], o) if x[1] == b'.bupm']
        return t, set(r.sample(sorted(set(c)), 1)) if c else set()
    if t == 'chunk':
        c = [x[2] for o in trees for x in parse_tree(rp.get(o)[1], o) if re.fullmatch(b'[0-9a-f]+', x[1])]
        return t, set(r.sample(sorted(set(c)), 1)) if c else set()
    if t == 'pack':
        p = r.choice(sorted(rp.packs))
        return t, set(rp.packs[p].idx.oids)
    if t == 'first': return t, {allo[0]}
    if t == 'last': return t, {allo[-1]}
    if t == 'dead':
        d = sorted(set(allo) - live)
        return t, set(r.sample(d, min(len(d), 3)))
    if t == 'all': return t, set(allo)
    if t == 'roots': return t, {r.choice(sorted(set(roots)))}
    o = r.choice(allo)
    return t, missing_from(g, set(g), [o])[1]


def links_case(c, n):
    r = c.rng
    w = World(c, r, small=True, packlimit=r.choice([2000, 20000, 1000000]))
    w.setup(r.randint(2, 5))
    if r.random() < .5: w.run(w.tag())
    if r.random() < .4 and w.branches: w.run(w.rm())
    refs = read_all(w.repo)
    rp = Repo(w.repo)
    g = graph(rp)
    loss, gone = pick_gone(r, g, rp, refs.values())
    paths = {}
    for name, o in refs.items():
        if name.startswith(b'refs/heads/') and b'/' not in name[11:]: paths[name[11:]] = o
    # a save below a branch, and a directory or file in it
    for b in sorted(paths):
        if g[paths[b]][0] != b'commit': continue
        saves = [x for x in c.bup('ls', b'/' + b).out.split(b'\n') if x]
        s = r.choice(saves)
        h = rp.history(paths[b])
        # saves are listed by name; "latest" is the newest commit
        if s == b'latest': paths[b + b'/latest'] = h[0][0]
    old = [x for x in os.listdir(fse(w.repo) + b'/objects/pack') if x.endswith((b'.midx', b'.bloom'))]
    keepold = r.random() < .3
    saved = {x: open(os.path.join(fse(w.repo), b'objects/pack', x), 'rb').read() for x in old}
    if loss == 'pack' and r.random() < .5:
        pk = next(b for b, p in rp.packs.items() if set(p.idx.oids) == gone)
        for e in (b'.idx', b'.pack'): os.unlink(os.path.join(fse(w.repo), b'objects/pack', pk + e))
        left = Repo(w.repo).all_oids()
    elif gone or r.random() < .7:
        left = drop_objects(c, w.repo, gone, r)
    else:
        left = set(g)
    gone = set(g) - left
    if r.random() < .4:
        c.bup('midx', '-a'); c.bup('bloom')
    elif keepold:
        for x, d in saved.items():
            with open(os.path.join(fse(w.repo), b'objects/pack', x), 'wb') as f: f.write(d)
        c.count('stale_derived_files')
    before = state(w.repo)
    c.sig(loss, len(gone).bit_length(), len(refs))
    c.sample('%s: %d of %d objects lost, refs %d' % (loss, len(gone), len(g), len(refs)))

    # every stored object's links
    exp = {(s.hex(), o.hex()) for o in left for s in g[o][1] if s not in left}
    res = c.bup('validate-object-links', ok=None)
    got = set()
    for line in res.out.decode().splitlines():
        m = re.fullmatch('no ([0-9a-f]{40}) for ([0-9a-f]{40})', line)
        c.require(m, 'validate-object-links printed %r', line)
        got.add((m[1], m[2]))
    c.require(got == exp, 'validate-object-links: not reported %s, wrongly reported %s (loss %s)', sorted(exp - got)[:3], sorted(got - exp)[:3], loss, key='object-links')
    c.require(res.rc == (1 if exp else 0), 'validate-object-links: status %d with %d broken links: %r', res.rc, len(exp), res, key='object-links-status')
    c.eval()
    c.count('broken_links_named', len(exp))
    c.count('clean_object_links' if not exp else 'broken_object_links')

    # what the refs need
    def judge(args, roots, what):
        miss, _ = missing_from(g, left, roots)
        res = c.bup(*args, ok=None)
        names = set(re.findall(rb'[0-9a-f]{40}', res.err))
        if not miss:
            c.require(res.rc == 0, '%s: status %d although nothing is missing: %r', what, res.rc, res, key='ref-links-alarm')
            c.count('clean_ref_links')
        else:
            c.require(res.rc != 0, '%s: status 0 although %s missing (loss %s): %r', what, sorted(x.hex() for x in miss)[:3], loss, res, key='ref-links-silent')
            lost_roots = {x for x in miss if x in set(roots)}
            if not lost_roots:
                nm = {x.hex().encode() for x in miss}
                c.require(nm <= names, '%s: missing %s not named: %r', what, sorted(nm - names)[:3], res, key='ref-links-unnamed')
                c.require(res.rc == 1, '%s: status %d: %r', what, res.rc, res)
                bad = {x for x in re.findall(rb'^missing ([0-9a-f]{40})', res.err, re.M)} - nm
                c.require(not bad, '%s: %s reported missing but is not: %r', what, sorted(bad)[:3], res)
                c.count('missing_named', len(nm))
            else:
                c.count('lost_roots')
            c.count('broken_ref_links')
        c.eval()
    roots = list(refs.values())
    if roots:
        judge(['validate-refs', '--links'], roots, 'validate-refs --links')
        # abbreviated to every check: an intact repository's metadata is complete
        judge(['validate-refs'] + (['-v'] if r.random() < .3 else []), roots, 'validate-refs')
        if r.random() < .4: judge(['validate-ref-links'], roots, 'validate-ref-links')
    whole = not (set(roots) - left)
    if whole and paths:
        for _ in range(2):
            sel = r.sample(sorted(paths), r.randint(1, min(3, len(paths))))
            if all(p.endswith(b'/latest') or g[paths[p]][0] == b'commit' for p in sel):
                judge([r.choice(['validate-refs', 'validate-ref-links']), *sel] if r.random() < .6 else ['validate-refs', '--links', *sel],
                      [paths[p] for p in sel], 'validate-refs %r' % sel)
                c.count('selected_refs')
        if not gone:
            res = c.bup('validate-refs', b'/nonesuch', sorted(paths)[0], ok=None)
            c.require(res.rc != 0 and b'nonesuch' in res.err, 'a missing ref was not reported: %r', res)
    after = state(w.repo)
    c.require(before == after, 'the validators changed the repository: %s', sorted(set(before.items()) ^ set(after.items()))[:4], key='modified')


def read_all(repo):
    from reader import read_refs
    return read_refs(fse(repo))


def bupm_case(c, n):
    """Metadata files that do not match their directories."""
    r = c.rng
    from p24 import Craft, rec
    c.bup('init')
    k = Craft(c)
    problem = r.choice(['none', 'short', 'long', 'short', 'garbage', 'none', 'lost-chunk'])
    where = r.random()
    todo = []
    def mk(depth, bad):
        ents, recs = [], [rec(mode=0o40755)]
        nfile = r.randint(1, 5)
        names = r.sample([b'a', b'b', b'c', b'd.x', b'e', b'z'], nfile)
        for nm in sorted(names):
            if r.random() < .3:
                ents.append((0o120000, nm, k.obj(b'blob', b'target')))
                recs.append(rec(mode=0o120777, target=b'target'))
            elif r.random() < .3:
                ents.append((0o40000, nm + b'.bup', k.tree([(0o100644, b'0', k.obj(b'blob', b'1')), (0o100644, b'1', k.obj(b'blob', r.randbytes(3)))])))
                recs.append(rec())
            else:
                ents.append((0o100644, nm, k.obj(b'blob', r.randbytes(5))))
                recs.append(rec())
        badhere = bad and (depth == 0 or r.random() < .4)
        if depth and not badhere:
            ents.append((0o40000, b'sub', mk(depth - 1, bad)))
        elif depth: ents.append((0o40000, b'sub', mk(depth - 1, False)))
        if badhere:
            if problem == 'short': recs.pop(r.randrange(len(recs)))
            elif problem == 'long': recs.insert(r.randrange(len(recs)), rec())
            elif problem == 'garbage': recs[r.randrange(len(recs))] = b'\x0a\xff\xff\xff'
        d = b''.join(recs)
        if problem == 'lost-chunk' and badhere:
            cut = r.randrange(1, len(d))
            x, y = k.obj(b'blob', d[:cut]), k.obj(b'blob', d[cut:])
            ents.append((0o40000, b'.bupm', k.tree([(0o100644, b'0', x), (0o100644, b'%x' % cut, y)])))
            todo.append(r.choice([x, y]))
        else:
            ents.append((0o100644, b'.bupm', k.obj(b'blob', d)))
        return k.tree(ents)
    k.commit(mk(r.randint(0, 3), problem != 'none'))
    c.git('repack', '-adq', '--window=0')
    c.git('prune-packed')
    if todo: drop_objects(c, c.bup_dir, todo, r, deltas=0)
    before = state(c.bup_dir)
    for args in (['--bupm'], [], ['--bupm', 'main'], ['--links']):
        res = c.bup('validate-refs', *args, ok=None)
        c.eval()
        what = 'validate-refs %s with %s .bupm' % (args, problem)
        if problem == 'none' or (args == ['--links'] and problem != 'lost-chunk'):
            c.require(res.rc == 0, '%s: %r', what, res, key='bupm-alarm')
        elif problem == 'short':
            c.require(res.rc == 1 and b'abridged-bupm' in res.err, '%s: %r', what, res, key='bupm-silent')
        elif problem == 'lost-chunk':
            if args != ['--bupm', 'main'] and args != ['--bupm']:
                c.require(res.rc == 1 and todo[0].hex().encode() in res.err, '%s: %r', what, res)
        else:
            c.require(res.rc != 0 and res.err, '%s: %r', what, res, key='bupm-silent')
        c.count('bupm_' + problem.replace('-', '_'))
        c.sig('bupm', problem, str(args))
    c.require(before == state(c.bup_dir), 'validate-refs changed the repository', key='modified')


def case(c, p):
    globals()[p[0]](c, p[1])


if __name__ == '__main__':
    ck = Check('P18', rule='validate-object-links and validate-refs exit 0 exactly when nothing is missing and otherwise name exactly the missing objects, for generated '
                           'repositories with generated losses; --bupm notices incomplete metadata; no repository file but midx/bloom changes',
               assumptions=['loose objects and annotated tags are excluded (documented limits); when a ref itself points at a lost commit only a failure status is required'])
    cases = [('links-%d' % i, ('links_case', i)) for i in range(ck.pick(56, 700))] + [('bupm-%d' % i, ('bupm_case', i)) for i in range(ck.pick(24, 200))]
    ck.run_cases(cases, case)
    for n, q_ in (('clean_ref_links', 20), ('broken_ref_links', 15), ('broken_links_named', 15), ('missing_named', 20), ('bupm_short', 4), ('selected_refs', 20)):
        ck.need(n, q_)
    ck.finish()

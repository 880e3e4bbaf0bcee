#!/usr/bin/env python3
"""P23: data that is already stored is not stored again."""
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import time as timem
from bv import *
import reader
reader.Pack.deltas = True       # git repack


class Node:
    """A file content and where it came from."""
    def __init__(self, data, parents=(), ins=0, sites=0, kind='rand'):
        self.data, self.parents, self.ins, self.sites, self.kind = data, parents, ins, sites, kind
        self.key = hashlib.sha1(data).digest()


def budget(node, known, bits, seen=0):
    """Most bytes of new content that storing this content may take, and the number of edits."""
    if node.key in known: return 0, 0
    full = len(node.data), None
    if not node.parents or node.kind != 'rand': return full
    tot, sites = node.ins, node.sites
    for p in node.parents:
        b, s = budget(p, known, bits)
        if s is None: return full
        tot += b
        sites += s
    return min(len(node.data), tot + node.sites * (25 << bits)), sites


def edit(r, n):
    """A small local change somewhere in the content."""
    d = n.data
    k = r.choice([1, 1, 2, 10, 100, 1000, 8192])
    at = r.choice([0, len(d), len(d) // 2, r.randint(0, len(d)), r.randint(0, len(d))])
    y = r.choice(['insert', 'delete', 'replace', 'flip', 'append', 'prepend', 'cut', 'move', 'dup'])
    if y == 'insert': return Node(d[:at] + r.randbytes(k) + d[at:], (n,), k, 1), y
    if y == 'delete': return Node(d[:at] + d[at + k:], (n,), 0, 1), y
    if y == 'replace': return Node(d[:at] + r.randbytes(k) + d[at + k:], (n,), k, 1), y
    if y == 'flip':
        if not d: return n, y
        at = min(at, len(d) - 1)
        return Node(d[:at] + bytes([d[at] ^ (1 << r.randint(0, 7))]) + d[at + 1:], (n,), 1, 1), y
    if y == 'append': return Node(d + r.randbytes(k), (n,), k, 1), y
    if y == 'prepend': return Node(r.randbytes(k) + d, (n,), k, 1), y
    if y == 'cut': return Node(d[:max(len(d) - k, 0)], (n,), 0, 1), y
    a, b = sorted((r.randint(0, len(d)), r.randint(0, len(d))))
    if y == 'move': return Node(d[:a] + d[b:] + d[a:b], (n,), 0, 3), y
    return Node(d[:b] + d[a:b] + d[b:], (n,), 0, 2), y


def idx_counts(repo):
    res, packs = {}, {}
    pd = repo + '/objects/pack'
    for f in os.listdir(pd):
        if f.endswith('.idx'):
            ix = reader.Idx(os.fsencode(pd + '/' + f))
            packs[f] = ix.oids
            for o in ix.oids: res[o] = res.get(o, 0) + 1
    return res, packs


class Repo:
    def __init__(self, c, path, way):
        self.path, self.way, self.known, self.trees = path, way, set(), {}
        self.counts, self.packs = {}, {}
        self.log = []


def settle(d):
    """Read everything, so that access times, which are saved, do not change when bup does."""
    timem.sleep(.02)
    for w, ds, fs in os.walk(d):
        for f in fs: open(w + '/' + f, 'rb').read(1)


def check_new(c, rp, what, show):
    """Nothing stored twice: every object in the new packs is new, and is there once."""
    counts, packs = idx_counts(rp.path)
    gone = set(rp.packs) - set(packs)
    c.require(not gone, '%s removed packs %s; %s', what, q(gone), show)
    new = set()
    for f in set(packs) - set(rp.packs):
        for o in packs[f]:
            c.require(o not in rp.counts, '%s stored object %s, which was in the repository already, again (%d objects in the new pack); %s', what, o.hex(), len(packs[f]), show)
            c.require(o not in new, '%s stored object %s twice; %s', what, o.hex(), show)
            new.add(o)
    c.count('objects_stored', len(new))
    c.count('objects_checked', len(counts))
    rp.counts, rp.packs = counts, packs
    return new


def scen_case(c, nops):
    r = c.rng
    bits = r.choice([13, 13, 13, 13, 14, 15])
    unit = 1 << bits
    cfg = []
    if bits != 13 or r.random() < .2: cfg.append(('bup.split.files', 'legacy:%d' % bits))
    if r.random() < .3: cfg.append(('bup.split.trees', 'true'))
    if r.random() < .5: cfg.append(('pack.packSizeLimit', r.choice(['50k', '200k', '1m', '3m'])))
    if r.random() < .3: cfg.append(('core.compression', r.choice(['0', '6', '9'])))
    cli = c.tmp('cli')
    c.bup('init', repo=cli)
    for a, b in cfg: c.git('config', a, b, repo=cli)
    repos = []
    for i in range(r.choice([1, 1, 2])):
        way = r.choice(['local', 'remote', 'remote', 'dumb', 'on'])
        if way == 'local' and any(x.way == 'local' for x in repos): way = 'remote'
        p = cli if way in ('local', 'on') else c.tmp('repo-' + way)
        if any(x.path == p for x in repos): continue
        if p != cli:
            c.bup('init', repo=p)
            for a, b in cfg: c.git('config', a, b, repo=p)
            if way == 'dumb': open(p + '/bup-dumb-server', 'w').close()
        repos.append(Repo(c, p, way))
    src = c.tmp('src')
    os.makedirs(src)
    other = c.tmp('other')          # for get
    files = {}
    nodes = []
    def put(name, n):
        p = src + '/' + name
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'wb').write(n.data)
        files[name] = n
        nodes.append(n)
    for i in range(r.choice([1, 3, 8])):
        n = r.choice([0, 1, 100, unit, 5 * unit, 60 * unit, 150 * unit]) if r.random() < .7 else r.randint(0, 40 * unit)
        k = r.choice(['rand'] * 5 + ['zero', 'text'])
        d = r.randbytes(n) if k == 'rand' else (bytes(n) if k == 'zero' else b''.join(b'%d %d\n' % (j, j * j % 97) for j in range(n // 8)))
        put(r.choice(['', 'd/', 'd/e/', 'x/']) + 'f%d' % i, Node(d, kind=k))
    env = {'BUP_TEST_LEVEL': '1'}
    log = []
    for opn in range(nops):
        # change something (or nothing)
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            y = r.choice(['edit', 'edit', 'edit', 'edit', 'copy', 'move', 'touch', 'revert', 'new', 'remove', 'copydir', 'chmod'])
            name = r.choice(sorted(files)) if files else None
            if name is None: y = 'new'
            if y == 'edit':
                n, how = edit(r, files[name])
                n.kind = files[name].kind
                put(name, n)
                y += ':' + how
            elif y == 'copy': put('copy-%d' % r.getrandbits(20), files[name])
            elif y == 'move':
                n = files.pop(name)
                os.unlink(src + '/' + name)
                put('moved/%d' % r.getrandbits(20), n)
            elif y == 'touch': os.utime(src + '/' + name, (r.randint(0, 10**9), r.randint(0, 10**9)))
            elif y == 'chmod': os.chmod(src + '/' + name, r.choice([0o600, 0o755, 0o444]))
            elif y == 'revert': put(name, r.choice(nodes))
            elif y == 'new': put('new-%d' % r.getrandbits(20), Node(r.randbytes(r.randint(0, 30 * unit))))
            elif y == 'remove':
                files.pop(name)
                os.unlink(src + '/' + name)
            elif y == 'copydir':
                for k in [k for k in sorted(files) if k.startswith('d/')]: put('again/' + k, files[k])
            log.append(y)
        # do something to the caches
        rp = r.choice(repos)
        for _ in range(r.choice([0, 1, 1, 2])):
            y = r.choice(['rm-midx', 'rm-bloom', 'midx -f', 'midx -a', 'bloom -f', 'bloom', 'rm-cache', 'rm-index', 'gc', 'repack', 'rm-cache-idx', 'none'])
            pd = rp.path + '/objects/pack'
            rm = lambda d, ext: [os.unlink(d + '/' + f) for f in os.listdir(d) if f.endswith(ext)]
            if y == 'rm-midx': rm(pd, '.midx')
            elif y == 'rm-bloom': rm(pd, '.bloom')
            elif y.startswith('midx') or y.startswith('bloom'): c.bup(*y.split(), repo=rp.path)
            elif y == 'rm-cache': force_rmtree(c.env['HOME'] + '/.cache/bup/remote') if os.path.exists(c.env['HOME'] + '/.cache/bup/remote') else None
            elif y == 'rm-cache-idx':
                for w, ds, fs in os.walk(c.env['HOME'] + '/.cache/bup/remote'):
                    for f in fs:
                        if r.random() < .4: os.unlink(w + '/' + f)
            elif y == 'rm-index': [os.unlink(cli + '/' + f) for f in os.listdir(cli) if f.startswith('bupindex')]
            elif y in ('gc', 'repack') and rp.packs and r.random() < .5:
                before = rp.counts
                if y == 'gc': c.bup('gc', '--unsafe', '--threshold', r.choice(['0', '10', '90']), repo=rp.path)
                else:
                    c.git('repack', '-adq', *r.choice([[], ['-f']]), repo=rp.path)
                    rm(pd, '.midx'); rm(pd, '.bloom')
                rp.counts, rp.packs = idx_counts(rp.path)
                for o, n in rp.counts.items():
                    c.require(n <= before.get(o, 0), '%s increased the copies of %s; %s', y, o.hex(), q(log, 1500))
            log.append(y + ':' + rp.way)
        # store
        y = r.choice(['save', 'save', 'save', 'split', 'split', 'splits', 'get', 'resave'])
        rem = ['-r', '-:' + rp.path] if rp.way in ('remote', 'dumb') else []
        on = ['on', '-'] if rp.way == 'on' else []
        if not files and y in ('split', 'splits'): y = 'save'
        comp = r.choice([[], ['-0'], ['-9'], ['-3']])
        log.append('%s:%s' % (y, rp.way))
        show = 'history %s, config %s' % (q(log, 2500), cfg)
        if y in ('save', 'resave'):
            settle(src)
            c.bup('index', '-u', src, repo=cli)
            br = r.choice(['m', 'm', 'n'])
            c.bup(*on, 'save', *rem, *comp, *r.choice([[], ['-q'], ['-v']]), '-n', br, '--strip', src, repo=cli, env=env)
            new = check_new(c, rp, 'save', show)
            br_new = judge(c, rp, br, files, new, bits, show)
            if y == 'resave':
                # again, with nothing changed and perhaps nothing remembered: only a commit
                # (the index stays: it holds the access times that were saved)
                if r.random() < .5: force_rmtree(c.env['HOME'] + '/.cache/bup/remote') if os.path.exists(c.env['HOME'] + '/.cache/bup/remote') else None
                c.bup('index', '-u', src, repo=cli)
                c.bup(*on, 'save', *rem, '-n', r.choice(['m', 'n', 'o']), '--strip', src, repo=cli, env=env)
                new = check_new(c, rp, 'save of an unchanged tree', show)
                rd = reader.Repo(rp.path)
                k = sorted(rd.get(o)[0] for o in new)
                c.require(k == [b'commit'], 'saving an unchanged tree again stored %s; %s', q(k), show)
                c.count('unchanged_saves')
                c.eval()
        elif y == 'get':
            # the same objects arrive from another repository
            if not os.path.exists(other):
                c.bup('init', repo=other)
                for a, b in cfg: c.git('config', a, b, repo=other)
            c.bup('index', '-u', src, repo=other)
            c.bup('save', '-n', 'g', '--strip', src, repo=other)
            c.bup(*on, 'get', '-s', other, *rem, '--force-pick:', '/g/latest', '/got', repo=cli, env=env)
            new = check_new(c, rp, 'get', show)
            judge(c, rp, 'got', files, new, bits, show)
        else:
            names = [r.choice(sorted(files))] if y == 'split' else [r.choice(sorted(files)) for _ in range(r.randint(2, 4))]
            ns = [files[n] for n in names]
            n = ns[0] if len(ns) == 1 else Node(b''.join(x.data for x in ns), tuple(ns), 0, len(ns), 'rand' if all(x.kind == 'rand' for x in ns) else 'mix')
            keep = len(ns) > 1 and r.random() < .3
            via = r.choice(['file', 'stdin']) if rp.way != 'on' and not keep else 'file'
            a = [*on, 'split', *rem, *comp, '-q', *(['--keep-boundaries'] if keep else []), '-n', 's%d' % r.randint(0, 2)]
            if via == 'file': x = c.bup(*a, *[src + '/' + k for k in names], repo=cli, env=env)
            else: x = c.bup(*a, repo=cli, env=env, input=n.data)
            new = check_new(c, rp, 'split', show)
            rd = reader.Repo(rp.path)
            if keep:
                b, s = sum(budget(k, rp.known, bits)[0] for k in ns), 10 * len(ns)
            else: b, s = budget(n, rp.known, bits)
            measure(c, rp, rd, [o for o in new if rd.get(o)[0] == b'blob'], [o for o in new if rd.get(o)[0] == b'tree'] if not keep else [], b, s, n, bits, 'split of %s' % names, show)
            if not keep: rp.known.add(n.key)
            c.eval()
        c.sig('step', log[-1], len(new).bit_length(), bits, bool(cfg))
    c.sample({'history': log[:30], 'config': cfg, 'objects': {x.way: len(x.counts) for x in repos}})


def measure(c, rp, rd, blobs, trees, b, sites, node, bits, what, show):
    got = sum(len(rd.get(o)[1]) for o in blobs)
    c.require(got <= b, '%s stored %d bytes of new content; %d would do (content of %d bytes, %s edits since it was last stored); %s', what, got, b, len(node.data), sites, show)
    if b == 0: c.count('known_contents')
    elif b < len(node.data):
        c.count('small_edits')
        c.count('edit_bytes_allowed', b)
        c.count('edit_bytes_stored', got)
        # chunk trees: a few per level and edit
        levels = max(1, (max(1, len(node.data) >> bits)).bit_length() / 4 + 1)
        lim = 4 + sites * levels * 8
        c.count('edit_trees_stored', len(trees))
        c.count('edit_trees_allowed', int(lim))
        c.require(len(trees) <= lim, '%s stored %d new chunk trees for %d edits (content of %d bytes); %s', what, len(trees), sites, len(node.data), show)


def judge(c, rp, br, files, new, bits, show):
    """Each file of the save that was just made against its budget."""
    rd = reader.Repo(rp.path)
    tip = rd.refs()[b'refs/heads/' + br.encode()]
    w = rd.walk_dir(rd.commit(tip)['tree'], content=False)
    seen = {p.decode() for p, e in w.items() if e['kind'] == 'file'}
    c.require(seen == set(files), 'the save holds %s, not %s; %s', q(seen), q(set(files)), show)
    for name, n in files.items():
        e = w[name.encode()]
        blobs, trees = set(), set()
        if e['chunked']:
            todo = [e['oid']]
            while todo:
                t = todo.pop()
                if t in trees: continue
                trees.add(t)
                for m, _, s in rd.tree(t): todo.append(s) if stat.S_ISDIR(m) else blobs.add(s)
        else: blobs.add(e['oid'])
        b, s = budget(n, rp.known, bits)
        measure(c, rp, rd, blobs & new, trees & new, b, s, n, bits, 'save of %s' % name, show)
        c.eval()
    for n in files.values(): rp.known.add(n.key)


def go(c, p):
    scen_case(c, p)


if __name__ == '__main__':
    k = Check('P23', rule='One evaluation = one file stored by a save, split or get in a random history (edits, copies, moves, reverts; local, remote, dumb and reverse servers; caches removed, stale or rebuilt; gc, git repack; pack size limits), '
              'for which every object in the new packs was required not to exist before and the new content bytes were compared with a bound computed from the edits since the content was last stored. Distinct: operation, transport, size class of what was stored.',
              assumptions=['the bound of 25 chunk lengths per edit applies to random content, where it is exceeded with negligible probability', 'objects in loose form, which bup never writes, are not considered'])
    n, m = k.pick((20, 6), (250, 20))
    k.run_cases([('history-%d' % i, m) for i in range(n)], go)
    k.need('small_edits', 4)
    k.need('known_contents', 60)
    k.need('unchanged_saves', 2)
    k.finish()

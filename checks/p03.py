#!/usr/bin/python3.12
"""P03: after any sequence of operations the repository is a valid, closed git repository."""
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from bv import *
from scen import *
from reader import Repo, Idx, parse_tree
import struct

IGN = ['hasDotgit', 'hasDot', 'hasDotdot', 'gitmodulesBlob', 'gitmodulesLarge', 'gitmodulesMissing', 'gitmodulesName', 'gitmodulesParse', 'gitmodulesPath',
       'gitmodulesSymlink', 'gitmodulesUrl', 'gitmodulesUpdate', 'gitattributesBlob', 'gitattributesLarge', 'gitattributesLineLength', 'gitattributesMissing',
       'gitignoreSymlink', 'gitattributesSymlink', 'mailmapSymlink', 'largePathname', 'emptyName', 'fullPathname']


def judge(c, repo, seen_packs, what):
    """git and the independent reader both accept everything in the repository."""
    rp, refs, reach = verify_closed(repo, all_objects=False)
    unsorted = 0
    for p in rp.packs.values():
        for o in p.idx.oids:
            if o in seen_packs.setdefault('oids', set()):
                continue
            seen_packs['oids'].add(o)
            k, d = p.get(o)
            if k == b'tree':
                parse_tree(d, o)          # ordering, uniqueness, modes
                c.count('trees_checked')
            elif k == b'commit':
                rp.commit(o)
                c.count('commits_checked')
            c.count('objects_checked')
    new = [b for b in rp.packs if (b, os.stat(os.path.join(fse(repo), b'objects/pack', b + b'.idx')).st_ino) not in seen_packs]
    paths = [os.path.join(fse(repo), b'objects/pack', b + b'.idx') for b in new]
    if paths:
        res = run(['git', 'verify-pack'] + paths, env=c.env)
        c.require(res.rc == 0, '%s: git verify-pack: %r', what, res)
        c.count('packs_verified_by_git', len(paths))
    for b, path in list(zip(new, paths)):
        seen_packs[(b, os.stat(path).st_ino)] = 1
    for b, path in list(zip(new, paths))[:6]:
        with open(path, 'rb') as f:
            n = run(['git', 'show-index'], env=c.env, stdin=f)
        c.require(n.rc == 0 and n.out.count(b'\n') == len(rp.packs[b].idx.oids), '%s: git show-index: %r', what, n)
    a = ['git']
    for i in IGN:
        a += ['-c', 'fsck.%s=ignore' % i]
    res = run(a + ['--git-dir', repo, 'fsck', '--full', '--strict', '--no-dangling', '--no-progress'], env=c.env)
    msgs = [l for l in (res.out + res.err).split(b'\n') if l and not l.startswith((b'notice: ', b'dangling ', b'unreachable ', b'Checking '))]
    # objects that gc kept by chance may link to ones that are gone; nothing reaches them
    bad = []
    broken = re.compile(rb'broken link from\s+\w+ ([0-9a-f]{40})')
    j = 0
    gone = set()
    out = b'\n'.join(msgs)
    for m in re.finditer(rb'broken link from\s+(\w+) ([0-9a-f]{40})\n\s+to\s+(\w+) ([0-9a-f]{40})', out):
        if bytes.fromhex(m.group(2).decode()) in reach:
            bad.append(m.group(0))
        gone.add(m.group(4))
    rest = re.sub(rb'broken link from\s+(\w+) ([0-9a-f]{40})\n\s+to\s+(\w+) ([0-9a-f]{40})', b'', out)
    for l in rest.split(b'\n'):
        m = re.fullmatch(rb'missing \w+ ([0-9a-f]{40})', l)
        if not l.strip() or m and m.group(1) in gone and bytes.fromhex(m.group(1).decode()) not in reach:
            continue
        bad.append(l)
    c.require(not bad, '%s: git fsck: %s', what, q(bad[:4], 700))
    res = c.git('rev-list', '--objects', '--all', repo=repo)
    n = len({l[:40] for l in res.out.split(b'\n') if l})
    c.require(n == len(reach), '%s: git reaches %d objects, %d decoded', what, n, len(reach))
    left = [x for x in os.listdir(os.path.join(repo, 'objects')) if x.startswith(('pack-tmp', 'tmp'))]
    c.require(not left, '%s: leftovers %s', what, left)
    c.eval()
    c.count('repository_states_checked')
    return rp, refs, reach


def steps_case(c, n):
    r = c.rng
    w = World(c, small=r.random() < .6, entries=r.choice([4, 12, 25]), packlimit=r.choice([4000, 15000, 60000, 10**9]))
    c.env['BUP_TEST_LEVEL'] = '1'
    if r.random() < .6:
        w.setup(1)
        w.make_other(r.randint(1, 2), share=r.random() < .5)
    seen = {}
    kinds = []
    for i in range(n):
        k = r.random()
        remote = '-:' + w.repo if r.random() < .25 else None
        if k < .06 and w.refs():
            cmd = Cmd('split-git-ids', ['split', '-q', '--git-ids', '-n', w.branch()], input=git_ids(w), writes=None)
        elif k < .10:
            cmd = Cmd('init', ['init'])
        elif k < .14 and w.refs():
            c.git(*r.choice([['pack-refs', '--all'], ['repack', '-q', '-a', '-d', '--depth=0', '--window=0', '-F', '-k'], ['update-server-info']]))
            kinds.append('git')
            continue
        elif k < .18:
            d = b''.join(w.data() for _ in range(r.randint(1, 3)))
            cmd = Cmd('split-multi', ['split', '-q', r.choice(['--keep-boundaries', '-q']), '-n', w.branch(), '--max-pack-objects', str(r.choice([2, 7, 50])), *files(c, w, 3)], writes=None)
        else:
            cmd = w.step(remote=remote)
        refs0 = w.refs()
        what = '%s (step %d%s)' % (repr(cmd)[:300], i, ', remote' if remote else '')
        res = w.run(cmd, ok=None)
        if res.rc and cmd.kind in ('save', 'split', 'index', 'midx-a', 'midx-f', 'bloom', 'bloom-f', 'gc', 'init', 'split-git-ids', 'split-multi', 'tag'):
            raise Violation('%s failed: %r' % (what, res))
        rp, refs, reach = judge(c, w.repo, seen, what)
        if cmd.writes is not None:
            for x in set(refs) ^ set(refs0) | {x for x in refs if refs0.get(x) != refs[x]}:
                if refs.get(x) != refs0.get(x):
                    c.require(x in cmd.writes or cmd.kind == 'rm-save', '%s changed ref %r', what, x)
        kinds.append(cmd.kind + ('@' if remote else ''))
        c.count('cmd_' + cmd.kind)
    if r.random() < .5 and any(x.startswith(b'refs/heads/') for x in w.refs()):
        check_reads(c, n=1)
    c.sig(kinds)
    c.sample(' '.join(kinds))


def git_ids(w):
    rp = Repo(w.repo)
    blobs = [o for o in rp.all_oids() if rp.get(o)[0] == b'blob']
    return b''.join(o.hex().encode() + b'\n' for o in w.r.sample(blobs, min(len(blobs), 5)))


def files(c, w, n):
    out = []
    for _ in range(n):
        p = c.tmp('in')
        with open(p, 'wb') as f:
            f.write(w.data())
        out.append(p)
    return out


def names_case(c, n):
    """Trees whose names collide with bookkeeping names or sort in surprising ways."""
    r = c.rng
    w = World(c, packlimit=r.choice([30000, 10**9]))
    seen = {}
    for i in range(n):
        root = c.tmp('n')
        os.mkdir(root)
        stem = r.choice([b'x', b'a', b'.bup', b'x.bup', b'', b'lib', b'x' * 240, b'\xff'])
        pool = [stem + s for s in (b'', b'.', b'-', b'0', b' ', b'!', b'.bup', b'.bupl', b'.bupm', b'.bupd', b'.bup.bup', b'.bupl.bupl', b'.bupd.bupl', b'/', b'.0.bupd', b'.bupx', b'~', b'\xff', b'.a', b'+', b',')]
        for nm in r.sample(pool, r.randint(4, len(pool))):
            nm = nm.rstrip(b'/')
            if not nm or nm in (b'.', b'..') or len(nm) > 255: continue
            p = fse(root) + b'/' + nm
            if os.path.lexists(p): continue
            k = r.random()
            if k < .35:
                os.mkdir(p)
                if r.random() < .6:
                    with open(p + b'/f', 'wb') as f: f.write(b'z')
            elif k < .45:
                os.symlink(r.choice(pool)[:200] or b'.', p)
            else:
                with open(p, 'wb') as f: f.write(r.choice([b'', b's', r.randbytes(40000), bytes(100000)]))
        if r.random() < .5:
            c.git('config', 'bup.split.trees', 'true')
            for j in range(r.choice([0, 300, 900])):
                with open(fse(root) + b'/' + b'n%d' % (j * 7919 % 5000), 'wb') as f: pass
        c.bup('index', root)
        if r.random() < .3:
            # extreme metadata
            pass
        c.bup('save', '-q', '-n', 'n', *r.choice([['--strip'], [], ['--graft', root + '=/x.bup/.bupm'], ['--strip-path', c.dir]]), root)
        judge(c, c.bup_dir, seen, 'names %d' % i)
        c.sig('names', sorted(os.listdir(root))[:60], seen.__len__())
    c.count('name_trees', n)


def objects_case(c, n):
    """The pack and index writers driven directly: sizes around every header boundary,
    large offsets, many objects."""
    r = c.rng
    c.bup('init')
    specs = []
    for _ in range(n):
        size = r.choice([0, 1, 15, 16, 17, 2047, 2048, 2049, (1 << 18) - 1, 1 << 18, (1 << 18) + 1, r.randint(0, 70000)])
        specs.append([size, r.choice(['zero', 'rand']), r.randint(0, 1 << 30)])
    lim = r.choice([1, 5, 1000])
    out = json.loads(c.py('packs.py', 'objects', input=json.dumps({'specs': specs, 'level': r.choice([0, 1, 9]), 'max_objects': lim}).encode()).out)
    rp = Repo(c.bup_dir, full=True)
    for (size, kind, seed), oid in zip(specs, out):
        d = bytes(size) if kind == 'zero' else random.Random(seed).randbytes(size)
        want = hashlib.sha1(b'blob %d\0' % size + d).digest()
        c.require(want.hex() == oid, 'blob of %d bytes got id %s', size, oid)
        c.require(rp.get(want) == (b'blob', d), 'blob of %d bytes is not what was written', size)
        c.count('objects_checked')
    judge(c, c.bup_dir, {}, 'objects')
    # index writer with offsets beyond 2 and 4 GiB
    for i in range(6):
        m = r.choice([0, 1, 2, 255, 256, 3000])
        ofs = sorted(r.sample(range(12, 1 << r.choice([20, 31, 32, 33, 40])), m))
        big = r.choice([None, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000])
        if big and m: ofs[-1] = max(big, ofs[-1])
        ent = [[r.randbytes(20).hex() if r.random() < .7 else (bytes([r.choice([0, 255, 7])]) + r.randbytes(19)).hex(), r.getrandbits(32), o] for o in ofs]
        p = c.tmp('idx')
        c.py('packs.py', 'idx', p, input=json.dumps(ent).encode())
        ix = Idx(p)
        got = sorted((o.hex(), k, f) for o, k, f in zip(ix.oids, ix.crcs, ix.ofs))
        c.require(got == sorted(map(tuple, ent)), 'index with %d entries (largest offset %d) does not hold what was added', m, max(ofs or [0]))
        with open(p, 'rb') as f:
            g = run(['git', 'show-index'], env=c.env, stdin=f)
        gs = sorted((l.split()[1].decode(), int(l.split()[2].strip(b'()'), 16), int(l.split()[0])) for l in g.out.split(b'\n') if l)
        c.require(g.rc == 0 and gs == got, 'git show-index disagrees: %r', g)
        c.eval()
        c.count('indexes_written_directly')
        c.sig('idx', m, [max(ofs or [0]) >> k for k in (31, 32)])


def go(c, p):
    {'steps': steps_case, 'names': names_case, 'objects': objects_case}[p[0]](c, p[1])


if __name__ == '__main__':
    k = Check('P03', rule='One evaluation = one repository state (after one command, local or through a server) in which every pack, index, tree and commit was decoded by an independent reader, closure of all refs verified, and git verify-pack, '
              'show-index, fsck --strict and rev-list --objects agreed; or one index file written directly. Distinct: command sequences, name sets, index shapes.',
              assumptions=['git 2.x fsck/verify-pack and the independent reader are the referees', 'fsck rules about names git tools dislike (.git, .gitmodules, ...) do not apply to backups'])
    ns, n, nn, no = k.pick((20, 5, 6, 4), (320, 16, 120, 60))
    cases = [('steps-%d' % i, ('steps', n)) for i in range(ns)] + [('names-%d' % i, ('names', k.pick(3, 8))) for i in range(nn)] + [('objects-%d' % i, ('objects', 60)) for i in range(no)]
    k.run_cases(cases, go)
    k.need('repository_states_checked', 40)
    k.finish()

#!/usr/bin/python3.12
"""P12: the same operation through a server gives the same result as on a local repository."""
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import shutil, subprocess, time
from bv import *
from scen import verify_closed, T0
from reader import Repo, FormatError, read_refs

DRIP = VERIF + '/lib/workers/drip.py'
H = b'refs/heads/'


class Place:
    """A repository and the way to it."""
    def __init__(self, way, path): self.way, self.path = way, path

    def args(self, argv):
        """The command to run for argv, in which '@' stands for the remote option."""
        if self.way == 'on': return ['on', '-'] + [a for a in argv if a != '@']
        far = {'local': []}.get(self.way) 
        if far is None: far = ['-r', self.url]
        return [y for a in argv for y in (far if a == '@' else [a])]


def ident(cm):
    # (the message has the command line)
    return cm['tree'], cm['author'], re.sub(rb'Bup-Argv: .*', b'', cm['message'])


def chain(rp, o):
    """What a history consists of: trees, authors, messages; and the commits themselves."""
    return [ident(cm) for _, cm in rp.history(o)], [x for x, _ in rp.history(o)]


def rp_tree(path, o): return Repo(path).commit(o)['tree'].hex()


def settle(d):
    # access times are saved: have them change now, not while bup reads
    time.sleep(.02)
    for w, ds, fs in os.walk(d):
        for f in ds + fs:
            p = w + '/' + f
            if os.path.islink(p): os.readlink(p)
            elif os.path.isfile(p):
                with open(p, 'rb') as fh: fh.read(1)


def timeless(s, began):
    # (what is not part of a save gets the time of the restore)
    for e in s.values():
        if e['mtime'] > began: e['mtime'] = 'now'
    return s


def messages(e, paths):
    """Messages without progress and without what only a client has to say."""
    out = []
    for l in e.split(b'\n'):
        l = l.split(b'\r')[-1].strip()
        for p in paths: l = l.replace(fse(p), b'REPO')
        if l and not re.match(rb'(Saving|Reading|Receiving|Indexing|bloom|midx|PackIdxList|Restoring|bup: |\s*\d|  )', l): out.append(l)
    return sorted(out)


def go(c, nops):
    r = c.rng
    c.env['BUP_TEST_LEVEL'] = '1'
    homes = [c.env['HOME'], c.dir + '/home2']
    os.makedirs(homes[1], exist_ok=True)
    ways = ['local'] + r.sample(['smart', 'smart', 'dumb', 'on', 'daemon'], 2)
    # without ids, paths that the client can't tell apart in its cache
    names = ['far-x', 'far_x', 'far.x']
    places = [Place(w, c.dir + '/' + ('near' if w == 'local' else names[i])) for i, w in enumerate(ways)]
    cli = c.dir + '/cli'
    c.bup('init', repo=cli)
    c.env['BUP_DIR'] = cli
    procs = []
    cfg = []
    if r.random() < .4: cfg.append(('bup.split.files', r.choice(['legacy:13', 'legacy:14', 'legacy:16'])))
    if r.random() < .3: cfg.append(('bup.split.trees', r.choice(['true', 'true', 'false'])))
    if r.random() < .5: cfg.append(('pack.packSizeLimit', r.choice(['20000', '100k', '1m'])))
    if r.random() < .25: cfg.append(('bup.server.deduplicate-writes', 'false'))
    if r.random() < .3: cfg.append(('core.compression', r.choice(['0', '9'])))
    ids = r.choice(['own', 'own', 'same', 'none'])
    drip = r.random() < .5
    def setup(p):
        if p.way == 'smart': c.bup('init', '-r', '-:' + p.path, repo=cli)
        else: c.bup('init', repo=p.path)
        for a, b in cfg: c.git('config', a, b, repo=p.path)
        if p.way == 'dumb': open(p.path + '/bup-dumb-server', 'w').close()
        if ids == 'none': run(['git', '--git-dir', p.path, 'config', '--unset-all', 'bup.repo.id'])
        if ids == 'same': c.git('config', 'bup.repo.id', 'x' * 31, repo=p.path)
    def wipe():
        for p in places:
            if os.path.exists(p.path): force_rmtree(p.path)
            setup(p)
    wipe()
    other = c.dir + '/other'
    c.bup('init', repo=other)
    src = c.dir + '/w/src'
    os.mkdir(c.dir + '/w')
    tg = TreeGen(r, maxentries=8, maxdepth=2, special=r.random() < .3, xattr=False, owners=False, times='sane', big=False)
    tg.make(src)
    settle(c.dir + '/w')
    big = c.tmp('big')
    open(big, 'wb').write(gen_data(r, r.choice([0, 100, 30000, 300000])))
    ix = c.dir + '/ix'
    clock = [T0]
    env = {}
    if drip:
        env = {'BUP_TEST_SSH_BUP_PATH': DRIP, 'BV_REAL': fsd(c.check.bup_exe), 'BV_DRIP': str(r.getrandbits(30))}
    log = ['ways %s, config %s, ids %s, drip %s' % (ways, cfg, ids, drip)]
    for p in places:
        if p.way in ('smart', 'dumb'): p.url = '-:' + p.path
        if p.way == 'daemon':
            p.url = daemon(c, procs, p, drip)
    gcd = False
    indexed = False
    try:
        for opn in range(nops):
            # the world turns
            for _ in range(r.choice([0, 1, 1, 2])):
                y = r.choice(['edit', 'edit', 'edit', 'rm-cache', 'rm-cache-idx', 'rm-cache-midx', 'midx-cache', 'foreign-idx', 'old-cache', 'gc', 'repack', 'wipe', 'rm-index', 'other', 'tag', 'big'])
                caches = [h + '/.cache/bup/remote/' + d for h in homes if os.path.isdir(h + '/.cache/bup/remote') for d in sorted(os.listdir(h + '/.cache/bup/remote'))]
                if y == 'edit':
                    f = src + '/' + r.choice(['n%d' % r.randint(0, 5), 'sub/n%d' % r.randint(0, 5)])
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    with open(f, 'wb') as fh: fh.write(gen_data(r, r.choice([0, 10, 9000, 40000])))
                    settle(src)
                elif y == 'big': open(big, 'wb').write(gen_data(r, r.choice([0, 100, 30000, 300000])))
                elif y == 'rm-index': [os.unlink(c.dir + '/' + f) for f in os.listdir(c.dir) if f.startswith('ix')]; indexed = False
                elif y == 'gc' and r.random() < .5:
                    for p in places: c.bup('gc', '--unsafe', '--threshold', '0', repo=p.path)
                    gcd = True
                elif y == 'repack' and r.random() < .3:
                    # (other packs, the same objects)
                    p = r.choice(places)
                    c.git('repack', '-adq', '--window=0', '--depth=0', repo=p.path)
                    pd = p.path + '/objects/pack/'
                    for f in os.listdir(pd):
                        if f.endswith(('.midx', '.bloom')): os.unlink(pd + f)
                    gcd = True
                elif y == 'wipe':
                    if r.random() > .15: continue
                    wipe()
                elif y == 'tag':
                    refs = [n for n in read_refs(fse(places[0].path)) if n.startswith(H)]
                    if refs:
                        n = r.choice(refs)[len(H):]
                        for p in places: c.bup('tag', '-f', 'tag0', n, repo=p.path)
                elif y == 'other':
                    # another user writes to all of them
                    d = gen_data(r, r.choice([100, 50000]))
                    clock[0] += 10
                    for p in places: c.bup('split', '-q', '-n', 'foreign', '-d', str(clock[0]), input=d, repo=p.path)
                elif not caches: continue
                elif y == 'rm-cache': force_rmtree(r.choice(caches))
                else:
                    d = r.choice(caches)
                    fs = sorted(os.listdir(d))
                    if y == 'rm-cache-idx': [os.unlink(d + '/' + f) for f in fs if f.endswith('.idx') and r.random() < .5]
                    elif y == 'rm-cache-midx': [os.unlink(d + '/' + f) for f in fs if f.endswith(('.midx', '.bloom'))]
                    elif y == 'midx-cache':
                        if fs: c.bup('midx', r.choice(['-f', '-a']), '-d', d)
                    elif y == 'foreign-idx':
                        pd = r.choice([other] + [p.path for p in places]) + '/objects/pack/'
                        for f in os.listdir(pd):
                            if f.endswith('.idx') and r.random() < .5 and (pd + f).startswith(other): shutil.copy(pd + f, d + '/' + f)
                    elif y == 'old-cache':
                        # a backup of the cache, from some time ago
                        b = c.dir + '/oldcache-' + os.path.basename(d)
                        if os.path.exists(b):
                            force_rmtree(d)
                            shutil.copytree(b, d)
                        else: shutil.copytree(d, b)
                log.append(y)
            home = r.choice(homes[:1] * 3 + homes[1:])
            clock[0] += r.choice([1, 60, 86400])
            date = ['-d', str(clock[0])]
            refs = read_refs(fse(places[0].path))
            brs = sorted(os.fsdecode(n[len(H):]) for n in refs if n.startswith(H))
            saves = {}
            for b in brs: saves[b] = [l for l in c.bup('ls', '-A', '/' + b, repo=places[0].path).out.decode().split('\n') if l]
            br = r.choice(['a', 'b', 'c'])
            y = r.choice(['save', 'save', 'save', 'split', 'split', 'get', 'get', 'join', 'ls', 'restore', 'restore', 'ls', 'bad'])
            if y in ('join', 'ls', 'restore') and not brs: y = 'save'
            outs = False
            noerr = False
            inp = None
            if y == 'save':
                if not indexed or r.random() < .8:
                    c.bup('index', '-f', ix, *r.choice([[], ['--no-check-device']]), src)
                    indexed = True
                form = r.choice([['--strip'], ['--graft', src + '=/g'], ['--strip-path', c.dir + '/w']])
                A = ['save', '@', '-f', ix, '-n', br, *date, *r.choice([[], ['-q'], ['-t'], ['-c'], ['-c', '-t'], ['-v']]), *r.choice([[], ['-0'], ['-9']]), *form, src]
            elif y == 'split':
                what = r.choice([['-n', br], ['-n', br], ['-b'], ['-t'], ['-c'], ['-c', '-t', '-n', br], ['-t', '-b']])
                opts = r.choice([[], ['-q'], ['--fanout', r.choice(['2', '4', '128'])], ['--max-pack-size', '20000'], ['--max-pack-objects', '5'], ['--keep-boundaries'], ['-v']])
                if '-b' in what and opts[:1] == ['--fanout']: opts = []
                keep = '--keep-boundaries' in opts or r.random() < .5
                A = ['split', '@', *what, *(date if '-b' not in what else []), *opts]
                if keep or 'on' in ways: A.append(big)
                else: inp = open(big, 'rb').read()
            elif y == 'get':
                if not os.listdir(other + '/objects/pack') or r.random() < .4:
                    clock[0] += 1
                    if r.random() < .5: c.bup('split', '-q', '-n', 'g', '-d', str(clock[0]), repo=other, input=gen_data(r, r.choice([100, 40000])))
                    else:
                        c.bup('index', '-u', '-f', c.dir + '/ixo', src)
                        c.bup('save', '-q', '-f', c.dir + '/ixo', '-n', 'g', '-d', str(clock[0]), '--strip', src, repo=other)
                m = r.choice(['--ff', '--append', '--pick', '--force-pick', '--new-tag', '--replace', '--unnamed'])
                a = {'--ff': ['--ff:', 'g', '/g'], '--append': ['--append:', 'g', '/' + br], '--pick': ['--pick:', 'g/latest', '/' + br], '--force-pick': ['--force-pick:', 'g/latest', '/' + br],
                     '--new-tag': ['--new-tag:', 'g', '/.tag/t%d' % r.randint(0, 3)], '--replace': ['--replace:', 'g', '/' + r.choice(['g', br])], '--unnamed': ['--unnamed', 'g']}[m]
                A = ['get', '@', '-s', other, *r.choice([[], ['-q'], ['-v'], ['--print-trees'], ['--print-tags']]), *r.choice([[], [], ['--rewrite'] if m in ('--pick', '--force-pick', '--append') else []]), *a]
                noerr = True
            elif y == 'join':
                b = r.choice(brs)
                o = refs[H + fse(b)]
                A = ['join', '@', r.choice([b, b, (b,), rp_tree(places[0].path, o), 'nosuch'])]
            elif y == 'ls':
                b = r.choice(brs)
                s = r.choice(saves[b])
                A = ['ls', '@', *r.choice([[], ['-l'], ['-s'], ['-A'], ['-a'], ['-d'], ['-F'], ['-n', '-l'], ['--file-type'], ['--human-readable', '-l'], ['--commit-hash'], ['-s', '-a']]), r.choice(['/', '/' + b, '/%s/%s' % (b, s), '/%s/%s/.' % (b, s), '/%s/latest/sub' % b, '/.tag', '/nosuch', '/%s/%s%s' % (b, s, src)])]
            elif y == 'restore':
                b = r.choice(brs)
                s = r.choice(saves[b])
                outs = True
                A = ['restore', '@', '-C', 'OUT', *r.choice([[], ['-q'], ['-v'], ['--sparse'], ['--exclude-rx', '/n1$']]), r.choice(['/%s/%s/.' % (b, s), '/%s/latest' % b, '/%s/%s' % (b, s), '/%s/latest/sub' % b, '/%s/nosuch' % b, '/.tag/tag0/.'])]
            else:
                A = r.choice([['save', '@', '-n', 'bad name', src], ['save', '@', '-f', ix, '-n', 'z', *date, '/nosuch'], ['split', '@', '-n', 'x..y', big], ['get', '@', '-s', other, '--ff:', 'nosuch', '/x'],
                              ['split', '@', '-b', big + '-nosuch'], ['get', '@', '-s', other, '--pick:', 'nosuch/latest', '/a'], ['restore', '@', '-C', 'OUT', '/nosuch/latest/.'], ['ls', '@', '/nosuch/latest']])
            log.append('%s' % q([a for a in A], 300))
            show = 'history %s' % q(log, 4000)
            res = []
            time.sleep(.02)
            began = time.time_ns()
            order = places[1:]
            r.shuffle(order)
            ixs = sorted(f for f in os.listdir(c.dir) if f.startswith('ix') and not f.startswith('ixo'))
            shared = r.random() < .5
            for p in [places[0]] + order:
                if p.way == 'on' and A[0] in ('ls', 'join'): continue
                if not shared and A[0] == 'save':
                    # each starts from the same index
                    if p is places[0]: kept = {f: open(c.dir + '/' + f, 'rb').read() for f in ixs}
                    else:
                        for f in os.listdir(c.dir):
                            if f.startswith('ix') and not f.startswith('ixo'): os.unlink(c.dir + '/' + f)
                        for f, d in kept.items(): open(c.dir + '/' + f, 'wb').write(d)
                a = [x if type(x) is str else read_refs(fse(p.path))[H + fse(x[0])].hex() for x in A]
                out = None
                if 'OUT' in a:
                    out = c.tmp('out')
                    a[a.index('OUT')] = out
                rp = p.path if p.way in ('local', 'on') else cli
                x = c.bup(*p.args(a), repo=rp, env={**env, 'HOME': home}, input=inp, ok=None, timeout=180)
                res.append((p, x, out))
            p0, x0, out0 = res[0]
            paths = [p.path for p in places] + [cli]
            def norm(p, b, o):
                b = b.replace(fse(o or '\0'), b'OUT')
                if not re.search(rb'[0-9a-f]{40}', b): return b
                rp = Repo(p.path)
                def name(m):
                    o = bytes.fromhex(m[0].decode())
                    if rp.has(o) and rp.get(o)[0] == b'commit': return repr(ident(rp.commit(o))).encode()
                    return m[0]
                return re.sub(rb'[0-9a-f]{40}', name, b)
            for p, x, out in res[1:]:
                what = '%s through %s' % (q(A, 300), p.way)
                both = 'local: %r, there: %r; %s' % (x0, x, show)
                c.require((x.rc == 0) == (x0.rc == 0), '%s: exit %s, but %s locally; %s', what, x.rc, x0.rc, both)
                c.require(norm(p, x.out, out) == norm(p0, x0.out, out0), '%s: other output; %s', what, both)
                if x.rc: c.require(x.err.strip(), '%s failed silently; %s', what, both)
                if out:
                    if os.path.lexists(out0) or os.path.lexists(out):
                        c.require(os.path.lexists(out0) and os.path.lexists(out), '%s: only one restored anything; %s', what, both)
                        d = diff_snap(timeless(snap(out0, inode=False), began), timeless(snap(out, inode=False), began), ('local', p.way))
                        c.require(not d, '%s: restored trees differ: %s; %s', what, '; '.join(d), show)
                        c.count('restored_entries', len(snap(out)))
                    c.count('restores')
                c.count('%s_%s' % (p.way, A[0]))
                if x.rc: c.count('failing_alike')
                c.eval()
                c.sig(p.way, A[0], tuple(a for a in A if a[0][:1] == '-'), x.rc, log[-2] if len(log) > 1 else None)
            for o in {o for _, _, o in res if o}:
                if os.path.lexists(o): force_rmtree(o)
            # repositories
            if A[0] in ('save', 'split', 'get') or r.random() < .1:
                st = []
                for p in places:
                    try: rp, rf, reach = verify_closed(p.path, all_objects=True)
                    except FormatError as ex: raise Violation('after %s, %s is broken: %s; %s' % (q(A), p.way, ex, show))
                    ch = {n: chain(rp, o) if rp.get(o)[0] == b'commit' else o for n, o in rf.items()}
                    st.append((p, {n: v[0] if type(v) is tuple else v for n, v in ch.items()}, {o for o in reach if rp.get(o)[0] != b'commit'}, {o for o in rp.all_oids() if rp.get(o)[0] != b'commit'}, {n: v[1] for n, v in ch.items() if type(v) is tuple}))
                for s in st[1:]:
                    what = 'after %s, %s and local differ' % (q(A, 300), s[0].way)
                    c.require(s[1] == st[0][1], '%s: refs %s and %s; %s', what, q(s[4]), q(st[0][4]), show)
                    c.require(s[2] == st[0][2], '%s in what is reachable: %s; %s', what, q([o.hex() for o in s[2] ^ st[0][2]][:5]), show)
                    if not gcd:
                        c.require(s[3] == st[0][3], '%s in what is stored: only local %s, only there %s; %s', what, q([o.hex() for o in st[0][3] - s[3]][:5]), q([o.hex() for o in s[3] - st[0][3]][:5]), show)
                        c.count('object_sets_compared')
                    c.count('objects_compared', len(s[2]))
                    c.eval()
        c.sample({'history': log})
    finally:
        for p in procs: killpg(p.pid), p.wait()


def daemon(c, procs, p, drip):
    import socket
    for _ in range(20):
        s = socket.socket()
        s.bind(('127.0.0.1', 0))
        port = s.getsockname()[1]
        s.close()
        err = open(c.tmp('daemon.err'), 'wb+')
        pr = subprocess.Popen([c.check.bup_exe, b'daemon', b'-l', b'127.0.0.1', b'-p', b'%d' % port], env=c.env, stdin=subprocess.DEVNULL, stdout=err, stderr=err, start_new_session=True)
        procs.append(pr)
        t = time.monotonic()
        while time.monotonic() - t < 20 and pr.poll() is None:
            try: socket.create_connection(('127.0.0.1', port), timeout=5).close()
            except OSError: time.sleep(.05); continue
            if drip:
                d = subprocess.Popen([DRIP, 'listen', str(port)], stdout=subprocess.PIPE, env={**c.env, 'BV_DRIP': str(c.rng.getrandbits(30))}, start_new_session=True)
                procs.append(d)
                port = int(d.stdout.readline())
            return 'bup://127.0.0.1:%d%s' % (port, p.path)
    raise EnvError('no daemon: %r' % open(err.name, 'rb').read())


def fsd(b): return os.fsdecode(b)


if __name__ == '__main__':
    k = Check('P12', rule='One evaluation = one operation (save, split, get with its methods, join, ls, restore; also failing ones) run on a local repository and through a server (smart, dumb, bup on, bup daemon over TCP; transport cut into random pieces), or the '
              'comparison of the two repositories after it: exit status, output, restored trees, refs (trees, authors, messages of whole histories), reachable and stored objects must agree. Between operations the source is edited, other clients write, gc and repack run, repositories are recreated, '
              'and index caches are removed, thinned, replaced by older ones, or filled with indexes of other repositories; repositories may share an id or have none. Distinct: transport x command x options x result x what happened before.',
              assumptions=['ssh is replaced by running the server directly, as bup does in its own tests', 'commit objects are compared without their Bup-Argv line, committer dates and parents, which name the command, the time and the former'])
    n, ops = k.pick((22, 8), (300, 20))
    k.run_cases([('history-%d' % i, ops) for i in range(n)], go)
    k.need('object_sets_compared', 30)
    k.need('restored_entries', 60)
    k.need('smart_save', 8)
    k.need('on_save', 2)
    k.need('dumb_save', 3)
    k.need('daemon_save', 2)
    k.need('failing_alike', 8)
    k.finish()

#!/usr/bin/python3.12
"""P10: rm and prune-older remove exactly what the request or policy names."""
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from bv import *
from scen import verify_closed, copy_repo
from reader import Repo, read_refs

ZONES = ['UTC', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'CET-1CEST,M3.5.0,M10.5.0/3', 'NZST-12NZDT,M9.5.0,M4.1.0/3', '<-11>11']
SECS = {'s': 1, 'min': 60, 'h': 3600, 'd': 86400, 'w': 86400 * 7, 'm': 86400 * 31, 'y': 86400 * 366}
NAMES = [b'main', b'b', b'a-b', b'x.y', b'B', b'2020-01-01-000000', b'latest', b'caf\xc3\xa9', b'\xff\xfe', b"q'uote", b'at@x', b'com,ma']
T0 = 1500000000


def names_of(utcs):
    """Save names for a branch's author dates, newest first."""
    base = [time.strftime('%Y-%m-%d-%H%M%S', time.localtime(u)).encode() for u in utcs]
    tot = {}
    for n in base: tot[n] = tot.get(n, 0) + 1
    left = dict(tot)
    out = []
    for n in base:
        left[n] -= 1
        out.append(n if tot[n] == 1 else b'%s-%0*d' % (n, len(str(tot[n] - 1)), left[n]))
    return out


def gen_times(r, n, mode):
    """Author dates, oldest first."""
    if mode == 'dense':
        t = sorted(T0 - r.randint(0, r.choice([3000, 86400 * 3, 86400 * 40])) for _ in range(n))
    elif mode == 'sparse':
        t = sorted(T0 - r.randint(0, 86400 * 366 * 5) for _ in range(n))
    elif mode == 'annual':     # the same day (or month) of different years
        b = T0 - r.randint(0, 86400 * 300)
        t = sorted(b - 86400 * (365 * i + r.choice([0, 0, 0, 1, 5])) for i in range(n))
    elif mode == 'edges':      # around midnights, month ends, clock changes
        t = []
        for _ in range(n):
            g = list(time.localtime(T0 - r.randint(0, 86400 * 700)))
            g[2] = r.choice([1, 1, 28, 30, g[2]])
            if r.random() < .2: g[1] = r.choice([1, 12])
            if r.random() < .3: g[1], g[2] = r.choice([(3, 26), (10, 29), (11, 5), (3, 12), (9, 24), (4, 2)])
            g[3], g[4], g[5] = r.choice([(0, 0, 0), (23, 59, 59), (0, 0, 1), (1, 30, 0), (2, 30, 0)])
            g[8] = -1
            t.append(int(time.mktime(tuple(g))) + r.choice([0, 0, 3600, -1]))
        t.sort()
    else:                      # clock trouble
        t = sorted(T0 - r.randint(0, 86400 * 500) for _ in range(n))
        for _ in range(r.randint(1, 3)):
            t[r.randrange(n)] = T0 - r.randint(-86400 * 10, 86400 * 1000)
    for _ in range(r.choice([0, 0, 1, 3]) if n > 1 else 0):
        i = r.randrange(n - 1)
        t[i + 1] = t[i]
    return [max(1, x) for x in t]


def build(c, r, branches):
    """Make histories quickly with git fast-import; one real bup save supplies trees."""
    c.bup('init')
    c.git('config', 'core.logAllRefUpdates', 'false')
    src = c.dir + '/src'
    trees = []
    for i in range(2):
        TreeGen(r, maxentries=5, maxdepth=2, special=False, xattr=False, owners=False, times='sane', big=False, modes=False).make(src + str(i))
        c.bup('index', src + str(i))
        c.bup('save', '-q', '--strip', '-n', 'seed%d' % i, src + str(i))
        rp = Repo(c.bup_dir)
        trees.append(rp.commit(rp.refs()[b'refs/heads/seed%d' % i])['tree'].hex().encode())
        c.git('update-ref', '-d', 'refs/heads/seed%d' % i)
    out = []
    mark = 0
    idents = [b'A U Thor <a@x>', b'J. Doe Jr. <j@y>', b'\xc3\xa9\xff <e@>', b"O'x <o@z.>", b'a <a>', b'x y  z <x y@z>']
    tags = []
    for b, times in branches:
        prev = None
        fork = None
        for n, t in enumerate(times):
            mark += 1
            msg = r.choice([b'bup save\n\nBup-Argv: x\n', b'', b'\n\n', b'no newline', b'\xff\x80 bytes\n', b'tree abc\nparent x\n\nfoo\n', b'gpgsig x\n y\n',
                            b'm%d\n' % mark, b' lead\n', b'x' * 3000])
            out.append(b'commit refs/heads/%s\nmark :%d\nauthor %s %d %s\ncommitter %s %d %s\ndata %d\n%s\n%sM 040000 %s \n' % (
                b, mark, r.choice(idents), t, r.choice([b'+0000', b'-0330', b'+1345', b'-1100', b'+0530']),
                r.choice(idents), t + r.choice([0, 0, 5, 10**6]), r.choice([b'+0000', b'-0330', b'+1400']),
                len(msg), msg, b'' if prev is None else b'from :%d\n' % prev, r.choice(trees)))
            prev = mark
            if r.random() < .1:
                tags.append((b't%d' % len(tags), mark))
        if prev and r.random() < .2:
            out.append(b'reset refs/heads/%s-copy\nfrom :%d\n\n' % (b, prev))
    for t, m in tags[:3]:
        out.append(b'reset refs/tags/%s\nfrom :%d\n\n' % (t, m))
    c.git('fast-import', '--quiet', '--force', '--date-format=raw', '--done', input=b''.join(out) + b'done\n')


class State:
    def __init__(self, c):
        self.rp = Repo(c.bup_dir)
        self.refs = self.rp.refs()
        self.hist = {}
        for n, o in self.refs.items():
            if n.startswith(b'refs/heads/'):
                self.hist[n[11:]] = self.rp.history(o)       # [(oid, commit)], newest first

    def essence(self, b):
        return [self.ess(x[1]) for x in self.hist[b]]

    @staticmethod
    def ess(x):
        return (x['tree'], x['author'], x['committer'], x['message'])

    def names(self, b):
        return names_of([x[1]['author'][2] for x in self.hist[b]])


def compare(what, old, new, keep):
    """keep: {branch: [index into old history (newest first) that stay]}; others unchanged."""
    for ref in set(old.refs) | set(new.refs):
        b = ref[11:] if ref.startswith(b'refs/heads/') else None
        if b in keep:
            k = keep[b]
            if not k:
                if ref in new.refs:
                    raise Violation('%s: branch %r should be gone but has %d saves' % (what, b, len(new.hist[b])))
                continue
            if ref not in new.refs:
                raise Violation('%s: branch %r is gone; %d saves should remain' % (what, b, len(k)))
            want = [old.essence(b)[i] for i in k]
            got = new.essence(b)
            if want != got:
                wi, on = k, old.essence(b)
                gi = [on.index(x) if x in on else None for x in got]
                names = old.names(b)
                raise Violation('%s: branch %r has saves %s, should have %s; all: %s' % (what, b, gi, wi, q([(n, x[1]['author'][2]) for n, x in zip(names, old.hist[b])], 1500)))
            for i, j in enumerate(k):
                if k[i:] == list(range(j, len(old.hist[b]))):
                    # nothing removed from here down
                    if new.hist[b][i][0] != old.hist[b][j][0]:
                        raise Violation('%s: save %d of %r was rewritten although nothing older was removed' % (what, j, b))
                    break
        elif old.refs.get(ref) != new.refs.get(ref):
            raise Violation('%s: ref %r changed from %s to %s' % (what, ref, old.refs.get(ref), new.refs.get(ref)))


def policy(utcs, wrt, spec):
    """Indexes (newest first) the documented policy keeps."""
    start = {k: (float('-inf') if v == 'forever' else wrt - int(v[:-len(re.sub(r'^\d+', '', v))]) * SECS[re.sub(r'^\d+', '', v)]) for k, v in spec.items()}
    keep = set()
    n = 0
    while n < len(utcs) and (n == 0 or utcs[n] <= utcs[n - 1]):
        n += 1
    keep.update(range(n, len(utcs)))          # everything behind an out-of-order date
    seen = set()
    last = None
    for i in range(n):
        u = utcs[i]
        lt = time.localtime(u)
        if u > wrt or 'all' in start and u >= start['all']:
            keep.add(i)
            continue
        for kind, key in (('dailies', lt[:3]), ('monthlies', lt[:2]), ('yearlies', lt[:1])):
            if kind in start and u >= start[kind]:
                # newest save of each run within this scale's part of the timeline
                k = (kind, tuple(key))
                if k != last:
                    keep.add(i)
                last = k
                break
    return sorted(keep)


def gen_spec(r, utcs, wrt):
    spec = {}
    for k in ('all', 'dailies', 'monthlies', 'yearlies'):
        if r.random() < .5:
            if r.random() < .12:
                spec[k] = 'forever'
                continue
            u = r.choice(utcs)
            d = max(1, wrt - u + r.choice([0, 0, 1, -1, 3600]))
            s = r.choice(list(SECS))
            m = d // SECS[s] + r.choice([0, 0, 1])
            if r.random() < .4: s, m = 's', d
            spec[k] = '%d%s' % (max(1, m), s)
    return spec or {'all': '%ds' % max(1, wrt - r.choice(utcs))}


def prune_case(c, n):
    r = c.rng
    tz = r.choice(ZONES)
    c.env['TZ'] = os.environ['TZ'] = tz
    time.tzset()
    mode = r.choice(['dense', 'sparse', 'annual', 'annual', 'edges', 'disorder'])
    nb = r.randint(1, 3)
    bs = r.sample(NAMES, nb)
    build(c, r, [(b, gen_times(r, r.choice([1, 2, 5, 12, 25]), mode)) for b in bs])
    pristine = c.dir + '/pristine'
    copy_repo(c.bup_dir, pristine)
    for i in range(n):
        old = State(c)
        if not old.hist:
            force_rmtree(c.bup_dir)
            copy_repo(pristine, c.bup_dir)
            old = State(c)
        allu = [x[1]['author'][2] for h in old.hist.values() for x in h]
        wrt = r.choice([T0, max(allu), max(allu) + 1, r.choice(allu), T0 + 86400])
        spec = gen_spec(r, allu, wrt)
        sel = r.choice([None, None, r.sample(sorted(old.hist), r.randint(1, len(old.hist)))])
        a = ['prune-older', '--unsafe', '--wrt', str(wrt)]
        for k in spec:
            a += ['--keep-%s-for' % k, spec[k]]
        br = sorted(old.hist) if sel is None else sel
        keep = {b: policy([x[1]['author'][2] for x in old.hist[b]], wrt, spec) for b in br}
        what = 'TZ=%s wrt=%d %s %s' % (tz, wrt, spec, mode)
        res = c.bup(*a, '--pretend', *(sel or []))
        lines = res.out.split(b'\n')[:-1]
        want = {b: [b'%s %s/%s' % (b'+' if j in keep[b] else b'-', b, nm) for j, nm in enumerate(old.names(b))] for b in br}
        for b in br:
            got = [l for l in lines if l[2:].rsplit(b'/', 1)[0] == b]
            if got != want[b]:
                d = [(x, y) for x, y in zip(got, want[b]) if x != y]
                raise Violation('%s: --pretend for %r differs: %s; saves %s' % (what, b, q(d[:4], 400), q([(x, y[1]['author'][2]) for x, y in zip(old.names(b), old.hist[b])], 900)))
        c.require(len(lines) == sum(map(len, want.values())), '%s: --pretend printed other lines', what)
        compare(what + ' (pretend)', old, State(c), {})
        res = c.bup(*a, r.choice(['--no-gc', '--no-gc', '--gc']), *(sel or []))
        new = State(c)
        compare(what, old, new, keep)
        verify_closed(c.bup_dir)
        c.eval()
        c.count('prunings')
        c.count('saves_classified', sum(map(len, want.values())))
        c.count('saves_removed', sum(len(old.hist[b]) - len(keep[b]) for b in br))
        c.sig('prune', mode, tz, sorted(spec), [(len(old.hist[b]), tuple(keep[b])) for b in br])
        if i == 0:
            c.sample({'what': what, 'kept': {repr(b): len(k) for b, k in keep.items()}})
        if r.random() < .7:
            force_rmtree(c.bup_dir)
            copy_repo(pristine, c.bup_dir)


def rm_case(c, n):
    r = c.rng
    tz = r.choice(ZONES)
    c.env['TZ'] = os.environ['TZ'] = tz
    time.tzset()
    bs = r.sample(NAMES, r.randint(2, 4))
    build(c, r, [(b, gen_times(r, r.choice([1, 2, 5, 9]), r.choice(['dense', 'sparse', 'disorder', 'annual']))) for b in bs])
    pristine = c.dir + '/pristine'
    copy_repo(c.bup_dir, pristine)
    for i in range(n):
        old = State(c)
        if not old.hist:
            force_rmtree(c.bup_dir)
            copy_repo(pristine, c.bup_dir)
            old = State(c)
        paths = []
        dead = {}
        bad = False
        for _ in range(r.choice([1, 1, 2, 3, 6])):
            b = r.choice(sorted(old.hist))
            nm = old.names(b)
            j = r.randrange(len(nm))
            k = r.random()
            if k < .62:
                form = r.choice([b'/%s/%s', b'/%s/%s', b'%s/%s', b'//%s//%s', b'/%s/./%s'])
                paths.append(form % (b, nm[j]))
                dead.setdefault(b, set()).add(j)
            elif k < .77:
                paths.append(r.choice([b'/%s', b'%s', b'//%s']) % b)
                dead.setdefault(b, set()).update(range(len(nm)))
            elif k < .80 and len(nm) > 1:
                paths.extend(b'/%s/%s' % (b, x) for x in nm)
                dead.setdefault(b, set()).update(range(len(nm)))
            elif k < .83 and paths:
                paths.append(r.choice(paths))
            else:
                t = [x for x in old.refs if x.startswith(b'refs/tags/')]
                p = r.choice([b'/%s/latest' % b, b'/nosuch', b'/%s/1999-01-01-000000' % b, b'/%s/%s/nosuch' % (b, nm[j]), b'/%s/%s/' % (b, nm[j]) + b'x/y', b'/', b'/.tag', b'/.commit',
                              b'/%s/nosuch' % b, b'/.commit/%s' % old.hist[b][j][0].hex().encode(), b'/' + b + b'x'] + [b'/.tag/' + x[10:] for x in t])
                if p[1:] in old.hist:
                    continue
                paths.append(p)
                bad = True
        if not paths: continue
        r.shuffle(paths)
        res = c.bup('rm', '--unsafe', *(['-%d' % r.randint(0, 9)] if r.random() < .3 else []), *paths, ok=None)
        new = State(c)
        what = 'rm %s' % q(paths, 400)
        if bad:
            c.require(res.rc != 0, '%s succeeded', what)
            compare(what + ' (refused)', old, new, {})
            c.count('refused')
        else:
            c.require(res.rc == 0, '%s failed: %r', what, res)
            compare(what, old, new, {b: [x for x in range(len(old.hist[b])) if x not in d] for b, d in dead.items()})
            c.count('removals')
            c.count('saves_removed', sum(map(len, dead.values())))
        verify_closed(c.bup_dir)
        c.eval()
        c.sig('rm', bad, len(paths), [(len(old.hist[b]), sorted(d)) for b, d in sorted(dead.items())])
        if r.random() < .5:
            force_rmtree(c.bup_dir)
            copy_repo(pristine, c.bup_dir)


def go(c, p):
    kind, n = p
    (prune_case if kind == 'prune' else rm_case)(c, n)


if __name__ == '__main__':
    k = Check('P10', rule='One evaluation = one rm or prune-older whose result (every ref, and tree, author, committer and message of every commit) was compared with the reference outcome computed from the raw history; '
              'prune-older also with its --pretend output. Distinct: kind x policy kinds x history shapes x kept sets.',
              assumptions=['calendar arithmetic of time.localtime is trusted', 'histories are written with git fast-import and use the trees of real saves'])
    n, m = k.pick((32, 5), (600, 10))
    k.run_cases([('%s-%d' % (x, i), (x, m)) for i in range(n) for x in [('prune', 'rm', 'prune')[i % 3]]], go)
    k.need('saves_removed', 100)
    k.finish()

#!/usr/bin/python3.12
"""P14: concurrent commands on one repository: every save that reported success is in its branch's
history, complete; readers see only complete saves."""
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import subprocess, threading, time
from bv import *
from scen import *
from reader import Repo, FormatError, read_refs
import shim


class Proc:
    """A command of a round: its kind, arguments, and what became of it."""
    def __init__(self, kind, args, input=None, ref=None, **kw):
        self.kind, self.args, self.input, self.ref = kind, args, input, ref
        self.__dict__.update(kw)

    def __repr__(self):
        return '%s %s' % (self.kind, q([x for x in self.args], 200))


def tree_content(src):
    """{path: (type, content)} of a source directory."""
    return {k: (e['type'], e.get('sha') or e.get('target')) for k, e in snap(src).items() if k and e['type'] in (stat.S_IFREG, stat.S_IFLNK, stat.S_IFDIR)}


def saved_content(rp, tree):
    out = {}
    for k, e in rp.walk_dir(tree).items():
        if not k: continue
        t = stat.S_IFMT(e['meta']['mode']) if e.get('meta') and e['meta'].get('mode') else {'dir': stat.S_IFDIR, 'link': stat.S_IFLNK}.get(e['kind'], stat.S_IFREG)
        out[k] = (t, e['target'] if e['kind'] == 'link' and 'target' in e else (e['meta']['target'] if t == stat.S_IFLNK else hashlib.sha1(e['data']).hexdigest() if t == stat.S_IFREG else None))
    return out


def go(c, p):
    rounds, mode = p
    r = c.rng
    c.env['BUP_TEST_LEVEL'] = '1'
    repo = c.bup_dir
    w = World(c, strip=True, small=True, entries=6, packlimit=r.choice([4000, 20000, 10**9]))
    other = c.dir + '/other'
    c.bup('init', repo=other)
    nclients = r.randint(2, 4)
    srcs = []
    for i in range(nclients):
        s = '%s/src%d' % (c.dir, i)
        TreeGen(r, maxentries=r.choice([3, 6]), maxdepth=2, special=False, xattr=False, owners=False, times='sane', big=False, modes=False).make(s)
        srcs.append(s)
    # something to read
    split0 = gen_data(r, r.randint(1000, 60000))
    c.bup('split', '-q', '-n', 'fixed', input=split0)
    branches = ['a', 'b']
    contents = {}       # commit -> what is saved by it
    splits = {}         # commit -> data
    order = []          # finished stores: (start, end, ref, commit)
    for i in range(2):
        c.bup('index', '-f', '%s/ix%d' % (c.dir, i), srcs[i])
        x = c.bup('save', '-c', '-f', '%s/ix%d' % (c.dir, i), '-n', branches[i], '-d', str(T0), '--strip', srcs[i]).out.decode().split()[-1]
        contents[x] = tree_content(srcs[i])
    for i in range(2):
        d = gen_data(r, r.randint(0, 20000))
        x = c.bup('split', '-q', '-c', '-n', 'g%d' % i, repo=other, input=d).out.decode().split()[-1]
        splits[x] = d
    clock = T0
    log = []
    for rnd in range(rounds):
        if r.random() < .3: c.git('pack-refs', '--all')
        before = {n: [o.hex() for o, _ in Repo(repo).history(t)] for n, t in read_refs(fse(repo)).items() if n.startswith(b'refs/heads/')}
        mutd = {}
        ps = []
        n = r.randint(2, 5)
        used = set()
        ident = lambda rp, o: (lambda m: (m['tree'], m['author'], m['message']))(rp.commit(bytes.fromhex(o)))
        rp0 = Repo(repo)
        ibefore = {n: [ident(rp0, o) for o in v] for n, v in before.items()}
        for i in range(n):
            k = r.choice(['save', 'save', 'save', 'split', 'split', 'get', 'read', 'read', 'restore', 'join', 'maint', 'maint', 'tag', 'rm'])
            if i == 0: k = r.choice(['save', 'split', 'save', 'get', 'rm'])
            far = ['-r', '-:' + repo] if r.random() < .35 else []
            br = r.choice(branches)
            clock += 100
            if k == 'save':
                j = r.randrange(nclients)
                if j in used: k = 'split'
                else:
                    used.add(j)
                    for _ in range(r.randint(0, 3)):
                        f = '%s/n%d' % (srcs[j], r.randint(0, 9))
                        with open(f, 'wb') as fh: fh.write(gen_data(r, r.randint(0, 9000)))
                    ix = '%s/ix%d' % (c.dir, j)
                    c.bup('index', '-f', ix, srcs[j])
                    ps.append(Proc(k, ['save', *far, '-c', '-q', '-f', ix, '-n', br, '-d', str(clock), '--strip', srcs[j]], ref=br, want=tree_content(srcs[j])))
            if k == 'split':
                d = gen_data(r, r.choice([r.randint(0, 300), r.randint(0, 60000)])) + b'%d' % r.getrandbits(60)
                b = r.choice(['s', 's', 't'])
                ps.append(Proc(k, ['split', *far, '-c', '-q', '-n', b, '-d', str(clock)], input=d, ref=b, data=d))
            elif k == 'get':
                src = r.choice(['g0', 'g1'])
                b = r.choice(['s', 't'])
                ps.append(Proc(k, ['get', *far, '-s', other, '--print-commits', '--force-pick:' if far or r.random() < .5 else '--append:', '/' + src + '/latest' if 1 else src, '/' + b], ref=b))
                if '--append:' in ps[-1].args: ps[-1].args[ps[-1].args.index('/' + src + '/latest')] = '/' + src
            elif k == 'read': ps.append(Proc(k, ['ls', *far, '/' + br], ref=br))
            elif k == 'restore':
                o = c.tmp('out')
                ps.append(Proc(k, ['restore', *far, '-q', '-C', o, '/%s/latest/.' % br], ref=br, out=o))
            elif k == 'join': ps.append(Proc(k, ['join', *far, r.choice(['fixed', 'fixed', 's'])]))
            elif k == 'maint': ps.append(Proc(k, r.choice([['midx', '-f'], ['midx', '-a'], ['bloom', '-f'], ['bloom'], ['midx', '--auto'], ['fsck', '--quick'], ['init'], ['midx', '-f', '-d', c.env['HOME'] + '/.cache/bup/remote'], ['validate-refs', '--links']])))
            elif k == 'rm':
                names = c.bup('ls', '/' + br).out.decode().split()
                if len(names) > 2: ps.append(Proc(k, ['rm', '--unsafe', '/%s/%s' % (br, min(names))], ref=br))
            elif k == 'tag': ps.append(Proc(k, ['tag', '-f', 't%d' % r.randint(0, 1), r.choice(branches)]))
        have_s = b'refs/heads/s' in before
        ps = [x for x in ps if not (x.kind == 'join' and x.args[-1] == 's' and not have_s)]
        shims = []
        evlog = '%s/ev%d' % (c.dir, rnd)
        for i, x in enumerate(ps):
            sh = shim.Shim(c, [repo, c.env['HOME'] + '/.cache'], name='sh%d-%d' % (rnd, i))
            sh.log = evlog
            sh.set(delay_us=r.choice([0, 2000, 20000, 60000]) if mode != 'stop' else 0, delay_seed=r.getrandbits(40))
            shims.append(sh)
        stop = None
        if mode == 'stop' or (mode == 'mix' and r.random() < .5): stop = r.choice([1, 1, 2, 5, 10, 20, 30, 45, 60])
        def start(i):
            x = ps[i]
            e = dict(c.env, BUP_DIR=repo, **shims[i].env())
            e['BV_PGID'] = '1'
            x.stdin = '%s/in%d-%d' % (c.dir, rnd, i)
            with open(x.stdin, 'wb') as f: f.write(x.input or b'')
            x.fo, x.fe = open(x.stdin + '.out', 'w+b'), open(x.stdin + '.err', 'w+b')
            x.t0 = time.monotonic()
            with open(x.stdin, 'rb') as f:
                x.p = subprocess.Popen([c.check.bup_exe] + [fse(a) for a in x.args], env=e, stdin=f, stdout=x.fo, stderr=x.fe, start_new_session=True)
        def finish(i, timeout=120):
            x = ps[i]
            try: x.p.wait(timeout)
            except subprocess.TimeoutExpired:
                killpg(x.p.pid)
                x.p.wait()
                raise Violation('%r did not finish while %s ran; stderr %s' % (x, q([repr(y) for y in ps]), q(open(x.stdin + '.err', 'rb').read()[-500:])), key='hang')
            x.t1 = time.monotonic()
        try:
            if stop and len(ps) > 1:
                # hold the first command at an event while the others run
                shims[0].set(stop_at=stop)
                start(0)
                t = time.monotonic()
                while not shims[0].get('hits') and ps[0].p.poll() is None and time.monotonic() - t < 60: time.sleep(.005)
                held = shims[0].get('stop_pid') != 0
                c.count('commands_held' if held else 'commands_not_held')
                for i in range(1, len(ps)): start(i)
                for i in range(1, len(ps)): finish(i, 60)
                if shims[0].get('stop_pid'): os.kill(shims[0].get('stop_pid'), signal.SIGCONT)
                finish(0)
            else:
                ths = [threading.Thread(target=finish_quiet, args=(finish, i)) for i in range(len(ps))]
                for i in range(len(ps)):
                    start(i)
                    if r.random() < .5: time.sleep(r.random() * .15)
                for th in ths: th.start()
                for th in ths: th.join()
                for x in ps:
                    if not hasattr(x, 't1'): finish(ps.index(x), 1)
        finally:
            for x in ps:
                if getattr(x, 'p', None) and x.p.poll() is None:
                    killpg(x.p.pid)
                    x.p.wait()
            if shims[0].get('stop_pid') and sys.exc_info()[0]:
                try: os.kill(shims[0].get('stop_pid'), signal.SIGKILL)
                except ProcessLookupError: pass
        for x in ps:
            x.rc = x.p.returncode
            for n_ in 'out', 'err':
                f = getattr(x, 'f' + n_[0])
                f.seek(0)
                setattr(x, n_ + 'put', f.read())
                f.close()
        for sh in shims: sh.close()
        # which interleaving was that?
        seq = []
        who = {x.p.pid: i for i, x in enumerate(ps)}
        nev = 0
        if os.path.exists(evlog):
            sh = shims[0]
            for e in sh.events():
                nev += 1
                if e[1] in ('rename', 'unlink', 'link', 'mkdir', 'trunc') and (not seq or seq[-1] != (who.get(e[0]), e[1])): seq.append((who.get(e[0]), e[1]))
            os.unlink(evlog)
        c.count('filesystem_events', nev)
        c.count('switches', sum(a[0] != b[0] for a, b in zip(seq, seq[1:])))
        c.sig(tuple(x.kind for x in ps), tuple(seq))
        log.append([repr(x) + ' -> %d' % x.rc for x in ps])
        what = 'round %d (%s%s): ' % (rnd, '; '.join(log[-1]), ', first held at event %d' % stop if stop else '')
        c.eval()
        c.count('commands_run', len(ps))
        # outcome of each command
        try:
            rp, refs, _ = verify_closed(repo, all_objects=True)
        except FormatError as ex:
            raise Violation(what + str(ex))
        now = {nm: [o.hex() for o, _ in rp.history(t)] for nm, t in refs.items() if nm.startswith(b'refs/heads/')}
        made = {}
        removed = {x.ref for x in ps if x.kind == 'rm'}
        for x in ps:
            if x.rc < 0: raise Violation('%s%r died from signal %d' % (what, x, -x.rc))
            if x.rc: c.count('failed_' + x.kind), c.require(x.errput.strip(), '%s%r failed without a message', what, x)
            else: c.count('succeeded_' + x.kind)
            if x.kind in ('save', 'split', 'get') and not x.rc:
                ids = x.output.decode().split()
                c.require(ids and len(ids[-1]) == 40, '%s%r printed %s', what, x, q(x.output))
                x.commit = ids[-1]
                made.setdefault(x.ref, []).append(x)
                h = now.get(b'refs/heads/' + x.ref.encode(), [])
                if x.ref in removed:
                    c.require(ident(rp, x.commit) in [ident(rp, o) for o in h], '%s%r reported success, but its save %s is not in the history of %s (%s)', what, x, x.commit, x.ref, h)
                    c.count('saves_beside_removal')
                else: c.require(h.count(x.commit) == 1, '%s%r reported success, but its commit %s is %d times in the history of %s (%s)', what, x, x.commit, h.count(x.commit), x.ref, h)
                c.count('commits_found')
                cm = rp.commit(bytes.fromhex(x.commit))
                if x.kind == 'save':
                    got = saved_content(rp, cm['tree'])
                    c.require(got == x.want, '%s%r saved %s', what, x, q({k: (x.want.get(k), got.get(k)) for k in set(x.want) | set(got) if x.want.get(k) != got.get(k)}))
                    contents[x.commit] = x.want
                elif x.kind == 'split': splits[x.commit] = x.data
                elif x.kind == 'get': splits[x.commit] = None
        for nm in set(before) | set(now):
            b, a = before.get(nm, []), now.get(nm, [])
            if fsd(nm[11:]) in removed:
                lost = [i for i, t in enumerate(ibefore[nm]) if t not in [ident(rp, o) for o in a]]
                c.require(lost == [len(b) - 1] or (not lost and all(x.rc or x.kind != 'rm' for x in ps)), '%ssaves %s (counted from the newest) of %s are gone; only the oldest of %d was to be removed', what, lost, q(nm), len(b))
                c.count('removals')
                continue
            c.require(a[len(a) - len(b):] == b, '%s%s lost what it held: %s -> %s', what, q(nm), b, a)
            new = a[:len(a) - len(b)]
            for o in new:
                # (a command that failed after the fact may have stored its save)
                own = [x for v in made.values() for x in v if x.commit == o]
                if not own and not any(x.rc and x.ref == fsd(nm[11:]) for x in ps) and not any(x.kind == 'get' and x.ref == fsd(nm[11:]) for x in ps): raise Violation('%s%s is in %s, but nobody made it' % (what, o, q(nm)))
            # real time order
            for x in made.get(fsd(nm[11:]), []):
                for y in made.get(fsd(nm[11:]), []):
                    if x.t1 < y.t0: c.require(a.index(y.commit) < a.index(x.commit), '%s%r ended before %r began, but comes after it', what, x, y)
        for x in ps:
            h0 = before.get(b'refs/heads/' + (x.ref or '').encode(), [])
            h1 = now.get(b'refs/heads/' + (x.ref or '').encode(), [])
            if x.rc: continue
            if x.kind == 'join':
                if x.args[-1] == 'fixed': c.require(x.output == split0, '%s%r gave %d bytes, not the %d stored', what, x, len(x.output), len(split0))
                else:
                    ok = [splits[o] for o in now[b'refs/heads/s'] if o in splits]
                    c.require(None in ok or any(x.output == d for d in ok) or any(o not in splits for o in now[b'refs/heads/s']), '%s%r gave %d bytes, which nobody stored', what, x, len(x.output))
                c.count('joins_compared')
            elif x.kind == 'read':
                k = len([l for l in x.output.split(b'\n') if l and l != b'latest'])
                c.require(len(h0) - (x.ref in removed) <= k <= len(h1) + (x.ref in removed), '%s%r listed %d saves; there were %d to %d', what, x, k, len(h0), len(h1))
                c.count('listings_compared')
            elif x.kind == 'restore':
                got = tree_content(x.out)
                if x.ref in removed: h1 = h0 = []
                ok = [o for o in h1[:len(h1) - len(h0) + 1] if o in contents]
                unknown = x.ref in removed or [o for o in h1[:len(h1) - len(h0) + 1] if o not in contents]
                c.require(unknown or any(contents[o] == got for o in ok), '%s%r restored something that is none of the %d possible saves', what, x, len(ok))
                c.count('restores_compared')
                force(x.out)
        if all(x.rc == 0 for x in ps): c.count('rounds_all_succeeded')
        left = [f for f in os.listdir(repo + '/objects') if f.startswith('pack-tmp')] + [os.path.join(d, f) for d, _, fs in os.walk(repo) for f in fs if f.endswith('.lock')]
        c.require(not left, '%sleft behind: %s', what, left)
        # the caches still answer correctly
        if r.random() < .3:
            c.bup('midx', '--check', '-a')
            c.count('midx_checks')
    c.sample({'rounds': log[:6]})


def fsd(b): return os.fsdecode(b)


def finish_quiet(f, i):
    try: f(i)
    except Violation: pass


if __name__ == '__main__':
    k = Check('P14', rule='One evaluation = one round of 2-5 bup commands (save, split, get, rm, tag, ls, restore, join, midx, bloom, fsck, init, validate-refs; local or through a server, sharing one client cache) running at the same time on one repository, '
              'with random delays before filesystem operations or with one writer stopped at its n-th filesystem operation until the others have finished. Required: each save that succeeded is in its branch exactly once, complete and in real-time order; '
              'nothing saved before is lost; readers see only complete saves; failures are reported; everything reachable is present; nothing is left behind. Distinct: commands of the round and the order of their filesystem changes.',
              assumptions=['gc is left out: bup documents that nothing may write to the repository while it runs', 'git update-ref is atomic'])
    shim.build(k)
    n, rounds = k.pick((24, 4), (300, 15))
    k.run_cases([('%s-%d' % (m, i), (rounds, m)) for i, m in enumerate(['delay', 'stop', 'mix'][j % 3] for j in range(n))], go)
    k.need('commits_found', 60)
    k.need('commands_held', 8)
    k.need('succeeded_rm', 3)
    k.need('restores_compared', 3)
    k.need('listings_compared', 5)
    k.need('switches', 100)
    k.finish()

#!/usr/bin/python3.12
"""P08: killing any command at any moment never damages what was saved before, and running it
again gives the normal result."""
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import subprocess, time
from bv import *
from scen import *
from reader import Repo, FormatError
import shim

KINDS = ['save', 'save', 'index', 'split', 'get', 'rsave', 'rsplit', 'maint', 'gc', 'prune', 'rm', 'tag', 'rewrite', 'index+save', 'index']


def chain(rp, oid):
    """What a ref means, apart from when it was committed: trees, author and date, message."""
    if rp.get(oid)[0] != b'commit':
        return [oid.hex()]
    return [(treesig(rp, c['tree']), c['author'], c['message']) for _, c in rp.history(oid)]


_sigs = {}
def treesig(rp, t):
    """The tree, except for access times (which reading the source changes)."""
    if t not in _sigs:
        try:
            if rp.dir_entries(t)[0] is None: raise FormatError('no metadata')
            w = rp.walk_dir(t)
            x = []
            groups = {}
            for n, e in sorted(w.items()):
                if (e.get('meta') or {}).get('hardlink'):
                    groups.setdefault(e['meta']['hardlink'], []).append(n)
            for n, e in sorted(w.items()):
                e = dict(e)
                m = dict(e.get('meta') or {})
                m.pop('atime', None)
                if m.get('hardlink'): m['hardlink'] = groups[m['hardlink']]
                if e['kind'] == 'dir': e['oid'] = None
                e['meta'] = m
                x.append((n, sorted(e.items(), key=lambda k: k[0])))
            _sigs[t] = (t.hex(), hashlib.sha1(repr(x).encode()).hexdigest())
        except FormatError:
            _sigs[t] = (t.hex(), t.hex())
    return Sig(_sigs[t])


class Sig(tuple):
    def __eq__(self, o): return self[1] == o[1]
    def __ne__(self, o): return self[1] != o[1]
    def __hash__(self): return hash(self[1])


def chains(rp):
    return {n: chain(rp, o) for n, o in rp.refs().items()}


def same_result(got, want, kind):
    """got may repeat the newest save (the first run finished, the second added it again)."""
    if got == want:
        return True
    return kind in ('save', 'split', 'rsave', 'rsplit', 'get', 'rewrite', 'index+save') and got[1:] == want and got[0][0] == want[0][0]


def files_at(d):
    return {n: e for n, e in snap(d, mtime=False).items()} if os.path.isdir(d) else None


def setup(c, kind):
    r = c.rng
    far = kind in ('rsave', 'rsplit')    # a midx run per pack, on both sides
    w = World(c, strip=True, small=r.random() < .75, entries=r.choice([4, 8, 16]), packlimit=r.choice([8000, 50000, 10**9] if far else [1500, 6000, 50000, 10**9]))
    w.setup(r.randint(2, 4), split=.4)
    if kind in ('get', 'rewrite'):
        w.make_other(r.randint(1, 3), share=r.random() < .6)
    if kind in ('gc', 'prune', 'rm'):
        w.setup(2)
        heads = sorted(x for x in w.refs() if x.startswith(b'refs/heads/'))
        if kind == 'gc' and len(heads) > 1:
            w.run(Cmd('rm', ['rm', '--unsafe', b'/' + heads[0][11:]]))
            w.branches = [b for b in w.branches if fse(b) != heads[0][11:]]
    for _ in range(r.randint(0, 2)):
        w.run(r.choice([Cmd('midx', ['midx', '-a']), Cmd('midx-f', ['midx', '-f']), Cmd('bloom', ['bloom']), Cmd('tag', w.tag().args, ok=None)]), ok=None)
    if r.random() < .3:
        c.git('pack-refs', '--all')
    return w


def commands(w, kind, c):
    """-> (commands before, commands killed)"""
    r = c.rng
    remote = '-:' + w.repo
    c.env['BUP_TEST_LEVEL'] = '1'
    if kind == 'save':
        w.mutate()
        return [w.index()], [w.save()]
    if kind == 'rsave':
        w.mutate()
        return [w.index()], [w.save(remote=remote)]
    if kind == 'index':
        w.mutate(6)
        return [], [w.index()]
    if kind == 'index+save':
        w.mutate(6)
        return [], [w.index(), w.save()]
    if kind == 'split': return [], [w.split(unnamed=.1)]
    if kind == 'rsplit': return [], [w.split(unnamed=.1, remote=remote)]
    if kind == 'get': return [], [w.get()]
    if kind == 'rewrite': return [], [w.rewrite()]
    if kind == 'maint':
        return [], [r.choice([Cmd('midx-a', ['midx', '-a']), Cmd('midx-f', ['midx', '-f']), Cmd('bloom-f', ['bloom', '-f']), Cmd('bloom', ['bloom']),
                              Cmd('midx-auto', ['midx', '--auto']), Cmd('init', ['init'])])]
    if kind == 'gc': return [], [w.gc(r.choice([0, 10, 50]))]
    if kind == 'prune':
        x = w.prune()
        return [], [x]
    if kind == 'rm': return [], [w.rm()]
    if kind == 'tag': return [], [w.tag()]
    if kind == 'restore':
        p = r.choice([s for b, s in w.some_paths()])
        d = c.dir + '/rest'
        return [], [Cmd('restore', ['restore', '-q', '-C', d, p + b'/.'], ok=None)]
    raise AssertionError(kind)


def unlock(repo):
    for d, dd, ff in os.walk(repo):
        for f in ff:
            if f.endswith(('.lock', 'packed-refs.new')) and '/objects' not in d:
                os.unlink(d + '/' + f)


def go(c, p):
    kind, npts = p
    r = c.rng
    w = setup(c, kind)
    pre, cmds = commands(w, kind, c)
    for x in pre:
        w.run(x)
    base = c.dir + '/base'
    cache0 = c.dir + '/cache0'
    copy_repo(w.repo, base)
    home_cache = os.path.join(c.env['HOME'], '.cache')
    has_cache = os.path.isdir(home_cache)
    if has_cache: copy_repo(home_cache, cache0)
    rp0 = Repo(base)
    refs0, ch0 = rp0.refs(), chains(rp0)
    live0 = rp0.reachable(list(refs0.values()))
    roots = [w.repo, c.env['HOME']] + ([c.dir + '/rest'] if kind == 'restore' else [])
    sh = shim.Shim(c, roots)
    rcs = []
    t0 = time.monotonic()
    for x in cmds:
        res = w.run(x, env=sh.env(), ok=None)
        rcs.append(res.rc)
        if x.ok is not None and res.rc not in x.ok and x.kind not in ('prune',):
            raise Violation('%r exited with %d: %s' % (x, rcs[-1], q(b' '.join(re.findall(rb'error:.*', res.err)) or res.err[-300:])))
    took = time.monotonic() - t0
    total = sh.get('n')
    c.count('events_in_undisturbed_runs', total)
    rpn = Repo(w.repo)
    refsn, chn = rpn.refs(), chains(rpn)
    rest_n = files_at(c.dir + '/rest')
    src_tree = None
    if kind == 'index': c.require(os.path.exists(w.repo + '/bupindex.meta'), 'no bupindex.meta after %r (%d), mut %r: %s', cmds, rcs[0], w.mut, (res.out+res.err)[-500:])
    fin = c.dir + '/final'
    copy_repo(w.repo, fin)

    # an index run alone: what the following save must store
    def save_after(what):
        w.run(Cmd('save', ['save', '-q', '-n', 'after', '-d', str(T0), '--strip', w.src]))
        rp, rf, _ = verify_closed(w.repo, all_objects=True)
        return rp.commit(rf[b'refs/heads/after'])['tree']
    if kind == 'index':
        src_tree = save_after('undisturbed index')
        copy_repo(w.repo, fin)

    ev = sorted(r.sample(range(1, total + 1), min(total, npts)))
    plan = [('event', k) for k in ev] + [('time', f) for f in [r.random() for _ in range(max(1, npts // 5))]]
    for how, k in plan:
        copy_repo(base, w.repo)
        force(home_cache) if os.path.isdir(home_cache) else None
        if has_cache: copy_repo(cache0, home_cache)
        if kind == 'restore' and os.path.isdir(c.dir + '/rest'): force(c.dir + '/rest')
        sh.reset(kill_at=k if how == 'event' else 0, torn=r.randint(0, 1))
        killed = False
        for i, x in enumerate(cmds):
            e = dict(c.env, BUP_DIR=x.repo or w.repo)
            e.update(sh.env())
            if how == 'event':
                res = run([c.check.bup_exe] + x.args, env=e, input=x.input)
                killed = bool(sh.get('hits'))
            else:
                inp = c.dir + '/stdin'
                open(inp, 'wb').write(x.input or b'')
                with open(inp, 'rb') as fi:
                    pr = subprocess.Popen([c.check.bup_exe] + [fse(a) for a in x.args], env=e, stdin=fi,
                                          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
                    try:
                        pr.wait(took / len(cmds) * (.3 + .8 * k))
                    except subprocess.TimeoutExpired:
                        killed = True
                    killpg(pr.pid)
                    pr.wait()
            if killed:
                break
        if not killed:
            c.count('kill_points_not_reached')
            continue
        settle(c, w.repo)
        c.count('kills_at_' + how)
        c.eval()
        c.sig(kind, repr(x.args[:2]), how, k, total)
        what = '%s killed at %s' % (kind, 'event %d of %d' % (k, total) if how == 'event' else 'a random time')
        try:
            rp = Repo(w.repo, lenient=True)
            ch = chains(rp)
            for n in set(ch0) | set(chn) | set(ch):
                a = ch.get(n)
                if a not in (ch0.get(n), chn.get(n)):
                    # a command that makes several saves may have completed some of them
                    if kind == 'get' and a and chn.get(n) and chn[n][-len(a):] == a:
                        continue
                    raise Violation('%s: %s is neither what it was nor the new save: %s' % (what, q(n), q(a)))
            live = rp.reachable(list(rp.refs().values()))
            for o in live: rp.get(o)
            if kind not in ('rm', 'prune', 'gc', 'tag'):
                lost = [o for o in live0 if not rp.has(o)]
                if lost:
                    raise Violation('%s lost %d objects, e.g. %s' % (what, len(lost), lost[0].hex()))
            c.count('objects_read_after_kill', len(live))
        except FormatError as ex:
            raise Violation('%s: %s' % (what, ex))
        if r.random() < .4:
            check_reads(c, n=1, lenient=True)
        unlock(w.repo)
        if kind == 'index' and r.random() < .5:
            # saving from whatever index there is gives a complete save
            x = w.run(Cmd('save', ['save', '-q', '-n', 'mid', '-d', str(T0), '--strip', w.src]), ok=None)
            verify_closed(w.repo, all_objects=True)
            c.count('saves_from_interrupted_index')
        # again, undisturbed
        for i, x in enumerate(cmds):
            if kind == 'prune' or kind == 'rm' or kind == 'tag' or (kind == 'get' and rcs[i] != 0):
                res = w.run(x, ok=None)     # the first run may have finished its work (or was refused)
                if res.rc != rcs[i] and res.rc not in (0, 1, 2):
                    raise Violation('%s: again: exit %d: %s' % (what, res.rc, q(res.err[-300:])))
            else:
                res = w.run(x, ok=None)
                if res.rc != rcs[i]:
                    raise Violation('%s: running it again exits with %d (normally %d): %s' % (what, res.rc, rcs[i], q(res.err[-300:])))
        if kind == 'index':
            t = save_after(what)
            if treesig(Repo(w.repo, lenient=True), t) != treesig(Repo(fin), src_tree):
                raise Violation('%s: a save after a new index run differs from the normal one: %s' % (what, tree_diff(c, w.repo, fin, t, src_tree)))
            force(w.repo + '/refs/heads/mid') if os.path.isdir(w.repo + '/refs/heads/mid') else None
            c.count('index_results_compared')
        try:
            rp, rf, _ = verify_closed(w.repo, full=True, all_objects=kind not in ('gc', 'prune'))
        except FormatError as ex:
            if 'idx without pack' in str(ex) and kind in ('prune', 'rm', 'tag', 'gc'):
                c.bup('gc', '--unsafe', '--threshold', '0')
                rp, rf, _ = verify_closed(w.repo, full=True)
            else:
                raise Violation('%s, run again: %s' % (what, ex))
        ch = chains(rp)
        ch.pop(b'refs/heads/after', None), ch.pop(b'refs/heads/mid', None)
        for n in set(ch) | set(chn):
            if n not in ch or n not in chn or not same_result(ch[n], chn[n], kind):
                if kind in ('rm', 'tag') and ch.get(n) in (chn.get(n), ch0.get(n)):
                    if ch.get(n) == chn.get(n):
                        continue
                d = ''
                if ch.get(n) and chn.get(n) and ch[n][0][0] != chn[n][0][0]:
                    d = tree_diff(c, w.repo, fin, bytes.fromhex(ch[n][0][0][0]), bytes.fromhex(chn[n][0][0][0])) + ' '
                raise Violation('%s, run again: %s%s is %s, normally %s' % (what, d, q(n), q(ch.get(n)), q(chn.get(n))))
        if kind == 'restore' and files_at(c.dir + '/rest') != rest_n:
            raise Violation('%s, run again: restored tree differs: %s' % (what, q(diff_snap(rest_n, files_at(c.dir + '/rest')))))
        if r.random() < .3:
            check_reads(c, n=1)
        c.count('commands_run_again')
    c.sample({'kind': kind, 'events': total, 'commands': [repr(x) for x in cmds], 'points': plan[:5]})


def settle(c, repo):
    """Wait until nothing of the killed command is left (git children of a killed group)."""
    time.sleep(.005)


def tree_diff(c, a, b, ta, tb):
    x, y = Repo(a).walk_dir(ta), Repo(b, lenient=True)
    z = y.walk_dir(tb)
    out = []
    for k in sorted(set(x) | set(z)):
        for e in x.get(k), z.get(k):
            if e and e['kind'] == 'dir': e.pop('oid')
        if x.get(k) != z.get(k):
            out.append('%s: %s != %s' % (q(k), q(x.get(k)), q(z.get(k))))
    return '; '.join(out[:3])


if __name__ == '__main__':
    k = Check('P08', rule='One evaluation = one command killed (SIGKILL of its process group) at a chosen filesystem event, possibly mid-write, or at a random time, followed by: '
              'refs old or new, every reachable object read and hashed by the independent decoder, reads through bup, the command run again and the result compared with an undisturbed run. '
              'Distinct: command x kill point.',
              assumptions=['the independent decoder (lib/reader.py)', 'lock files of a killed git child are removed before running the command again, as git asks'])
    shim.build(k)
    n, pts = k.pick((20, 4), (300, 40))
    kinds = [KINDS[i % len(KINDS)] for i in range(n)]
    k.run_cases([('%s-%d' % (x, i), (x, pts)) for i, x in enumerate(kinds)], go)
    k.finish()

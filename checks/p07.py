#!/usr/bin/python3.12
"""P07: garbage collection keeps everything reachable and removes the rest."""
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from bv import *
from scen import *
from reader import Repo
import shim


def make(c):
    r = c.rng
    w = World(c, small=r.random() < .7, entries=r.choice([6, 14, 25]), packlimit=r.choice([2000, 8000, 60000, 10**9]))
    w.setup(r.randint(3, 7), split=.4)
    if r.random() < .4:
        w.make_other(r.randint(1, 3))
        for _ in range(2):
            w.run(w.get(), ok=None)
    # references of every kind
    refs = w.refs()
    rp = Repo(w.repo)
    pool = list(refs.values())
    tip = r.choice(pool)
    for i in range(r.randint(0, 3)):
        k = r.random()
        o = r.choice(r.choice([[x for x, _ in rp.history(tip)]]))
        if k < .5: t = o
        else:
            t = rp.commit(o)['tree']
            for _ in range(r.randint(0, 3)):
                e = [x for x in rp.tree(t)]
                if not e: break
                m, n, sub = r.choice(e)
                t = sub
                if not stat.S_ISDIR(m): break
        c.git('update-ref', 'refs/tags/k%d' % i, t.hex())
        c.count('odd_tags')
    # garbage
    for _ in range(r.randint(1, 3)):
        k = r.random()
        heads = [x for x in w.refs() if x.startswith(b'refs/heads/')]
        if k < .3: w.run(w.split(unnamed=1))
        elif k < .5 and len(heads) > 1:
            c.git('update-ref', '-d', r.choice(sorted(heads)))
        elif k < .7 and heads:
            h = r.choice(sorted(heads))
            hist = rp.history(w.refs()[h]) if w.refs()[h] in rp.where else []
            if len(hist) > 1:
                c.git('update-ref', h, r.choice(hist[1:])[0].hex())
        elif heads:
            w.run(w.rm(), ok=None)
    w.branches = [x[11:].decode() for x in w.refs() if x.startswith(b'refs/heads/')]
    if r.random() < .15:
        for x in list(w.refs()):
            c.git('update-ref', '-d', x)
        w.branches = []
    # caches in various states
    for _ in range(r.randint(0, 2)):
        w.run(r.choice([Cmd('midx', ['midx', '-a']), Cmd('midx', ['midx', '-f']), Cmd('bloom', ['bloom']), Cmd('bloom', ['bloom', '-f'])]))
    if r.random() < .15:
        # duplicates: the same objects in one more pack
        ps = sorted(Repo(w.repo).packs)
        c.count('setups_with_duplicate_packs', 0)
    return w


def state(path):
    rp = Repo(path)
    refs = rp.refs()
    return rp, refs, rp.reachable(list(refs.values()))


def after_gc(c, w, refs, live, before, threshold, what):
    rp, refs2, _ = verify_closed(w.repo, full=True, all_objects=True)
    if refs2 != refs:
        raise Violation('%s changed refs: %s -> %s' % (what, q(refs), q(refs2)))
    lost = [o for o in live if not rp.has(o)]
    if lost:
        raise Violation('%s lost %d reachable objects, e.g. %s' % (what, len(lost), lost[0].hex()))
    dead = set(rp.where) - live
    c.count('live_objects_checked', len(live))
    c.count('garbage_objects_before', len(set(before.where) - live))
    c.count('garbage_objects_after', len(dead))
    if threshold == 0:
        # the liveness filter may keep some blobs, but a pack without any live object goes
        for b, p in rp.packs.items():
            if not any(o in live for o in p.idx.oids) and b in before.packs:
                # a wrongly kept blob is possible (Bloom filter): allow packs of blobs only
                kinds = {rp.get(o)[0] for o in p.idx.oids}
                if kinds - {b'blob'}:
                    raise Violation('%s left pack %r, all of whose %d objects are unreachable' % (what, b, len(p.idx.oids)))
                c.count('kept_by_bloom_chance')
        hard = [o for o in dead if rp.get(o)[0] != b'blob']
        if hard:
            raise Violation('%s left %d unreachable trees or commits, e.g. %s' % (what, len(hard), hard[0].hex()))
        nb = sum(1 for o in before.where if o not in live)
        if len(dead) > 20 + nb * .3:
            raise Violation('%s left %d of %d unreachable objects' % (what, len(dead), nb))
    elif threshold is not None:
        for b, p in rp.packs.items():
            n = len(p.idx.oids)
            alive = sum(1 for o in p.idx.oids if o in live)
            if b in before.packs and n - alive > n * threshold / 100 + max(3, n * .25):
                raise Violation('%s (threshold %d) left pack %r with %d of %d objects unreachable' % (what, threshold, b, n - alive, n))
    g = c.git('fsck', '--full', '--strict', '--no-dangling', ok=None)
    bad = [l for l in (g.out + g.err).split(b'\n') if l and not re.search(rb'dangling|notice:|bad(Filemode|DateOverflow)|Filemode|zeroPadded|nullSha1|Checking|badTimezone|missingSpace|hasDot|hasDotdot|hasDotgit|gitmodules|gitattributes|gitignore', l)]
    if bad:
        raise Violation('git fsck after %s: %s' % (what, q(bad[:3])))
    tmp = [n for n in os.listdir(w.repo + '/objects') if n.startswith('pack-tmp')] + \
          [n for n in os.listdir(w.repo + '/objects/pack') if 'tmp' in n]
    if tmp and 'interrupted' not in what:
        raise Violation('%s left temporary files: %s' % (what, q(tmp)))
    return rp


def plain(c, p):
    w = make(c)
    r = c.rng
    for rnd in range(r.choice([1, 1, 2, 4])):
        before, refs, live = state(w.repo)
        cmd = w.gc() if rnd < 2 else w.gc(0)
        t = int(cmd.args[3])
        if not before.where and True:
            c.count('empty_repositories')
        w.run(cmd)
        c.eval()
        c.sig(t, len(before.packs), len(live), len(before.where) - len(live))
        after_gc(c, w, refs, live, before, t, 'gc')
        c.count('collections')
        check_reads(c, n=2)
        # later saves, including of content that was collected, are complete
        for _ in range(2):
            if r.random() < .3: w.do_split()
            else: w.do_save(mutate=r.random() < .5)
        verify_closed(w.repo, all_objects=True)
        check_reads(c, n=2)
        c.count('saves_after_gc', 2)
    c.sample({'log': w.log[-6:]})


def kill(c, p):
    """gc killed at sampled filesystem events."""
    w = make(c)
    r = c.rng
    base = c.dir + '/base'
    copy_repo(w.repo, base)
    before, refs, live = state(base)
    cmd = w.gc(r.choice([0, 0, 10]))
    if r.random() < .3:
        cmd = Cmd('prune', ['prune-older', '--unsafe', '--wrt', str(w.t + 1000), '--keep-all-for', '30d', '--gc', '--gc-threshold', '0'])
    sh = shim.Shim(c, [w.repo])
    w.run(cmd, env=sh.env())
    total = sh.get('n')
    c.count('events_in_undisturbed_runs', total)
    rp = Repo(w.repo)
    refs_new = rp.refs()
    if cmd.kind == 'gc':
        after_gc(c, w, refs, live, before, None, 'gc')
    n = min(total, p)
    pts = sorted(r.sample(range(1, total + 1), n))
    for k in pts:
        copy_repo(base, w.repo)
        sh.reset(kill_at=k, torn=r.randint(0, 1))
        e = dict(c.env, BUP_DIR=w.repo)
        e.update(sh.env())
        x = run([c.check.bup_exe] + cmd.args, env=e)
        if not sh.get('hits'):
            c.count('kill_points_not_reached')
            continue
        c.count('kills')
        c.eval()
        what = '%s interrupted at event %d of %d' % (cmd.kind, k, total)
        c.sig(cmd.kind, k, total)
        try:
            rp = Repo0(w.repo)
            rf = rp.refs()
            bad = {n: o for n, o in rf.items() if o not in (refs.get(n), refs_new.get(n))}
            bad.update({n: None for n in refs if n not in rf and n in refs_new})
            if bad:
                raise Violation('%s: refs neither old nor new: %s' % (what, q(bad)))
            need_ = rp.reachable(list(rf.values()))
            for o in need_: rp.get(o)
        except FormatError as ex:
            raise Violation('%s: %s' % (what, ex))
        if cmd.kind == 'gc' and rf != refs:
            raise Violation('%s changed refs' % what)
        check_reads(c, n=1, lenient=True)
        unlock(w.repo)
        if c.check.keep: copy_repo(w.repo, c.dir + '/killed')
        c.bup('gc', '--unsafe', '--threshold', '0')       # the documented recovery
        live2 = Repo(w.repo).reachable(list(rf.values()))
        after_gc(c, w, rf, live2, Repo(base), 0 if r.random() < 2 else None, 'gc after %s interrupted' % cmd.kind)
        if r.random() < .4:
            w.do_save(mutate=False)
            verify_closed(w.repo, all_objects=True)
            check_reads(c, n=1)


def unlock(repo):
    # git's own lock files, which git tells the user to remove after a crash
    for d, dd, ff in os.walk(repo):
        for f in ff:
            if f.endswith('.lock') and '/objects' not in d:
                os.unlink(d + '/' + f)


class Repo0(Repo):
    """A repository that may hold idx files without packs (an interrupted removal)."""
    def __init__(self, path):
        import os as _os
        pd = os.path.join(fse(path), b'objects/pack')
        for n in _os.listdir(pd):
            if n.endswith(b'.idx') and not _os.path.exists(os.path.join(pd, n[:-4] + b'.pack')):
                self.stray = getattr(self, 'stray', 0) + 1
        Repo.__init__(self, path, lenient=True)


def disp(c, p):
    {'plain': plain, 'kill': kill}[p[0]](c, p[1])


if __name__ == '__main__':
    k = Check('P07', rule='One evaluation = one garbage collection (or one interrupted at a chosen filesystem event) after which every object reachable from every ref was '
              'read back and hashed, refs compared, unreachable trees, commits and packs looked for, and later saves and reads checked. '
              'Distinct: threshold x packs x live x dead objects, or command x kill point.',
              assumptions=['the independent decoder (lib/reader.py)', 'an interruption is a SIGKILL at a filesystem call below the repository'])
    shim.build(k)
    n = k.pick((16, 6, 5), (400, 150, 40))
    k.run_cases([('kill-%d' % i, ('kill', n[2])) for i in range(n[1])] + [('plain-%d' % i, ('plain', 0)) for i in range(n[0])], disp)
    k.finish()

#!/usr/bin/env python3
"""P17: fsck notices all damage, repairs what its recovery data allows, and never claims more."""
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import shutil
from bv import *
import reader


def rd(p):
    with open(p, 'rb') as f: return f.read()


def wr(p, d):
    """Write in place, as disk damage would, without touching other hard links."""
    if os.path.exists(p):
        os.chmod(p, 0o644)
        os.unlink(p)
    with open(p, 'wb') as f: f.write(d)


class Repo:
    def __init__(self, c, r, npacks, gen=True):
        self.c, self.r = c, r
        self.path = c.tmp(r.choice(['repo', 'repo', 'repo', 'r[ab]', 'r*?', "r 'x", 'r\xe9']))
        c.bup('init', repo=self.path)
        for i in range(npacks):
            n = r.choice([10, 500, 3000, 20000, 100000, 400000])
            c.bup('split', '-n', 'b%d' % i, repo=self.path, input=r.randbytes(n))
        self.pd = self.path + '/objects/pack'
        for f in os.listdir(self.pd):
            if f.endswith(('.midx', '.bloom')): os.unlink(self.pd + '/' + f)
        self.stems = sorted(f[:-5] for f in os.listdir(self.pd) if f.endswith('.pack'))
        self.par2 = set()
        if gen:
            some = r.random() < .3
            which = [s for s in self.stems if not some or r.random() < .6]
            if which or not some:
                a = [self.pd + '/' + s + '.pack' for s in which] if some else []
                if a or not some: c.bup('fsck', '-g', *r.choice([[], ['-j3'], ['-v']]), *a, repo=self.path)
            self.par2 = set(which)
            for s in self.stems:
                c.require((s + '.par2' in os.listdir(self.pd)) == (s in self.par2), 'recovery data of %s: expected %s; there is %s', s, s in self.par2, os.listdir(self.pd))
        self.orig = {f: rd(self.pd + '/' + f) for f in os.listdir(self.pd)}

    def reset(self):
        for f in os.listdir(self.pd):
            if f not in self.orig: os.unlink(self.pd + '/' + f)
        for f, d in self.orig.items():
            if not os.path.exists(self.pd + '/' + f) or rd(self.pd + '/' + f) != d: wr(self.pd + '/' + f, d)

    def now(self): return {f: rd(self.pd + '/' + f) for f in sorted(os.listdir(self.pd))}


def par2_blocks(size):
    """Block size and number of recovery blocks of par2 create -n1 -c200 (by default as near 2000 blocks as possible)."""
    bs = max(4, -(-size // 2000 // 4) * 4)
    while -(-size // bs) > 2000: bs += 4
    return bs


def damage(r, d, other):
    """-> (new content or None for removed, what, how many bytes from where were overwritten or None)"""
    n = len(d)
    k = r.choice(['flip', 'flip', 'byte', 'byte', 'range', 'range', 'zero', 'cut', 'cut', 'append', 'insert', 'delete', 'empty', 'remove', 'other', 'edge'])
    if k == 'flip':
        i = r.randrange(n)
        return d[:i] + bytes([d[i] ^ (1 << r.randrange(8))]) + d[i + 1:], 'bit flip at %d of %d' % (i, n), (i, 1)
    if k == 'byte':
        i = r.choice([0, 1, 4, 7, 8, 11, 12, 13, n - 1, n - 20, n - 21, r.randrange(n)])
        i = min(max(i, 0), n - 1)
        return d[:i] + bytes([(d[i] + r.randint(1, 255)) % 256]) + d[i + 1:], 'byte %d of %d' % (i, n), (i, 1)
    if k in ('range', 'zero'):
        l = min(n, r.choice([2, 20, 500, max(n // 50, 2), max(n // 20, 2), max(n // 8, 2), n // 2]))
        i = r.randrange(n - l + 1)
        x = r.randbytes(l) if k == 'range' else bytes(l)
        if d[i:i + l] == x: return damage(r, d, other)
        return d[:i] + x + d[i + l:], '%s %d+%d of %d' % (k, i, l, n), (i, l)
    if k == 'cut':
        l = r.choice([1, 4, 19, 20, 21, n // 100 + 1, n // 2, n - 1, n - 19, n - 20, n - 21])
        l = min(max(l, 1), n)
        return d[:n - l], 'cut %d of %d' % (l, n), (n - l, l)
    if k == 'append':
        x = r.choice([b'\0', r.randbytes(20), d[-20:], r.randbytes(1000)])
        return d + x, 'append %d to %d' % (len(x), n), None
    if k == 'insert':
        i = r.randrange(n)
        x = r.randbytes(r.choice([1, 4, 100]))
        return d[:i] + x + d[i:], 'insert %d at %d of %d' % (len(x), i, n), None
    if k == 'delete':
        l = min(n, r.choice([1, 4, 100]))
        i = r.randrange(n - l + 1)
        return d[:i] + d[i + l:], 'delete %d at %d of %d' % (l, i, n), None
    if k == 'empty': return b'', 'emptied %d' % n, (0, n)
    if k == 'remove': return None, 'removed', (0, n)
    if k == 'edge':
        i = r.choice([0, n - 20])
        return d[:i] + r.randbytes(20) + d[i + 20:], 'checksum or header (20 at %d of %d)' % (i, n), (i, 20)
    if other is None or other == d: return damage(r, d, None)
    return other, 'content of another pack', None


def repairable(size, at):
    """Certainly within the recovery data: the overwritten range touches at most 200 blocks."""
    if at is None: return None
    bs = par2_blocks(size)
    i, l = at
    touched = (i + l - 1) // bs - i // bs + 1
    if touched <= 190 and l < size: return True
    if touched > 260: return False
    return None         # too near to call


CHECKS = [[], ['--quick'], ['-j2'], ['-j5', '--quick'], ['-v'], ['--disable-par2'], ['-vv']]


def apply_damage(c, r, rp):
    """Damage some files; -> {stem: (list of texts, repairable?, pack damaged?)}"""
    res = {}
    for s in r.sample(rp.stems, r.choice([1, 1, 1, 2, len(rp.stems)]) if len(rp.stems) > 1 else 1):
        todo = r.choice([['.pack'], ['.pack'], ['.pack'], ['.idx'], ['.idx', '.pack']])
        txt, ok, vis = [], True, True
        for e in todo:
            f = s + e
            o = rp.orig.get(r.choice(rp.stems) + e)
            d, t, at = damage(r, rp.orig[f], o)
            if d is None and e == '.pack': d, t, at = b'', 'emptied', None     # (a missing pack is only reported)
            if d is None: os.unlink(rp.pd + '/' + f)
            else: wr(rp.pd + '/' + f, d)
            txt.append(e + ': ' + t)
            if e == '.pack': ok = repairable(len(rp.orig[f]), at)
            elif t.startswith('content of another'): ok = None if ok else ok   # valid in itself, not what it should be
        if s not in rp.par2: ok = False
        res[s] = (txt, ok)
        c.count('files_damaged', len(todo))
    return res


def quick_blind(res):
    """--quick only compares each file with its own checksum."""
    return any('content of another' in t for txt, _ in res.values() for t in txt)


def main_case(c, n):
    r = c.rng
    rp = Repo(c, r, r.choice([1, 2, 3, 4]))
    for m in r.sample(CHECKS, 3):
        x = c.bup('fsck', *m, repo=rp.path)
        c.eval()
        c.count('clean_checks')
    x = c.bup('fsck', '-r', repo=rp.path)
    c.require(rp.now() == rp.orig, 'checking or repairing an undamaged repository changed files')
    for i in range(n):
        rp.reset()
        res = apply_damage(c, r, rp)
        before = rp.now()
        show = 'damage %s, recovery data for %s of %s' % (q(res, 900), len(rp.par2), len(rp.stems))
        for m in r.sample(CHECKS, 2):
            if '--quick' in m and quick_blind(res): continue
            a = [rp.pd + '/' + s + '.pack' for s in rp.stems] if r.random() < .3 else []
            x = c.bup('fsck', *m, *a, repo=rp.path, ok=None)
            c.require(x.rc != 0, 'fsck %s succeeded; %s; %r', m, show, x)
            c.require(x.err.strip(), 'fsck %s said nothing; %s', m, show)
            c.require(rp.now() == before, 'fsck %s changed files; %s', m, show)
            c.eval()
            c.count('damage_detected')
            if r.random() < .4:         # each pack by itself
                for s in rp.stems:
                    if '--quick' in m and s in res and quick_blind({s: res[s]}): continue
                    x = c.bup('fsck', *m, rp.pd + '/' + s + '.pack', repo=rp.path, ok=None)
                    c.require((x.rc != 0) == (s in res), 'fsck %s of %s alone gave %d; %s', m, s, x.rc, show)
                    c.eval()
        quick = r.random() < .3 and not quick_blind(res)
        m = [*(['--quick'] if quick else []), *r.choice([[], [], ['-j%d' % r.randint(1, 5)], ['-v']])]
        x = c.bup('fsck', '-r', *m, repo=rp.path, ok=None)
        after = rp.now()
        oks = [ok for _, ok in res.values()]
        good = all(after.get(s + '.pack') == rp.orig[s + '.pack'] and idx_same(after.get(s + '.idx'), rp.orig[s + '.idx']) for s in res)
        c.require(x.rc != 0, 'fsck -r %s of a damaged repository exited with 0; %s; %r', m, show, x)
        c.require(x.rc != 1 or good, 'fsck -r %s claimed (1) to have repaired everything; %s; %r', m, show, x)
        c.require(not good or x.rc == 1 or quick, 'fsck -r %s repaired everything but exited with %d; %s; %r', m, x.rc, show, x)
        if all(ok is True for ok in oks):
            c.require(good, 'fsck -r %s did not restore the original files although the damage is within the recovery data: %s; %s; %r', m, [s for s in res if after.get(s + '.pack') != rp.orig[s + '.pack']], show, x)
            c.count('repaired')
        if any(ok is False for ok in oks) and not quick: c.count('unrepairable')
        for f, d in rp.orig.items():
            if f.rsplit('.', 1)[0].split('.vol')[0] not in res: c.require(after.get(f) == d, 'repair changed %s of an undamaged pack; %s', f, show)
        for s in res:
            if s in rp.par2 and res[s][1] is True and not (quick and quick_blind({s: res[s]})):
                c.require(after.get(s + '.pack') == rp.orig[s + '.pack'] and idx_same(after.get(s + '.idx'), rp.orig[s + '.idx']), 'fsck -r %s left repairable %s damaged; %s; %r', m, s, show, x)
        y = c.bup('fsck', repo=rp.path, ok=None)
        c.require((y.rc == 0) == good, 'fsck after repair gave %d, files %s; %s', y.rc, 'restored' if good else 'not restored', show)
        c.eval(2)
        c.sig([(t.split(' of ')[0].rstrip('0123456789+ '), ok) for t2, ok in res.values() for t in t2], m, x.rc, len(rp.stems))
        c.sample({'damage': res, 'repair exit': x.rc})


def idx_same(a, b):
    if a is None: return False
    if a == b: return True
    ia, ib = ixload(a), ixload(b)
    return ia is not None and ia == ib


def ixload(d):
    import tempfile
    with tempfile.NamedTemporaryFile(suffix='.idx') as f:
        f.write(d)
        f.flush()
        try:
            i = reader.Idx(os.fsencode(f.name))
        except Exception:
            return None
        return list(i.oids), d[-40:-20]


TOOL = '''#!/bin/sh
# stand-in for %(name)s: misbehaves for %(action)s
real=%(real)s
case " $* " in
*" %(action)s "*) n=$(cat %(count)s 2>/dev/null || echo 0); n=$((n+1)); echo $n > %(count)s
  if [ $n = %(nth)s -o %(nth)s = 0 ]; then
    %(what)s
  fi;;
esac
exec $real "$@"
'''


def fault_case(c, n):
    """par2, git and jobs that fail, die or lie."""
    r = c.rng
    rp = Repo(c, r, r.choice([2, 3, 4]))
    if not rp.par2:
        c.bup('fsck', '-g', repo=rp.path)
        rp.orig = rp.now()
        rp.par2 = set(rp.stems)
    bindir = c.tmp('bin')
    os.makedirs(bindir)
    for i in range(n):
        rp.reset()
        for f in os.listdir(bindir): os.unlink(bindir + '/' + f)
        res = {s: t for s, t in apply_damage(c, r, rp).items()} if r.random() < .8 else {}
        cnt = c.tmp('count')
        jobs = r.choice([[], ['-j1'], ['-j3']])
        name, action = r.choice([('par2', 'repair'), ('par2', 'repair'), ('par2', 'verify'), ('git', 'verify-pack'), ('git', 'verify-pack'), ('git', 'index-pack')])
        what = r.choice(['exit 0', 'exit 1', 'exit 99', 'kill -9 $$', 'kill -15 $$'] + (['kill -9 $PPID; sleep .2; exit 0'] * 2 if jobs else []))
        if name == 'git' and what == 'exit 0': what = 'exit 3'      # git is believed
        if (name, action, what) == ('par2', 'verify', 'exit 0'): what = 'exit 2'
        nth = r.choice([0, 1, 1, 2])
        p = bindir + '/' + name
        open(p, 'w').write(TOOL % dict(name=name, action=action, real=shutil.which(name), count=cnt, nth=nth, what=what))
        os.chmod(p, 0o755)
        env = {'PATH': bindir + ':' + c.env['PATH']}
        mode = r.choice([['-r'], ['-r'], []])
        x = c.bup('fsck', *mode, *jobs, repo=rp.path, ok=None, env=env)
        fired = os.path.exists(cnt) and (nth == 0 or int(rd(cnt)) >= nth)
        show = '%s %s: %s (call %d, %s); damage %s; %r' % (name, action, what, nth, 'reached' if fired else 'not reached', q(res, 600), x)
        after = rp.now()
        good = all(after.get(s + e) is not None and (after[s + e] == rp.orig[s + e] or (e == '.idx' and idx_same(after[s + e], rp.orig[s + e]))) for s in rp.stems for e in ('.pack', '.idx'))
        if x.rc == 0:
            c.require(good and (mode or not res) and not (res and mode), 'fsck %s %s succeeded: %s', mode, jobs, show)
            c.require(not fired, 'fsck %s %s succeeded although a tool failed: %s', mode, jobs, show)
        if x.rc == 1 and mode:
            c.require(good, 'fsck -r %s claimed (1) that all repairs succeeded: %s', jobs, show)
        if fired: c.count('tool_failures')
        if 'PPID' in what and fired:
            c.require(x.rc not in (0, 1), 'a killed job was not reported (%d): %s', x.rc, show)
            c.count('killed_jobs')
        c.eval()
        c.sig('fault', name, action, what, nth, mode, bool(jobs), fired, x.rc)


def odd_case(c, n):
    """No par2; broken recovery files; recovery data made from a damaged pack; generating again."""
    r = c.rng
    for _ in range(n):
        rp = Repo(c, r, r.choice([1, 2, 3]), gen=r.random() < .5)
        nopar = c.tmp('nopar')
        os.makedirs(nopar)
        for t in ('git', 'sh', 'env', 'cat'):
            os.symlink(shutil.which(t), nopar + '/' + t)
        e = {'PATH': nopar}
        # without par2
        c.bup('fsck', repo=rp.path, env=e)
        c.bup('fsck', '-j2', '--quick', repo=rp.path, env=e)
        x = c.bup('fsck', '--par2-ok', repo=rp.path, env=e, ok=None)
        c.require(x.rc == 1, '--par2-ok without par2 gave %d', x.rc)
        c.bup('fsck', '--par2-ok', repo=rp.path)
        for m in ('-g', '-r'):
            x = c.bup('fsck', m, repo=rp.path, env=e, ok=None)
            c.require(x.rc not in (0, 1), 'fsck %s without par2 gave %d: %r', m, x.rc, x)
        c.require(rp.now() == rp.orig, 'fsck without par2 changed files')
        res = apply_damage(c, r, rp)
        x = c.bup('fsck', repo=rp.path, env=e, ok=None)
        c.require(x.rc not in (0,), 'fsck without par2 missed damage %s: %r', q(res), x)
        c.count('no_par2')
        c.eval(7)
        # recovery data made from a damaged pack
        rp.reset()
        s = r.choice(rp.stems)
        if s not in rp.par2:
            d = rp.orig[s + '.pack']
            i = r.randrange(len(d))
            wr(rp.pd + '/' + s + '.pack', d[:i] + bytes([d[i] ^ 1]) + d[i + 1:])
            g = c.bup('fsck', '-g', repo=rp.path, ok=None)
            for m in ([], ['--quick'], ['-j2']):
                x = c.bup('fsck', '-r', *m, repo=rp.path, ok=None)
                c.require(x.rc not in (0, 1), 'fsck -r %s gave %d, although the recovery data was made from the damaged pack (byte %d of %d): %r', m, x.rc, i, len(d), x)
            x = c.bup('fsck', repo=rp.path, ok=None)
            c.require(x.rc != 0, 'fsck of a pack that was damaged before its recovery data was made succeeded: %r', x)
            c.count('late_recovery_data')
            c.eval(4)
        # broken recovery files next to a repairable pack
        rp.reset()
        c.bup('fsck', '-g', repo=rp.path)
        full = rp.now()
        c.bup('fsck', '-g', repo=rp.path)
        c.require(rp.now() == full, 'generating again changed files')
        if len(rp.stems) > 1:
            a, b = r.sample(rp.stems, 2)
            e_ = r.choice(['.par2', '.vol000+200.par2'])
            if r.random() < .5: wr(rp.pd + '/' + a + e_, b'')
            else: os.unlink(rp.pd + '/' + a + e_)
            d = full[b + '.pack']
            i = r.randrange(len(d))
            wr(rp.pd + '/' + b + '.pack', d[:i] + bytes([d[i] ^ 1]) + d[i + 1:])
            x = c.bup('fsck', '-r', *r.choice([[], ['-j2']]), repo=rp.path, ok=None)
            c.require(rp.now()[b + '.pack'] == d, 'repairable pack not repaired: %r', x)
            c.require(x.rc not in (0, 1), 'broken recovery files (%s) were not reported (%d): %r', e_, x.rc, x)
            c.require(b'par2' in x.err, 'broken recovery files were not named: %r', x)
            c.count('broken_recovery_files')
            c.eval()
        # bup damage is what the documentation suggests for trying this
        rp.reset()
        c.bup('fsck', '-g', repo=rp.path)
        s = r.choice(rp.stems)
        f = rp.pd + '/' + s + '.pack'
        wr(f, rp.orig[s + '.pack'])
        others = {k: v for k, v in rp.now().items() if k != s + '.pack'}
        c.bup('damage', '-n%d' % r.randint(1, 5), '-s', r.choice(['1', '20']), '-S', str(r.getrandbits(20)), *(['--equal'] if r.random() < .5 else []), f, repo=rp.path)
        hit = rd(f) != rp.orig[s + '.pack']
        c.require(len(rd(f)) == len(rp.orig[s + '.pack']), 'bup damage changed the size')
        c.require({k: v for k, v in rp.now().items() if k != s + '.pack'} == others, 'bup damage changed other files')
        x = c.bup('fsck', repo=rp.path, ok=None)
        c.require((x.rc != 0) == hit, 'fsck after bup damage (%s): %r', 'effective' if hit else 'no change', x)
        x = c.bup('fsck', '-r', repo=rp.path, ok=None)
        c.require(x.rc == (1 if hit else 0) and rd(f) == rp.orig[s + '.pack'], 'repair after bup damage: %r', x)
        c.eval(2)
        # a pack that is gone is at least mentioned
        os.unlink(f)
        x = c.bup('fsck', repo=rp.path, ok=None)
        c.require(s.encode() in x.err, 'files of a missing pack were not mentioned: %r', x)
        c.sig('odd', len(rp.stems), len(rp.par2))


def go(c, p):
    {'main': main_case, 'fault': fault_case, 'odd': odd_case}[p[0]](c, p[1])


if __name__ == '__main__':
    k = Check('P17', rule='One evaluation = one fsck run (check, quick check, parallel check, check of one pack, repair) on a repository whose files were damaged in a known way, the exit status and the resulting bytes compared with what was done: '
              'any damage must be reported, damage within the recovery data must be undone exactly, and a repair may only be claimed when all original bytes are back. Also with git, par2 or a job failing, dying or doing nothing. Distinct: kinds of damage, options, outcome.',
              assumptions=['--quick compares each file with its own checksum, so it cannot see a file replaced by that of another pack', 'a pack file that is missing altogether is only mentioned, as documented',
                           'damage is certainly repairable when it overwrites or cuts at most 190 of par2\'s blocks; between that and 260, and for insertions, both outcomes are accepted if reported correctly'])
    a, b, d = k.pick((16, 12, 8), (150, 120, 60))
    k.run_cases([('main-%d' % i, ('main', 5)) for i in range(a)] + [('fault-%d' % i, ('fault', 7)) for i in range(b)] + [('odd-%d' % i, ('odd', 1)) for i in range(d)], go)
    k.need('damage_detected', 60)
    k.need('repaired', 12)
    k.need('unrepairable', 5)
    k.need('tool_failures', 20)
    k.need('killed_jobs', 2)
    k.finish()

#!/usr/bin/python3.12
"""P09: data is forced to disk before anything refers to it.  Online trace checker over the
recorded sequence of filesystem operations of every process a command starts."""
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from bv import *
from scen import *
from reader import Repo
import shim

CACHE = re.compile(rb'(\.midx|\.bloom|/bupindex|/bupindex\.hlink|\.idx|\.pack)$')


class Trace:
    """Durability state of every file below the roots, driven by the log."""
    def __init__(self, c, what):
        self.c, self.what = c, what
        self.dirty = {}       # path -> why its contents may not be on disk
        self.entries = {}     # path -> why its directory entry may not be on disk
        self.final = set()    # packs and indexes published by this command
        self.published = 0
        self.seen = {}

    def bad(self, n, msg, *a):
        raise Violation('%s: event %d: %s' % (self.what, n, msg % a))

    def move(self, a, b):
        if a in self.dirty:
            self.dirty[b] = self.dirty.pop(a)
        else:
            self.dirty.pop(b, None)
        self.entries.pop(a, None)
        self.entries[b] = 'moved from %r' % os.path.basename(os.path.dirname(a) + b'/' + os.path.basename(a))

    def durable_or_bad(self, n, event):
        for f in sorted(self.final):
            if f in self.dirty:
                self.bad(n, '%s while the contents of %r may not be on disk (%s)', event, os.path.basename(f), self.dirty[f])
            if f in self.entries:
                self.bad(n, '%s while the directory entry of %r may not be on disk (%s)', event, os.path.basename(f), self.entries[f])

    def feed(self, evs):
        for n, (pid, op, ret, p, p2) in enumerate(evs):
            if ret < 0:
                continue
            self.seen[op] = self.seen.get(op, 0) + 1
            base = os.path.basename(p)
            inpack = os.path.dirname(p).endswith(b'/objects/pack')
            if op in ('write', 'ftruncate', 'trunc', 'mmapw', 'pwrite', 'writev'):
                if op == 'mmapw' and (base.endswith(b'bupindex') or b'(deleted)' in p):
                    continue      # entries of an existing index are changed in place, by design
                self.dirty[p] = '%s at event %d' % (op, n)
                if p in self.final and op != 'mmapw':
                    self.bad(n, '%r written (%s) after it was moved into place', base, op)
                if inpack and base.endswith((b'.midx', b'.bloom')) and b'tmp' not in base and op == 'write':
                    self.bad(n, '%r written after it was moved into place', base)
            elif op in ('fsync', 'fdatasync'):
                if p in self.dirty:
                    del self.dirty[p]
                    self.c.count('files_synced')
                done = [x for x in self.entries if os.path.dirname(x) == p]
                for x in done: del self.entries[x]
                if done: self.c.count('directories_synced')
            elif op == 'msync':
                self.dirty.pop(p, None)
            elif op in ('rename', 'link'):
                d2 = os.path.dirname(p2)
                if d2.endswith(b'/objects/pack') and p2.endswith((b'.pack', b'.idx')) and b'/refs/' not in p2:
                    if p in self.dirty:
                        self.bad(n, '%r moved into place with unsynced contents (%s)', os.path.basename(p2), self.dirty[p])
                    self.move(p, p2)
                    self.final.add(p2)
                    self.c.count('packs_and_indexes_published')
                elif b'/refs/' in p2 or p2.endswith(b'/packed-refs'):
                    self.durable_or_bad(n, 'ref %r changed' % p2[-30:])
                    self.published += 1
                    self.c.count('ref_updates_observed')
                elif CACHE.search(p2) and not p2.endswith(b'.tmp.bloom') and b'.tmp' not in os.path.basename(p2) and b'tmp-gc' not in p2 \
                        and not re.search(rb'bloom[^/]{8}$', p2) and b'pending' not in p2:
                    if p in self.dirty:
                        self.bad(n, '%r replaced by a file with unsynced contents (%s)', os.path.basename(p2), self.dirty[p])
                    self.move(p, p2)
                    self.c.count('replacements_observed')
                else:
                    self.move(p, p2)
            elif op == 'unlink':
                self.dirty.pop(p, None)
                self.entries.pop(p, None)
                if inpack and base.endswith((b'.pack', b'.idx')):
                    if p in self.final:
                        self.final.discard(p)
                    self.durable_or_bad(n, 'old pack %r removed' % base)
                    self.c.count('pack_removals_observed')


KINDS = ['save', 'split', 'get', 'rsave', 'rsplit', 'rewrite', 'gc', 'rm', 'prune', 'index', 'maint', 'tag', 'import', 'rget', 'repair', 'saveremote2']


def one(c, w, sh, cmd, want_ref=None, **kw):
    sh.reset()
    res = w.run(cmd, env=sh.env(), ok=None, **kw)
    if res.rc not in (0, 1, 2) or res.rc and not cmd.kind.startswith(('get', 'rewrite', 'repair', 'prune')):
        raise Violation('%r exited with %d: %s' % (cmd, res.rc, q(res.err[-400:])))
    evs = sh.events()
    t = Trace(c, repr(cmd))
    t.feed(evs)
    if sh.get('n') > len(evs) and not evs:
        raise EnvError('no events recorded')
    c.count('events_checked', len(evs))
    c.eval()
    c.sig(cmd.kind, len(t.final), t.published, sorted(t.seen.items()))
    c.count('commands_' + cmd.kind)
    return t


def go(c, p):
    kind, n = p
    r = c.rng
    w = World(c, strip=True, small=r.random() < .7, entries=r.choice([4, 10, 20]), packlimit=r.choice([2000, 9000, 60000, 10**9]))
    c.env['BUP_TEST_LEVEL'] = '1'
    w.setup(r.randint(1, 2), split=.4)
    if kind in ('get', 'rget', 'rewrite', 'repair'):
        w.make_other(2, share=r.random() < .5)
    far = c.dir + '/far'
    c.bup('init', repo=far)
    c.git('config', 'pack.packSizeLimit', str(r.choice([20000, 100000, 10**9])), repo=far)
    sh = shim.Shim(c, [w.repo, c.env['HOME'], far], log=True)
    for i in range(n):
        k = kind
        if k == 'save':
            w.mutate()
            one(c, w, sh, w.index())
            t = one(c, w, sh, w.save())
        elif k == 'split': t = one(c, w, sh, w.split(unnamed=.1))
        elif k == 'get': t = one(c, w, sh, w.get())
        elif k == 'rget':
            x = w.get(remote='-:' + far)
            t = one(c, w, sh, x)
        elif k == 'rsave':
            w.mutate()
            w.run(w.index())
            t = one(c, w, sh, w.save(remote='-:' + far))
        elif k == 'saveremote2':
            w.mutate()
            w.run(w.index())
            t = one(c, w, sh, w.save(remote='-:' + w.repo))
        elif k == 'rsplit': t = one(c, w, sh, w.split(remote='-:' + far))
        elif k == 'rewrite': t = one(c, w, sh, w.rewrite())
        elif k == 'repair':
            b, s = r.choice(w.some_paths(w.other))
            t = one(c, w, sh, Cmd('repair', ['get', '-s', w.other, '--repair', '--pick:', s, b'/rep%d' % r.randint(0, 2)], ok=(0, 1, 2, 3)))
        elif k == 'gc':
            if r.random() < .7:
                w.run(w.rm(), ok=None)
            else:
                w.run(w.split(unnamed=1))
            t = one(c, w, sh, w.gc(r.choice([0, 0, 10, 50])))
            if not any(x.startswith(b'refs/heads/') for x in w.refs()):
                w.do_save()
        elif k == 'rm':
            t = one(c, w, sh, w.rm())
            w.do_save()
        elif k == 'prune':
            w.setup(2)
            t = one(c, w, sh, w.prune())
            w.do_save()
        elif k == 'index':
            w.mutate()
            t = one(c, w, sh, w.index())
        elif k == 'tag': t = one(c, w, sh, w.tag())
        elif k == 'maint':
            w.do_split()
            t = one(c, w, sh, r.choice([Cmd('midx-a', ['midx', '-a']), Cmd('midx-f', ['midx', '-f']), Cmd('bloom', ['bloom']), Cmd('bloom-f', ['bloom', '-f'])]))
        elif k == 'import':
            root = c.tmp('snaps')
            os.mkdir(root) if not os.path.isdir(root) else None
            for s in ('daily.0', 'daily.1'):
                os.makedirs(root + '/' + s)
                TreeGen(r, maxentries=4, maxdepth=1, special=False, xattr=False, owners=False, times='sane', big=False, modes=False).make(root + '/' + s + '/host')
            t = one(c, w, sh, Cmd('import', ['import-rsnapshot', root + '/']))
    c.sample({'kind': kind, 'final': len(t.final), 'refs': t.published, 'ops': t.seen})


if __name__ == '__main__':
    k = Check('P09', rule='One evaluation = one command whose complete filesystem trace (all processes, including the server of a remote run) was checked online: contents of packs, indexes and replacement files '
              'synced before they are moved into place and never written afterwards; before any ref changes or old pack goes, contents and directory entries of every pack and index the command published synced. '
              'Distinct: command x files published x refs changed x operation counts.',
              assumptions=['the tracing shim sees every libc file operation of bup and git', 'refs themselves are written by git, whose own durability settings are not judged'])
    shim.build(k)
    n, m = k.pick((32, 1), (480, 6))
    k.run_cases([('%s-%d' % (KINDS[i % len(KINDS)], i), (KINDS[i % len(KINDS)], m)) for i in range(n)], go)
    k.need('ref_updates_observed', 10)
    k.need('packs_and_indexes_published', 20)
    k.finish()

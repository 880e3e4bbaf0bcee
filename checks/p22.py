#!/usr/bin/python3.12
"""P22: a failing read, write or other disk operation is reported, costs nothing else that was asked
for, and harms nothing that was there."""
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import errno, subprocess
from bv import *
from scen import *
from reader import Repo, FormatError, read_refs
import shim, p24, hashlib, stat
from shim import K
from p08 import chains, treesig, same_result, unlock, tree_diff

KINDS = ['save', 'index', 'split', 'restore', 'get', 'join', 'rsave', 'maint', 'gc', 'ls', 'rewrite', 'save', 'prune', 'rsplit', 'index', 'fsck', 'rm', 'cat', 'save', 'restore',
         'tag', 'output', 'nobody', 'rget', 'indexq', 'metaf', 'rrestore', 'split-file']
ERR = {'OPEN': 'ENOSPC EACCES EIO EROFS EMFILE', 'WRITE': 'ENOSPC EIO EDQUOT', 'RENAME': 'EIO ENOSPC EACCES', 'UNLINK': 'EIO EACCES EROFS', 'MKDIR': 'ENOSPC EACCES EIO', 'TRUNC': 'ENOSPC EIO',
       'FSYNC': 'EIO ENOSPC', 'LINK': 'EIO ENOSPC EPERM', 'MMAP': 'EIO ENOMEM', 'READ': 'EIO', 'OPENR': 'EIO EACCES EMFILE', 'STAT': 'EIO EACCES', 'CLOSE': 'EIO ENOSPC', 'DIR': 'EIO EACCES', 'META': 'EIO EPERM',
       'FSTAT': 'EIO', 'READLINK': 'EIO EACCES'}
STRICT = {'WRITE', 'OPEN', 'RENAME', 'FSYNC', 'TRUNC', 'MKDIR', 'MMAP', 'CLOSE', 'LINK', 'META'}


def commands(w, kind, c):
    """-> commands before, commands under test, roots to disturb, output directory"""
    r = c.rng
    c.env['BUP_TEST_LEVEL'] = '1'
    remote = '-:' + w.repo
    home = c.env['HOME']
    out = c.dir + '/out'
    os.makedirs(home + '/.cache', exist_ok=True)
    R = [w.repo, home + '/.cache']
    S = [w.src]
    paths = lambda: w.some_paths()
    if kind in ('save', 'rsave'):
        w.mutate()
        return [w.index()], [w.save(remote=remote if kind == 'rsave' else None)], r.choice([R, S, R + S]), None
    if kind == 'index':
        w.mutate(6)
        return [], [w.index()], r.choice([R, S, S, R + S]), None
    if kind in ('split', 'rsplit'):
        return [], [w.split(unnamed=.3, remote=remote if kind == 'rsplit' else None)], R, None
    if kind == 'split-file':
        d = c.tmp('in')
        names = []
        os.mkdir(d)
        for i in range(r.randint(1, 4)):
            names.append('%s/%d' % (d, i))
            with open(names[-1], 'wb') as f: f.write(w.data())
        x = w.split(unnamed=.3)
        x.args += r.choice([[], ['--keep-boundaries'], ['-q']]) + names
        x.input = b''
        return [], [x], r.choice([[d], R]), None
    if kind in ('get', 'rget'):
        return [], [w.get(remote=remote if kind == 'rget' else None)], R + [w.other], None
    if kind == 'rewrite':
        return [], [w.rewrite()], R + [w.other], None
    if kind == 'maint':
        return [], [r.choice([Cmd('midx-a', ['midx', '-a']), Cmd('midx-f', ['midx', '-f']), Cmd('bloom-f', ['bloom', '-f']), Cmd('bloom', ['bloom']), Cmd('midx-auto', ['midx', '--auto']),
                              Cmd('midx-check', ['midx', '--check', '-a']), Cmd('init', ['init'])])], R, None
    if kind == 'gc': return [], [w.gc(r.choice([0, 10, 50]))], R, None
    if kind == 'prune': return [], [w.prune()], R, None
    if kind == 'rm': return [], [w.rm()], R, None
    if kind == 'tag': return [], [w.tag()], R, None
    if kind == 'fsck': return [], [Cmd('fsck', ['fsck'] + r.choice([[], ['--quick'], ['-j3']]))], R, None
    b, s = r.choice(paths())
    if kind in ('restore', 'rrestore'):
        p = r.choice([s + b'/.', s, b'/' + b + b'/.'])
        return [], [Cmd('restore', ['restore', '-q', '-C', out, *(['-r', remote] if kind == 'rrestore' else []), *r.choice([[], ['--sparse'], ['--numeric-ids']]), p])], r.choice([R, [out], R + [out]]), out
    if kind == 'join':
        hs = [b for b, s in paths() if c.bup('ls', s, repo=w.repo).out.split(b'\n')[0] == b'data']
        return [], [Cmd('join', ['join', *(['-o', out + '/f'] if r.random() < .4 else []), *r.choice([[], ['-r', remote]]), r.choice(hs)])] if hs else [Cmd('ls', ['ls', '-R', b'/' + b])], R + [out], out
    if kind == 'ls':
        return [], [Cmd('ls', r.choice([['ls', '-R', b'/' + b], ['ls', '-alR' , s], ['ls', '-s', '--commit-hash', b'/'], ['ls', '-r', remote, '-R', s], ['ls', '-lR', '-n', s, b'/']]))], R, None
    if kind == 'cat':
        fs = [l for l in c.bup('ls', '-AR', s, repo=w.repo, ok=None).out.split(b'\n') if l]
        return [], [r.choice([Cmd('cat-file', ['cat-file', s]), Cmd('cat-file-m', ['cat-file', '--meta', s]), Cmd('bupm', ['cat-file', '--bupm', s]), Cmd('list-idx', ['list-idx', *[w.repo + '/objects/pack/' + f for f in sorted(os.listdir(w.repo + '/objects/pack')) if f.endswith('.idx')]]),
                              Cmd('margin', ['margin']), Cmd('voj', ['validate-object-links']), Cmd('vr', ['validate-refs', '--links'])])], R, None
    if kind == 'indexq':
        return [w.index()], [r.choice([Cmd('ip', ['index', '-p']), Cmd('im', ['index', '-m']), Cmd('is', ['index', '-s', '-H', '-l']), Cmd('ic', ['index', '--check', '-p']), Cmd('iclear', ['index', '--clear'])])], R, None
    if kind == 'metaf':
        return [], [r.choice([Cmd('mc', ['meta', '-c', '-R', '-f', out + '/m', '.']), Cmd('xstat', ['xstat', w.src]), Cmd('drecurse', ['drecurse', w.src])])], S + [out], out
    raise AssertionError(kind)


def outcome(c, w, kind, cmds, out, env, **kw):
    res = []
    for x in cmds:
        res.append(c.bup(*x.args, input=x.input, repo=x.repo or w.repo, env={**env, **x.env}, ok=None, cwd=w.src if kind == 'metaf' else None, **kw))
    return res


STORES = ('save', 'rsave', 'get', 'rget', 'rewrite', 'split', 'split-file', 'rsplit', 'prune', 'gc')
DROPS = ('rm', 'prune', 'gc', 'tag')


def state(c, w, kind, out, res):
    rp = Repo(w.repo, lenient=True)
    st = {'refs': chains(rp), 'out': [x.out for x in res] if kind not in STORES else None}
    if kind in ('split', 'split-file', 'rsplit'):
        # blob and tree names are determined, commits contain the date
        st['out'] = [x.out for x in res] if not any('-c' in x.args for x in res) else None
    if out: st['tree'] = files_at(out, kind in ('restore', 'rrestore'))
    if kind in ('index', 'indexq'): st['index'] = index_dump(c, w)
    return st, rp


def index_dump(c, w):
    """{path: line} of the index."""
    a = c.bup('index', '-p', '-l', '-H', w.src, ok=None)
    b = c.bup('index', '-s', w.src, ok=None)
    return (a.rc, sorted(a.out.split(b'\n')), b.rc, sorted(b.out.split(b'\n')))


def files_at(d, mtime):
    x = {n: e for n, e in snap(d, mtime=mtime).items() if n != b''} if os.path.isdir(d) else None
    for e in (x or {}).values():
        if mtime and e['mtime'] > 1500 * 10**15: e.pop('mtime')   # made by the command itself
    return x


def lines(c, w): return set(c.bup('index', '-p', w.src, ok=None).out.split(b'\n'))


def prepare(c, kind):
    r = c.rng
    w = World(c, strip=True, small=r.random() < .8, entries=r.choice([4, 8, 14]), packlimit=r.choice([8000, 50000, 10**9]))
    w.setup(r.randint(2, 4), split=.4)
    if kind in ('get', 'rget', 'rewrite'): w.make_other(r.randint(1, 3), share=r.random() < .6)
    if kind in ('gc', 'prune', 'rm'):
        w.setup(2)
        heads = sorted(x for x in w.refs() if x.startswith(b'refs/heads/'))
        if kind == 'gc' and len(heads) > 1:
            w.run(Cmd('rm', ['rm', '--unsafe', b'/' + heads[0][11:]]))
            w.branches = [b for b in w.branches if fse(b) != heads[0][11:]]
    for _ in range(r.randint(0, 2)):
        w.run(r.choice([Cmd('midx', ['midx', '-a']), Cmd('midx-f', ['midx', '-f']), Cmd('bloom', ['bloom'])]), ok=None)
    if w.mut is None: w.make_src()
    return w


def faults(c, kind, npts):
    r = c.rng
    w = prepare(c, kind)
    pre, cmds, roots, out = commands(w, kind, c)
    for x in pre: w.run(x)
    if out: os.makedirs(out, exist_ok=True)
    base = c.dir + '/base'
    copy_repo(w.repo, base)
    home = os.path.join(c.env['HOME'], '.cache')
    if os.path.isdir(home): copy_repo(home, c.dir + '/cache0')
    rp0 = Repo(base)
    ch0 = chains(rp0)
    live0 = rp0.reachable(list(rp0.refs().values()))
    sh = shim.Shim(c, roots, log=True)
    env = sh.env()
    if r.random() < .8: env['BV_NOT'] = 'git'
    else: c.count('cases_with_git_disturbed')
    sh.reset(fail_kinds=sum(K.values()))
    res = outcome(c, w, kind, cmds, out, env)
    counts = sh.kinds()
    rcs = [x.rc for x in res]
    want, rpn = state(c, w, kind, out, res)
    paths_n = lines(c, w) if kind == 'index' else None
    fin = c.dir + '/final'
    copy_repo(w.repo, fin)
    if not counts:
        c.count('nothing_to_disturb')
        return
    for k, n in counts.items(): c.count('undisturbed_%s_events' % k, n)
    tip = saved = None
    if kind in ('save', 'rsave'):
        tip = cmds[0].writes[0]
        saved = rpn.walk_dir(rpn.commit(rpn.refs()[tip])['tree'])
    for _ in range(npts):
        copy_repo(base, w.repo)
        if os.path.isdir(home): force(home)
        if os.path.isdir(c.dir + '/cache0'): copy_repo(c.dir + '/cache0', home)
        if out:
            force(out)
            os.makedirs(out)
        short = r.random() < .08
        k = 'WRITE' if short and 'WRITE' in counts else r.choice(sorted(counts))
        at = r.randint(1, counts[k])
        en = r.choice(ERR[k].split() + (['ENOENT'] if kind == 'save' and roots == [w.src] and k != 'DIR' else []) + (['EINTR'] if k in ('READ', 'WRITE', 'OPENR') else []))
        more = en != 'EINTR' and r.random() < .2
        if short: sh.reset(fail_kinds=K['WRITE'], short_write=r.getrandbits(30) | 1)
        else: sh.reset(fail_kinds=K[k], fail_at=at, fail_errno=getattr(errno, en), fail_more=int(more))
        try: res = outcome(c, w, kind, cmds, out, env)
        except Violation as ex: raise Violation('%s %d of %d (%s%s; %s): %s' % (k, at, counts[k], en, ' and later' if more else '', q([os.path.relpath(e[3], fse(c.dir)) for e in sh.events() if e[1] == 'fail'][:4]), ex), key=ex.key)
        ev = sh.events()
        failed = [(*e[:3], e[3].rstrip(b'/'), e[4]) for e in ev if e[1] == 'fail']
        if short: what = '%s with short writes' % cmds[-1]
        else:
            if not sh.get('hits'):
                c.count('not_reached')
                continue
            what = '%s, %s %d of %d%s fails with %s (%s)' % (cmds[-1], k, at, counts[k], ' and all later' if more else '', en, q([os.path.relpath(e[3], fse(c.dir)) for e in failed[:3]]))
        rc = [x.rc for x in res]
        err = b''.join(x.err for x in res)
        what += ' -> exit %s, stderr %s' % (rc, q(err[-300:]))
        c.eval()
        c.count('short_write_runs' if short else 'failed_%s' % k)
        c.sig(kind, cmds[-1].kind, k, en, rc == rcs, more, env.get('BV_NOT'))
        try:
            got, rp = state(c, w, kind, out, res)
            # nothing that was there is harmed
            for n in set(ch0) | set(want['refs']) | set(got['refs']):
                a = got['refs'].get(n)
                if a in (ch0.get(n), want['refs'].get(n)): continue
                if kind in ('get', 'rget', 'rewrite') and a and want['refs'].get(n) and want['refs'][n][-len(a):] == a: continue
                if kind in ('save', 'rsave') and n == tip and any(rc) and a and a[1:] == (ch0.get(n) or []): continue    # a save with parts missing
                raise Violation('%s: %s is neither what it was nor the result: %s' % (what, q(n), q(a)))
            live = rp.reachable(list(rp.refs().values()))
            for o in live: rp.get(o)
            if kind not in DROPS:
                lost = [o for o in live0 if not rp.has(o)]
                c.require(not lost, '%s: lost %d objects', what, len(lost))
            c.count('objects_read_after_failure', len(live))
        except FormatError as ex:
            raise Violation('%s: %s' % (what, ex))
        if rc == rcs:
            c.count('failures_without_effect')
            for key in want:
                c.require(got[key] == want[key], '%s: reported nothing, but %s differs from the undisturbed run: %s', what, key, q(diff_snap(want[key], got[key]) if key == 'tree' else [want[key], got[key]], 700))
            if k in STRICT and not short and en != 'EINTR' and rcs == [0] * len(rcs):
                # closing what was already synchronised can lose nothing
                wrote = [e[1] for e in ev if e[3] == failed[0][3] and e[1] in ('write', 'mmapw', 'msync', 'fsync')][-1:] in (['write'], ['mmapw'])
                c.require(k == 'CLOSE' and not wrote, '%s: reported nothing', what)
        else:
            c.count('failures_reported')
            if rcs == [0] * len(rcs): c.require(any(x.rc and x.err.strip() for x in res), '%s: no message', what)
            # everything else that was asked for is there
            if kind in ('save', 'rsave') and failed and all(e[3].startswith(fse(w.src) + b'/') for e in failed) and not short:
                bad = [os.path.relpath(e[3], fse(w.src)) for e in failed]
                near = lambda p: any(b == b'.' or p == b or p.startswith(b + b'/') for b in bad)
                refs = rp.refs()
                c.require(tip in refs and refs[tip] != rp0.refs().get(tip), '%s: nothing was saved', what)
                now = rp.walk_dir(rp.commit(refs[tip])['tree'])
                for p in set(saved) | set(now):
                    if near(p): continue
                    a, b = saved.get(p), now.get(p)
                    c.require(a and b and (a['kind'] == b['kind'] == 'dir' or sane(a) == sane(b)), '%s: also affected %s: %s instead of %s', what, q(p), q(b), q(a))
                c.count('partial_saves_compared')
                c.count('entries_kept_in_partial_saves', len(now))
            if kind == 'index' and failed and all(e[3].startswith(fse(w.src) + b'/') for e in failed) and not short:
                missing = [p for p in paths_n - lines(c, w) if not any(os.path.join(fse(w.src), p).rstrip(b'/') == e[3] or p.startswith(e[3] + b'/') for e in failed)]
                c.require(not missing, '%s: not indexed: %s', what, q(missing))
                c.count('partial_indexes_compared')
        # the same again, undisturbed
        if r.random() < .35 and b'read failed' not in err and kind not in DROPS and 'restore' not in kind and not (kind in ('get', 'rget', 'rewrite') and got['refs'] != ch0) and rcs == [0] * len(rcs):
            unlock(w.repo)
            sh.reset()
            res = outcome(c, w, kind, cmds, out, {})
            c.require([x.rc for x in res] == rcs, '%s; running it again fails: %s', what, q([x.err[-300:] for x in res]))
            got, rp = state(c, w, kind, out, res)
            for key in want:
                if key == 'refs':
                    for n in set(want[key]) | set(got[key]):
                        a, b = got[key].get(n), want[key].get(n)
                        ok = a == b or a and b and same_result(a, b, 'save')
                        if not ok and kind in ('save', 'rsave') and n == tip and a and b: ok = a[0] == b[0] and a[2:] == (ch0.get(n) or [])
                        if not ok and kind in ('get', 'rget', 'rewrite') and a and b: ok = a[0] == b[0]
                        c.require(ok, '%s; run again: %s%s is %s instead of %s', what, tree_diff(c, w.repo, fin, bytes.fromhex(a[0][0][0]), bytes.fromhex(b[0][0][0])) if a and b and a[0][0] != b[0][0] else '', q(n), q(a, 300), q(b, 300))
                elif key == 'index': c.require(lines(c, w) == paths_n if kind == 'index' else got[key] == want[key], '%s; run again: not the same paths', what)
                else: c.require(got[key] == want[key], '%s; run again: %s differs from the undisturbed run: %s', what, key, q(diff_snap(want[key], got[key]) if key == 'tree' else [want[key], got[key]], 700))
            c.count('commands_run_again')
    c.sample({'kind': kind, 'commands': [repr(x) for x in cmds], 'events': counts})
    sh.close()


def sane(e):
    e = dict(e)
    m = dict(e.get('meta') or {})
    m.pop('atime', None)
    if m.get('hardlink'): m['hardlink'] = True
    e['meta'] = m
    return sorted(e.items(), key=lambda x: x[0])


def outputs(c, n):
    """Standard output that can't be written."""
    r = c.rng
    w = prepare(c, 'save')
    w.do_save(branch='main')
    c.run_index = w.run(w.index())
    w.do_split(branch='sp') if False else w.run(Cmd('split', ['split', '-q', '-n', 'sp', '-d', str(T0)], input=w.data() + b'x'))
    c.env['BUP_TEST_LEVEL'] = '1'
    rem = ['-r', '-:' + w.repo]
    pd = w.repo + '/objects/pack/'
    idx = [pd + f for f in sorted(os.listdir(pd)) if f.endswith('.idx')]
    big = w.data() + b'z' * 5000
    tip = w.refs()[b'refs/heads/main'].hex()
    save = c.bup('ls', '/main', ok=True).out.split(b'\n')[0]
    cmds = [(['ls', '-alR', '/'], None), (['ls', *rem, '-lR', '/main'], None), (['join', 'sp'], None), (['join', *rem, 'sp'], None), (['cat-file', b'/main/' + save], None), (['cat-file', '--bupm', b'/main/' + save], None),
            (['split', '-b'], big), (['split', '-t'], big), (['split', '-c'], big), (['split', *rem, '-t'], big), (['split', '--copy'], big), (['split', '--noop', '-b'], big),
            (['index', '-p'], None), (['index', '-s', w.src], None), (['index', '-m', '-H', '-l'], None), (['index', '-u', '-p', w.src], None),
            (['list-idx', *idx], None), (['midx', '-f', '-p'], None), (['midx', '--print', '-a'], None), (['margin'], None), (['margin', '--predict'], None), (['meta', '-t', '-f', c.dir + '/m'], None), (['meta', '-c', w.src], None), (['meta', '-c', '-R', w.src], None),
            (['xstat', w.src], None), (['drecurse', w.src], None), (['version'], None), (['features'], None), (['help'], None), (['--help'], None), (['tag'], None), (['random', '20000'], None), (['ftp'], b'ls /\n'), (['ftp'], b'cat /sp/latest/data\n'),
            (['save', '-t', '-n', 'x', w.src], None), (['save', '-c', w.src], None), (['save', '-t', *rem, w.src], None), (['get', '-s', w.repo, '--print-trees', '--new-tag:', '/main', '/.tag/tt'], None), (['get', '-s', w.repo, '-vv', '--print-commits', '--unnamed', '/main'], None),
            (['validate-object-links'], None), (['prune-older', '--pretend', '--unsafe', '--keep-all-for', '1s', '--wrt', '2000000000'], None), (['bloom', '--check', idx[0]], None), (['fsck', '-v'], None), (['memtest', '-n', '1', '-c', '1'], None),
            (['tick'], None), (['on', '-', 'ls', '/'], None), (['on', '-', 'version'], None), (['restore', '-n', '-C', c.dir + '/o', '/main/latest'], None), (['server'], b'help\nquit\n'), (['mux', 'echo', 'hello'], None)]
    c.bup('meta', '-c', '-f', c.dir + '/m', w.src)
    base = c.dir + '/base'
    copy_repo(w.repo, base)
    for a, inp in r.sample(cmds, min(n, len(cmds))):
        def again():
            copy_repo(base, w.repo)
            if os.path.isdir(c.dir + '/o'): force(c.dir + '/o')
        again()
        x = c.bup(*a, input=inp, ok=None)
        if not x.out:
            c.count('commands_without_output')
            continue
        what = 'bup %s with its output on %s'
        for how in ['/dev/full'] + ['disk full at write %d']:
            again()
            if how == '/dev/full':
                with open('/dev/full', 'wb') as f: y = c.bup(*a, input=inp, ok=None, stdout=f)
            else:
                d = c.tmp('o')
                os.mkdir(d)
                sh = shim.Shim(c, [d])
                with open(d + '/f', 'wb') as f: y = c.bup(*a, input=inp, ok=None, stdout=f, env=sh.env())
                m = sh.get('n')
                if not m: continue
                k = r.randint(1, m)
                again()
                sh.reset(fail_at=k, fail_errno=errno.ENOSPC, fail_more=r.randint(0, 1))
                with open(d + '/f', 'wb') as f: y = c.bup(*a, input=inp, ok=None, stdout=f, env=sh.env())
                how = how % k
                if not sh.get('hits'): continue
                sh.close()
            c.eval()
            c.count('outputs_refused')
            c.sig('output', a[0], how)
            c.require(y.rc != 0 and y.err.strip(), 'bup %s with its output refused (%s): exit %d, stderr %s', q(a), how, y.rc, q(y.err[-200:]))


def nobody(c, n):
    """As an ordinary user: unreadable files and directories, and others that vanish."""
    r = c.rng
    src, cli = c.dir + '/src', c.bup_dir
    TreeGen(r, maxentries=r.choice([6, 12, 25]), maxdepth=4, special=False, xattr=False, owners=False, times='sane', big=False, modes=False).make(src)
    os.chmod(c.dir, 0o755)
    for d, dn, fn in os.walk(fse(src)):
        for x in [b'.'] + fn:
            if not os.path.islink(os.path.join(d, x)): os.chmod(os.path.join(d, x), r.choice([0o644, 0o600, 0o640]) if x != b'.' else r.choice([0o755, 0o700]))
    os.makedirs(c.env['HOME'], exist_ok=True)
    for d in (src, c.env['HOME']): p24.chown_r(d)
    c.bup('init')
    p24.chown_r(cli)
    who = p24.as_nobody()
    everything = lambda: {k: v for k, v in snap(src).items()}
    for i in range(n):
        full = everything()
        files = [k for k, e in full.items() if e['type'] == stat.S_IFREG]
        dirs = [k for k, e in full.items() if e['type'] == stat.S_IFDIR and k]
        links = [k for k, e in full.items() if e['type'] == stat.S_IFLNK]
        # which inode is unreadable matters, not the name
        fbad = {x for k in r.sample(files, min(len(files), r.choice([0, 0, 1, 2]))) for x in full[k].get('links', (k,))}
        dbad = set(r.sample(dirs, min(len(dirs), r.choice([0, 0, 1, 2]))))
        modes = {}
        for k in fbad | dbad: modes[os.path.join(fse(src), k)] = os.lstat(os.path.join(fse(src), k)).st_mode & 0o7777
        for k in sorted(fbad | dbad, key=len, reverse=True):
            p = os.path.join(fse(src), k)
            os.chmod(p, r.choice([0, 0o200, 0o222, 0o333 if k in dbad else 0]))
        inside = lambda k, s: any(k == d or k.startswith(d + b'/') for d in s)
        clear = r.random() < .6
        if clear: [os.unlink(cli + '/' + f) for f in os.listdir(cli) if f.startswith('bupindex')]
        x = c.bup('index', '-u', src, ok=None, preexec=who)
        what = 'index as nobody with unreadable files %s and directories %s' % (q(fbad), q(dbad))
        c.require(x.rc != 0 if dbad else x.rc == 0 or fbad, '%s: exit %d, %s', what, x.rc, q(x.err[-300:]))
        top = [d for d in dbad if not inside(os.path.dirname(d), dbad)]
        for d in top: c.require(b'ermission' in x.err, '%s: no message about %s: %s', what, q(d), q(x.err[-300:]))
        # some vanish between index and save
        seen = [k for k in files if not inside(k, dbad)]
        gone = {}
        for k in r.sample(seen, min(len(seen), r.choice([0, 0, 1, 2]))):
            p = os.path.join(fse(src), k)
            gone[k] = p + b'.away'
            if len(gone[k].rsplit(b'/', 1)[1]) > 255: gone.pop(k); continue
            gone[k] = fse(c.dir) + b'/away%d' % len(gone)
            os.rename(p, gone[k])
        lgone = set()
        x = c.bup('save', '-q', '-n', 'm', '--strip', src, ok=None, preexec=who)
        what = 'save as nobody with unreadable files %s and directories %s, %s vanished after indexing' % (q(fbad), q(dbad), q(set(gone)))
        rp = Repo(c.bup_dir)
        refs = rp.refs()
        c.require(b'refs/heads/m' in refs, '%s: nothing saved: %s', what, q(x.err[-300:]))
        got = rp.walk_dir(rp.commit(refs[b'refs/heads/m'])['tree'])
        need = {k for k in full if k and not inside(k, dbad) and k not in fbad and k not in gone}
        lost = [k for k in need if k not in got]
        c.require(not lost, '%s: not saved: %s; %s', what, q(lost), q(x.err[-300:]))
        # (what was saved before and hasn't changed needs no reading)
        omitted = [k for k in full if k and not inside(k, {d for d in dbad}) and k not in got]
        extra = [k for k in got if k and k not in full]
        c.require(not extra, '%s: saved as well: %s', what, q(extra))
        if omitted:
            c.require(x.rc != 0, '%s: exit 0, although %s were left out', what, q(omitted))
            for k in omitted: c.require(os.path.basename(k).replace(b'\\', b'') and x.err.count(b'\n') >= 1, '%s: no message', what)
            c.count('omitted_and_reported', len(omitted))
        elif x.rc: c.require(b'rror' in x.err or b'arning' in x.err, '%s: exit %d without a message', what, x.rc)
        for k, e in got.items():
            if k in full and e['kind'] == 'file' and full[k]['type'] == stat.S_IFREG:
                c.require(hashlib.sha1(e['data']).hexdigest() == full[k]['sha'], '%s: content of %s', what, q(k))
            elif k in full and e['kind'] == 'link': c.require(full[k]['target'] == e['meta'].get('target', full[k]['target']), '%s: target of %s', what, q(k))
        c.eval()
        c.count('saves_as_nobody')
        c.count('entries_saved_as_nobody', len(got))
        c.sig('nobody', len(fbad), len(dbad), len(gone), clear, bool(omitted))
        for k, p in gone.items(): os.rename(p, os.path.join(fse(src), k))
        for p, m in modes.items(): os.chmod(p, m)
        # with everything readable again, everything is saved
        if r.random() < .4:
            for cmd in (['index', '-u', src], ['save', '-q', '-n', 'm', '--strip', src]): c.bup(*cmd, preexec=who)
            rp = Repo(c.bup_dir)
            got = rp.walk_dir(rp.commit(rp.refs()[b'refs/heads/m'])['tree'])
            c.require(set(got) - {b''} == set(full) - {b''}, 'save after %s, everything being readable again, lacks %s', what, q(set(full) - set(got)))
            c.count('complete_saves_afterwards')


def go(c, p):
    kind, n = p
    if kind == 'output': outputs(c, n)
    elif kind == 'nobody': nobody(c, n)
    else: faults(c, kind, n)


if __name__ == '__main__':
    k = Check('P22', rule='One evaluation = one bup command run with one system call failing (open, read, write, rename, unlink, mkdir, truncate, fsync, msync, mmap, stat, fstat, readlink, readdir, close, chmod/utime/chown; EIO, ENOSPC, EACCES, ...; '
              'in the source tree, the repository, the client cache, the output or standard output; once or from there on), or as a user who may not read everything. Required: nonzero exit and a message, or (for reads) exactly the undisturbed result; refs old or new, '
              'everything reachable present; all other files saved or indexed; and the command works again afterwards. Distinct: command x call x error x reported or not.',
              assumptions=['calls made by the C library itself (stdio) are not disturbed', 'an error from closing a file whose content has been synchronised loses nothing and need not be reported',
                           'an error from unlink of a temporary file need not be reported if the result is the same'])
    shim.build(k)
    run(['chmod', '-R', 'a+rX', k.bupdir])
    n, pts = k.pick((28, 6), (300, 40))
    kinds = [KINDS[i % len(KINDS)] for i in range(n)]
    k.run_cases([('%s-%d' % (x, i), (x, {'output': k.pick(6, 60), 'nobody': k.pick(4, 25)}.get(x, pts))) for i, x in enumerate(kinds)], go)
    k.need('failures_reported', 50)
    k.need('failures_without_effect', 5)
    k.need('outputs_refused', 1)
    k.need('saves_as_nobody', 2)
    k.finish()

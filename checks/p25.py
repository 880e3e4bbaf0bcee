#!/usr/bin/python3.12
"""P25: every save, split and tag is recorded where and as requested."""
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
from bv import *
from scen import verify_closed
from reader import Repo, read_refs, parse_commit

ZONES = ['UTC', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'CET-1CEST,M3.5.0,M10.5.0/3', 'NPT-5:45', '<-11>11', '<+14>-14']
GECOS = ['root', 'J. Doe Jr.', "O'Hara", 'x', '"Q"', 'a,b,c', '', ',', 'Jos\u00e9 \u00c1', 'dot.', ';semi;', 'back\\slash', 'a  b', ' lead', 'trail ', 'co:lon', "q'", '.', '\udcff\udcfe']
IDENT = re.compile(rb'[^\0\n<>]* <[^\0\n<> ]+@[^\0\n<>]+> \d+ [-+]\d{4}')


def gen_branch(r):
    k = r.random()
    if k < .3:
        return r.choice([b'main', b'a', b'a/b', b'x/y/z', b'2024', b'0', b'007', b'-1', b'1e5', b'latest', b'HEAD', b'2020-01-01-000000', b'refs/heads/main', b'heads/main', b'-n', b'--', b'-',
                         b'caf\xc3\xa9', b'\xff\xfe', b"it's", b'"q"', b'$x', b'a=b', b'a,b', b'%41', b'#h', b'a;b', b'a|b', b'a&b', b'<a>', b'(x)', b'{y}', b'!z', b'a@b', b'@a', b'a@', b'x' * 200, b'+', b'None', b'True', b'tags/x', b'origin/main'])
    if k < .6:
        return r.choice([b'@', b'a..b', b'..', b'.a', b'a.', b'a.lock', b'a.lock/b', b'a/.b', b'a//b', b'/a', b'a/', b'a b', b'a~b', b'a^b', b'a:b', b'a?b', b'a*b', b'a[b', b'a\\b', b'a@{b', b'@{', b'\x01', b'a\x7f', b'a\nb', b'a\tb',
                         b'x' * 300, b'a/b.lock', b'.', b'a.lock.', b'.lock', b'x.lockx', b'a]b', b'-x', b'\x80\x81', b'a./b', b'a/.lock', b'{', b'@@', b'a@/b'])
    pool = b'ab/.-@{~^: ?*[\\lock\xff\x01\x7f$0' if k < .85 else b'abc-_./0'
    n = bytes(r.choice(pool) for _ in range(r.randint(1, 7)))
    return n


def git_valid(c, name):
    if name == b'@' or not name:
        return False
    return run(['git', 'check-ref-format', b'refs/heads/' + name], env=c.env).rc == 0


def conflict(refs, name):
    """A ref exists where this name needs a directory, or the other way round; or it is too long."""
    full = b'refs/heads/' + name
    return any(x != full and (x.startswith(full + b'/') or full.startswith(x + b'/')) for x in refs) or max(map(len, name.split(b'/'))) > 240


def check_commit(c, what, repo, refs0, refs1, branch, date, tz, tree=None, oid=None, verb=b'save'):
    ref = b'refs/heads/' + branch
    ch = sorted(x for x in set(refs0) | set(refs1) if refs0.get(x) != refs1.get(x))
    c.require(ch == [ref], '%s: refs %s changed, expected only %r', what, ch, ref)
    rp = Repo(repo)
    k, d = rp.get(refs1[ref])
    c.require(k == b'commit', '%s: branch names a %r', what, k)
    m = parse_commit(d)
    c.require(m['parents'] == ([refs0[ref]] if ref in refs0 else []), '%s: parents %s, previous tip %s', what, [x.hex() for x in m['parents']], refs0.get(ref, b'').hex())
    head = d.split(b'\n\n')[0].split(b'\n')
    for who in (b'author', b'committer'):
        l = [x[len(who) + 1:] for x in head if x.startswith(who + b' ')]
        c.require(len(l) == 1 and IDENT.fullmatch(l[0]), '%s: malformed %s line %r', what, who, head)
    c.require(m['author'] == m['committer'], '%s: author %r, committer %r', what, m['author'], m['committer'])
    if isinstance(date, tuple):
        c.require(date[0] <= m['author'][2] <= date[1], '%s: dated %d, run between %s', what, m['author'][2], date)
    else:
        c.require(m['author'][2] == date, '%s: dated %d, requested %d', what, m['author'][2], date)
    c.require(m['author'][3] == time.strftime('%z', time.localtime(m['author'][2])).encode(), '%s: zone %r in %s', what, m['author'][3], tz)
    lines = m['message'].split(b'\n')
    c.require(lines[0] == b'bup ' + verb and lines[1] == b'' and any(x.startswith(b'Bup-Argv: ') for x in lines[2:]), '%s: message %r', what, m['message'])
    res = run(['git', '--git-dir', repo, 'log', '-1', '--format=%at|%ct|%P|%T|%ae', refs1[ref].hex()], env=c.env)
    c.require(res.out.startswith(b'%d|%d|%s|%s|' % (m['author'][2], m['author'][2], b''.join(x.hex().encode() for x in m['parents']), m['tree'].hex().encode())), '%s: git log reads %r', what, res)
    if tree is not None:
        c.require(m['tree'].hex().encode() == tree, '%s: tree %s, -t printed %s', what, m['tree'].hex(), tree)
    if oid is not None:
        c.require(refs1[ref].hex().encode() == oid, '%s: branch is at %s, -c printed %s', what, refs1[ref].hex(), oid)
    c.count('commits_checked')
    return rp, m


def settz(c, r):
    tz = r.choice(ZONES)
    c.env['TZ'] = os.environ['TZ'] = tz
    time.tzset()
    return tz


def gen_date(r):
    return r.choice([0, 1, 59, 951782400, 1400000000, 1400000000.9, 2**31 - 1, 2**31, 4102444800, 1e9, r.randint(0, 2**32)])


def record_case(c, n):
    r = c.rng
    c.env['BUP_TEST_LEVEL'] = '1'
    c.bup('init')
    remote_repo = c.dir + '/far'
    c.bup('init', repo=remote_repo)
    src = c.dir + '/src'
    TreeGen(r, maxentries=6, maxdepth=2, special=False, xattr=False, owners=False, times='sane', big=False, modes=False).make(src)
    for i in range(n):
        tz = settz(c, r)
        far = r.random() < .35
        repo = remote_repo if far else c.bup_dir
        while True:
            b = gen_branch(r)
            if not b.startswith(b'--') and git_valid(c, b) and not conflict(read_refs(repo), b):
                break
        env = {'LD_PRELOAD': c.check.scratch + '/pwshim.so'}
        g = r.choice(GECOS)
        if r.random() < .15: env['BV_NOPW'] = '1'
        else: env['BV_GECOS'] = g
        d = gen_date(r) if r.random() < .85 else None
        a = []
        kind = r.choice(['save', 'split'])
        if d is not None: a += [r.choice(['-d', '--date']), str(d) if isinstance(d, int) else '%r' % d]
        pt, pc = r.random() < .4, r.random() < .4
        if pt: a.append('-t')
        if pc: a.append('-c')
        if far: a += ['-r', '-:' + remote_repo]
        nopt = [r.choice([b'-n', b'--name']), b] if not b.startswith(b'-') or r.random() < .5 else [b'--name=' + b]
        refs0 = read_refs(repo)
        t0 = int(time.time())
        inp = None
        if kind == 'save':
            if r.random() < .5:
                with open(src + '/new%d' % i, 'wb') as f: f.write(r.randbytes(r.randint(0, 3000)))
            c.bup('index', src)
            res = c.bup('save', '-q', *a, *nopt, src, env=env)
        else:
            inp = gen_data(r, r.choice([0, 10, 50000]))
            res = c.bup('split', '-q', *a, *nopt, input=inp, env=env)
        what = '%s %s as %s' % (kind, q(a + nopt), env.get('BV_GECOS', 'nobody'))
        out = res.out.split()
        c.require(len(out) == pt + pc, '%s printed %r', what, res.out)
        refs1 = read_refs(repo)
        rp, m = check_commit(c, what, repo, refs0, refs1, b, int(d) if d is not None else (t0, int(time.time()) + 1), tz,
                             tree=out[0] if pt else None, oid=out[-1] if pc else None, verb=kind.encode())
        if kind == 'split':
            ents = rp.tree(m['tree'])
            x = [e for e in ents if e[1].startswith(b'data')]
            c.require(len(x) == 1 and rp.content(x[0][2], x[0][0]) == inp, '%s: the commit does not hold the input', what)
        else:
            top = os.fsencode(src)[1:]
            got = {k[len(top):]: v for k, v in rp.walk_dir(m['tree']).items() if k == top or k.startswith(top + b'/')}
            fs = snap(src)
            c.require({k.strip(b'/') for k in got} == {k.strip(b'/') for k in fs if k not in (b'.',)} | {b''}, '%s: the commit holds %s, the source %s', what, q(sorted(got)), q(sorted(fs)))
            for k, v in got.items():
                if v['kind'] == 'file':
                    with open(os.fsencode(src) + k, 'rb') as f:
                        c.require(f.read() == v['data'], '%s: content of %r', what, k)
        if b'/' not in b:
            nm = time.strftime('%Y-%m-%d-%H%M%S', time.localtime(m['author'][2])).encode()
            l = c.bup('ls', b'/' + b, repo=repo).out.split(b'\n')
            c.require(any(x.startswith(nm) for x in l), '%s: bup ls lists %s, not %r', what, l[:5], nm)
            c.require(len([x for x in l if x and x != b'latest']) == len(rp.history(refs1[b'refs/heads/' + b])), '%s: bup ls lists %d saves', what, len(l) - 2)
        else:
            c.require(b in c.bup('ls', repo=repo).out.split(b'\n'), '%s: bup ls does not list the branch', what)
        c.eval()
        c.sig(kind, far, b, d, g, pt, pc, tz)
    for x in (c.bup_dir, remote_repo):
        verify_closed(x)
        f = run(['git', '-c', 'fsck.zeroPaddedDate=ignore', '--git-dir', x, 'fsck', '--no-dangling'], env=c.env)
        bad = [l for l in (f.out + f.err).split(b'\n') if b'commit' in l and not l.startswith((b'notice', b'dangling')) and b'missingSpaceBeforeEmail' not in l]
        c.require(not bad and f.rc == 0, 'git fsck: %s', q(bad))


def names_case(c, n):
    r = c.rng
    c.bup('init')
    c.env['BUP_TEST_LEVEL'] = '1'
    src = c.dir + '/s'
    os.mkdir(src)
    with open(src + '/f', 'wb') as f: f.write(b'x')
    c.bup('index', src)
    for i in range(n):
        b = gen_branch(r)
        if not b: continue
        refs0 = read_refs(c.bup_dir)
        ok = git_valid(c, b) and not conflict(refs0, b)
        far = ['-r', '-:' + c.bup_dir] if r.random() < .2 else []
        if r.random() < .7: res = c.bup('split', '-q', *far, b'--name=' + b, input=b'hi', ok=None)
        else: res = c.bup('save', '-q', *far, b'--name=' + b, src, ok=None)
        refs1 = read_refs(c.bup_dir)
        what = 'name %r' % b
        if ok:
            c.require(res.rc == 0, '%s was refused: %r', what, res)
            c.require([x for x in refs1 if refs0.get(x) != refs1[x]] == [b'refs/heads/' + b], '%s: changed %s', what, [x for x in refs1 if refs0.get(x) != refs1[x]])
            k, d = Repo(c.bup_dir).get(refs1[b'refs/heads/' + b])
            c.require(parse_commit(d)['parents'] == [refs0[x] for x in [b'refs/heads/' + b] if x in refs0], '%s: wrong parents', what)
            c.count('names_accepted')
        else:
            c.require(res.rc != 0, '%s was accepted; refs: %s', what, [x for x in refs1 if refs0.get(x) != refs1[x]])
            c.require(refs0 == refs1, '%s: refused, but refs changed', what)
            c.count('names_refused')
        c.eval()
        c.sig('name', b, ok)
    out = sorted(x for x in c.bup('ls', '-A').out.split(b'\n') if x and x not in (b'.commit', b'.tag'))
    c.require(out == sorted(x[11:] for x in refs1 if x.startswith(b'refs/heads/')), 'bup ls lists %s', q(out))
    outside = [x for x in refs1 if not x.startswith((b'refs/heads/', b'refs/tags/'))]
    c.require(not outside, 'refs outside: %s', outside)


def tags_case(c, n):
    r = c.rng
    c.bup('init')
    for b in ('main', 'b2', 'x/main', 'refs/heads/main'):
        for i in range(r.randint(1, 3)):
            c.bup('split', '-q', '-n', b, input=b'%s%d' % (b.encode(), i))
    rp = Repo(c.bup_dir)
    heads = {k: v for k, v in rp.refs().items()}
    commits = [x[0] for o in heads.values() for x in rp.history(o)]
    other = [o for o in rp.all_oids() if o not in commits]
    pool = [b't1', b't2', b'0', b'5', b'v1.0', b'caf\xc3\xa9', b'\xff', b'a b', b'..', b'.x', b'a..b', b'x.lock', b'a/b', b'a', b'main', b'../heads/main', b'../../HEAD', b'-x', b'~', b'a~1', b'a:b', b'/abs', b'a/', b'@{', b'a\nb', b'HEAD', b'']
    for i in range(n):
        refs0 = read_refs(c.bup_dir)
        tags0 = {k[10:]: v for k, v in refs0.items() if k.startswith(b'refs/tags/')}
        t = r.choice(sorted(tags0)) if tags0 and r.random() < .45 else r.choice(pool)
        valid = t != b'' and not t.startswith(b'.') and run(['git', 'check-ref-format', b'refs/tags/' + t], env=c.env).rc == 0 \
            and not any(x != t and (x.startswith(t + b'/') or t.startswith(x + b'/')) for x in tags0)
        force = r.random() < .4
        want = dict(tags0)
        k = r.random()
        if k < .25:
            a = ['tag'] + (['-f'] if force else []) + ([b'-d', t] if r.random() < .5 else [b'--delete=' + t])
            if t in tags0:
                ok = True; del want[t]
            else:
                ok = None if force else False
        elif k < .9:
            e = r.random()
            if e < .5:
                o = r.choice(commits); ex = o.hex().encode()
                if r.random() < .2: ex = ex.upper()
            elif e < .75:
                b = r.choice(sorted(heads)); o = heads[b]
                ex = r.choice([b, b[11:]])
                if ex == b'refs/heads/main': o = heads[b'refs/heads/main']
            elif e < .82 and other:
                o = None; ex = r.choice(other).hex().encode(); o = bytes.fromhex(ex.decode())
            else:
                o = None; ex = r.choice([b'nosuch', r.randbytes(20).hex().encode(), b'0' * 40, b'deadbeef', b'x' * 40, b'', b'main~1', b'b', b'ain', commits[0].hex()[:39].encode()])
            a = ['tag'] + (['-f'] if force else []) + (['--', t, ex] if t.startswith(b'-') or r.random() < .1 else [t, ex])
            ok = bool(o and valid and (force or t not in tags0))
            if ok: want[t] = o
        else:
            res = c.bup('tag')
            c.require(sorted(res.out.split(b'\n')[:-1]) == sorted(tags0), 'bup tag lists %r, tags are %r', res.out, sorted(tags0))
            c.eval(); c.count('tag_listings'); continue
        res = c.bup(*a, ok=None)
        refs1 = read_refs(c.bup_dir)
        tags1 = {k2[10:]: v for k2, v in refs1.items() if k2.startswith(b'refs/tags/')}
        what = '%s with tags %s' % (q(a), q(sorted(tags0)))
        c.require({k2: v for k2, v in refs1.items() if not k2.startswith(b'refs/tags/')} == heads, '%s changed branches', what)
        if ok is not None:
            c.require((res.rc == 0) == ok, '%s: expected %s: %r', what, 'success' if ok else 'refusal', res)
        c.require(tags1 == want, '%s: tags %s, expected %s', what, {k2: v.hex() for k2, v in tags1.items() if want.get(k2) != v}, {k2: v.hex() for k2, v in want.items() if tags1.get(k2) != v})
        c.eval()
        c.count('tag_operations')
        if ok: c.count('tag_changes')
        c.sig('tag', a[1:], ok)
    c.require(os.path.isfile(c.bup_dir + '/HEAD') and os.path.isfile(c.bup_dir + '/config'), 'repository files are gone')


def go(c, p):
    {'record': record_case, 'names': names_case, 'tags': tags_case}[p[0]](c, p[1])


if __name__ == '__main__':
    k = Check('P25', rule='One evaluation = one save, split or tag command after which all refs, the raw commit (parent, tree, author, date, zone, message) and git log were compared with the request, or one branch or tag name whose '
              'acceptance was compared with git check-ref-format. Distinct: command x branch or tag name x date x user x zone.',
              assumptions=['git check-ref-format decides which names are valid', 'the passwd shim reports the full names bup would see'])
    cc(VERIF + '/lib/c/pwshim.c', k.scratch + '/pwshim.so', '-O1', '-fPIC', '-shared', '-w', '-ldl')
    a, b, d = k.pick((10, 8, 8), (160, 120, 120))
    m = k.pick((8, 30, 30), (16, 80, 80))
    k.run_cases([('record-%d' % i, ('record', m[0])) for i in range(a)] + [('names-%d' % i, ('names', m[1])) for i in range(b)] + [('tags-%d' % i, ('tags', m[2])) for i in range(d)], go)
    k.need('commits_checked', 30)
    k.need('names_refused', 10)
    k.finish()

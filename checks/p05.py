#!/usr/bin/python3.12
"""P05: every way of reading saved content returns exactly the saved bytes."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from bv import *
from reader import Repo, FormatError, read_refs
from front import VFS, Web


def digest(d):
    return [len(d), hashlib.sha1(d).hexdigest()]


def check_web(c, web, path, data, r):
    st, hd, d = web.req(path)
    if st != 200 or d != data:
        raise Violation('web GET %r: status %s, %s bytes, saved %d' % (path, st, d if d is None else len(d), len(data)))
    if int(hd.get('content-length', len(data))) != len(data):
        raise Violation('web GET %r: Content-Length %s, saved %d' % (path, hd.get('content-length'), len(data)))
    st, hd, d = web.req(path, 'HEAD')
    if st != 200 or d or int(hd.get('content-length', -1)) != len(data):
        raise Violation('web HEAD %r: status %s, headers %s, saved %d bytes' % (path, st, q(hd), len(data)))
    n = len(data)
    for _ in range(2):
        a = r.randint(0, n + 2)
        b = r.randint(a, n + 5)
        rg = r.choice(['bytes=%d-%d' % (a, b), 'bytes=%d-' % a, 'bytes=-%d' % (a + 1)])
        st, hd, d = web.req(path, 'GET', {'Range': rg})
        if st == 200:
            ok = d == data
        elif st == 206:
            m = re.fullmatch(r'bytes (\d+)-(\d+)/(\d+|\*)', hd.get('content-range', ''))
            x = re.fullmatch(r'bytes=(\d*)-(\d*)', rg).groups()
            lo = int(x[0]) if x[0] else max(0, n - int(x[1]))
            hi = min(n - 1, int(x[1]) if x[0] and x[1] else n - 1)
            ok = m and (int(m[1]), int(m[2])) == (lo, hi) and d == data[lo:hi + 1] and m[3] in ('*', str(n))
        else:
            ok = st == 416 and a >= n
        if not ok:
            raise Violation('web GET %r with Range %s of %d saved bytes: status %s headers %s, %s bytes' % (
                path, rg, n, st, q(hd), d if d is None else len(d)))
        c.count('web_range_%d' % st)


def model_ops(r, data, n):
    """Random access script and what it must observe."""
    seq, exp, pos = [], [], 0
    size = len(data)
    for _ in range(n):
        k = r.random()
        if k < .45:
            p = r.choice([0, size, size + 1, -1, pos, r.randint(0, size), r.randint(0, size), 8192 * r.randint(0, size // 8192 + 1), max(0, pos - 1), pos + 1])
            seq.append(['seek', p])
            if p == pos:
                exp.append('ok')
            elif p < 0 or p > size:
                exp.append('E22')
            else:
                exp.append('ok')
                pos = p
        elif k < .5:
            seq.append(['tell'])
            exp.append(pos)
        else:
            cnt = r.choice([0, 1, 2, 100, 4096, 8192, 65536, size, size + 1, -1, None, r.randint(0, size + 1)])
            seq.append(['read', cnt])
            d = data[pos:] if cnt in (-1, None) else data[pos:pos + cnt]
            exp.append(['data', pos, cnt])
            pos = None
            # a reader may return fewer bytes than asked for only at the end
            pos = 0
            exp[-1] = digest(d)
            pos = _pos(exp, seq, data)
    return seq, exp


def _pos(exp, seq, data):
    pos = 0
    for s, e in zip(seq, exp):
        if s[0] == 'seek' and e == 'ok':
            pos = s[1]
        elif s[0] == 'read':
            pos += e[0]
    return pos


def check_random(c, v, path, data, r, n):
    seq, exp = model_ops(r, data, n)
    got = v('read', path=path, seq=seq)
    if 'exc' in got or 'ioerror' in got:
        raise Violation('reading %r (%d bytes): %s; script %s' % (path, len(data), got, q(seq, 600)))
    if got['size'] != len(data):
        raise Violation('size of %r: reported %s, saved %d' % (path, got['size'], len(data)))
    for i, (a, b) in enumerate(zip(got['got'], exp)):
        if a != b:
            raise Violation('%r (%d bytes): step %d of %s returned %s, expected %s' % (path, len(data), i, q(seq[:i + 1], 800), a, b))
    c.eval()
    c.count('random_access_steps', len(seq))


def check_fuse(c, v, path, data, r):
    reads, exp = [], []
    n = len(data)
    for _ in range(6):
        off = r.choice([0, n, r.randint(0, n), r.randint(0, n), max(0, n - 1), 4096 * r.randint(0, n // 4096)])
        size = r.choice([1, 4096, 131072, n + 10, r.randint(1, n + 1)])
        reads.append([off, size])
        exp.append(digest(data[off:off + size]))
    got = v('fuse_read', path=path, reads=reads, meta=r.random() < .5)
    if got.get('got') != exp:
        raise Violation('fuse reads %s of %r (%d bytes): got %s, expected %s' % (reads, path, n, q(got, 800), exp))
    st = v('fuse_getattr', path=path, meta=r.random() < .5)
    if not isinstance(st.get('st'), dict) or st['st']['st_size'] != n:
        raise Violation('fuse size of %r: %s, saved %d' % (path, q(st), n))
    c.count('fuse_reads', len(reads))


def check_cli(c, path, data, oid, r):
    o = c.bup('cat-file', path).out
    if o != data:
        raise Violation('cat-file %r returned %d bytes, saved %d (first difference at %s)' % (path, len(o), len(data), firstdiff(o, data)))
    k = r.choice(['arg', 'stdin', 'remote', 'outfile'])
    if k == 'arg': o = c.bup('join', oid.hex()).out
    elif k == 'stdin': o = c.bup('join', input=oid.hex().encode() + b'\n').out
    elif k == 'remote':
        o = c.bup('join', '-r', '-:' + c.bup_dir, oid.hex(), repo=c.dir + '/client', env={'BUP_TEST_LEVEL': '1'}).out
    else:
        f = c.tmp('join')
        if r.random() < .5:
            with open(f, 'wb') as fh: fh.write(b'old content' * 1000)
        c.bup('join', '-o', f, oid.hex())
        with open(f, 'rb') as fh: o = fh.read()
    if o != data:
        raise Violation('join (%s) of %s (%r) returned %d bytes, saved %d (first difference at %s)' % (k, oid.hex(), path, len(o), len(data), firstdiff(o, data)))
    c.count('join_' + k)
    c.eval(2)


def firstdiff(a, b):
    n = min(len(a), len(b))
    if a[:n] == b[:n]: return n
    lo, hi = 0, n
    while hi - lo > 1:
        m = (lo + hi) // 2
        if a[lo:m] == b[lo:m]: lo = m
        else: hi = m
    return lo


def ftpq(p):
    return b'"' + p.replace(b'\\', b'\\\\').replace(b'"', b'\\"') + b'"'


def check_ftp(c, files, base, r):
    """files: {relpath: data}; all commands in one session."""
    d = c.tmp('ftp')
    os.mkdir(d)
    cmds, expf, expo = [], {}, b''
    if r.random() < .7:
        cmds.append(b'cd ' + base)
        pre = b''
    else:
        pre = base + b'/'
    i = 0
    for p, data in files.items():
        k = r.random()
        nm = b'out%d' % i
        i += 1
        if b'\n' in p or b'\\' in p or b'"' in p:
            continue
        if k < .5:
            cmds.append(b'get %s %s' % (ftpq(pre + p), nm))
            expf[nm] = data
        elif k < .7:
            cmds.append(b'cat ' + ftpq(pre + p))
            expo += data
        elif k < .85:
            bn = p.rsplit(b'/', 1)[-1]
            if bn in expf or not bn: continue
            cmds.append(b'get ' + ftpq(pre + p))
            expf[bn] = data
        else:
            dn, _, bn = p.rpartition(b'/')
            if re.search(rb'[*?\[]', bn): continue
            if bn in expf: continue
            cmds.append(b'mget ' + ftpq(pre + p))
            expf[bn] = data
    o = c.bup('ftp', input=b'\n'.join(cmds) + b'\n', cwd=d)
    if o.out != expo:
        raise Violation('ftp cat returned %d bytes, saved %d; commands %s; %s' % (len(o.out), len(expo), q(cmds, 800), q(o.out)))
    got = {}
    for n in os.listdir(fse(d)):
        with open(os.path.join(fse(d), n), 'rb') as f: got[n] = f.read()
    if got != expf:
        bad = sorted(n for n in set(got) | set(expf) if got.get(n) != expf.get(n))
        raise Violation('ftp get: wrong files %s; commands %s' % (q([(n, len(got.get(n, b'-')), len(expf.get(n, b'-'))) for n in bad]), q(cmds, 1000)))
    c.count('ftp_transfers', len(cmds))
    c.eval(len(cmds))


def gen_files(r, n, big):
    files = {}
    for i in range(n):
        k = r.random()
        size = r.choice([0, 1, 8191, 8192, 8193, 65536, r.randint(0, 3000), r.randint(10000, 300000), r.randint(10000, 300000)])
        if i == 0:
            size = big
        d = gen_data(r, size)
        name = r.choice([b'f%d', b'x %d', b'%d.bup', b'%d.bupl', b'\xff%d', b'sub/f%d', b'sub/deep/%d.bin', b"q'%d", b'100%%%d', b'#%d?x', b'a+b%d', b'%%41%d']) % i
        files[name] = d
    return files


def saved(c, big):
    r = c.rng
    src = fse(c.dir) + b'/src'
    files = gen_files(r, r.randint(4, 9), big)
    for n, d in files.items():
        p = src + b'/' + n
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f: f.write(d)
    c.bup('init')
    c.bup('init', repo=c.dir + '/client')
    cfg = r.choice([None, None, 'legacy:14', 'legacy:15', 'legacy:20', 'legacy:13'])
    if cfg: c.git('config', 'bup.split.files', cfg)
    if r.random() < .4: c.git('config', 'bup.split.trees', 'true')
    c.bup('index', src)
    c.bup('save', '-q', '--strip', '-n', 'main', *(['-%d' % r.randint(0, 9)] if r.random() < .4 else []), src)
    base = b'/main/latest'
    rp = Repo(c.bup_dir)
    walk = rp.walk_dir(rp.commit(rp.refs()[b'refs/heads/main'])['tree'])
    drive(c, r, files, base, {n: walk[n]['oid'] for n in files})
    c.sig(cfg, tuple(sorted((len(d), walk[n].get('chunked')) for n, d in files.items())))
    c.sample({'files': {repr(n): len(d) for n, d in files.items()}, 'config': cfg})


def drive(c, r, files, base, oids, ftp=True):
    v = VFS(c)
    vr = VFS(c, repo=c.dir + '/client', remote='-:' + c.bup_dir)
    web = Web(c)
    for n, d in files.items():
        p = base + b'/' + n
        check_random(c, v, p, d, r, c.check.pick(40, 120))
        check_random(c, vr, p, d, r, 12)
        check_fuse(c, v, p, d, r)
        check_web(c, web, p, d, r)
        c.count('bytes_saved', len(d))
        c.count('files')
    for n in r.sample(sorted(files), min(3, len(files))):
        check_cli(c, base + b'/' + n, files[n], oids[n], r)
    if ftp:
        check_ftp(c, files, base, r)
    # several objects in one join: concatenated in order
    l = [r.choice(sorted(files)) for _ in range(r.randint(2, 4))]
    o = c.bup('join', *[oids[n].hex() for n in l]).out
    if o != b''.join(files[n] for n in l):
        raise Violation('join of %d objects did not return their concatenation' % len(l))
    v.close()
    vr.close()


def splitcase(c, p):
    """bup split streams, read back by name, hash and blob list."""
    r = c.rng
    c.bup('init')
    c.bup('init', repo=c.dir + '/client')
    data = gen_data(r, r.choice([0, 1, 8192, r.randint(2, 5000), r.randint(10000, 2000000), r.randint(10000, 2000000)]))
    if r.random() < .3:
        c.git('config', 'bup.split.files', 'legacy:%d' % r.choice([13, 14, 16]))
    opts = []
    if r.random() < .4: opts += ['--fanout=%d' % r.choice([1, 2, 3, 4, 16, 128, 256, 1000])]
    k = r.choice(['file', 'stdin', 'many', 'noop', 'git-ids'])
    f = c.tmp('in')
    with open(f, 'wb') as fh: fh.write(data)
    rest = data
    files = [f]
    if k in ('many', 'git-ids'):
        files = []
        rest = data
        while rest:
            m = r.randint(0, len(rest)) if len(files) < 3 else len(rest)
            files.append(c.tmp('in'))
            with open(files[-1], 'wb') as fh: fh.write(rest[:m])
            rest = rest[m:]
        files = files or [f]
        if r.random() < .5: opts.append('--keep-boundaries')
    if k == 'noop':
        o = c.bup('split', '--copy', *opts, input=data)
        if o.out != data:
            raise Violation('split --copy changed the data: %d bytes, given %d' % (len(o.out), len(data)))
    if k == 'git-ids':
        # the same data split as one stream first, then by naming its pieces' ids
        ids = []
        for x in files:
            with open(x, 'rb') as fh: d = fh.read()
            ids.append(c.git('hash-object', '-w', '--stdin', input=d).out.strip())
        a, kw = ['--git-ids'], dict(input=b'\n'.join(ids) + b'\n')
    elif k == 'stdin':
        a, kw = [], dict(input=data)
    else:
        a, kw = files, {}
    ids = c.bup('split', '-q', '-b', *[x for x in opts if 'fanout' not in x], *a, **kw).out.split()
    ids += c.bup('split', '-q', '-t', '-c', '-n', 'main', *opts, *a, **kw).out.split()
    rp = Repo(c.bup_dir)
    tip = rp.refs()[b'refs/heads/main']
    blobs, tree, commit = ids[:-2], ids[-2], ids[-1]
    if commit.decode() != tip.hex() or tree.decode() != rp.commit(tip)['tree'].hex():
        raise Violation('split printed tree %s commit %s but the branch has %s' % (tree, commit, tip.hex()))
    for name, refs in (('branch', ['main']), ('commit', [commit]), ('tree', [tree]), ('blobs', blobs)):
        if refs:
            o = c.bup('join', *refs) if len(refs) < 500 else c.bup('join', input=b'\n'.join(refs) + b'\n')
            if o.out != data:
                raise Violation('join by %s returned %d bytes of %d (opts %s, %s)' % (name, len(o.out), len(data), opts, k))
            o = c.bup('join', '-r', '-:' + c.bup_dir, repo=c.dir + '/client', env={'BUP_TEST_LEVEL': '1'}, input=b'\n'.join(fse(x) for x in refs) + b'\n')
            if o.out != data:
                raise Violation('remote join by %s returned %d bytes of %d (opts %s, %s)' % (name, len(o.out), len(data), opts, k))
            c.eval(2)
    # the stream as a file
    v = VFS(c)
    check_random(c, v, b'/main/latest/data', data, r, c.check.pick(20, 60))
    check_fuse(c, v, b'/main/latest/data', data, r)
    o = c.bup('cat-file', '/main/latest/data')
    if o.out != data:
        raise Violation('cat-file of a split returned %d bytes of %d (opts %s, %s)' % (len(o.out), len(data), opts, k))
    v.close()
    c.count('split_streams')
    c.count('bytes_saved', len(data))
    c.sig('split', k, tuple(opts), len(data).bit_length(), len(blobs))


def put(c, kind, d):
    return bytes.fromhex(c.git('hash-object', '-w', '-t', kind, '--stdin', '--literally', input=d).out.decode().strip())


def crafted(c, p):
    """Chunk trees of unusual but valid shape, including missing chunks."""
    r = c.rng
    c.bup('init')
    c.bup('init', repo=c.dir + '/client')
    data = gen_data(r, r.randint(1, 6000), 'rand')
    loose = []
    def build(lo, hi, depth):
        if depth == 0 or hi - lo < 2 or r.random() < .3:
            o = put(c, 'blob', data[lo:hi])
            loose.append((o, lo, hi))
            return 0o100644, o
        w = r.choice([len('%x' % (hi - lo)), 8, 16])
        cuts = sorted(set([lo] + [r.randint(lo, hi - 1) for _ in range(r.randint(1, 5))]))
        ents = []
        for a, b in zip(cuts, cuts[1:] + [hi]):
            m, o = build(a, b, depth - 1)
            ents.append((m, b'%0*x' % (w, a - lo), o))
        t = b''.join((b'40000' if m == 0o40000 else b'%o' % m) + b' ' + n + b'\0' + o for m, n, o in ents)
        return 0o40000, put(c, 'tree', t)
    m, o = build(0, len(data), r.randint(1, 4))
    name = b'f.bup' if m == 0o40000 else b'f'
    other = put(c, 'blob', b'other')
    root = put(c, 'tree', (b'40000 ' if m == 0o40000 else b'100644 ') + name + b'\0' + o + b'100755 x\0' + other)
    cm = put(c, 'commit', b'tree %s\nauthor A <a@b> 1000000000 +0000\ncommitter A <a@b> 1000000000 +0000\n\nx\n' % root.hex().encode())
    c.git('update-ref', 'refs/heads/main', cm.hex())
    files = {b'f': data, b'x': b'other'}
    if p == 'intact':
        drive(c, r, files, b'/main/latest', {b'f': o, b'x': other})
        c.sig('crafted', len(loose))
        return
    # remove one chunk: no reader may pretend to succeed
    bo, lo, hi = r.choice(loose)
    h = bo.hex()
    os.unlink('%s/objects/%s/%s' % (c.bup_dir, h[:2], h[2:]))
    miss = [(a, b) for x, a, b in loose if x == bo]
    lo, hi = miss[0]
    for args in (['cat-file', '/main/latest/f'], ['join', o.hex()], ['restore', '-C', c.tmp('out'), '/main/latest/f']):
        x = c.bup(*args, ok=None)
        if x.rc == 0:
            raise Violation('%s succeeded although the chunk at %d-%d of %d is missing' % (q(args), lo, hi, len(data)))
        if not data.startswith(x.out) and args[0] != 'restore':
            raise Violation('%s wrote wrong bytes with the chunk at %d-%d missing' % (q(args), lo, hi))
    x = c.bup('ftp', input=b'get main/latest/f out\n', cwd=c.dir, ok=None)
    if x.rc == 0 and b'error' not in x.out + x.err:
        raise Violation('ftp get reported success with a chunk missing')
    x = c.bup('join', '-r', '-:' + c.bup_dir, o.hex(), repo=c.dir + '/client', env={'BUP_TEST_LEVEL': '1'}, ok=None)
    if x.rc == 0:
        raise Violation('remote join succeeded although the chunk at %d-%d of %d is missing' % (lo, hi, len(data)))
    web = Web(c)
    st, hd, d = web.req('/main/latest/f', fail_ok=True)
    if st == 200 and d is not None and int(hd.get('content-length', -1)) == len(d):
        raise Violation('web GET answered 200 with %d bytes although a chunk is missing' % len(d))
    v = VFS(c)
    got = v('fuse_read', path=b'/main/latest/f', reads=[[lo, hi - lo]])
    if 'exc' not in got and got['got'][0] != 'E5':
        raise Violation('fuse read of a missing chunk returned %s' % got)
    if lo:
        got = v('fuse_read', path=b'/main/latest/f', reads=[[0, lo]])
        if got.get('got') != [digest(data[:lo])]:
            raise Violation('fuse read of the bytes before the missing chunk: %s' % got)
    v.close()
    c.count('missing_chunk_reads', 7)
    c.eval(7)
    c.sig('missing', len(loose), lo * 8 // len(data))


def case(c, p):
    {'saved': lambda: saved(c, p[1]), 'split': lambda: splitcase(c, p), 'crafted': lambda: crafted(c, p[1])}[p[0]]()


if __name__ == '__main__':
    k = Check('P05', rule='One evaluation = one read of a saved file or stream through one front end (cat-file, join local/remote/-o/stdin, ftp get/cat/mget, web '
              'GET/HEAD/Range, fuse read, vfs seek+read scripts local and remote) compared with the bytes given to save; also chunk trees of unusual valid shape and '
              'with a chunk missing. Distinct: by (config, sizes, chunkedness, access mode).',
              assumptions=['fuse is driven through the filesystem class, without a kernel mount (none is possible in the sandbox)'])
    cs = []
    q_ = k.quick
    for i in range(k.pick(10, 300)):
        cs.append(('saved-%d' % i, ('saved', (3000000 if i == 0 else 400000) if q_ else (12000000 if i % 25 == 0 else 1500000))))
    for i in range(k.pick(10, 300)):
        cs.append(('split-%d' % i, ('split',)))
    for i in range(k.pick(8, 300)):
        cs.append(('crafted-%d' % i, ('crafted', 'intact' if i % 3 == 0 else 'missing')))
    k.run_cases(cs, case)
    k.finish()

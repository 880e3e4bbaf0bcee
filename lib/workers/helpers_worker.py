"""Drive every function of bup's native module with hostile arguments; check
each result against a model.  argv: seed iterations scratchdir."""
import io, json, mmap, os, random, stat, struct, sys
from bup import _helpers as H
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))

seed, iters, scratch = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
r = random.Random(seed)
counts = {}
bad = []
cur = open(scratch + '/current', 'w')

ints = [0, 1, -1, 2, 63, 64, 127, 128, 255, 256, 2**15, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**55 - 1, 2**55, 2**56, 2**62, 2**63 - 1, 2**63,
        2**64 - 1, 2**64, 2**70, -2**31, -2**31 - 1, -2**55, -2**56, -2**62, -2**63, -2**63 + 1, -2**64]
def rint():
    k = r.random()
    if k < .4: return r.choice(ints)
    if k < .7: return r.randint(-2**r.randint(1, 66), 2**r.randint(1, 66))
    return r.randint(-3, 40)
def rbytes(n=None):
    n = r.choice([0, 1, 2, 3, 4, 5, 8, 19, 20, 21, 40, 63, 64, 65, 100, 1000]) if n is None else n
    return r.choice([r.randbytes(n), bytes(n), b'\xff' * n])
def junk():
    return r.choice([None, rint(), 'str', rbytes(), 3.5, [], (), {}, object(), True, [rbytes()], bytearray(5), memoryview(b'abc'), -1, io.BytesIO(b'x')])

def call(name, *a, **k):
    cur.seek(0); cur.truncate(); cur.write('%s %.3000r %r' % (name, a, k)); cur.flush()
    counts[name] = counts.get(name, 0) + 1
    try:
        v = getattr(H, name)(*a, **k)
    except SystemError as e:
        bad.append('%s%.300r: SystemError %s' % (name, a, e))
        return 'err', e
    except AssertionError: raise
    except Exception as e:
        counts['errors'] = counts.get('errors', 0) + 1
        return 'err', e
    return 'ok', v

def expect(name, a, res, exp):
    counts['modelled'] = counts.get('modelled', 0) + 1
    if res != exp:
        bad.append('%s%.300r returned %.200r, model says %.200r' % (name, a, res, exp))

def vu(x):
    o = bytearray()
    while True:
        b = x & 127; x >>= 7
        o.append(b | (128 if x else 0))
        if not x: return bytes(o)
def vi(x):
    s = 64 if x < 0 else 0
    x = abs(x)
    h = x & 63; x >>= 6
    return bytes([h | s | (128 if x else 0)]) + (vu(x) if x else b'')

def t_vuint():
    x = rint(); s, v = call('vuint_encode', x)
    expect('vuint_encode', (x,), (s, v if s == 'ok' else 0), ('ok', vu(x)) if 0 <= x < 2**63 else ('err', 0))
def t_vint():
    x = rint(); s, v = call('vint_encode', x)
    expect('vint_encode', (x,), (s, v if s == 'ok' else 0), ('ok', vi(x)) if -2**63 <= x < 2**63 else ('err', 0))
def t_pack():
    n = r.choice([0, 1, 2, 3, 10, 11, 30])
    fmt = ''.join(r.choice('vVs') for _ in range(n)); args = []
    ok = True
    out = b''
    for c in fmt:
        if c == 's':
            x = rbytes(); out += vu(len(x)) + x
        else:
            x = rint() if r.random() < .3 else r.randint(0, 2**40)
            if c == 'V':
                if not 0 <= x < 2**63: ok = False
                else: out += vu(x)
            else:
                if not -2**63 <= x < 2**63: ok = False
                else: out += vi(x)
        args.append(x)
    s, v = call('limited_vint_pack', fmt, tuple(args))
    if s == 'ok': expect('limited_vint_pack', (fmt, args), (ok, v), (True, out))
    elif ok and not isinstance(v, OverflowError): bad.append('limited_vint_pack(%r, %.300r): %r' % (fmt, args, v))
    from bup import vint
    try: v = vint.pack(fmt, *args)
    except Exception as e: v = e
    if isinstance(v, SystemError): bad.append('vint.pack %r %.300r: %r' % (fmt, args, v))
    neg = any(c == 'V' and x < 0 for c, x in zip(fmt, args))
    if not neg:
        exp = b''.join(vu(len(x)) + x if c == 's' else vu(x) if c == 'V' else vi(x) for c, x in zip(fmt, args))
        expect('vint.pack', (fmt, args), v, exp)
        expect('vint.unpack', (fmt, args), vint.unpack(fmt, exp), list(args))
    elif not isinstance(v, Exception): bad.append('vint.pack accepted a negative unsigned value: %.300r' % (args,))
def t_bitmatch():
    a = rbytes(); b = a[:r.randint(0, len(a))] + rbytes() if r.random() < .7 else rbytes()
    s, v = call('bitmatch', a, b)
    n = min(len(a), len(b))
    e = next((i * 8 + 8 - (a[i] ^ b[i]).bit_length() for i in range(n) if a[i] != b[i]), n * 8)
    expect('bitmatch', (a, b), v, e)
def t_cmp():
    a = rbytes(); b = a[:r.randint(0, len(a))] + rbytes() if r.random() < .7 else rbytes()
    s, v = call('bytescmp', a, b)
    expect('bytescmp', (a, b), (v > 0) - (v < 0), (a > b) - (a < b))
def t_first():
    a = rbytes(); s, v = call('firstword', a)
    expect('firstword', (a,), (s, v if s == 'ok' else 0), ('ok', struct.unpack('!I', a[:4])[0]) if len(a) >= 4 else ('err', 0))
    n = r.choice([0, 1, 7, 8, 16, 31, 32, 33, -1, 64, r.randint(0, 32)])
    s, v = call('extract_bits', a, n)
    if len(a) >= 4 and 0 <= n <= 32: expect('extract_bits', (a, n), (s, v), ('ok', struct.unpack('!I', a[:4])[0] >> (32 - n)))
    else: expect('extract_bits', (a, n), s, 'err')
def t_rollsum():
    a = rbytes(r.choice([0, 1, 63, 64, 65, 500])); s, v = call('rollsum', r.choice([a, bytearray(a), memoryview(a)]))
    w = a[-64:]
    e = ((64 * 31 + sum(w)) << 16 | ((64 * 63 * 31 + sum(c * (len(w) - i) if False else c * (len(w) - i) for i, c in enumerate(w[::1]))) & 0xffff)) & 0xffffffff
    # weights: newest byte 1, oldest 64
    e = (((64 * 31 + sum(w)) & 0xffff) << 16) | ((64 * 63 * 31 + sum(c * (len(w) - i) for i, c in enumerate(w))) & 0xffff)
    expect('rollsum', (a,), v, e)
def t_bloom():
    k = r.choice([4, 5, 4, 5, 3, 0, -1, 6, rint() if r.random() < .2 else 5])
    nb = r.choice([0, 1, 2, 3, 8, 10, 12, 13, -1, 29, 30, 31, 32, 33, 37, 38, 63, 64, 2**31 - 1])
    if r.random() < .6: nb = r.randint(0, 14)
    need = 16 + (1 << nb) if 0 <= nb < 22 else 10**6
    size = max(0, r.choice([need, need, need, need + 5, need - 1, 16, 15, 0, 1]))
    m = bytearray(size)
    ids = [r.randbytes(20) for _ in range(r.randint(0, 30))]
    blob = b''.join(ids) + (b'x' * r.randint(1, 19) if r.random() < .1 else b'')
    valid = k in (4, 5) and 1 <= nb <= (29 if k == 5 else 37) and nb < 22 and size >= need
    s, v = call('bloom_add', m, blob, nb, k)
    if valid and len(blob) % 20 == 0:
        expect('bloom_add', (size, nb, k), (s, v), ('ok', len(ids)))
        if any(m[:16]) : bad.append('bloom_add changed the header')
        for i in ids:
            s, v = call('bloom_contains', m, i, nb, k)
            if s != 'ok' or not v[0]: bad.append('bloom false negative (nbits %d k %d)' % (nb, k))
        # model: same bits set
        e = bytearray(size)
        for i in ids:
            for j in range(0, 20, 20 // k):
                raw = int.from_bytes(i[j:j + 20 // k], 'big')
                w = 8 * (20 // k)
                e[16 + ((raw >> (w - nb)) & ((1 << nb) - 1) if nb else 16)  if nb else 16] |= 1 << ((raw >> (w - 3 - nb)) & 7)
        expect('bloom_add bits', (size, nb, k, ids[:1]), bytes(m), bytes(e))
    elif s == 'ok' and (k not in (4, 5) or nb < 1 or size < need):
        bad.append('bloom_add accepted size %d nbits %d k %d' % (size, nb, k))
    s, v = call('bloom_contains', m, r.randbytes(r.choice([20, 20, 0, 19, 21])), nb, k)
def t_sparse():
    p = scratch + '/sparse'
    chunks = []
    for _ in range(r.randint(1, 8)):
        c = b''.join(r.choice([bytes(r.choice([1, 5, 511, 512, 513, 1023, 1024, 3000])), r.randbytes(r.choice([1, 3, 511, 512, 600])), b'a', b'\0' * r.randint(0, 40) + b'z'])
                     for _ in range(r.randint(0, 6)))
        chunks.append(c)
    mn = r.choice([512, 1, 2, 3, 511, 513, 4096, r.randint(1, 2000)])
    fd = os.open(p, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    try:
        z = 0
        for c in chunks:
            s, z2 = call('write_sparsely', fd, c, mn, z)
            if s != 'ok':
                bad.append('write_sparsely failed: %r' % z2); return
            z = z2
            total = b''.join(chunks)
        pos = os.lseek(fd, 0, os.SEEK_CUR)
        os.ftruncate(fd, pos + z)
        os.lseek(fd, 0, 0)
        got = b''
        while True:
            b = os.read(fd, 1 << 20)
            if not b: break
            got += b
        expect('write_sparsely', ([len(c) for c in chunks], mn), (len(got), got == b''.join(chunks)), (sum(map(len, chunks)), True))
    finally:
        os.close(fd)
    call('write_sparsely', r.choice([-1, 9999]), rbytes(), r.choice([0, -1, 512, 2**64]) or 1, rint())
    rd, wr = os.pipe()
    os.close(rd)
    s, v = call('write_sparsely', wr, b'abc', 512, 100)
    if s == 'ok': bad.append('write_sparsely to a pipe with pending zeros succeeded')
    os.close(wr)
def mk_idx_parts(n):
    shas = sorted({r.randbytes(20) if r.random() < .9 else bytes([r.choice([0, 255])]) + r.randbytes(19) for _ in range(n)})
    return shas
def t_write_idx():
    n = r.choice([0, 1, 2, 3, 50])
    shas = mk_idx_parts(n)
    parts = [[] for _ in range(256)]
    exp = []
    n64 = 0
    for s in shas:
        crc = r.randint(0, 2**32 - 1); ofs = r.choice([12, 2**31 - 1, 2**31, 2**32, 2**40, r.randint(0, 2**33), 2**63, 2**64 - 1])
        n64 += ofs >= 2**31
        parts[s[0]].append((s, crc, ofs)); exp.append((s, crc, ofs))
    for p in parts: r.shuffle(p)
    size = 8 + 1024 + 28 * len(shas) + 8 * n64
    k = r.random()
    total = len(shas)
    valid = True
    if k < .1: size -= r.choice([1, 4, 8, 28, size]); size = max(size, 1); valid = False
    elif k < .15: total = r.choice([total + 1, max(0, total - 1), 2**32 - 1, 2**32, -1, 2**64]); valid = total == len(shas)
    elif k < .2 and shas: parts[shas[0][0]][0] = r.choice([(shas[0][:-1], 1, 2), (shas[0], -1, 2), (shas[0], 1, -1), (shas[0], 2**32, 2), (1, 2, 3), (shas[0], 1), (shas[0], 'a', 3)]); valid = False
    elif k < .22: parts = r.choice([parts[:-1], [], None, 5, [None] * 256, [()] * 256, 'abc']); valid = False
    m = mmap.mmap(-1, max(size, 1))
    s, v = call('write_idx', b'fn', m, parts, total)
    if valid:
        expect('write_idx', (total,), (s, v), ('ok', total))
        d = m[:]
        fan = struct.unpack('!256I', d[8:1032])
        hashes = [d[1032 + 20 * i:1052 + 20 * i] for i in range(total)]
        expect('write_idx hashes', (), hashes, shas)
        expect('write_idx fan', (), list(fan), [sum(s[0] <= i for s in shas) for i in range(256)])
        crcs = struct.unpack('!%dI' % total, d[1032 + 20 * total:1032 + 24 * total])
        ofs = struct.unpack('!%dI' % total, d[1032 + 24 * total:1032 + 28 * total])
        big = struct.unpack('!%dQ' % n64, d[1032 + 28 * total:1032 + 28 * total + 8 * n64])
        expect('write_idx entries', (), [(h, c, big[o & 0x7fffffff] if o >> 31 else o) for h, c, o in zip(hashes, crcs, ofs)], exp)
    elif s == 'ok' and total < len(shas): bad.append('write_idx accepted bad input total=%r n=%d' % (total, len(shas)))
    m.close()
def t_merge():
    n = r.choice([0, 1, 2, 3, 7])
    ilist = []; allsh = []; base = 0; maps = []
    for i in range(n):
        shas = mk_idx_parts(r.choice([0, 1, 2, 5, 60]) if r.random() < .5 else r.randint(1, 9))
        if allsh and r.random() < .3: shas = sorted(set(shas + [x[0] for x in r.sample(allsh, min(3, len(allsh)))]))
        if r.random() < .5: # idx
            d = bytes(1032) + b''.join(shas) + bytes(8 * len(shas)) + bytes(40)
            ilist.append([d, len(shas), 1032, 0, base]); allsh += [(s, base) for s in shas]; base += 1
        else:
            which = [r.randint(0, 2) for _ in shas]
            d = bytes(16) + b''.join(shas) + struct.pack('!%dI' % len(shas), *which) + b'names'
            ilist.append([d, len(shas), 16, 16 + 20 * len(shas), base]); allsh += [(s, base + w) for s, w in zip(shas, which)]; base += 3
    total = len(allsh)
    bits = r.choice([0, 0, 1, 3, 8])
    size = 12 + 4 * 2**bits + 24 * total
    valid = True
    k = r.random()
    if k < .25 and ilist:
        x = r.choice(ilist); f = r.randint(1, 3); old = x[f]
        x[f] = r.choice([old + 1, 2**31 - 1, 2**62, -1, len(x[0]), len(x[0]) + 1, -2**63, old + 20]); valid = False
    elif k < .3: total = r.choice([total + 1, max(0, total - 1), 2**32 - 1, -1]); valid = total == len(allsh)
    elif k < .35: size = max(1, size - r.choice([1, 24, size // 2])); valid = False
    elif k < .4: bits = r.choice([-1, 32, 31, 64]); valid = False
    maps = []
    il = []
    for d, *rest in sorted(ilist, key=lambda x: x[0][max(0, min(x[2], 2**40)):][:20], reverse=True):
        m = mmap.mmap(-1, max(1, len(d))); m[:len(d)] = d; maps.append(m)
        il.append((m, *rest))
    if k > .97: il = r.choice([None, 5, [(1, 2)], [(b'abc', 1, 0, 0, 0)]]); valid = False
    f = mmap.mmap(-1, max(size, 1))
    s, v = call('merge_into', f, bits, total, il)
    if valid and isinstance(il, list):
        expect('merge_into', (bits, total), (s, v if s == 'ok' else str(v)), ('ok', total))
        d = f[:]
        so = 12 + 4 * 2**bits
        hs = [d[so + 20 * i:so + 20 * i + 20] for i in range(total)]
        which = struct.unpack('!%dI' % total, d[so + 20 * total:so + 24 * total])
        expect('merge_into order', (), hs, sorted(x[0] for x in allsh))
        expect('merge_into which', (), sorted(zip(hs, which)), sorted(allsh))
        fan = struct.unpack('!%dI' % 2**bits, d[12:so])
        expect('merge_into fanout', (bits,), list(fan), [sum((int.from_bytes(x[0][:4], 'big') >> (32 - bits) if bits else 0) <= i for x in allsh) for i in range(2**bits)])
    f.close()
    for m in maps:
        m.close()
def t_stat():
    p = scratch + '/' + r.choice(['f', 'd', 'l', 'missing'])
    for n in ('stat', 'lstat'):
        s, v = call(n, r.choice([p, p.encode()]))
        try: e = getattr(os, n)(p)
        except OSError: e = None
        if e is None: expect(n, (p,), s, 'err')
        else: expect(n, (p,), (v.st_mode, v.st_ino, v.st_size, v.st_mtime_ns, v.st_uid, v.st_dev, v.st_rdev, v.st_nlink, v.st_ctime_ns), (e.st_mode, e.st_ino, e.st_size, e.st_mtime_ns, e.st_uid, e.st_dev, e.st_rdev, e.st_nlink, e.st_ctime_ns))
    fd = os.open(scratch, os.O_RDONLY)
    s, v = call('stat', fd); expect('stat fd', (), (s, v.st_ino if s == 'ok' else 0), ('ok', os.fstat(fd).st_ino))
    s, v = call('lstat', b'l', dir_fd=fd); expect('lstat dir_fd', (), stat.S_ISLNK(v.st_mode) if s == 'ok' else s, True)
    s, v = call('stat', b'l', dir_fd=fd, follow_symlinks=r.choice([True, False]))
    os.close(fd)
    call('stat', r.choice([fd, -1, 2**40, b'a\0b', 'x' * 5000, None, 3.5]))
def t_pwd():
    for n in ('getpwuid', 'getgrgid'): call(n, r.choice([0, 65534, 1, 424242, -1, 2**32 - 1, 2**32, 2**64, 'x', 2**63]))
    for n in ('getpwnam', 'getgrnam'): call(n, r.choice([b'root', b'', b'nope', b'x' * 5000, b'a\0b', 'str']))
    call('gethostname')
def t_strto():
    t = r.choice([b'', b'0', b'12', b'-5', b'0x1f', b'077', b' 12', b'12k', b'abc', b'9223372036854775807', b'9223372036854775808', b'-9223372036854775808',
                  b'-9223372036854775809', b'1' * 100, b'+3', b'--3', b'1.5', b'0x', b'\xff'])
    s, v = call('strtoimax', t)
def t_attr():
    call('get_linux_file_attr', r.choice([scratch + '/f', scratch + '/missing', scratch + '/l']).encode())
    if hasattr(H, 'read_acl'):
        call('read_acl', (scratch + '/' + r.choice(['f', 'd', 'missing'])).encode(), r.choice([0, 1]))
        call('apply_acl', (scratch + '/' + r.choice(['f', 'd'])).encode(), r.choice([b'user::rw-,group::r--,other::---', b'garbage', b'', b'u:0:7', b'x' * 5000]), *r.choice([[], [b'junk'], [b'u::7,g::7,o::7']]))
def t_open():
    s, v = call('open_noatime', (scratch + '/' + r.choice(['f', 'missing', 'd'])).encode(), os.O_RDONLY)
    if s == 'ok': os.close(v)
    s, v = call('openat_noatime', r.choice([-1, 9999]), b'f', os.O_RDONLY)
def t_junk():
    """Wrong types and counts everywhere."""
    for n in ('bitmatch', 'bytescmp', 'firstword', 'extract_bits', 'rollsum', 'bloom_add', 'bloom_contains', 'merge_into', 'write_idx', 'vuint_encode',
              'vint_encode', 'limited_vint_pack', 'strtoimax', 'getpwuid', 'getpwnam', 'getgrgid', 'getgrnam', 'random_sha', 'lstat', 'stat', 'read_acl'):
        if hasattr(H, n):
            call(n, *[junk() for _ in range(r.randint(0, 5))])
    for n in ('HashSplitter', 'RecordHashSplitter'):
        s, v = call(n, *[junk() for _ in range(r.randint(0, 3))], **{k: junk() for k in r.sample(['files', 'bits', 'progress', 'keep_boundaries', 'fanbits'], r.randint(0, 3))})
        if s == 'ok' and n == 'HashSplitter':
            it(v)
def it(h, extra=3):
    n = 0
    tot = 0
    while extra:
        cur.seek(0); cur.truncate(); cur.write('HashSplitter next'); cur.flush()
        try: b, l = next(h)
        except StopIteration: extra -= 1; continue
        except SystemError as e: bad.append('HashSplitter next: SystemError %s' % e); extra -= 1; continue
        except Exception as e: extra -= 1; counts['splitter_errors'] = counts.get('splitter_errors', 0) + 1; continue
        tot += len(bytes(b)); n += 1
    counts['splitter_chunks'] = counts.get('splitter_chunks', 0) + n
    return tot
class F:
    """Hostile file objects."""
    def __init__(self, mode): self.mode, self.n = mode, 0
    def read(self, n):
        self.n += 1
        m = self.mode
        if m == 'long': return bytes(n + 1)
        if m == 'str': return 'abc'
        if m == 'none': return None
        if m == 'raise': raise KeyError('boom')
        if m == 'raise2' and self.n == 2: raise OSError('later')
        if self.n > 3: return b''
        if m == 'array':
            import array
            return array.array('I', [1, 2, 3] * 10)
        if m == 'strided': return memoryview(bytes(range(200)))[::2]
        if m == 'int': return 5
        return r.randbytes(1000)
class NoFd(F):
    def fileno(self): return {'neg': -1, 'closed': 9999, 'str': 'x', 'big': 2**40, 'none': None}.get(self.mode, -5)
def t_splitter():
    files = []
    for _ in range(r.randint(0, 3)):
        k = r.random()
        if k < .3: files.append(F(r.choice(['long', 'str', 'none', 'raise', 'raise2', 'array', 'strided', 'int', 'ok'])))
        elif k < .5: files.append(NoFd(r.choice(['neg', 'closed', 'str', 'big', 'none'])))
        elif k < .6: files.append(junk())
        elif k < .8: files.append(io.BytesIO(r.randbytes(r.choice([0, 1, 70000]))))
        else: files.append(open(scratch + '/f', 'rb'))
    def gen():
        for f in files: yield f
        if r.random() < .3: raise ValueError('iterator')
    def prog(a, b):
        if r.random() < .1: raise RuntimeError('progress')
    src = r.choice([files, gen(), iter(files), None, 5])
    kw = {}
    if r.random() < .5: kw['progress'] = r.choice([prog, None, 5])
    s, h = call('HashSplitter', src, r.choice([13, 14, 21, 12, 22, -1, 2**31, 2**70, '13']) if r.random() < .3 else 13, keep_boundaries=r.random() < .5,
                fanbits=r.choice([4, 1, 32, 0, 2**31, -1]) if r.random() < .3 else 4, **kw)
    if s == 'ok': it(h)
    for f in files:
        if hasattr(f, 'close'):
            try: f.close()
            except Exception: pass
    s, h = call('RecordHashSplitter', bits=r.choice([13, 14, 16, 21, 0, 31]))
    if s == 'ok':
        for _ in range(20):
            try: h.feed(r.choice([rbytes(), bytearray(5), 'x', None, memoryview(bytes(300))[::2]]))
            except SystemError as e: bad.append('feed: SystemError %s' % e)
            except Exception: pass
    H.HashSplitter.__new__(H.HashSplitter)
    if r.random() < .2:
        try: next(H.HashSplitter.__new__(H.HashSplitter))
        except StopIteration: pass
        except SystemError as e: bad.append('uninitialised next: %s' % e)

with open(scratch + '/f', 'wb') as f: f.write(os.urandom(30000))
os.mkdir(scratch + '/d'); os.symlink('f', scratch + '/l')
tests = [v for k, v in sorted(globals().items()) if k.startswith('t_')]
for i in range(iters):
    for t in tests:
        t()
        if len(bad) > 20: break
call('selftest')
print(json.dumps({'counts': counts, 'bad': bad[:20]}))

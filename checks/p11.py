#!/usr/bin/python3.12
"""P11: object lookup never gives a wrong answer, whatever indexes, multi-indexes and filters exist."""
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import glob, random, struct, subprocess
from bv import *
from reader import Idx


def write_idx(path, objs):
    """objs: {oid: offset}.  A git version 2 pack index, written independently of bup."""
    oids = sorted(objs)
    fan, n = [], 0
    for b in range(256):
        while n < len(oids) and oids[n][0] == b: n += 1
        fan.append(n)
    ofs, big = [], []
    for o in oids:
        x = objs[o]
        if x >= 1 << 31:
            ofs.append(0x80000000 | len(big)); big.append(x)
        else:
            ofs.append(x)
    d = b'\xfftOc\0\0\0\2' + struct.pack('>256I', *fan) + b''.join(oids)
    d += b''.join(hashlib.sha1(o).digest()[:4] for o in oids)
    d += struct.pack('>%dI' % len(ofs), *ofs) + struct.pack('>%dQ' % len(big), *big)
    d += hashlib.sha1(b'pack' + d).digest()
    d += hashlib.sha1(d).digest()
    with open(path + b'.tmp', 'wb') as f:
        f.write(d)
    os.rename(path + b'.tmp', path)


def gen_oids(r, n, kind, existing):
    """Object ids with hostile distributions."""
    s = set()
    base = r.randbytes(20)
    while len(s) < n:
        k = kind if kind != 'mixed' else r.choice(['random', 'prefix2', 'prefix4', 'adjacent', 'edge', 'byte'])
        if k == 'random': o = r.randbytes(20)
        elif k == 'prefix2': o = base[:2] + r.randbytes(18)
        elif k == 'prefix4': o = base[:4] + r.randbytes(16)
        elif k == 'adjacent':
            v = int.from_bytes(r.choice(sorted(existing)[:50] or [base]) if r.random() < .5 else base, 'big')
            o = ((v + r.randint(-n * 2, n * 2)) % (1 << 160)).to_bytes(20, 'big')
        elif k == 'edge':
            o = r.choice([b'\0' * 20, b'\xff' * 20, b'\0' * 19 + bytes([r.randrange(256)]), b'\xff' * 19 + bytes([r.randrange(256)]),
                          b'\0' * 4 + r.randbytes(16), b'\xff' * 4 + r.randbytes(16), b'\x7f' + b'\xff' * 18 + r.randbytes(1),
                          b'\x80' + b'\0' * 18 + r.randbytes(1), b'\0\0\0\1' + r.randbytes(16)])
            if len(s) > 2 and r.random() < .5: o = r.randbytes(20)
        elif k == 'byte': o = bytes([r.choice([0, 1, 127, 128, 254, 255])]) + r.randbytes(19)
        s.add(o)
    return s


class Midx:
    """A version 4 midx, read independently and checked against the indexes it names."""
    def __init__(self, path):
        d = open(path, 'rb').read()
        self.path = path
        if d[:4] != b'MIDX': raise Violation('%r: bad magic' % path)
        ver, bits = struct.unpack('>II', d[4:12])
        if ver != 4: raise Violation('%r: version %d' % (path, ver))
        n = 1 << bits
        fan = struct.unpack('>%dI' % n, d[12:12 + 4 * n])
        cnt = fan[-1]
        o = 12 + 4 * n
        self.oids = [d[o + 20 * i:o + 20 * i + 20] for i in range(cnt)]
        o += 20 * cnt
        self.which = struct.unpack('>%dI' % cnt, d[o:o + 4 * cnt])
        self.names = d[o + 4 * cnt:].split(b'\0')
        for a, b in zip(self.oids, self.oids[1:]):
            if a > b: raise Violation('%r: not sorted' % path)
        for i, x in enumerate(self.oids):
            p = int.from_bytes(x[:4], 'big') >> (32 - bits) if bits else 0
            if not (fan[p] > i and (p == 0 or fan[p - 1] <= i)):
                raise Violation('%r: fanout wrong for %s' % (path, x.hex()))


class Model:
    def __init__(self, d):
        self.d = d
        self.packs = {}       # idx name -> {oid: offset}

    def where(self):
        w = {}
        for n, m in self.packs.items():
            for o, x in m.items():
                w.setdefault(o, {})[n] = x
        return w


class Proc:
    def __init__(self, c, d):
        self.c = c
        self.p = subprocess.Popen([c.check.bupdir + '/dev/bup-python', VERIF + '/lib/workers/lookup.py', os.fsdecode(d)],
                                  env=c.env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.log = []

    def __call__(self, op, **kw):
        self.p.stdin.write(json.dumps(dict(op=op, **kw)) + '\n')
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise Violation('lookup process died during %s' % op)
        r = json.loads(line)
        if 'error' in r:
            raise Violation('%s failed: %s' % (op, r['error'][-700:]))
        return r['ok']

    def close(self):
        try:
            self.p.stdin.write('{"op": "quit"}\n'); self.p.stdin.close()
            self.p.wait(20)
        except Exception:
            self.p.kill()
        self.p.stdout.close()


def ask(c, r, proc, m, n, hist):
    w = m.where()
    have = sorted(w)
    q = []
    for _ in range(n):
        k = r.random()
        if have and k < .45:
            o = r.choice(have)
        elif have and k < .75:
            v = int.from_bytes(r.choice(have), 'big')
            o = ((v + r.choice([1, -1, 1 << 8, 1 << 128, -(1 << 128), 1 << 152])) % (1 << 160)).to_bytes(20, 'big')
        elif have and k < .85:
            o = bytearray(r.choice(have)); o[r.randrange(20)] ^= 1 << r.randrange(8); o = bytes(o)
        else:
            o = r.choice([r.randbytes(20), b'\0' * 20, b'\xff' * 20])
        q.append((o, r.random() < .5, r.random() < .4))
    st = proc('state')
    c.sig('state', min(st['midx'], 3), min(st['packs'], 6), st['bloom'], st['do_bloom'])
    if st['bloom']: c.count('lookups_with_bloom', n)
    if st['midx']: c.count('lookups_with_midx', n)
    res = proc('query', q=[(o.hex(), s, f) for o, s, f in q])
    for (o, s, f), got in zip(q, res):
        exp = w.get(o)
        c.eval()
        c.count('present' if exp else 'absent')
        if exp and len(exp) > 1: c.count('duplicated')
        if not exp:
            c.require(got is None, 'absent %s reported at %s; history %s', o.hex(), got, hist, key='false-present')
            continue
        c.require(got is not None, 'present %s (in %s) reported missing; history %s, state %s', o.hex(), sorted(exp)[:3], hist, st, key='false-absent')
        p, x = got
        if s: 
            c.require(p is not None and os.fsencode(p) in exp, '%s reported in %r, is in %s; history %s', o.hex(), p, sorted(exp), hist, key='wrong-pack')
        if f:
            ok = x == exp[os.fsencode(p)] if s else x in exp.values()
            c.require(ok, '%s reported at %r of %r, really %s; history %s', o.hex(), x, p, exp, hist, key='wrong-offset')
            c.count('offsets_checked')
            if x >= 1 << 31: c.count('offsets64_checked')


def judge_midxes(c, m, hist, names=None):
    for p in glob.glob(glob.escape(m.d) + b'/*.midx'):
        if names is not None and os.path.basename(p) not in names: continue
        try:
            x = Midx(p)
        except struct.error as ex:
            raise Violation('%r: malformed: %s' % (p, ex))
        c.count('midx_checked')
        per = {}
        for o, i in zip(x.oids, x.which):
            c.require(i < len(x.names), '%r: which table out of range; history %s', p, hist)
            per.setdefault(x.names[i], set()).add(o)
        for n in set(x.names):
            if n not in m.packs: continue      # the index is gone (the midx is then stale)
            c.require(per.get(n, set()) <= set(m.packs[n]), '%r: wrong objects under %r; history %s', p, n, hist)
        allo = set(x.oids)
        for n in set(x.names):
            if n in m.packs:
                c.require(set(m.packs[n]) <= allo, '%r lacks objects of %r; history %s', p, n, hist)
        c.count('midx_oids_checked', len(x.oids))


def synth(c, k):
    r = rng('P11', c.check.seed, 'synth', k)
    c.bup('init')
    d = fse(c.bup_dir) + b'/objects/pack'
    os.makedirs(fse(c.tmp('old')))
    m = Model(d)
    big = c.check.pick(1500, 20000)
    kinds = ['random', 'prefix2', 'prefix4', 'adjacent', 'edge', 'byte', 'mixed']
    hist = []
    allo = set()
    proc = Proc(c, d)
    stale = []
    removed = False

    def add():
        n = r.choice([1, 1, 2, 3, 10, 50, 200, 700, r.randint(1, big)])
        kd = r.choice(kinds)
        oids = gen_oids(r, min(n, 200) if kd == 'edge' else n, kd, allo)
        if allo and r.random() < .4:
            oids |= set(r.sample(sorted(allo), min(len(allo), r.choice([1, 5, 60]))))
        objs = {}
        for o in oids:
            objs[o] = r.choice([12, r.randrange(1 << 31), (1 << 31) - 1, 1 << 31, r.randrange(1 << 31, 1 << 40), r.randrange(1 << 20)])
        # offsets must be unique within a pack
        seen = set()
        for o in objs:
            while objs[o] in seen: objs[o] += 1
            seen.add(objs[o])
        name = b'pack-%s.idx' % hashlib.sha1(r.randbytes(8)).hexdigest().encode()
        if r.random() < .15 and m.packs:       # same contents under another name
            objs = dict(m.packs[r.choice(sorted(m.packs))])
        write_idx(os.path.join(d, name), objs)
        m.packs[name] = objs
        allo.update(objs)
        hist.append('add(%s,%d)' % (kd, len(objs)))
        c.sig('dist', kd, len(objs).bit_length())
        return name

    def tool(*a, ok=True):
        res = c.bup(*a, ok=None)
        hist.append(' '.join(os.fsdecode(x) for x in a if not os.fsdecode(x).startswith('/'))[:60])
        c.require(res.rc == 0, '%s: %r; history %s', a, res, hist, key='tool-failed')
        return res

    try:
        for _ in range(r.randint(1, 4)): add()
        proc('open', ignore_midx=r.random() < .1)
        steps = c.check.pick(14, 40)
        for step in range(steps):
            a = r.choice(['add', 'add', 'add', 'midx', 'midx', 'bloom', 'bloom', 'auto', 'force', 'delmidx', 'delbloom', 'stash', 'unstash', 'unstash', 'rmidx',
                          'explicit', 'damage', 'reopen', 'refresh', 'temps', 'maxfiles', 'ruinless'])
            if a == 'add':
                for _ in range(r.choice([1, 1, 2, 6])): add()
            elif a == 'midx':
                tool('midx', '-a', '-d', d)
                judge_midxes(c, m, hist)
            elif a == 'maxfiles':
                tool('midx', r.choice(['-a', '-f', '-af']), '--max-files', '%d' % r.choice([5, 6, 9]), '-d', d)
                judge_midxes(c, m, hist)
            elif a == 'force':
                tool('midx', r.choice(['-f', '-af']), '-d', d)
                judge_midxes(c, m, hist)
            elif a == 'explicit':
                fs = [x for x in glob.glob(d + b'/*.idx') + glob.glob(d + b'/*.midx')]
                pick = r.sample(fs, r.randint(1, min(len(fs), 8)))
                # with -o naming one of the inputs' kind of files
                opt = ['-o', d + b'/midx-%d.midx' % r.randrange(3)] if r.random() < .5 else []
                tool('midx', *opt, *pick)
                judge_midxes(c, m, hist)
            elif a == 'bloom':
                o = r.choice([[], [], [], ['-f'], ['-k', '4'], ['-k', '5']])
                tool('bloom', *o, '-d', d)
                for n in r.sample(sorted(m.packs), min(2, len(m.packs))):
                    tool('bloom', '-c', os.path.join(d, n))
                    c.count('bloom_checks')
            elif a == 'auto':
                tool('midx', '--auto', '--dir', d)
                tool('bloom', '--dir', d)
            elif a == 'delmidx':
                for p in glob.glob(d + b'/*.midx'):
                    if r.random() < .6: os.unlink(p)
                hist.append('rm midx')
            elif a == 'delbloom':
                if os.path.exists(d + b'/bup.bloom'): os.unlink(d + b'/bup.bloom')
                hist.append('rm bloom')
            elif a == 'stash' or (a == 'unstash' and not stale):       # remember today's derived files
                o = fse(c.tmp('old/%d' % step)); os.makedirs(o)
                for p in glob.glob(d + b'/*.midx') + glob.glob(d + b'/*.bloom'):
                    shutil.copy2(p, o)
                stale.append(o)
            elif a == 'unstash' and stale:     # ... and bring them back when the packs have changed
                o = r.choice(stale)
                for n in os.listdir(o):
                    shutil.copy2(os.path.join(o, n), os.path.join(d, n) + b'.t')
                    os.rename(os.path.join(d, n) + b'.t', os.path.join(d, n))
                hist.append('old derived files back')
                c.count('stale_restores')
            elif a == 'rmidx' and len(m.packs) > 1:
                # a long-lived list may keep a removed index open; new processes must not
                for n in r.sample(sorted(m.packs), r.choice([1, 1, 2])):
                    if len(m.packs) > 1:
                        os.unlink(os.path.join(d, n)); del m.packs[n]
                hist.append('rm idx')
                proc('open', ignore_midx=r.random() < .1)
                c.count('indexes_removed')
            elif a == 'damage':
                fs = glob.glob(d + b'/*.midx') + glob.glob(d + b'/bup.bloom')
                if fs:
                    p = r.choice(fs)
                    b = bytearray(open(p, 'rb').read())
                    w = r.choice(['magic', 'old', 'new'])
                    if w == 'magic': b[:4] = b'XXXX'
                    else: b[4:8] = struct.pack('>I', 1 if w == 'old' else 9)
                    with open(p + b'.t', 'wb') as f: f.write(b)
                    os.rename(p + b'.t', p)
                    hist.append('damage %s %s' % (w, os.fsdecode(os.path.basename(p))[:8]))
                    proc('open')
                    ask(c, r, proc, m, 40, hist)
                    if p.endswith(b'.midx'): os.unlink(p)
                    c.count('damaged_headers')
            elif a == 'temps':
                proc('close_temps')
                hist.append('close_temps')
            if a in ('reopen',) or r.random() < .25:
                proc('open', ignore_midx=r.random() < .1)
                hist.append('reopen')
            else:
                proc('refresh', skip_midx=r.random() < .1)
                hist.append('refresh')
            ask(c, r, proc, m, c.check.pick(250, 500), hist[-14:])
        c.sample(' '.join(hist))
        w = m.where()
        proc('open')
        got = proc('iter')
        c.require({bytes.fromhex(x) for x in got} == set(w), 'iteration gives %d distinct objects, there are %d; history %s', len(set(got)), len(w), hist)
        c.require(got == sorted(got), 'iteration not in order; history %s', hist)
        # midx/bloom --check accept what the tools made
        tool('midx', '-a', '-d', d)
        res = tool('midx', '--check', '-a')
        judge_midxes(c, m, hist)
    finally:
        proc.close()


def real(c, k):
    """Packs written by bup itself, with the automatic midx and bloom maintenance, plus list-idx."""
    r = rng('P11', c.check.seed, 'real', k)
    c.bup('init')
    d = fse(c.bup_dir) + b'/objects/pack'
    hist = []
    proc = None
    try:
        m = Model(d)
        for i in range(c.check.pick(5, 12)):
            src = c.tmp('d%d' % i)
            with open(src, 'wb') as f: f.write(gen_data(r, r.choice([10, 30000, 200000])))
            a = ['split', '-q', '-n', 'b%d' % r.randrange(3), src]
            if r.random() < .5: a[1:1] = ['--max-pack-objects', '%d' % r.choice([1, 2, 7])]
            c.bup(*a)
            hist.append(' '.join(a[:-1]))
            m.packs = {os.path.basename(p): dict(zip((x := Idx(p)).oids, x.ofs)) for p in glob.glob(d + b'/*.idx')}
            judge_midxes(c, m, hist)
            if proc is None:
                proc = Proc(c, d); proc('open')
            else:
                proc(r.choice(['refresh', 'open']))
            st = proc('state')
            if st['bloom']: c.count('automatic_blooms_in_use')
            ask(c, r, proc, m, 300, hist)
        if r.random() < .5:
            x = c.bup('rm', '--unsafe', '/b0', ok=None)
            x = c.bup('gc', '--unsafe', '--threshold', '0', ok=None)
            hist.append('gc')
            m.packs = {os.path.basename(p): dict(zip((x := Idx(p)).oids, x.ofs)) for p in glob.glob(d + b'/*.idx')}
            if m.packs:
                proc('open'); ask(c, r, proc, m, 300, hist)
        w = m.where()
        for o in r.sample(sorted(w), min(4, len(w))):
            h = o.hex()
            cut = r.choice([40, 40, 4, 7, 12, 2, 1])
            name = r.choice(sorted(glob.glob(d + b'/*.idx')))
            h = h[:cut]
            res = c.bup('list-idx', '--find', h if r.random() < .5 else h.upper(), name)
            want = sorted(name + b' ' + x.hex().encode() for x in m.packs[os.path.basename(name)] if x.hex().startswith(h))
            c.require(sorted(res.out.splitlines()) == want, 'list-idx --find %s: %r, expected %r', h, res.out[:300], want[:3])
            c.count('list_idx')
    finally:
        if proc: proc.close()


def case(c, p):
    globals()[p[0]](c, p[1])


if __name__ == '__main__':
    ck = Check('P11', rule='every lookup (present, absent, near miss; existence, pack, offset; fresh and long-lived processes) agrees with an independent reading of '
                           'the .idx files; every midx the tools write is well formed and complete; bup midx --check / bloom --check pass',
               assumptions=['version 1 pack indexes (never written by bup) are refused loudly and are not generated',
                            'an index removed while a lookup process holds it open is only required to be forgotten by new processes'])
    cases = [('synth-%d' % i, ('synth', i)) for i in range(ck.pick(32, 200))] + [('real-%d' % i, ('real', i)) for i in range(ck.pick(10, 40))]
    ck.run_cases(cases, case)
    for n, q in (('present', 20000), ('absent', 20000), ('duplicated', 500), ('offsets64_checked', 200), ('lookups_with_bloom', 5000),
                 ('lookups_with_midx', 5000), ('midx_checked', 50), ('stale_restores', 5), ('indexes_removed', 5), ('damaged_headers', 3), ('automatic_blooms_in_use', 20)):
        ck.need(n, q)
    ck.finish()

#!/usr/bin/env python3
"""P19: metadata records survive encoding, storage and later format growth."""
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import json, struct, time as timem
from bv import *
import reader
from reader import enc_vint, enc_vuint, enc_bvec, decode_meta, _In


def J(x):
    if isinstance(x, (bytes, bytearray)): return {'b': bytes(x).hex()}
    if isinstance(x, (list, tuple)): return [J(y) for y in x]
    if isinstance(x, dict): return {k: J(v) for k, v in x.items()}
    return x


def U(x):
    if isinstance(x, dict):
        return bytes.fromhex(x['b']) if list(x) == ['b'] else {k: U(v) for k, v in x.items()}
    if isinstance(x, list): return [U(y) for y in x]
    return x


def ask(c, reqs):
    x = c.py('metaw.py', input=b''.join(json.dumps(q).encode() + b'\n' for q in reqs))
    ans = [json.loads(l) for l in x.out.splitlines()]
    c.require(len(ans) == len(reqs), 'worker stopped early: %r', x)
    return ans


EDGE = sorted({s * ((1 << e) + d) for e in list(range(0, 72)) + [127, 128, 200, 1000] for d in (-1, 0, 1) for s in (1, -1)})


def gen_int(r, lo=None):
    v = r.choice(EDGE) if r.random() < .7 else r.getrandbits(r.randint(1, r.choice([8, 40, 64, 70, 400]))) * r.choice([1, -1])
    return abs(v) if lo is not None else v


def gen_bytes(r, big=True):
    n = r.choice([0, 1, 2, 5, 20, 60, 127, 128, 129] + ([16383, 16384, 16385, 40000] if big and r.random() < .2 else []))
    return r.choice([bytes(n), b'\xff' * n, r.randbytes(n), bytes(r.choice(b'abc/.,:\n') for _ in range(n))])


def enc(k, v):
    return {'V': enc_vuint, 'v': enc_vint, 's': enc_bvec}[k](v)


def codec_case(c, n):
    r = c.rng
    reqs, want, what = [], [], []
    def add(q, w): reqs.append(q); want.append(w)
    def gv(k): return gen_bytes(r) if k == 's' else gen_int(r, 0 if k == 'V' else None)
    vals = [(k, v) for v in EDGE for k in 'Vv' if v >= 0 or k == 'v'] if n == 0 else [(k, gv(k)) for k in r.choices('Vvs', k=400)]
    for k, v in vals:
        e = enc(k, v)
        add({'op': 'enc', 'k': k, 'v': J(v)}, ('eq', J(e)))
        add({'op': 'dec', 'k': k, 'd': J(e + b'\x05tail')}, ('eq', [[J(v)], len(e)]))
        if k == 's':
            add({'op': 'dec', 'k': 'S', 'd': J(e + b'\x05tail')}, ('eq', [[None], len(e)]))
        cuts = range(1, len(e)) if len(e) < 12 else sorted(r.sample(range(1, len(e)), 4))
        for i in cuts:
            add({'op': 'dec', 'k': k, 'd': J(e[:i])}, ('error', None))
            if k == 's': add({'op': 'dec', 'k': 'S', 'd': J(e[:i])}, ('error', None))
    for v in (-1, -2, -(1 << 63), -(1 << 64), -(1 << 80), -r.getrandbits(90) - 1):
        add({'op': 'enc', 'k': 'V', 'v': v}, ('error', None))
    for _ in range(120):
        fmt = ''.join(r.choices('Vvs', k=r.randint(1, 13)))
        vs = [gv(k) for k in fmt]
        e = b''.join(enc(k, v) for k, v in zip(fmt, vs))
        add({'op': 'pack', 'f': fmt, 'v': J(vs)}, ('eq', J(e)))
        add({'op': 'unpack', 'f': fmt, 'd': J(e)}, ('eq', J(vs)))
        add({'op': 'dec', 'k': fmt, 'd': J(e)}, ('eq', [J(vs), len(e)]))
        for i in sorted({0, len(e) - 1, *r.choices(range(len(e)), k=4)}):
            add({'op': 'unpack', 'f': fmt, 'd': J(e[:i])}, ('error', None))
        add({'op': 'pack', 'f': fmt + 'V', 'v': J(vs)}, ('error', None))
        c.sig('codec', fmt, [type(v).__name__ + str(v.bit_length() if isinstance(v, int) else len(v)) for v in vs])
    for q_, (kind, w), a in zip(reqs, want, ask(c, reqs)):
        if kind == 'eq':
            c.require(a.get('ok', a) == w, '%s gave %s, not %s', q(q_, 400), q(a, 400), q(w, 400))
        else:
            c.require('err' in a, '%s of incomplete or invalid data gave %s and no error', q(q_, 400), q(a, 400))
            c.count('codec_errors_seen')
        c.eval()


# -- records ---------------------------------------------------------------------

TIMES = [0, 1, -1, 999999999, -999999999, 10**9, -10**9, 10**9 + 1, -10**9 - 1, -1500000000, -1250000000, 2**31 * 10**9, -2**31 * 10**9 - 1, (2**33) * 10**9 + 5,
         2**63 - 1, -2**63, 2**70, -2**70 + 3, 1400000000123456789]
TYPES = [stat.S_IFREG, stat.S_IFDIR, stat.S_IFLNK, stat.S_IFIFO, stat.S_IFSOCK, stat.S_IFCHR, stat.S_IFBLK]


def gen_rec(r):
    """Random field values of one record, as Metadata attributes."""
    t = r.choice(TYPES)
    def tm(): return r.choice(TIMES) if r.random() < .6 else r.randint(-2**62, 2**62)
    m = {'mode': t | r.choice([0, 0o644, 0o7777, r.randint(0, 0o7777)]), 'uid': r.choice([0, 1, 1000, 2**31, 2**32 - 2, 2**32 - 1, 2**40]), 'gid': r.choice([0, 1, 100, 2**31, 2**32 - 1]),
         'user': r.choice([b'', b'root', gen_bytes(r, False)]), 'group': r.choice([b'', b'wheel', gen_bytes(r, False)]),
         'rdev': r.choice([0, 1, 0x801, 2**32 + 5, 2**63, 2**64 - 1, -1, -2**31]) if t in (stat.S_IFCHR, stat.S_IFBLK) else 0,
         'atime': tm(), 'mtime': tm(), 'ctime': tm(), 'path': r.choice([None, b'a', b'a/b', gen_bytes(r).replace(b'\0', b'x') or None]),
         'size': r.choice([None, 0, 1, 127, 128, 2**31, 2**32, 2**40 + 1, 2**63 - 1, 2**64])}
    if t == stat.S_IFLNK:
        m['symlink_target'] = r.choice([b'x', gen_bytes(r) or b'y'])
        m['size'] = len(m['symlink_target'])
    if r.random() < .2: m['hardlink_target'] = gen_bytes(r, False) or b'/h'
    if r.random() < .3: m['linux_attr'] = r.choice([1, 0x80000, 2**31, 2**32 - 1, 2**40])
    if r.random() < .35: m['linux_xattr'] = [[b'user.' + gen_bytes(r, False)[:20], gen_bytes(r)] for _ in range(r.choice([1, 2, 5, 130 if r.random() < .1 else 3]))]
    if r.random() < .35:
        a = [b'u::rw,u:daemon:rwx,g::r,m::rwx,o::r', b'u::rw,u:1:rwx,g::r,m::rwx,o::r']
        if t == stat.S_IFDIR: a += r.choice([[b'', b''], [b'u::rwx,g::rx,o::rx', b'u::rwx,g::rx,o::r'], a])
        m['posix1e_acl'] = a
    return m


def norm(m):
    """Comparable form: absent and empty are the same, default ACL empty or missing too."""
    o = {}
    for k in ('mode', 'uid', 'gid', 'user', 'group', 'rdev', 'atime', 'mtime', 'ctime', 'path', 'size', 'symlink_target', 'hardlink_target', 'linux_attr', 'linux_xattr', 'posix1e_acl'):
        v = m.get(k)
        if k == 'posix1e_acl' and v:
            v = list(v)
            v = [bytes(x) for x in v]
            if len(v) == 2 or v[2:] == [b'', b'']: v = v[:2]
        if k == 'linux_xattr' and v: v = [[bytes(a), bytes(b)] for a, b in v]
        if v in (None, b'', [], ()) or (k in ('linux_attr', 'rdev') and v == 0): continue
        o[k] = v
    return o


def from_dec(d):
    """Our decoder's names to Metadata's."""
    o = {k: d[k] for k in ('mode', 'uid', 'gid', 'user', 'group', 'rdev', 'atime', 'mtime', 'ctime', 'path', 'size') if k in d}
    for a, b in (('target', 'symlink_target'), ('hardlink', 'hardlink_target'), ('attr', 'linux_attr'), ('xattr', 'linux_xattr'), ('acl', 'posix1e_acl')):
        if a in d: o[b] = d[a]
    return o


def fields(m, version=3, acl_v=2):
    """[(tag, data)] for the record in the given format versions, from the format's description."""
    out = []
    sec = lambda t: [enc_vint(t // 10**9), enc_vuint(t % 10**9)]
    if m.get('path'): out.append((1, enc_bvec(m['path'])))
    i = enc_vuint if version == 1 else enc_vint
    common = [i(m['mode']), i(m['uid']), enc_bvec(m['user']), i(m['gid']), enc_bvec(m['group']), i(m['rdev']), *sec(m['atime']), *sec(m['mtime']), *sec(m['ctime'])]
    if version == 3: common.append(enc_vint(-1 if m.get('size') is None else m['size']))
    out.append(({1: 2, 2: 9, 3: 10}[version], b''.join(common)))
    if m.get('symlink_target'): out.append((3, m['symlink_target']))
    if m.get('hardlink_target'): out.append((8, m['hardlink_target']))
    if m.get('posix1e_acl'):
        a = list(m['posix1e_acl'])
        a += [b'', b''] if len(a) == 2 else []
        if acl_v == 1: a = [x.replace(b',', b'\n') for x in a]
        out.append((11 if acl_v == 2 else 4, b''.join(enc_bvec(x) for x in a)))
    if m.get('linux_attr'): out.append((6, enc_vuint(m['linux_attr'])))
    if m.get('linux_xattr'): out.append((7, enc_vuint(len(m['linux_xattr'])) + b''.join(enc_bvec(a) + enc_bvec(b) for a, b in m['linux_xattr'])))
    return out


def join(fs):
    return b''.join(enc_vuint(t) + enc_bvec(d) for t, d in fs) + b'\0'


def strict(d):
    """(records, ok) by our own decoder; ok is False when the data is not a whole number of valid records,
    None when only a reader stricter than the format needs to be would refuse it."""
    s = _In(d)
    out = []
    try:
        while not s.end():
            out.append(decode_meta(s))
        return out, True
    except Exception as ex:
        soft = 'trailing bytes' in str(ex) or 'bad ns' in str(ex)
        return out, None if soft else False


def record_case(c, n):
    r = c.rng
    recs = [gen_rec(r) for _ in range(n)]
    reqs = [{'op': 'mdenc', 'm': J(m)} for m in recs] + [{'op': 'mdenc', 'm': J(m), 'path': False} for m in recs]
    ans = ask(c, reqs)
    encs = []
    for m, q_, a in zip(recs + recs, reqs, ans):
        c.require('ok' in a, 'encoding %r failed: %s', m, a)
        e = U(a['ok'])
        d, ok = strict(e)
        c.require(ok and len(d) == 1, 'encoding of %r is not one valid record: %s', q(m), q(e))
        w = dict(m)
        if q_.get('path') is False: w['path'] = None
        c.require(norm(from_dec(d[0])) == norm(w), 'record %s was encoded as %s', q(norm(w), 500), q(norm(from_dec(d[0])), 500))
        c.eval()
        c.sig('rec', stat.S_IFMT(m['mode']), sorted(norm(w)), len(e), m['mtime'] < 0)
        if q_.get('path') is not False: encs.append(e)
    # reading back: alone, concatenated, in every older form, with unknown fields, truncated, damaged
    rq = []
    def chk(d, want, what): rq.append((d, want, what))
    for m, e in zip(recs, encs):
        chk(e, [m], 'its own encoding')
        for v in (1, 2, 3):
            if v == 1 and m['rdev'] < 0: continue
            w = dict(m)
            if v < 3 and not m.get('symlink_target'): w['size'] = None
            chk(join(fields(m, v, r.choice([1, 2]))), [w], 'format version %d' % v)
        fs = fields(m)
        for _ in range(3):
            g = list(fs)
            for _ in range(r.randint(1, 4)):
                g.insert(r.randint(0, len(g)), (r.choice([5, 12, 13, 100, 127, 128, 2**20, 2**70]), r.choice([b'', b'', b'\0', b'x', r.randbytes(30), bytes(300)])))
            chk(join(g), [m], 'fields unknown to this version')
            c.count('unknown_field_records')
    for _ in range(n):
        seq = [r.choice([None] + list(range(len(recs)))) for _ in range(r.randint(2, 8))]
        chk(b''.join(b'\0' if i is None else encs[i] for i in seq), [None if i is None else recs[i] for i in seq], 'a stream of %d' % len(seq))
    for m, e in zip(recs, encs):
        short = len(e) < 260
        for i in (range(1, len(e)) if short else sorted(r.sample(range(1, len(e)), 40))):
            chk(e[:i], 'error', 'cut after %d of %d bytes' % (i, len(e)))
        k = r.randrange(len(encs))
        i = r.randrange(1, len(e))
        chk(encs[k] + e[:i], ('error after', [recs[k]]), 'stream cut inside the second record')
        for _ in range(25):
            b = bytearray(e)
            if r.random() < .6: b[r.randrange(min(len(b), r.choice([8, 40, len(b)])))] = r.choice([0, 1, 0x7f, 0x80, 0xff, r.randrange(256)])
            elif r.random() < .5: del b[(j := r.randrange(len(b))):j + r.randint(1, 3)]
            else: b[(j := r.randrange(len(b))):j] = r.randbytes(r.randint(1, 3))
            chk(bytes(b), 'judge', 'damaged')
    ans = ask(c, [{'op': 'mddec', 'd': J(d)} for d, _, _ in rq])
    for (d, want, what), a in zip(rq, ans):
        c.require('ok' in a, 'decoding %s died: %s', q(d), a)
        got, err, pos = a['ok']
        got = [None if g == 'empty' else {k: U(v) for k, v in g.items()} for g in got]
        ng = [g and norm(g) for g in got]
        c.eval()
        if want == 'error':
            c.require(err and not got, 'record %s was read as %s without an error (%s)', what, q(ng, 500), q(d, 500))
            c.count('truncations_reported')
        elif isinstance(want, tuple):
            c.require(err and ng == [norm(m) for m in want[1]], '%s: got %s, error %r (%s)', what, q(ng, 500), err, q(d, 300))
            c.count('truncations_reported')
        elif want == 'judge':
            w, ok = strict(d)
            wn = [norm(from_dec(x)) for x in w]
            if ok is None:
                continue
            if ok and any(x.get('size') is not None and x.get('target') is not None and x['size'] != len(x['target']) for x in w):
                continue
            if ok is False:
                c.require(err, 'damaged record was accepted: %s as %s', q(d, 600), q(ng, 400))
                c.count('damage_reported')
            elif ok:
                fix = lambda x: {k: v for k, v in x.items() if k != 'size'} if x and 'symlink_target' in x else x
                full = all({'mode', 'atime'} <= set(x) for x in w)
                if err and ('acl' in str([list(x) for x in w]) or not full): continue
                c.require(not err and [fix(x or {}) for x in ng] == [fix(x) for x in wn], 'damaged record %s was read as %s (%s), not %s', q(d, 600), q(ng, 500), err, q(wn, 500))
                c.count('damage_still_valid')
        else:
            wn = [m and norm(m) for m in want]
            c.require(not err and ng == wn and pos == len(d), '%s: %s was read as %s (error %r, %d of %d bytes), not %s', what, q(d, 300), q(ng, 600), err, pos, len(d), q(wn, 600))
            if any(m and (m['mtime'] < 0) for m in want): c.count('negative_times')
            c.count('records_read', len(want))


# -- the meta command --------------------------------------------------------------

def secs(ns):
    s, f = divmod(abs(ns), 10**9)
    return (b'-' if ns < 0 else b'') + (b'%d.%09d' % (s, f) if f else b'%d' % s)


def mode_str(m):
    t = {stat.S_IFREG: '-', stat.S_IFDIR: 'd', stat.S_IFCHR: 'c', stat.S_IFBLK: 'b', stat.S_IFIFO: 'p', stat.S_IFLNK: 'l', stat.S_IFSOCK: 's'}[stat.S_IFMT(m)]
    return (t + ''.join(ch if m & (0o400 >> i) else '-' for i, ch in enumerate('rwxrwxrwx'))).encode()


def detail(m):
    """The lines `meta -tvv` shows for a record, without xattr values."""
    L = [b'path: ' + (m.get('path') or b''), b'mode: %o (%s)' % (m['mode'], mode_str(m['mode']))]
    if stat.S_ISLNK(m['mode']): L.append(b'link-target: ' + m['symlink_target'])
    L.append(b'rdev: %d' % m['rdev'])
    if m.get('size') is not None: L.append(b'size: %d' % m['size'])
    L += [b'uid: %d' % m['uid'], b'gid: %d' % m['gid'], b'user: ' + m['user'], b'group: ' + m['group']]
    L += [k + b': ' + secs(m[k.decode()]) for k in (b'atime', b'mtime', b'ctime')]
    if m.get('linux_attr'): L.append(b'linux-attr: %x' % m['linux_attr'])
    a = m.get('posix1e_acl')
    if a:
        L += [b'posix1e-acl: ' + a[0], b'']
        if stat.S_ISDIR(m['mode']): L += [b'posix1e-acl-default: ' + (a[2] if len(a) > 2 else b''), b'']
    return b'\n'.join(L) + b'\n'


def feed(c, args, data, r, **kw):
    """bup fed through a pipe in small delayed pieces."""
    rf, wf = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rf)
            p = 0
            while p < len(data):
                n = r.randint(1, max(1, len(data) // r.randint(2, 30)))
                os.write(wf, data[p:p + n])
                p += n
                if r.random() < .2: timem.sleep(.003)
        finally:
            os._exit(0)
    os.close(wf)
    try:
        return c.bup(*args, stdin=rf, **kw)
    finally:
        os.close(rf)
        os.waitpid(pid, 0)


def list_case(c, n):
    r = c.rng
    for _ in range(n):
        recs = [gen_rec(r) for _ in range(r.randint(1, 6))]
        for m in recs:
            m['path'] = b'p' + (m['path'] or b'').replace(b'\n', b'-')
            for k in ('user', 'group', 'symlink_target'):
                if m.get(k): m[k] = m[k].replace(b'\n', b'-')
            if m.get('linux_xattr'): m['linux_xattr'] = None
        d = b''.join(join(fields(m)) for m in recs)
        p = os.fsencode(c.tmp('m'))
        with open(p, 'wb') as f: f.write(d)
        x = c.bup('meta', '-t', '-f', p)
        c.require(x.out == b''.join(m['path'] + b'\n' for m in recs), 'meta -t listed %s, not %s', q(x.out), q([m['path'] for m in recs]))
        x = feed(c, ['meta', '-tvv'], d, r)
        want = b'\n'.join(detail(m) for m in recs)
        c.require(x.out == want, 'meta -tvv showed %s, not %s', q(x.out, 900), q(want, 900))
        big = any(abs(m[k]) > 2**60 for m in recs for k in ('mtime',)) 
        if not big:
            x = c.bup('meta', '-tv', '-f', p)
            c.require(x.out.count(b'\n') == len(recs), 'meta -tv showed %r for %d records', x.out, len(recs))
        # cut archives are refused
        for _ in range(3):
            last = len(join(fields(recs[-1])))
            i = len(d) - r.randint(1, last - 1)
            x = feed(c, ['meta', '-tvv'], d[:i], r, ok=False)
            c.count('cut_archives')
        # edit
        u, g = r.choice([0, 7, 2**31]), r.choice([0, 9, 2**32 - 1])
        opts, w = [], [dict(m) for m in recs]
        if r.random() < .6: opts += ['--set-uid', str(u)]; [m.update(uid=u) for m in w]
        if r.random() < .6: opts += ['--set-gid=%d' % g]; [m.update(gid=g) for m in w]
        for k in ('user', 'group'):
            seq = r.choices(['set', 'unset', 'set2'], k=r.randint(0, 3))
            for s in seq:
                opts += {'set': ['--set-%s' % k, 'someone'], 'unset': ['--unset-%s' % k], 'set2': ['--set-%s=other' % k]}[s]
            if seq:
                v = {'set': b'someone', 'set2': b'other', 'unset': b''}[seq[-1]]
                [m.update({k: v}) for m in w]
        x = c.bup('meta', '--edit', *opts, p)
        got, ok = strict(x.out)
        c.require(ok and [norm(from_dec(y)) for y in got] == [norm(m) for m in w], 'meta --edit %s gave %s, not %s', opts, q([norm(from_dec(y)) for y in got], 700), q([norm(m) for m in w], 700))
        c.count('edits')
        c.eval(3)
        c.sig('list', [sorted(norm(m)) for m in recs], opts)


def clear(s, *keys):
    return {k: {a: b for a, b in e.items() if a not in keys} for k, e in s.items()}


def tree_case(c, n):
    r = c.rng
    for _ in range(n):
        top = c.tmp('t')
        src = top + '/src'
        TreeGen(r, maxentries=20, times='wild').make(src)
        had = snap(src)
        arch = top + '/m'
        x = c.bup('meta', '-c', *r.choice([['-f', arch], ['--file=' + arch]]), 'src', cwd=top)
        with open(arch, 'rb') as f: d = f.read()
        got, ok = strict(d)
        c.require(ok, 'meta --create wrote a malformed archive')
        paths = [m['path'].rstrip(b'/') for m in got]
        c.require(sorted(paths) == sorted(b'src' + (b'/' + k if k else b'') for k in had), 'meta --create archived %s, not %s', q(sorted(paths), 500), q(sorted(had), 500))
        for m in got:
            e = had[m['path'].rstrip(b'/')[4:]]
            w = {'mtime': e['mtime'], 'uid': e['owner'][0], 'gid': e['owner'][1], 'target': e.get('target')}
            g = {k: m.get(k) for k in w}
            c.require(g == w and stat.S_IFMT(m['mode']) == e['type'] and stat.S_IMODE(m['mode']) == e.get('mode', stat.S_IMODE(m['mode'])), 'meta --create recorded %s for %r, which is %s', q(m), m['path'], q(e))
            c.require(dict(m.get('xattr') or []) == {os.fsencode(k): v for k, v in e.get('xattr', {}).items()}, 'meta --create recorded xattrs %s for %r, which has %s', q(m.get('xattr')), m['path'], q(e.get('xattr')))
        x = c.bup('meta', '-tvv', '-f', arch)
        c.require(x.out.count(b'path: src') == len(got), 'meta -tvv showed %d of %d records', x.out.count(b'path: src'), len(got))
        for way in ('extract', 'startfinish'):
            out = c.tmp('o')
            os.mkdir(out)
            opt = ['--numeric-ids'] if r.random() < .5 else []
            if way == 'extract':
                feed(c, ['meta', '-x', *opt], d, r, cwd=out)
            else:
                c.bup('meta', '--start-extract', '-f', arch, cwd=out)
                feed(c, ['meta', '--finish-extract', *opt], d, r, cwd=out)
            g = clear(snap(out + '/src'), 'size', 'sha', 'links')
            w = clear(had, 'size', 'sha', 'links')
            dd = diff_snap(w, g, ('source', 'extracted'))
            c.require(not dd, 'meta --%s of an archive of a tree did not rebuild it: %s', way, '; '.join(dd))
            c.count('entries_extracted', len(g))
            c.eval()
            force_rmtree(out)
        c.sig('tree', tree_sig(had))
        force_rmtree(top)


def hostile_case(c, n):
    from p24 import rec, chown_r, as_nobody, surroundings
    r = c.rng
    deep = c.dir + '/o/u/t'
    os.makedirs(deep); os.makedirs(c.dir + '/home', exist_ok=True)
    can = c.dir + '/canary'
    os.makedirs(can + '/d/s')
    for f in ('f', 'd/x', 'd/s/y'):
        with open(can + '/' + f, 'wb') as fh: fh.write(b'canary ' + f.encode())
        os.chmod(can + '/' + f, 0o640)
    bc = os.fsencode(can)
    names = [b'a', b'b', b'l', b'a/x', b'l/x', b'l/evil', b'l/d', b'l/d/', b'l/', b'l/s', b'b/l', b'b/l/evil', b'b/l/x', b'b/', b'a/', b'l/f', b'..', b'../', b'../evil', b'../../../canary/f', b'../../../canary/evil',
             bc + b'/evil', bc + b'/f', b'//' + bc + b'/f', b'a/..', b'a/../..', b'a/../../evil', b'a/..//../evil', b'./..', b'./../evil', b'.', b'./', b'/', b'/..', b'/../evil', b'//..', b'..//evil', b'./..//evil', b'...', b'x/../../..', b'm', b'm/e', b'm/e/f']
    tg = [bc + b'/d', bc + b'/f', bc, b'../../../canary/d', b'..', b'.', b'../..', b'../../../canary/f', bc + b'/new', b'a', b'l']
    for i in range(n):
        seq = []
        for _ in range(r.randint(1, 9)):
            nm = r.choice(names)
            t = r.choice(['f', 'f', 'd', 'd', 'l', 'l', 'p'])
            if t == 'l': seq.append(rec(mode=0o120777, path=nm, target=r.choice(tg)))
            elif t == 'd': seq.append(rec(mode=0o40000 | r.choice([0o755, 0o700, 0o777]), path=nm, **r.choice([{}, {}, {'xattr': [(b'user.evil', b'1')]}])))
            elif t == 'f': seq.append(rec(mode=0o100000 | r.choice([0o666, 0o755, 0o600]), path=nm, **r.choice([{}, {}, {'xattr': [(b'user.evil', b'1')]}, {'acl': (b'u::rw,u:daemon:rwx,g::---,m::rwx,o::rwx', b'u::rw,u:1:rwx,g::---,m::rwx,o::rwx', b'', b'')}, {'attr': 0x40}])))
            else: seq.append(rec(mode=0o10666, path=nm))
        if r.random() < .4: seq.insert(0, rec(mode=0o120777, path=b'l', target=r.choice(tg)))
        d = b''.join(seq)
        out = deep + '/x%d' % i
        os.mkdir(out)
        if r.random() < .3:        # links already there
            os.symlink(r.choice(tg), os.fsencode(out) + b'/' + r.choice([b'l', b'a', b'm']))
        chown_r(c.dir)
        before = surroundings(c, out)
        way = r.choice([['-x'], ['-x'], ['-x', '--no-symlinks'], ['--start-extract'], ['--finish-extract'], 'both'])
        c.count('hostile_archives')
        rcs = []
        for w in ([['--start-extract'], ['--finish-extract']] if way == 'both' else [way]):
            x = c.bup('meta', *w, ok=None, preexec=as_nobody(), cwd=out, input=d)
            rcs.append(x.rc)
        after = surroundings(c, out)
        # only the directory that holds the output directory may not change either
        dd = diff_snap(before, after, ('before', 'after'))
        recs, _ = strict(d)
        show = [(m.get('path'), oct(m['mode']), m.get('target')) for m in recs]
        c.require(not dd, 'meta %s of a hostile archive changed something outside the current directory: %s (archive %s)', way, '; '.join(dd), q(show, 900))
        c.eval()
        c.count('hostile_entries_made', len(snap(out)) - 1)
        c.sig('hostile', show, way)
        force_rmtree(out)


def go(c, p):
    {'codec': codec_case, 'record': record_case, 'list': list_case, 'tree': tree_case, 'hostile': hostile_case}[p[0]](c, p[1])


if __name__ == '__main__':
    sys.path.insert(0, VERIF + '/checks')
    k = Check('P19', rule='One evaluation = one value, record or archive encoded or decoded by bup and compared with an independent encoder and decoder of the documented format (or, for incomplete and damaged data, '
              'required to be refused when that decoder finds it malformed), or one meta command whose listing or file system effect was compared with a model. Distinct: formats and value sizes; record field sets; trees; archives.',
              assumptions=['damage that yields another well-formed record cannot be told apart by a format without checksums and only has to be read consistently', 'hostile archives are extracted as an unprivileged user in a scratch directory'])
    subprocess.run(['chmod', '-R', 'a+rX', k.bupdir], check=True)
    a, b, d, e, f = k.pick((6, 16, 10, 14, 16), (60, 300, 100, 150, 300))
    k.run_cases([('codec-%d' % i, ('codec', i)) for i in range(a)] + [('record-%d' % i, ('record', 30)) for i in range(b)] + [('list-%d' % i, ('list', 4)) for i in range(d)] +
                [('tree-%d' % i, ('tree', 3)) for i in range(e)] + [('hostile-%d' % i, ('hostile', 18)) for i in range(f)], go)
    k.need('truncations_reported', 1000)
    k.need('unknown_field_records', 200)
    k.need('hostile_archives', 50)
    k.need('negative_times', 50)
    k.finish()

"""Independent reader of bup/git on-disk formats.

This is the oracle side: it shares no code with bup.  It reads pack and idx
files itself (checking every checksum), follows bup's documented tree
conventions (.bup / .bupl / .bupd / .bupm) and decodes metadata records.
"""
import hashlib, os, re, stat, struct, subprocess, zlib, mmap


class FormatError(Exception):
    pass


def need(cond, msg, *a):
    if not cond:
        raise FormatError(msg % a if a else msg)


KINDS = {1: b'commit', 2: b'tree', 3: b'blob', 4: b'tag'}


class Idx:
    """A version 2 pack index, fully verified while loading."""
    def __init__(self, path):
        self.path = path
        with open(path, 'rb') as f:
            d = f.read()
        need(d[:8] == b'\xfftOc\0\0\0\2', '%r: bad idx header', path)
        fan = struct.unpack('>256I', d[8:8 + 1024])
        n = fan[255]
        need(all(a <= b for a, b in zip(fan, fan[1:])), '%r: idx fanout decreases', path)
        o = 8 + 1024
        self.oids = [d[o + i * 20:o + i * 20 + 20] for i in range(n)]
        need(len(d) >= o + n * 28 + 40, '%r: idx truncated', path)
        o += 20 * n
        self.crcs = struct.unpack('>%dI' % n, d[o:o + 4 * n])
        o += 4 * n
        ofs = struct.unpack('>%dI' % n, d[o:o + 4 * n])
        o += 4 * n
        big = [x for x in ofs if x & 0x80000000]
        bigs = struct.unpack('>%dQ' % len(big), d[o:o + 8 * len(big)])
        o += 8 * len(big)
        self.ofs = [bigs[x & 0x7fffffff] if x & 0x80000000 else x for x in ofs]
        self.packsum = d[o:o + 20]
        need(len(d) == o + 40, '%r: idx size %d != %d', path, len(d), o + 40)
        need(hashlib.sha1(d[:-20]).digest() == d[-20:], '%r: idx checksum', path)
        for i in range(1, n):
            need(self.oids[i - 1] < self.oids[i], '%r: idx not strictly sorted at %d', path, i)
        for b in range(256):
            c = fan[b]
            need(c == 0 or self.oids[c - 1][0] <= b, '%r: fanout %d wrong', path, b)
            need(c == n or self.oids[c][0] > b, '%r: fanout %d wrong', path, b)


class Pack:
    def __init__(self, base, full=False):
        self.base = base
        self.idx = Idx(base + b'.idx')
        with open(base + b'.pack', 'rb') as f:
            self.data = f.read()
        d = self.data
        need(d[:8] == b'PACK\0\0\0\2', '%r: bad pack header', base)
        n = struct.unpack('>I', d[8:12])[0]
        need(n == len(self.idx.oids), '%r: pack count %d != idx %d', base, n, len(self.idx.oids))
        need(d[-20:] == self.idx.packsum, '%r: pack checksum differs from idx', base)
        need(hashlib.sha1(d[:-20]).digest() == d[-20:], '%r: pack checksum bad', base)
        self.where = dict(zip(self.idx.oids, self.idx.ofs))
        if full:
            self.verify()

    def verify(self):
        """Walk the pack sequentially; objects, offsets and crcs must agree."""
        d = self.data
        pos = 12
        byofs = {o: (oid, crc) for oid, o, crc in zip(self.idx.oids, self.idx.ofs, self.idx.crcs)}
        seen = 0
        end = len(d) - 20
        while pos < end:
            need(pos in byofs, '%r: object at %d not in idx', self.base, pos)
            oid, crc = byofs[pos]
            kind, data, nxt = self._at(pos)
            need(hashlib.sha1(b'%s %d\0' % (kind, len(data)) + data).digest() == oid,
                 '%r: object at %d does not hash to %s', self.base, pos, oid.hex())
            need(zlib.crc32(d[pos:nxt]) & 0xffffffff == crc, '%r: crc at %d', self.base, pos)
            pos = nxt
            seen += 1
        need(pos == end and seen == len(byofs), '%r: pack walk ended at %d of %d (%d of %d objects)',
             self.base, pos, end, seen, len(byofs))

    def _at(self, pos):
        d = self.data
        c = d[pos]; p = pos + 1
        kind = (c >> 4) & 7
        size = c & 15
        sh = 4
        while c & 0x80:
            c = d[p]; p += 1
            size |= (c & 0x7f) << sh
            sh += 7
        need(kind in KINDS, '%r: unexpected object kind %d at %d', self.base, kind, pos)
        z = zlib.decompressobj()
        win = size + size // 500 + 4096
        out = z.decompress(memoryview(d)[p:p + win])
        fed = min(win, len(d) - p)
        if not z.eof:
            out += z.decompress(memoryview(d)[p + win:])
            fed = len(d) - p
        need(z.eof, '%r: truncated object at %d', self.base, pos)
        used = fed - len(z.unused_data)
        need(len(out) == size, '%r: size mismatch at %d', self.base, pos)
        return KINDS[kind], out, p + used

    deltas = False          # set (on the class) where packs were made by git

    def get(self, oid):
        return self._get(self.where[oid], oid)

    def _get(self, pos, oid):
        d = self.data
        start = pos
        c = d[pos]; p = pos + 1
        kind = (c >> 4) & 7
        size = c & 15
        sh = 4
        while c & 0x80:
            c = d[p]; p += 1
            size |= (c & 0x7f) << sh
            sh += 7
        need(kind in KINDS or (self.deltas and kind in (6, 7)), '%r: unexpected object kind %d', self.base, kind)
        if kind == 6:
            c = d[p]; p += 1
            ofs = c & 0x7f
            while c & 0x80:
                c = d[p]; p += 1
                ofs = ((ofs + 1) << 7) | (c & 0x7f)
            base = self._get(start - ofs, oid)
        elif kind == 7:
            base = self.get(bytes(d[p:p + 20])); p += 20
        z = zlib.decompressobj()
        out = z.decompress(memoryview(d)[p:p + size + size // 500 + 4096])
        if not z.eof:
            out += z.decompress(memoryview(d)[p + size + size // 500 + 4096:])
        need(z.eof and len(out) == size, '%r: bad object %s', self.base, oid.hex())
        if kind in KINDS:
            return KINDS[kind], out
        return base[0], _apply_delta(base[1], out)


def _apply_delta(base, d):
    def size(p):
        r = sh = 0
        while True:
            c = d[p]; p += 1
            r |= (c & 0x7f) << sh; sh += 7
            if not c & 0x80: return r, p
    n, p = size(0)
    need(n == len(base), 'delta for another base')
    n, p = size(p)
    out = bytearray()
    while p < len(d):
        c = d[p]; p += 1
        if c & 0x80:
            o = l = 0
            for i in range(4):
                if c >> i & 1: o |= d[p] << (8 * i); p += 1
            for i in range(3):
                if c >> (4 + i) & 1: l |= d[p] << (8 * i); p += 1
            l = l or 0x10000
            out += base[o:o + l]
        else:
            out += d[p:p + c]; p += c
    need(len(out) == n, 'bad delta')
    return bytes(out)


class Repo:
    """Read-only snapshot of a repository's objects and refs."""
    def __init__(self, path, full=False, lenient=False):
        self.path = path = os.fsencode(path)
        self.packs = {}
        self.where = {}
        pd = os.path.join(path, b'objects/pack')
        names = set(os.listdir(pd)) if os.path.isdir(pd) else set()
        self.pack_names = sorted(n for n in names if n.endswith(b'.pack'))
        for n in sorted(names):
            if n.endswith(b'.idx'):
                b = n[:-4]
                if lenient and b + b'.pack' not in names:
                    continue
                need(b + b'.pack' in names, 'idx without pack: %r', n)
                p = Pack(os.path.join(pd, b), full)
                self.packs[b] = p
                for o in p.idx.oids:
                    self.where.setdefault(o, p)
        self.names = names
        self._cache = {}

    def refs(self):
        return read_refs(self.path)

    def has(self, oid):
        return oid in self.where or self._loose(oid) is not None

    def _loose(self, oid):
        h = oid.hex().encode()
        p = os.path.join(self.path, b'objects', h[:2], h[2:])
        try:
            with open(p, 'rb') as f:
                d = zlib.decompress(f.read())
        except FileNotFoundError:
            return None
        head, _, body = d.partition(b'\0')
        return head.split(b' ')[0], body

    def get(self, oid):
        r = self._cache.get(oid)
        if r is None:
            p = self.where.get(oid)
            if p is not None:
                r = p.get(oid)
            else:
                r = self._loose(oid)
                need(r is not None, 'missing object %s', oid.hex())
            k, d = r
            need(hashlib.sha1(b'%s %d\0' % (k, len(d)) + d).digest() == oid,
                 'object %s has wrong content', oid.hex())
            self._cache[oid] = r
        return r

    def all_oids(self):
        return set(self.where)

    # -- git level ---------------------------------------------------------
    def tree(self, oid):
        k, d = self.get(oid)
        need(k == b'tree', '%s is a %s, not a tree', oid.hex(), k)
        return parse_tree(d, oid)

    def commit(self, oid):
        k, d = self.get(oid)
        need(k == b'commit', '%s is a %s, not a commit', oid.hex(), k)
        return parse_commit(d)

    def reachable(self, roots, missing=None):
        """Set of oids reachable; missing ones are collected or raise."""
        seen = set()
        todo = list(roots)
        while todo:
            o = todo.pop()
            if o in seen:
                continue
            seen.add(o)
            if not self.has(o):
                if missing is None:
                    raise FormatError('missing object %s' % o.hex())
                missing.add(o)
                continue
            k, d = self.get(o)
            if k == b'tree':
                for mode, name, sub in parse_tree(d, o):
                    if mode == 0o160000:
                        continue
                    if stat.S_ISDIR(mode) and sub in seen:
                        continue
                    if not stat.S_ISDIR(mode):
                        # leaf: no need to read a blob to walk on
                        if sub not in seen:
                            if self.has(sub):
                                seen.add(sub)
                            else:
                                todo.append(sub)
                    else:
                        todo.append(sub)
            elif k == b'commit':
                c = parse_commit(d)
                todo.append(c['tree'])
                todo.extend(c['parents'])
            elif k == b'tag':
                m = re.match(rb'object ([0-9a-f]{40})\n', d)
                need(m, 'bad tag %s', o.hex())
                todo.append(bytes.fromhex(m.group(1).decode()))
        return seen

    def history(self, oid):
        """First-parent chain, newest first."""
        out = []
        while oid:
            c = self.commit(oid)
            out.append((oid, c))
            oid = c['parents'][0] if c['parents'] else None
        return out

    # -- bup level ---------------------------------------------------------
    def chunks(self, oid, mode):
        """Yield the chunk blobs of a file stored as a blob or a chunk tree."""
        if not stat.S_ISDIR(mode):
            k, d = self.get(oid)
            need(k == b'blob', '%s should be a blob', oid.hex())
            yield d
            return
        def walk(o, depth):
            need(depth < 64, 'chunk tree too deep')
            expect = None
            pos = 0
            for m, name, sub in self.tree(o):
                try:
                    at = int(name, 16)
                except ValueError:
                    raise FormatError('bad chunk name %r in %s' % (name, o.hex()))
                need(at == pos, 'chunk offset %r in %s, expected %x', name, o.hex(), pos)
                if stat.S_ISDIR(m):
                    for d in walk(sub, depth + 1):
                        pos += len(d)
                        yield d
                else:
                    k, d = self.get(sub)
                    need(k == b'blob', 'chunk %s is %r', sub.hex(), k)
                    pos += len(d)
                    yield d
        yield from walk(oid, 0)

    def content(self, oid, mode):
        return b''.join(self.chunks(oid, mode))

    def dir_entries(self, oid):
        """(bupm records or None, [(name, gitmode, chunked, oid)]) of a saved
        directory, with splits merged.  Names are the user's names."""
        ents = self.tree(oid)
        depth = None
        for m, n, s in ents:
            if n.endswith(b'.bupd'):
                x = re.fullmatch(rb'.*\.([0-9]+)\.bupd', n, re.S)
                need(x, 'bad bupd name %r', n)
                d = int(x.group(1))
                need(depth is None or depth == d, 'mixed bupd depth')
                depth = d
        if depth is None:
            return self._leaf(ents)
        recs = None
        out = []
        dirmeta = None
        metas = []
        for m, n, s in ents:
            if n == b'.bupm':
                dirmeta = decode_bupm(self.content(s, m))
                need(len(dirmeta) == 1, 'top bupm of split tree has %d records', len(dirmeta))
        def walk(ents, depth):
            for m, n, s in ents:
                if n == b'.bupm':
                    continue
                need(re.fullmatch(rb'.*\.%d\.bupd' % depth, n, re.S) and stat.S_ISDIR(m),
                     'unexpected %r in level %d split tree', n, depth)
                sub = self.tree(s)
                if depth > 1:
                    need(all(x[1] != b'.bupm' for x in sub), 'bupm in inner split tree')
                    walk(sub, depth - 1)
                else:
                    ms, es = self._leaf(sub)
                    if ms is not None:
                        need(ms[0] is None or ms[0] == {}, 'leaf split tree has "." metadata')
                        for e, mm in zip(es, self._align(ms[1:], es)):
                            out.append(e); metas.append(mm)
                    else:
                        for e in es:
                            out.append(e); metas.append(None)
        walk(ents, depth)
        return ('split', dirmeta[0] if dirmeta else None, metas), out

    @staticmethod
    def _align(recs, es):
        """Assign bupm records (after '.') to non-directory entries."""
        order = sorted((e for e in es if not e[4]), key=lambda e: e[0])
        need(len(recs) == len(order), 'bupm has %d records for %d entries', len(recs), len(order))
        by = {id(e): r for e, r in zip(order, recs)}
        return [by.get(id(e)) for e in es]

    def _leaf(self, ents):
        recs = None
        out = []
        for m, n, s in ents:
            if n == b'.bupm':
                recs = decode_bupm(self.content(s, m))
                continue
            if n.endswith(b'.bupl'):
                e = (n[:-5], m, False, s, stat.S_ISDIR(m))
            elif n.endswith(b'.bup'):
                need(stat.S_ISDIR(m), '%r is not a tree', n)
                e = (n[:-4], m, True, s, False)
            else:
                need(not n[:-1].endswith(b'.bup'), 'unmangled reserved name %r', n)
                e = (n, m, False, s, stat.S_ISDIR(m))
            out.append(e)
        return recs, out

    def walk_dir(self, oid, path=b'', content=True):
        """path -> dict(kind, gitmode, meta, data/oid) for everything in a
        saved directory tree (the key of the directory itself is `path`)."""
        res = {}
        recs, es = self.dir_entries(oid)
        if isinstance(recs, tuple):
            dm, ms = recs[1], recs[2]
        elif recs is None:
            dm, ms = None, [None] * len(es)
        else:
            dm, ms = recs[0], self._align(recs[1:], es)
        res[path] = {'kind': 'dir', 'meta': dm, 'oid': oid}
        for (n, gm, chunked, s, isdir), meta in zip(es, ms):
            p = path + b'/' + n if path else n
            need(p not in res, 'duplicate entry %r', p)
            if isdir:
                res.update(self.walk_dir(s, p, content))
            else:
                e = {'kind': 'link' if stat.S_ISLNK(gm) else 'file', 'gitmode': gm,
                     'meta': meta, 'oid': s, 'chunked': chunked}
                if content:
                    e['data'] = self.content(s, gm if chunked else 0o100644)
                res[p] = e
        return res


def parse_tree(d, oid=b''):
    out = []
    pos = 0
    last = None
    names = set()
    while pos < len(d):
        z = d.index(b'\0', pos)
        m, _, name = d[pos:z].partition(b' ')
        mode = int(m, 8)
        need(m in (b'100644', b'100755', b'120000', b'40000', b'160000', b'100664'),
             'tree %s: bad mode %r', oid.hex(), m)
        need(name and b'/' not in name and name not in (b'.', b'..'), 'tree %s: bad name %r', oid.hex(), name)
        sub = d[z + 1:z + 21]
        need(len(sub) == 20, 'tree %s truncated', oid.hex())
        key = name + b'/' if stat.S_ISDIR(mode) else name
        need(last is None or last < key, 'tree %s: order %r !< %r', oid.hex(), last, key)
        need(name not in names, 'tree %s: duplicate %r', oid.hex(), name)
        names.add(name)
        last = key
        out.append((mode, name, sub))
        pos = z + 21
    return out


_ident = re.compile(rb'^([^\0\n<>]*) <([^\0\n<>]*)> (-?\d+) ([-+]\d{4})$')


def parse_commit(d):
    head, sep, msg = d.partition(b'\n\n')
    need(sep, 'commit without message separator')
    lines = head.split(b'\n')
    c = {'parents': [], 'message': msg, 'raw': d}
    need(re.match(rb'^tree [0-9a-f]{40}$', lines[0]), 'bad commit tree line %r', lines[0])
    c['tree'] = bytes.fromhex(lines[0][5:].decode())
    i = 1
    while i < len(lines) and lines[i].startswith(b'parent '):
        need(re.match(rb'^parent [0-9a-f]{40}$', lines[i]), 'bad parent')
        c['parents'].append(bytes.fromhex(lines[i][7:].decode()))
        i += 1
    for who in (b'author', b'committer'):
        need(i < len(lines) and lines[i].startswith(who + b' '), 'commit lacks %s: %r', who, lines)
        m = _ident.match(lines[i][len(who) + 1:])
        need(m, 'malformed %s line %r', who, lines[i])
        c[who.decode()] = (m.group(1), m.group(2), int(m.group(3)), m.group(4))
        i += 1
    return c


def read_refs(path):
    """{refname: oid}, loose over packed."""
    path = os.fsencode(path)
    refs = {}
    try:
        with open(os.path.join(path, b'packed-refs'), 'rb') as f:
            for l in f:
                if l.startswith((b'#', b'^')):
                    continue
                h, n = l.rstrip(b'\n').split(b' ', 1)
                refs[n] = bytes.fromhex(h.decode())
    except FileNotFoundError:
        pass
    base = os.path.join(path, b'refs')
    for dp, dn, fn in os.walk(base):
        for f in fn:
            if f.endswith(b'.lock'):
                continue
            p = os.path.join(dp, f)
            with open(p, 'rb') as fh:
                v = fh.read().strip()
            need(re.fullmatch(rb'[0-9a-f]{40}', v), 'ref %r contains %r', p, v)
            refs[os.path.relpath(p, path)] = bytes.fromhex(v.decode())
    return refs


# -- metadata -----------------------------------------------------------------

class _In:
    def __init__(self, d):
        self.d = d
        self.p = 0
    def byte(self):
        need(self.p < len(self.d), 'metadata truncated')
        b = self.d[self.p]
        self.p += 1
        return b
    def vuint(self):
        r = sh = 0
        while True:
            b = self.byte()
            r |= (b & 0x7f) << sh
            sh += 7
            if not b & 0x80:
                return r
    def vint(self):
        b = self.byte()
        neg = b & 0x40
        r = b & 0x3f
        sh = 6
        while b & 0x80:
            b = self.byte()
            r |= (b & 0x7f) << sh
            sh += 7
        return -r if neg else r
    def bvec(self):
        n = self.vuint()
        r = self.d[self.p:self.p + n]
        need(len(r) == n, 'metadata truncated')
        self.p += n
        return r
    def end(self):
        return self.p >= len(self.d)


def enc_vuint(x):
    out = bytearray()
    while True:
        b = x & 0x7f
        x >>= 7
        out.append(b | (0x80 if x else 0))
        if not x:
            return bytes(out)


def enc_vint(x):
    neg = x < 0
    x = abs(x)
    b = (x & 0x3f) | (0x40 if neg else 0)
    x >>= 6
    if not x:
        return bytes([b])
    return bytes([b | 0x80]) + enc_vuint(x)


def enc_bvec(b):
    return enc_vuint(len(b)) + b


def decode_meta(s):
    """Decode one record from an _In; {} for an empty record."""
    m = {}
    while True:
        tag = s.vuint()
        if tag == 0:
            return m
        d = s.bvec()
        i = _In(d)
        if tag == 1:
            m['path'] = i.bvec()
        elif tag in (2, 9, 10):
            n = i.vuint if tag == 2 else i.vint
            m['mode'] = n(); m['uid'] = n(); m['user'] = i.bvec()
            m['gid'] = n(); m['group'] = i.bvec(); m['rdev'] = n()
            for k in ('atime', 'mtime', 'ctime'):
                sec = i.vint(); ns = i.vuint()
                need(0 <= ns < 10**9, 'bad ns %d', ns)
                m[k] = sec * 10**9 + ns
            if tag == 10:
                sz = i.vint()
                m['size'] = sz if sz >= 0 else None
        elif tag == 3:
            m['target'] = d; i.p = len(d)
        elif tag == 8:
            m['hardlink'] = d; i.p = len(d)
        elif tag == 11:
            m['acl'] = tuple(i.bvec() for _ in range(4))
        elif tag == 4:
            acl = [i.bvec() for _ in range(4)]
            if not any(b',' in x for x in acl):
                m['acl'] = tuple(x.replace(b'\n', b',') for x in acl)
        elif tag == 6:
            m['attr'] = i.vuint()
        elif tag == 7:
            m['xattr'] = [(i.bvec(), i.bvec()) for _ in range(i.vuint())]
        else:
            m.setdefault('unknown', []).append((tag, d)); i.p = len(d)
        need(i.end(), 'trailing bytes in metadata record tag %d', tag)


def decode_bupm(d):
    s = _In(d)
    out = []
    while not s.end():
        out.append(decode_meta(s))
    return out

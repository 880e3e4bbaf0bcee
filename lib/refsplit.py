"""Reference hashsplitting and tree building, independent of bup's code."""
import ctypes, hashlib, math
from bv import cc, VERIF


class Ref:
    def __init__(self, scratch):
        so = scratch + '/refsplit.so'
        cc(VERIF + '/lib/c/refsplit.c', so, '-O3', '-march=native')
        self.l = ctypes.CDLL(so)
        self.l.ref_split.restype = ctypes.c_size_t
        self.l.ref_split.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_uint, ctypes.c_void_p, ctypes.c_size_t]
        self.l.ref_window.argtypes = [ctypes.c_uint64, ctypes.c_uint, ctypes.c_uint, ctypes.c_char_p]

    def split(self, data, bits=13, fanbits=4):
        """[(length, level)]"""
        n = len(data) // 1 + 2
        buf = (ctypes.c_uint32 * (2 * min(n, 4000000)))()
        k = self.l.ref_split(data, len(data), bits, buf, len(buf) // 2)
        return [(buf[2 * i], buf[2 * i + 1] // fanbits) for i in range(k)]

    def window(self, seed, bits, ones):
        out = ctypes.create_string_buffer(64)
        got = self.l.ref_window(seed & (2**64 - 1), bits, ones, out)
        assert got >= 0, 'reference checksum inconsistent'
        return (out.raw, got - 1) if got else None

    def records(self, recs, bits):
        lens = (ctypes.c_uint32 * len(recs))(*map(len, recs))
        out = (ctypes.c_uint32 * len(recs))()
        self.l.ref_records(b''.join(recs), lens, ctypes.c_size_t(len(recs)), bits, out)
        return [[bool(x), bits + x - 2 if x > 1 else None] for x in out]

    def split_files(self, files, bits=13, fanbits=4, boundaries=False):
        if not boundaries:
            return self.split(b''.join(files), bits, fanbits)
        return [x for f in files for x in self.split(f, bits, fanbits)]


def oid(typ, data):
    return hashlib.sha1(b'%s %d\0' % (typ, len(data)) + data).digest()


def tree_oid(ents):
    """ents: (mode, name, oid), git order."""
    ents = sorted(ents, key=lambda e: e[1] + b'/' if e[0] == 0o40000 else e[1])
    return oid(b'tree', b''.join(b'%o %s\0%s' % e for e in ents))


def chunk_tree(data, chunks, maxper=256):
    """The documented hash tree over chunks: (mode, oid, size) lists at the top
    level, named by hex offset."""
    stacks = [[]]
    pos = 0
    def named(l):
        total = sum(x[2] for x in l)
        w = len('%x' % total)
        out, off = [], 0
        for mode, o, size in l:
            out.append((mode, b'%0*x' % (w, off), o))
            off += size
        return out, total
    def squish(n):
        i = 0
        while i < n or len(stacks[i]) >= maxper:
            if len(stacks) <= i + 1:
                stacks.append([])
            if len(stacks[i]) == 1:
                stacks[i + 1].append(stacks[i][0])
            elif stacks[i]:
                l, total = named(stacks[i])
                stacks[i + 1].append((0o40000, tree_oid(l), total))
            stacks[i] = []
            i += 1
    for n, level in chunks:
        stacks[0].append((0o100644, oid(b'blob', data[pos:pos + n]), n))
        pos += n
        squish(level)
    squish(len(stacks) - 1)
    return named(stacks[-1])[0]


def file_oid(data, chunks):
    """(mode, oid) of a file stored from these chunks."""
    l = chunk_tree(data, chunks)
    if not l:
        return 0o100644, oid(b'blob', b'')
    if len(l) == 1:
        return l[0][0], l[0][2]
    return 0o40000, tree_oid(l)


def fanbits(fanout):
    return int(math.log2(fanout or 128))

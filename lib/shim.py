"""Python side of lib/c/shim.c: kill, fail, delay or record filesystem operations of bup."""
import mmap, os, re, struct
from urllib.parse import unquote_to_bytes
import bv

FIELDS = 'n kill_at torn fail_at fail_errno fail_more fail_kinds delay_us delay_seed hits fail_kind kill_self short_write stop_at stop_pid'.split()
K = dict(OPEN=1, WRITE=2, RENAME=4, UNLINK=8, MKDIR=16, TRUNC=32, FSYNC=64, LINK=128, MMAP=256, READ=512, OPENR=1024,
         STAT=2048, CLOSE=4096, SEEK=8192, DIR=16384, META=32768, FSTAT=65536, READLINK=131072)
MUT = sum(K[k] for k in 'OPEN WRITE RENAME UNLINK MKDIR TRUNC FSYNC LINK MMAP'.split())


def build(check):
    so = check.scratch + '/shim.so'
    bv.cc(bv.VERIF + '/lib/c/shim.c', so, '-O1', '-fPIC', '-shared', '-w', '-ldl')
    check.shim_so = so


class Shim:
    def __init__(self, c, roots=None, log=False, name='shim'):
        self.c = c
        self.state = c.dir + '/%s.state' % name
        with open(self.state, 'wb') as f:
            f.write(b'\0' * 4096)
        self.fd = os.open(self.state, os.O_RDWR)
        self.m = mmap.mmap(self.fd, 4096)
        self.log = c.dir + '/%s.log' % name if log else None
        self.roots = [os.fsdecode(x) for x in (roots or [c.bup_dir])]

    def env(self):
        e = {'LD_PRELOAD': self.c.check.shim_so, 'BV_STATE': self.state, 'BV_ROOT': ':'.join(self.roots)}
        if self.log:
            e['BV_LOG'] = self.log
        return e

    def set(self, **kw):
        for k, v in kw.items():
            struct.pack_into('<Q', self.m, 8 * FIELDS.index(k), v)
        return self

    def get(self, k):
        return struct.unpack_from('<Q', self.m, 8 * FIELDS.index(k))[0]

    def kinds(self):
        """{kind: events seen}"""
        return {k: n for k, v in K.items() for n in struct.unpack_from('<Q', self.m, 8 * (len(FIELDS) + v.bit_length() - 1)) if n}

    def reset(self, **kw):
        self.m[:] = b'\0' * 4096
        if self.log and os.path.exists(self.log):
            os.unlink(self.log)
        return self.set(**kw)

    def events(self):
        """[(pid, op, ret, path, path2)]"""
        out = []
        if not self.log or not os.path.exists(self.log):
            return out
        with open(self.log, 'rb') as f:
            for l in f:
                m = re.fullmatch(rb'(\d+) (\w+) (-?\d+) ([^\t\n]*)(?:\t([^\t\n]*))?\n', l)
                if not m:
                    raise bv.EnvError('bad shim log line %r' % l)
                out.append((int(m[1]), m[2].decode(), int(m[3]), unquote_to_bytes(m[4]),
                            unquote_to_bytes(m[5]) if m[5] is not None else None))
        return out

    def close(self):
        self.m.close()
        os.close(self.fd)

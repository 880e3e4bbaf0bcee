"""Encode and decode metadata with bup's own code: one JSON request per line on stdin, one answer per line."""
import json, sys
from io import BytesIO
from bup import metadata, vint

F = ('mode', 'uid', 'gid', 'user', 'group', 'rdev', 'atime', 'mtime', 'ctime', 'path', 'size', 'symlink_target', 'hardlink_target',
     'linux_attr', 'linux_xattr', 'posix1e_acl')

def out(x):
    if isinstance(x, (bytes, bytearray)): return {'b': bytes(x).hex()}
    if isinstance(x, (list, tuple)): return [out(y) for y in x]
    return x

def inp(x):
    if isinstance(x, dict): return bytes.fromhex(x['b'])
    if isinstance(x, list): return [inp(y) for y in x]
    return x

class Short:
    """A port that counts what was taken from it."""
    def __init__(self, d): self.f = BytesIO(d)
    def read(self, n=-1): return self.f.read(n)

def do(q):
    op = q['op']
    if op == 'enc':
        k, v = q['k'], inp(q['v'])
        b = BytesIO()
        {'V': vint.write_vuint, 'v': vint.write_vint, 's': vint.write_bvec}[k](b, v)
        e = {'V': vint.encode_vuint, 'v': vint.encode_vint, 's': vint.encode_bvec}[k](v)
        assert e == b.getvalue(), 'write and encode differ'
        return e
    if op == 'dec':
        p = BytesIO(inp(q['d']))
        r = []
        for k in q['k']:
            r.append({'V': vint.read_vuint, 'v': vint.read_vint, 's': vint.read_bvec, 'S': vint.skip_bvec}[k](p))
        return [r, p.tell()]
    if op == 'pack':
        a = [inp(v) for v in q['v']]
        b = BytesIO()
        vint.send(b, q['f'], *a)
        p = vint.pack(q['f'], *a)
        assert p == b.getvalue(), 'pack and send differ'
        return p
    if op == 'unpack':
        return vint.unpack(q['f'], inp(q['d']))
    if op == 'mdenc':
        m = metadata.Metadata(frozen=False)
        for k, v in q['m'].items():
            v = inp(v)
            if k == 'posix1e_acl' and v is not None: v = tuple(v)
            if k == 'linux_xattr' and v is not None: v = [tuple(x) for x in v]
            setattr(m, k, v)
        m.freeze()
        b = BytesIO()
        m.write(b, include_path=q.get('path', True))
        e = m.encode(include_path=q.get('path', True))
        assert e == b.getvalue(), 'write and encode differ'
        r = metadata.Metadata.read(BytesIO(e))
        assert r.same_file(metadata.Metadata.read(BytesIO(e)))
        return e
    if op == 'mddec':
        p = BytesIO(inp(q['d']))
        recs = []
        err = None
        while True:
            try:
                m = metadata.Metadata.read(p)
            except Exception as ex:
                err = type(ex).__name__ + ': ' + str(ex)[:200]
                break
            if m is None: break
            recs.append('empty' if m is metadata.empty_metadata else {k: out(getattr(m, k)) for k in F})
        return [recs, err, p.tell()]
    raise Exception('bad op')

res = sys.stdout
for line in sys.stdin:
    try:
        r = {'ok': out(do(json.loads(line)))}
    except Exception as ex:
        r = {'err': type(ex).__name__, 'msg': str(ex)[:300]}
    res.write(json.dumps(r) + '\n')

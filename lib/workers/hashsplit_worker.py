"""stdin: JSON lines of jobs; stdout: JSON lines of results.
Runs bup's real HashSplitter / RecordHashSplitter."""
import hashlib, io, json, os, random, sys, threading
from bup._helpers import HashSplitter, RecordHashSplitter

class Short:
    """Python file object (no descriptor) returning slices of random size."""
    def __init__(self, d, r, mode):
        self.d, self.p, self.r, self.mode = memoryview(d), 0, r, mode
    def read(self, n):
        if self.p >= len(self.d): return b''
        k = {'one': 1, 'small': self.r.randint(1, 100), 'mid': self.r.randint(1, 70000), 'full': n}[self.mode]
        k = min(k, n)
        x = self.d[self.p:self.p + k]
        self.p += len(x)
        t = self.r.random()
        return bytes(x) if t < .5 else bytearray(x) if t < .75 else x

def pipe(d, r):
    a, b = os.pipe()
    def feed():
        p = 0
        try:
            while p < len(d):
                k = r.choice([1, 7, 4096, 65536, 200000, r.randint(1, 50000)])
                while k:
                    n = os.write(b, d[p:p + k])
                    p += n; k -= n
                    if p >= len(d): break
        finally:
            os.close(b)
    threading.Thread(target=feed, daemon=True).start()
    return os.fdopen(a, 'rb', buffering=0)

def open_one(path, how, r):
    with open(path, 'rb') as f: d = f.read()
    if how == 'file': return open(path, 'rb')
    if how == 'rawfile': return open(path, 'rb', buffering=0)
    if how == 'bytesio': return io.BytesIO(d)
    if how == 'pipe': return pipe(d, r)
    return Short(d, r, how)

for line in sys.stdin:
    j = json.loads(line)
    r = random.Random(j['seed'])
    if j['kind'] == 'records':
        h = RecordHashSplitter(bits=j['bits'])
        out = []
        with open(j['path'], 'rb') as f:
            for n in j['lens']:
                s, b = h.feed(f.read(n))
                out.append([s, b])
        print(json.dumps(out), flush=True)
        continue
    prog = {}
    def progress(n, k): prog[n] = prog.get(n, 0) + k
    files = [open_one(p, how, r) for p, how in j['files']]
    kw = {}
    if j['progress']: kw['progress'] = progress
    if j.get('lazy'): files = iter(files)
    hs = HashSplitter(files, bits=j['bits'], keep_boundaries=j['boundaries'], fanbits=j['fanbits'], **kw)
    sha = hashlib.sha1()
    out = []
    held = []
    for blob, level in hs:
        out.append([len(blob), level])
        sha.update(blob)
        if j.get('hold'):
            held.append((blob, hashlib.sha1(blob).digest()))
    bad = sum(hashlib.sha1(b).digest() != s for b, s in held)
    print(json.dumps({'chunks': out, 'sha': sha.hexdigest(), 'changed': bad,
                      'progress': [prog.get(i, 0) for i in range(len(j['files']))] if j['progress'] else None}), flush=True)

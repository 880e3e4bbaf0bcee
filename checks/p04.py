#!/usr/bin/python3.12
"""P04: splitting is lossless, deterministic, bounded, and follows the documented checksum."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from bv import *
from reader import Repo
from refsplit import *

MB8 = 8 << 20


def gen(r, ref, bits, size=None):
    mb = 4 << bits
    if size is None:
        k = r.random()
        if k < .1: size = r.choice([0, 1, 63, 64, 65, 127, 128])
        elif k < .3: size = mb * r.randint(1, 3) + r.randint(-2, 2)
        elif k < .6: size = r.randint(1, 60000)
        else: size = r.randint(1, 700000)
    k = r.random()
    if k < .25: return r.randbytes(size), 'rand'
    if k < .35: return gen_data(r, size), 'mixed'
    if k < .42: return bytes([r.choice([0, 1, 31, 127, 255])]) * size, 'const'
    if k < .5:
        u = r.randbytes(r.choice([2, 63, 64, 65, 8191, 8192, 30000]))
        return (u * (size // len(u) + 1))[:size], 'periodic'
    if k < .6: return bytes(r.choices(range(2), k=min(size, 200000))) * max(1, size // 200000), 'lowent'
    # crafted: chunk ends with many ones, at positions around the limits
    out = []
    n = 0
    while n < max(size, 1):
        w = ref.window(r.getrandbits(48), bits, r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 11]))
        if not w:
            w = (r.randbytes(64), 0)
        fill = r.choice([0, 1, 64, 1000, mb - 64, mb - 65, mb - 63, mb, r.randint(0, mb)])
        if out and fill > size - n:
            fill = max(0, size - n)
        out.append(bytes([r.choice([0, 0, 5])]) * fill + w[0])
        n += len(out[-1])
    return b''.join(out), 'crafted'


def check(c, what, datas, got, ref, bits, fb, boundaries):
    exp = [list(x) for x in ref.split_files(datas, bits, fb, boundaries)]
    if got != exp:
        i = next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
        raise Violation('%s: chunk %d at offset %d: got (length, level) %s, documented rule gives %s (sizes %s bits %d fanbits %d boundaries %s)'
                        % (what, i, sum(x[0] for x in got[:i]), got[i:i + 3], exp[i:i + 3], [len(d) for d in datas], bits, fb, boundaries))
    if any(n > 4 << bits for n, _ in got):
        raise Violation('%s: chunk larger than %d' % (what, 4 << bits))
    c.count('chunks_checked', len(got))
    c.count('forced_chunks', sum(n == 4 << bits for n, _ in got))
    c.count('max_level_seen_%d' % max([l for _, l in got], default=0))
    return exp


def lib_case(c, p):
    r = c.rng
    ref = Ref(c.dir)
    jobs, meta = [], []
    for i in range(p):
        bits = r.choice([13, 13, 13, 13, 14, 15, 16, 17, 18, 19, 20, 21])
        fb = r.choice([4, 4, 4, 7, 1, 2, 3, 8, 20])
        big = r.random() < .1 or bits > 19
        nf = 1 if big else r.choice([1, 1, 1, 2, 3, 6])
        datas, kinds = [], []
        for _ in range(nf):
            if big:
                d, k = gen(r, ref, bits, MB8 * r.choice([1, 1, 2]) + r.choice([0, 1, -1, 4096, -(4 << bits), (4 << bits) // 2, r.randint(-300000, 300000)]))
            else:
                d, k = gen(r, ref, bits if bits < 18 else 13)
            datas.append(d); kinds.append(k)
        paths = []
        for d in datas:
            paths.append(c.tmp())
            with open(paths[-1], 'wb') as f:
                f.write(d)
        bnd = r.random() < .4
        variants = r.sample(['file', 'rawfile', 'bytesio', 'pipe', 'small', 'mid', 'full'] + (['one'] if sum(map(len, datas)) < 20000 else []),
                            2 if big else 3)
        for how in variants:
            hows = [how] * nf if r.random() < .6 else [r.choice(variants) for _ in range(nf)]
            if 'one' in hows and sum(map(len, datas)) > 20000 or ('small' in hows and big):
                hows = ['mid' if h in ('one', 'small') else h for h in hows]
            jobs.append(dict(kind='split', seed=r.getrandbits(32), files=list(zip(paths, hows)), bits=bits, fanbits=fb, boundaries=bnd,
                             progress=r.random() < .5, lazy=r.random() < .5, hold=r.random() < .3))
            meta.append((datas, kinds))
    for i in range(p // 2):
        bits = r.choice([13, 13, 14, 16])
        recs = []
        for _ in range(r.randint(1, 3000)):
            if r.random() < .004:
                w = ref.window(r.getrandbits(48), bits, r.choice([0, 2, 5]))
                recs.append(b'x' * r.choice([0, 3]) + (w[0] if w else b'z'))
            else:
                recs.append(r.choice([b'', b'a', gen_name(r), b'file%06d' % r.randint(0, 10**6), r.randbytes(r.randint(0, 255))]))
        pth = c.tmp()
        with open(pth, 'wb') as f:
            f.write(b''.join(recs))
        jobs.append(dict(kind='records', seed=0, path=pth, lens=[len(x) for x in recs], bits=bits))
        meta.append((recs, None))
    res = c.py('hashsplit_worker.py', input=('\n'.join(map(json.dumps, jobs)) + '\n').encode())
    lines = res.out.splitlines()
    c.require(len(lines) == len(jobs), 'worker output short: %r', res)
    cache = {}
    for j, (m, kinds), l in zip(jobs, meta, lines):
        got = json.loads(l)
        c.eval()
        if j['kind'] == 'records':
            exp = ref.records(m, j['bits'])
            if got != exp:
                i = next(i for i in range(len(exp)) if got[i] != exp[i])
                raise Violation('RecordHashSplitter: record %d: got %s, reference %s' % (i, got[i], exp[i]))
            c.count('records_checked', len(exp)); c.count('record_splits', sum(x[0] for x in exp))
            continue
        what = 'HashSplitter(%s)' % [h for _, h in j['files']]
        check(c, what, m, got['chunks'], ref, j['bits'], j['fanbits'], j['boundaries'])
        if got['sha'] != hashlib.sha1(b''.join(m)).hexdigest():
            raise Violation('%s: concatenated chunks differ from the input (sizes %s)' % (what, [len(d) for d in m]))
        if got['changed']:
            raise Violation('%s: chunks changed after they were returned' % what)
        if got['progress'] and got['progress'] != [len(d) for d in m]:
            raise Violation('%s: progress reported %s for sizes %s' % (what, got['progress'], [len(d) for d in m]))
        c.count('streams_split')
        for _, h in j['files']:
            c.count('input_' + h)
        for k in kinds:
            c.count('data_' + k)
        c.sig(j['bits'], j['fanbits'], j['boundaries'], tuple(sorted(set(h for _, h in j['files']))), tuple(kinds), min(len(got['chunks']), 20))
    c.sample({'bits': jobs[0].get('bits'), 'files': [h for _, h in jobs[0].get('files', [])], 'sizes': [len(x) for x in meta[0][0]][:5]})


def cli_case(c, p):
    r = c.rng
    ref = Ref(c.dir)
    bits = 13
    conf = r.random() < .5
    c.bup('init')
    if conf:
        bits = r.choice([13, 14, 15, 16, 17, 20, 21])
        c.git('config', 'bup.split.files', 'legacy:%d' % bits)
    nf = r.choice([1, 1, 2, 3, 5])
    datas = [gen(r, ref, bits if bits < 18 else 13, r.choice([None, None, 0, 3000000]))[0] for _ in range(nf)]
    paths = []
    for d in datas:
        paths.append(c.tmp())
        with open(paths[-1], 'wb') as f:
            f.write(d)
    joined = b''.join(datas)
    seen = {}
    forms = []
    for bnd in (False, True):
        for fan in r.sample([None, 2, 4, 16, 128, 300], 2):
            for form in r.sample(['files', 'stdin', 'pipe', 'gitids', 'warm'], 3):
                forms.append((bnd, fan, form))
    r.shuffle(forms)
    for bnd, fan, form in forms[:c.check.pick(5, 12)]:
        if form in ('stdin', 'pipe') and bnd and nf > 1:
            form = 'files'
        if form == 'gitids' and any(len(d) > 3000000 for d in datas):
            form = 'files'
        base = ['split'] + (['--keep-boundaries'] if bnd else []) + (['--fanout', str(fan)] if fan else [])
        if r.random() < .3: base += ['-' + str(r.randint(0, 9))]
        if form == 'warm':
            base += r.choice([['--max-pack-size', '20000'], ['--max-pack-objects', '3'], ['-v'], ['-q']])
            form = 'files'
        def go(*mode):
            a = base + list(mode)
            if form == 'files':
                return c.bup(*a, *paths)
            if form == 'gitids':
                ids = []
                for pp in paths:
                    ids.append(c.git('hash-object', '-w', '-t', 'blob', '--stdin', input=open(pp, 'rb').read()).out)
                return c.bup(*a, '--git-ids', input=b''.join(ids))
            if form == 'stdin':
                cat = c.tmp()
                with open(cat, 'wb') as f:
                    f.write(joined)
                with open(cat, 'rb') as f:
                    return c.bup(*a, stdin=f)
            rd, wr = os.pipe()
            def feed():
                pos = 0
                try:
                    while pos < len(joined):
                        k = r.choice([1, 100, 4096, 65536, 300000])
                        pos += os.write(wr, joined[pos:pos + k])
                finally:
                    os.close(wr)
            t = threading.Thread(target=feed); t.start()
            try:
                with os.fdopen(rd, 'rb') as f:
                    return c.bup(*a, stdin=f)
            finally:
                t.join()
        fb = fanbits(fan or 16)
        mode = r.choice(['-b', '-t', '-n', '--copy', '--noop-b', '--noop-t', '-c'])
        parts = [joined] if form in ('stdin', 'pipe') else datas
        chunks = ref.split_files(parts, bits, fb, bnd)
        blobs = []
        pos = 0
        for n, _ in chunks:
            blobs.append(oid(b'blob', joined[pos:pos + n])); pos += n
        what = 'bup %s %s from %s (bits %d, sizes %s)' % (' '.join(base), mode, form, bits, [len(d) for d in datas])
        c.eval()
        c.count('cli_' + mode); c.count('cli_from_' + form)
        c.sig('cli', mode, form, bnd, fan, bits, nf)
        if mode in ('-b', '--noop-b'):
            got = go('-b') if mode == '-b' else go('--noop', '-b')
            exp = b''.join(b.hex().encode() + b'\n' for b in blobs)
            if got.out != exp:
                raise Violation('%s: blob list differs from the documented split: %d ids, expected %d' % (what, got.out.count(b'\n'), len(blobs)))
            if mode == '-b':
                rp = Repo(c.bup_dir)
                pos = 0
                for (n, _), b in zip(chunks, blobs):
                    if rp.get(b) != (b'blob', joined[pos:pos + n]):
                        raise Violation('%s: stored chunk at %d differs' % (what, pos))
                    pos += n
        elif mode == '--copy':
            got = go('--copy')
            if got.out != joined:
                raise Violation('%s: output differs from the input (%d bytes, expected %d)' % (what, len(got.out), len(joined)))
        elif mode in ('-t', '--noop-t', '-c'):
            got = go(*{'-t': ['-t'], '--noop-t': ['--noop', '-t'], '-c': ['-c']}[mode])
            top = tree_oid(chunk_tree(joined, chunks))
            o = bytes.fromhex(got.out.decode().strip())
            if mode == '-c':
                o = Repo(c.bup_dir).commit(o)['tree']
            if o != top:
                raise Violation('%s: tree %s, reference %s' % (what, o.hex(), top.hex()))
        else:
            go('-n', 'x')
            rp = Repo(c.bup_dir)
            t = rp.commit(rp.refs()[b'refs/heads/x'])['tree']
            m, o = file_oid(joined, chunks)
            exp = tree_oid([(m, b'data.bup' if m == 0o40000 else b'data', o)])
            if t != exp:
                raise Violation('%s: saved tree %s, reference %s' % (what, t.hex(), exp.hex()))
            j = c.bup('join', 'x')
            if j.out != joined:
                raise Violation('%s: join returned different data' % what)
        c.count('cli_bytes', len(joined))


def save_case(c, p):
    """bup save stores files with exactly the documented chunks, whatever ran before."""
    r = c.rng
    ref = Ref(c.dir)
    c.bup('init')
    bits = 13
    if r.random() < .5:
        bits = r.choice([13, 15, 18])
        c.git('config', 'bup.split.files', 'legacy:%d' % bits)
    src = c.dir + '/src'
    os.mkdir(src)
    datas = {}
    for i in range(r.randint(3, 12)):
        datas[b'f%d' % i] = gen(r, ref, bits)[0]
    for n, d in datas.items():
        with open(fse(src) + b'/' + n, 'wb') as f:
            f.write(d)
    c.bup('index', src)
    c.bup('save', '-q', '--strip', '-n', 'x', src)
    rp = Repo(c.bup_dir)
    ents = {e[0]: e for e in rp.dir_entries(rp.commit(rp.refs()[b'refs/heads/x'])['tree'])[1]}
    raw = {n: (m, o) for m, n, o in rp.tree(rp.commit(rp.refs()[b'refs/heads/x'])['tree'])}
    for n, d in datas.items():
        m, o = file_oid(d, ref.split(d, bits, 4))
        name = n + b".bup" if m == 0o40000 else n
        got = raw.get(name)
        if not got or got[1] != o:
            raise Violation('bup save: file of %d bytes (bits %d) stored as %s, documented split gives %s %s' % (
                len(d), bits, got and (oct(got[0]), got[1].hex()), name, o.hex()))
        c.count('saved_files_checked')
        c.eval()
    c.sig('save', bits, len(datas))


def disp(c, p):
    {'lib': lib_case, 'cli': cli_case, 'save': save_case}[p[0]](c, p[1])


if __name__ == '__main__':
    k = Check('P04', rule='One evaluation = one stream split by the real code (in-process splitter, bup split in each mode, bup save) and compared chunk by chunk '
              'with a from-scratch evaluation of the documented checksum. Distinct: split settings x input forms x data shapes x chunk count.',
              assumptions=['the reference (lib/c/refsplit.c) states the checksum documented in bupsplit.h and DESIGN'])
    n = k.pick((12, 20, 14), (400, 500, 200))
    cases = [('lib-%d' % i, ('lib', 10)) for i in range(n[0])] + [('cli-%d' % i, ('cli', 0)) for i in range(n[1])] + \
            [('save-%d' % i, ('save', 0)) for i in range(n[2])]
    k.run_cases(cases, disp)
    k.finish()

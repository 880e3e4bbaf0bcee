#!/usr/bin/env python3
"""P26: the multiplexed command transport delivers exactly what was written, and the exit status, or reports an error."""
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import json, struct, threading, random, time as timem, select
from bv import *
sys.path.insert(0, VERIF + '/lib/workers')
import muxprog

MAXP = 128 * 1024
SIZES = [0, 1, 2, 5, 6, 100, 1023, 1024, 1025, 4095, 4096, 65535, 65536, 65537, MAXP - 1, MAXP, MAXP + 1, 300000]
KINDS = ['rand', 'nl', 'text', 'sync', 'end', 'hdr']


def frames(d):
    """The documented framing: BUPMUX, then (length, stream) headers with their content, and one (0, 3) last."""
    assert d.startswith(b'BUPMUX'), 'no BUPMUX: %r' % d[:20]
    p, out, n = 6, {1: [], 2: []}, 0
    while 1:
        assert p + 5 <= len(d), 'stream ends at %d without an end packet' % p
        ln, fd = struct.unpack('!IB', d[p:p + 5])
        p += 5
        assert ln <= MAXP, 'packet of %d bytes' % ln
        if fd == 3:
            assert ln == 0, 'end packet has content'
            return b''.join(out[1]), b''.join(out[2]), d[p:], n
        assert fd in (1, 2), 'packet type %d' % fd
        assert p + ln <= len(d), 'packet cut short'
        out[fd].append(d[p:p + ln])
        p += ln
        n += 1


def gen_script(r):
    st, outs, closed = [], {1: b'', 2: b''}, set()
    big = r.random() < .4
    for _ in range(r.choice([0, 1, 2, 4, 8, 20, 60])):
        y = r.random()
        if y < .8:
            fd = r.choice([f for f in (1, 2) if f not in closed] or [0])
            if not fd: continue
            n = r.choice(SIZES if big else SIZES[:9]) if r.random() < .6 else r.randint(0, 3000)
            a = ['w', fd, r.getrandbits(30), n, r.choice(KINDS)]
            st.append(a)
            outs[fd] += muxprog.data(*a[2:])
        elif y < .95:
            st.append(['sleep', r.choice([0, .001, .005, .02])])
        elif y < .97 and len(closed) < 2:
            fd = r.choice([f for f in (1, 2) if f not in closed])
            closed.add(fd)
            st.append(['close', fd])
    stdin = b''
    if r.random() < .3 and 1 not in closed:
        stdin = r.randbytes(r.choice([0, 1, 70000]))
        st.append(['cat', 1])
        outs[1] += stdin
    if r.random() < .15 and 1 not in closed and 2 not in closed:
        a = ['fork', r.choice([1, 2]), r.getrandbits(30), r.choice([1, 500, 70000]), r.choice(KINDS)]
        st.append(a)
        outs[a[1]] += muxprog.data(*a[2:])
    y = r.random()
    if y < .75: rc = r.choice([0, 0, 1, 2, 3, 42, 99, 100, 126, 127, 128, 137, 255]); st.append(['exit', rc])
    elif y < .9: rc = -r.choice([1, 6, 9, 13, 15]); st.append(['kill', -rc])
    else: rc = 0
    return st, outs[1], outs[2], stdin, rc


def pump(src, dst, r, rec, slow):
    try:
        while 1:
            b = os.read(src, r.choice([1, 2, 5, 7, 100, 4096, 70000]) if slow else r.choice([1000, 65536, 200000]))
            if not b: break
            rec.append(b)
            if r.random() < .05: timem.sleep(r.choice([.001, .01]))
            while b: b = b[os.write(dst, b):]
    except BrokenPipeError:
        while os.read(src, 65536): pass
    finally:
        os.close(dst)


def gather(fd, box):
    while 1:
        b = os.read(fd, 65536)
        if not b: break
        box.append(b)
    os.close(fd)


def pipe_case(c, n):
    """bup mux -- program | relay | bup demux"""
    r = c.rng
    for _ in range(n):
        st, o1, o2, stdin, rc = gen_script(r)
        f = c.tmp()
        open(f, 'w').write(json.dumps(st))
        pre = r.choice([b'', b'', b'', b'Warning: permanently added\n', b'BUP', b'BUPBUPMUBUPMU', b'x' * 5000, b'\0\0\0\5\1hello'])
        post = r.choice([b'', b'', b'', b'connection closed\n', b'BUPMUX', b'z' * 70000])
        m1r, m1w = os.pipe()
        r2r, r2w = os.pipe()
        mx = subprocess.Popen([c.check.bup_exe, 'mux', '--', '/usr/bin/python3', '-SE', VERIF + '/lib/workers/muxprog.py', f], env=c.env, stdin=subprocess.PIPE, stdout=m1w,
                              stderr=subprocess.PIPE, start_new_session=True)
        dm = subprocess.Popen([c.check.bup_exe, 'demux'], env=c.env, stdin=r2r, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        c.procs += [mx, dm]
        os.close(m1w); os.close(r2r)
        rec, do, de, me = [], [], [], []
        rr = random.Random(r.getrandbits(60))
        def relay():
            for b in [pre]:
                while b: b = b[os.write(r2w, b):]
            tmp = os.dup(r2w)
            pump(m1r, tmp, rr, rec, len(o1) + len(o2) < 20000)
            try:
                b = post
                while b: b = b[os.write(r2w, b):]
            except BrokenPipeError: pass
            os.close(r2w)
        def send():
            try:
                mx.stdin.write(stdin); mx.stdin.close()
            except BrokenPipeError: pass
        ts = [threading.Thread(target=x, daemon=True) for x in (relay, send, lambda: gather(os.dup(dm.stdout.fileno()), do), lambda: gather(os.dup(dm.stderr.fileno()), de), lambda: gather(os.dup(mx.stderr.fileno()), me))]
        for t in ts: t.start()
        for p in (mx, dm):
            try: p.wait(100)
            except subprocess.TimeoutExpired:
                raise Violation('bup %s did not finish; script %s' % ('mux' if p is mx else 'demux', q(st, 1500)), key='hang')
        for t in ts: t.join(60)
        os.close(m1r)
        for p in (mx, dm):
            for f_ in (p.stdout, p.stderr):
                if f_: f_.close()
        raw, do, de, me = b''.join(rec), b''.join(do), b''.join(de), b''.join(me)
        show = 'script %s' % q(st, 1200)
        try:
            f1, f2, rest, npk = frames(raw)
        except AssertionError as e:
            raise Violation('bup mux wrote a bad stream: %s; %s; stderr %s' % (e, show, q(me, 500)))
        c.require(rest == b'', 'bup mux wrote %s after its end packet', q(rest))
        c.require(f1 == o1, 'mux carried %d bytes of stdout, not %d as written (first difference at %d); %s', len(f1), len(o1), fd_(f1, o1), show)
        c.require(f2 == o2, 'mux carried %d bytes of stderr, not %d as written (first difference at %d); %s', len(f2), len(o2), fd_(f2, o2), show)
        if rc >= 0: c.require(mx.returncode == rc, 'exit status %d became %d; %s', rc, mx.returncode, show)
        else: c.require(mx.returncode != 0, 'a command killed by signal %d became success; %s', -rc, show)
        c.require(dm.returncode == 0, 'demux failed with %d: %s; %s', dm.returncode, q(de, 500), show)
        c.require(do == o1, 'stdout arrived as %d bytes, not %d (first difference at %d); %s', len(do), len(o1), fd_(do, o1), show)
        w = pre + o2 + post
        c.require(de == w, 'stderr arrived as %d bytes, not %d (first difference at %d): %s; %s', len(de), len(w), fd_(de, w), q(de[fd_(de, w):], 200), show)
        c.eval()
        c.count('mux_packets', npk)
        c.count('mux_bytes', len(o1) + len(o2))
        if rc: c.count('failing_commands')
        c.sig('pipe', [(s[0], s[1], s[3:] if len(s) > 3 else 0) for s in st], len(pre), len(post), npk)
        c.sample({'steps': len(st), 'packets': npk, 'stdout': len(o1), 'stderr': len(o2), 'rc': rc})


def fd_(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y: return i
    return min(len(a), len(b))


def gen_stream(r, small=False):
    pk = []
    for _ in range(r.choice([0, 1, 2, 3, 6, 12])):
        n = r.choice([0, 1, 2, 5, 30] + ([] if small else [1023, 1024, 4096, 70000, MAXP]))
        pk.append((r.choice([1, 1, 1, 2]), muxprog.data(r.getrandbits(30), n, r.choice(KINDS))))
    return pk


def build(pk, end=True):
    return b'BUPMUX' + b''.join(struct.pack('!IB', len(d), t) + d for t, d in pk) + (struct.pack('!IB', 0, 3) if end else b'')


def gen_ops(r, total):
    ops = []
    for _ in range(r.choice([0, 1, 3, 10])):
        y = r.random()
        if y < .4: ops.append(['read', r.choice([1, 2, 5, 6, 100, 1024, 65536, total or 1, total + 1, max(total - 1, 1)])])
        elif y < .75: ops.append(['line'])
        else: ops.append(['has'])
    return ops + [['rest', r.choice([1 + total // 50, 100 + total // 20, 65536])], ['has'], ['line'], ['read', 3]]


def model(s, ops, complete):
    """What the operations return on content s; None: would need more than there is (an error if the stream is broken)."""
    p, res = 0, []
    for op in ops:
        if op[0] == 'read': b = s[p:p + op[1]]; short = len(b) < op[1]
        elif op[0] == 'line':
            i = s.find(b'\n', p)
            b = s[p:i + 1] if i >= 0 else s[p:]
            short = i < 0
        elif op[0] == 'rest': b = s[p:]; short = True
        else:
            res.append(('has', p < len(s)))
            continue
        if short and not complete:
            res.append(('error', None))
            break
        p += len(b)
        res.append(('data', b))
    return res


def conn_case(c, n):
    """DemuxConn read in every way, from complete, truncated and damaged streams."""
    r = c.rng
    reqs, exp = [], []
    for _ in range(n):
        mode = r.choice(['ok', 'ok', 'cut', 'cut', 'type', 'size'])
        pk = gen_stream(r, small=mode == 'cut' and r.random() < .7)
        s1 = b''.join(d for t, d in pk if t == 1)
        s2 = b''.join(d for t, d in pk if t == 2)
        pre = r.choice([b'', b'', b'hello\n', b'BUPMU'])
        post = r.choice([b'', b'', b'bye\n', b'q' * 5000])
        ops = gen_ops(r, len(s1))
        def add(mode, data, complete, vis1, vis2, ops):
            full = len(data) < 60000 and r.random() < .6
            reqs.append({'data': data.hex(), 'full': full, 'ops': ops, 'chunks': r.choice([[1], [2, 3], [5], [6], [7, 1], [100000], [1 << 20], [1024], [4096, 11]]) if len(data) < 3000 else [r.choice([1000, 65536, 1 << 20])],
                         'delays': r.choice([[], [], [0, 0, 0, 0, 0, .002]]) if len(data) < 3000 else []})
            exp.append((mode, complete, vis1, vis2, ops, full, pre, post, [(t, len(d)) for t, d in pk]))
        if mode == 'ok':
            add(mode, pre + build(pk) + post, True, s1, s2, ops)
        elif mode == 'cut':
            d = build(pk)
            L = len(d)
            cuts = range(L) if L < 80 else sorted({*r.sample(range(L), 12), L - 1, L - 5, L - 4, 3, 6, 7})
            for k in cuts:
                # what had arrived of each stream
                v1, v2, p = b'', b'', 6
                for t, x in pk:
                    a = d[p + 5:min(p + 5 + len(x), k)] if k > p + 5 else b''
                    if t == 1: v1 += a
                    else: v2 += a
                    p += 5 + len(x)
                add(mode, pre + d[:k], False, v1, v2, ops)
        else:
            i = r.randint(0, len(pk))
            if mode == 'type': bad = struct.pack('!IB', *r.choice([(0, 0), (5, 0), (5, 4), (0, 4), (10, 255), (0, 128), (1, 7)]))
            else: bad = struct.pack('!IB', r.choice([MAXP + 1, 1 << 20, (1 << 31) - 1, 1 << 31, (1 << 32) - 1]), r.choice([1, 2, 3, 1, 2]))
            # a well-formed continuation follows, which must not be taken for output
            d = build(pk[:i], end=False) + bad + struct.pack('!IB', 5, 1) + b'after' + struct.pack('!IB', 0, 3)
            add(mode, pre + d, False, b''.join(x for t, x in pk[:i] if t == 1), b''.join(x for t, x in pk[:i] if t == 2), ops)
    x = c.py('demuxw.py', input=b''.join(json.dumps(q_).encode() + b'\n' for q_ in reqs))
    ans = [json.loads(l) for l in x.out.splitlines()]
    c.require(len(ans) == len(reqs), 'worker stopped early: %r', x)
    for q_, e, a in zip(reqs, exp, ans):
        mode, complete, v1, v2, ops, full, pre, post, pk = e
        show = '(%s; packets %s; operations %s; sent as %s, %d bytes)' % (mode, q(pk, 300), q(ops, 300), q_['chunks'], len(q_['data']) // 2)
        want = model(v1, ops, complete)
        got, serr = a['got'], bytes.fromhex(a['stderr'])
        if not complete:
            # nothing may be delivered that was not sent, and the end must be an error
            c.require(a['err'], 'a broken stream ended normally: %s %s', q(got, 400), show)
            c.count('broken_streams')
            c.count('broken_' + mode)
        else:
            c.require(not a['err'], 'a complete stream gave an error: %s %s', a['err'], show)
            c.require(serr == pre + v2 + post, 'stderr is %s, not %s %s', q(serr), q(pre + v2 + post), show)
        for i, g in enumerate(got):
            k, w = want[i] if i < len(want) else ('beyond', None)
            if k == 'has':
                if w is False: c.require(g is False, 'has_input with nothing to read %s', show)
                elif full: c.require(g is True, 'no has_input although content has arrived %s', show)
            elif k == 'data':
                g = bytes.fromhex(g)
                c.require(g == w, 'operation %d gave %s, not %s %s', i, q(g), q(w), show)
            else:
                raise Violation('operation %d of a broken stream gave %s instead of an error %s' % (i, q(g), show))
        if complete: c.require(len(got) == len(want), 'stopped early %s', show)
        c.eval()
        c.sig('conn', mode, pk, ops, len(q_['data']))


def broken_cmd_case(c, n):
    """bup demux on broken streams, and with outputs that cannot be written."""
    r = c.rng
    for _ in range(n):
        pk = gen_stream(r, small=r.random() < .6) or [(1, b'hi\n')]
        d = build(pk)
        s1 = b''.join(x for t, x in pk if t == 1)
        s2 = b''.join(x for t, x in pk if t == 2)
        k = r.choice([0, 3, 6, len(d) - 1, len(d) - 5, len(d) - 4, r.randrange(len(d)), r.randrange(len(d))])
        x = c.bup('demux', ok=None, input=d[:k])
        c.require(x.rc != 0, 'demux of a truncated stream (%d of %d bytes) succeeded: %r', k, len(d), x)
        c.require(s1.startswith(x.out), 'demux of a truncated stream delivered something else')
        c.require(x.err.strip(), 'demux of a truncated stream said nothing')
        x = c.bup('demux', input=d)
        c.require((x.out, x.err) == (s1, s2), 'demux delivered %s', q((x.out, x.err)))
        for fd, s in ((1, s1), (2, s2)):
            if not s: continue
            full = os.open('/dev/full', os.O_WRONLY)
            try:
                x = c.bup('demux', ok=None, input=d, preexec=lambda fd=fd, f=full: os.dup2(f, fd))
            finally: os.close(full)
            c.require(x.rc != 0, 'demux succeeded although stream %d could not be written (%d bytes)', fd, len(s))
            c.count('unwritable_outputs')
        c.eval(3)
        c.sig('cmd', [(t, len(x)) for t, x in pk], k)


WRAP = '''#!/usr/bin/python3 -SE
import os, subprocess, sys
n, mode = int(os.environ['BV_CUT']), os.environ['BV_CUTMODE']
p = subprocess.Popen([os.environ['BV_REAL']] + sys.argv[1:], stderr=subprocess.PIPE)
left = n
while 1:
    b = os.read(p.stderr.fileno(), 65536)
    if not b: break
    if left > 0:
        os.write(2, b[:left])
        left -= len(b[:left])
    if left <= 0 and mode == 'kill': p.kill()
rc = p.wait()
open(os.environ['BV_LOG'], 'w').write('%d' % rc)
os._exit(0 if mode == 'lie' else (rc if rc >= 0 else 128 - rc))
'''


def noise(e):
    """Messages of stderr other than progress."""
    out = []
    for l in e.split(b'\n'):
        l = l.split(b'\r')[-1].strip()
        if l and not re.match(rb'(Saving|Reading|Receiving|Indexing|bloom|midx|PackIdxList|Restoring|bup: |\s*\d)', l): out.append(l)
    return sorted(out)


def on_case(c, n):
    """The same command here and through bup on."""
    r = c.rng
    e = {'BUP_TEST_LEVEL': '1'}
    src = c.tmp('src')
    os.makedirs(src)
    TreeGen(r, maxentries=12, special=False, times='sane').make(os.fsencode(src))
    for i in range(r.choice([2, 40, 400])):
        open('%s/many-%d' % (src, i), 'wb').write(b'%d' % i)
    big = src + '/big'
    open(big, 'wb').write(r.randbytes(r.choice([1000, 300000])))
    c.bup('init')
    c.bup('index', src)
    c.bup('save', '-n', 'base', src, ok=None)
    other = c.tmp('other')
    c.bup('init', repo=other)
    w = c.tmp('wrap')
    open(w, 'w').write(WRAP)
    os.chmod(w, 0o755)
    for i in range(n):
        k = r.choice(['features', 'help', 'version', 'index', 'index-p', 'index-bad', 'save', 'save-bad', 'split', 'split-bad', 'restore', 'restore-bad', 'get', 'get-bad', 'usage'])
        cwd = None
        out1, out2 = c.tmp('o1'), c.tmp('o2')
        cmp_out = True
        A = {'features': ['features'], 'help': ['help', 'save'], 'version': ['version', '--commit'], 'index': ['index', '-u', src], 'index-p': ['index', r.choice(['-p', '-s', '-H', '-l']), '--fake-valid' if r.random() < .3 else '--no-check-device', src],
             'index-bad': ['index', '-u', src + '/missing-' + str(r.random())], 'save': ['save', '-n', 'br%d' % i, '-t', r.choice(['-q', '-t']), '--strip', src],
             'save-bad': ['save', '-n', 'b%d' % i, '-t', '/'.join([src, 'not indexed'])], 'split': ['split', r.choice(['-b', '-t', '-tb', '-c']), '-n%d' % i if r.random() < 0 else '-q', big],
             'split-bad': ['split', '-b', src + '/missing'], 'restore': ['restore', '-C', None, '/base/latest' + src + '/.'], 'restore-bad': ['restore', '-C', None, '/base/latest/nope/nope'],
             'get': ['get', '-s', c.bup_dir, '-v', '--unnamed', 'base'], 'get-bad': ['get', '-s', c.bup_dir, '--ff', 'nosuch'], 'usage': [r.choice(['save', 'split', 'restore', 'index']), '--no-such-option']}[k]
        a1 = [out1 if x is None else x for x in A]
        a2 = [out2 if x is None else x for x in A]
        if k == 'split': a1 = a2 = ['split', '-b', big] if r.random() < .5 else ['split', '-t', '-q', big]
        rp = c.bup_dir if not k.startswith('get') else other
        x = c.bup(*a1, repo=rp, ok=None)
        y = c.bup('on', '-', *a2, repo=rp, ok=None, env=e)
        show = '%s: local %r, remote %r' % (a2, x, y)
        c.require(x.rc == y.rc if k != 'usage' else y.rc, 'exit status differs: %s', show)
        if k not in ('usage',):
            c.require(x.out == y.out, 'standard output differs: %s', show)
        if k in ('index', 'index-p', 'split', 'restore', 'save', 'features', 'version', 'help'):
            c.require(noise(x.err) == noise(y.err), 'messages differ: %s', show)
        if x.rc: c.require(y.err.strip(), 'failed silently: %s', show)
        if k == 'restore':
            d = diff_snap(snap(out1, inode=False), snap(out2, inode=False), ('local', 'remote'))
            c.require(not d, 'restored trees differ: %s', '; '.join(d))
        c.eval()
        c.count('on_commands')
        if x.rc: c.count('on_failing')
        c.sig('on', k, x.rc, len(x.out))
        if k in ('features', 'version', 'help', 'index-p', 'split', 'save', 'restore'):
            # the transport breaks after some bytes; how far the remote got does not matter, it must not look like success
            total = len(x.out) + 22 + len(x.err)
            cut = r.choice([0, 3, 6, 8, 10, r.randint(0, max(0, min(total - 12, len(x.out) - 1))) if x.out else 0])
            mode = r.choice(['lie', 'lie', 'pass', 'kill'])
            log = c.tmp('log')
            if k == 'restore': a2 = ['restore', '-C', c.tmp('o3'), a2[-1]]
            y = c.bup('on', '-', *a2, repo=rp, ok=None, env=dict(e, BUP_TEST_SSH_BUP_PATH=w, BV_CUT=str(cut), BV_CUTMODE=mode, BV_REAL=c.check.bup_exe, BV_LOG=log))
            c.require(os.path.exists(log), 'the wrapper did not run: %r', y)
            c.require(y.rc != 0, 'bup on %s succeeded although the connection broke after %d bytes (%s): %r', a2, cut, mode, y)
            c.require(x.out.startswith(y.out) or k == 'save', 'bup on %s delivered something else before the break: %r', a2, y)
            c.count('on_broken')
            c.eval()
        if x.out:
            f = os.open('/dev/full', os.O_WRONLY)
            try: y = c.bup('on', '-', *(a2 if k != 'restore' else A[:2] + [c.tmp('o4')] + A[3:]), repo=rp, ok=None, env=e, stdout=f)
            finally: os.close(f)
            c.require(y.rc != 0, 'bup on %s succeeded although its output could not be written: %r', a2, y)
            c.count('on_unwritable')


def go(c, p):
    {'pipe': pipe_case, 'conn': conn_case, 'cmd': broken_cmd_case, 'on': on_case}[p[0]](c, p[1])


if __name__ == '__main__':
    k = Check('P26', rule='One evaluation = one generated program run through bup mux and bup demux (with a relay that splits and delays the stream), each stream, the framing and the exit status compared with what the program wrote; '
              'or one complete, truncated or damaged stream read through DemuxConn or bup demux and compared with a model; or one command run locally and through bup on. Distinct: scripts with the packets seen; streams and operations; commands.',
              assumptions=['the exit status of a command killed by a signal only has to arrive as a failure', 'ssh itself is replaced by a subprocess (BUP_TEST_LEVEL), as in the project tests'])
    a, b, d, e = k.pick((12, 12, 6, 12), (80, 80, 30, 80))
    k.run_cases([('pipe-%d' % i, ('pipe', 8)) for i in range(a)] + [('conn-%d' % i, ('conn', 25)) for i in range(b)] + [('cmd-%d' % i, ('cmd', 8)) for i in range(d)] + [('on-%d' % i, ('on', 6)) for i in range(e)], go)
    k.need('mux_packets', 500)
    k.need('broken_streams', 1000)
    k.need('broken_type', 20)
    k.need('broken_size', 20)
    k.need('on_commands', 40)
    k.need('on_broken', 10)
    k.need('on_unwritable', 3)
    k.need('unwritable_outputs', 20)
    k.finish()

#!/usr/bin/python3.12
"""P20: the compiled code under AddressSanitizer and UndefinedBehaviorSanitizer."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from bv import *
from fsops import Mutator

SAN = '-fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=undefined -fno-omit-frame-pointer -g -O1'


def prep(c):
    c.san = c.dir + '/san'
    c.env.update(ASAN_OPTIONS='detect_leaks=0:log_path=%s:abort_on_error=0:exitcode=99:allocator_may_return_null=1' % c.san,
                 UBSAN_OPTIONS='print_stacktrace=1:log_path=%s:exitcode=99' % c.san, PYTHONMALLOC='malloc')


def reports(c, what):
    import glob
    for f in glob.glob(c.san + '.*'):
        with open(f, errors='replace') as fh:
            t = fh.read()
        frames = re.findall(r'#\d+ 0x\w+ in (\S+ \S+)', t)
        raise Violation('%s: sanitizer report: %s; frames %s' % (what, t[:700], frames[:6]))


def run1(c, *args, ok=None, **kw):
    r = c.bup(*args, ok=None, **kw)
    what = 'bup ' + q(args, 200)
    reports(c, what)
    if r.rc == 99 or b'SystemError' in r.err or b'Fatal Python error' in r.err or b'Assertion' in r.err and b'failed' in r.err and b'.c:' in r.err:
        raise Violation('%s: native code did not report an ordinary error: %r' % (what, r))
    if ok and r.rc:
        raise Violation('%s failed under the sanitizers: %r' % (what, r))
    c.eval()
    c.count('sanitized_' + str(args[0]))
    return r


def helpers(c, n):
    prep(c)
    for i in range(2):
        d = c.dir + '/h%d' % i
        os.mkdir(d)
        res = c.py('helpers_worker.py', str(c.rng.getrandbits(30)), str(n), d, ok=None)
        cur = open(d + '/current', errors='replace').read()[:500]
        reports(c, 'native call %s' % cur)
        if res.rc:
            raise Violation('helpers worker died in %s: %r' % (cur, res))
        out = json.loads(res.out.decode().splitlines()[-1])
        if out['bad']:
            raise Violation('native function misbehaved: %s' % out['bad'][:3])
        for k, v in out['counts'].items():
            c.count('call_' + k, v)
            c.eval(v)
        c.sig('helpers', c.key, i)


def workload(c, p):
    """Every command that reaches native code, under the sanitizers."""
    prep(c)
    r = c.rng
    src = c.dir + '/src'
    TreeGen(r, maxentries=30).make(src)
    with open(fse(src) + b'/bigsparse', 'wb') as f:
        f.write(r.randbytes(1000)); f.seek(3 << 20); f.write(b'end'); f.truncate((3 << 20) + 5000)
    run1(c, 'init', ok=True)
    if r.random() < .5:
        c.git('config', 'bup.split.trees', 'true')
    for i in range(3):
        run1(c, 'index', src, ok=True)
        run1(c, 'save', '-q', '-n', 'm', '-%d' % r.randint(0, 9), src, ok=True)
        mu = Mutator(r, src)
        for _ in range(4):
            mu.step()
    run1(c, 'midx', r.choice(['-a', '-f']), ok=True)
    run1(c, 'bloom', *r.choice([[], ['-f'], ['-k', '4'], ['-k', '5']]), ok=True)
    run1(c, 'ls', '-ladnFR' if False else '-la', 'm/latest' + src, ok=True)
    run1(c, 'restore', '-C', c.dir + '/out', *r.choice([[], ['--sparse']]), 'm/latest' + src, ok=True)
    run1(c, 'meta', '--create', '-r', '-f', c.dir + '/meta', src, ok=None)
    run1(c, 'meta', '-tvvf', c.dir + '/meta')
    run1(c, 'margin', ok=True)
    run1(c, 'memtest', '-n', '100', '-c', '2', ok=None)
    run1(c, 'random', '100k', ok=True)
    run1(c, 'gc', '--unsafe', ok=True)
    run1(c, 'midx', '--check', '-a')
    run1(c, 'fsck', '-q')
    run1(c, 'prune-older', '--unsafe', '--keep-all-for', '1d', ok=None)
    run1(c, 'get', '-s', c.bup_dir, '--append', 'm:n', repo=c.bup_dir, ok=None)
    c.sig('workload', tree_sig(snap(src, xattr=False, content=False)))
    # pipes: more than one advise chunk, then growing and shrinking files
    big = r.randbytes(1 << 20) * r.choice([9, 17]) + r.randbytes(r.randint(0, 5000))
    res = run1(c, 'split', '--noop', '-b', input=big, ok=True)
    run1(c, 'split', '-n', 'pipe', input=big, ok=True)
    j = run1(c, 'join', 'pipe', ok=True)
    c.require(j.out == big, 'join of a piped split differs')
    p = c.dir + '/growing'
    with open(p, 'wb') as f:
        f.write(big[:r.choice([0, 1, 5000, 9 << 20])])
    stop = threading.Event()
    def mut():
        rr = rng(c.key, 'grow')
        while not stop.is_set():
            with open(p, 'r+b') as f:
                f.seek(0, 2)
                if f.tell() < 40 << 20:
                    f.write(big[:rr.randint(1, 3 << 20)])
                if rr.random() < .1:
                    f.truncate(rr.randint(0, 9 << 20))
            time.sleep(.005)
    t = threading.Thread(target=mut)
    t.start()
    try:
        for _ in range(2):
            run1(c, 'split', '--noop', '-b', p, timeout=120)
    finally:
        stop.set()
        t.join()
    for special in ('/proc/self/maps', '/dev/null', '/proc/cpuinfo'):
        run1(c, 'split', '--noop', '-b', special, ok=True)
    c.count('pipe_bytes', 3 * len(big))


def damage(d, r):
    d = bytearray(d)
    k = r.random()
    if k < .3 and d:
        for _ in range(r.randint(1, 4)):
            d[r.randrange(len(d))] = r.randrange(256)
    elif k < .55:
        d = d[:r.choice([0, 1, 4, 8, 12, 15, 16, 17, 1032, len(d) // 2, max(0, len(d) - 1), max(0, len(d) - 20), r.randint(0, len(d))])]
    elif k < .75 and len(d) > 1040:
        o = r.randrange(8, 1032, 4)
        d[o:o + 4] = r.choice([b'\0\0\0\0', b'\xff\xff\xff\xff', b'\0\0\xff\xff', b'\0\x01\0\0', b'\x7f\xff\xff\xff'])
    elif k < .9 and len(d) > 20:
        o = r.randrange(0, min(len(d) - 4, 200))
        d[o:o + 2] = r.choice([b'\0\0', b'\xff\xff', b'\0\x1d', b'\0\x25', b'\0\x05'])
    else:
        d = d + r.randbytes(r.randint(1, 100))
    return bytes(d)


def corrupt(c, p):
    """Damaged index files must give ordinary errors (or none), never memory errors."""
    prep(c)
    r = c.rng
    import glob
    run1(c, 'init', ok=True)
    for i in range(4):
        run1(c, 'split', '-n', 'b%d' % i, input=r.randbytes(r.choice([100, 50000, 300000])), ok=True)
    run1(c, 'midx', '-f', ok=True)
    run1(c, 'split', '-n', 'last', input=r.randbytes(60000), ok=True)
    run1(c, 'bloom', ok=True)
    good = {f: open(f, 'rb').read() for f in glob.glob(c.bup_dir + '/objects/pack/*') if not f.endswith('.pack')}
    for i in range(p):
        k = r.choice(['.idx', '.idx', '.midx', '.bloom', '.bloom', 'any'])
        fs = [f for f in good if k == 'any' or f.endswith(k)]
        vict = r.sample(fs, min(len(fs), r.choice([1, 1, 2])))
        for f in vict:
            d = damage(good[f], r)
            if f.endswith('.midx'):
                d = good[f][:8] + b'\0\0\0' + d[11:] if len(d) > 11 else d   # bits < 256
            try:
                os.unlink(f)
            except FileNotFoundError:
                pass
            with open(f, 'wb') as fh:
                fh.write(d)
        for cmd in r.sample([['midx', '-f'], ['midx', '-a'], ['bloom'], ['bloom', '-f'], ['ls', 'b0'], ['join', 'b1'], ['split', '-n', 'new'],
                             ['midx', '--check', '-a'], ['bloom', '--check', os.path.basename(r.choice(list(good)))], ['margin'], ['fsck', '--quick']], 3):
            run1(c, *cmd, input=b'x' * 5000 + r.randbytes(3000) if cmd[0] == 'split' else None)
            c.sig('corrupt', tuple(os.path.splitext(f)[1] for f in vict), tuple(cmd))
        for f in glob.glob(c.bup_dir + '/objects/pack/*'):
            if f not in good and not f.endswith('.pack'):
                os.unlink(f)
        for f, d in good.items():
            if os.path.exists(f):
                os.unlink(f)
            with open(f, 'wb') as fh:
                fh.write(d)
        c.count('corruptions')


def disp(c, p):
    {'h': helpers, 'w': workload, 'c': corrupt}[p[0]](c, p[1])


if __name__ == '__main__':
    k = Check('P20', rule='One evaluation = one native call (with arguments compared to a model) or one command, executed by the ASan/UBSan build. '
              'Distinct: call sessions, workload trees, (damaged file kinds, command) pairs.', build=False,
              assumptions=['ASan/UBSan see accesses of the instrumented native code and its libc interceptors, not the interpreter itself',
                           'alignment checks are off: x86-64 only', 'allocation failures are not explored'])
    try:
        build_bup(k.bupdir, sanitize=SAN)
    except EnvError as e:
        print('ERROR: %s' % e, file=sys.stderr)
        sys.exit(2)
    n = k.pick((8, 60, 4, 8, 7), (40, 1500, 60, 120, 25))
    k.run_cases([('work-%d' % i, ('w', 0)) for i in range(n[2])] + [('corrupt-%d' % i, ('c', n[4])) for i in range(n[3])] +
                [('helpers-%d' % i, ('h', n[1])) for i in range(n[0])], disp)
    k.finish()

"""Shared harness for the checks: build, run, generate, observe, report."""
import sys
sys.dont_write_bytecode = True
import atexit, errno, hashlib, json, multiprocessing, os, random, re, shutil, signal
import socket, stat, subprocess, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BV_REPO', '/repo')
PY = '/usr/bin/python3.12'
NCPU = max(1, min(8, int(os.environ.get("BV_WORKERS") or len(os.sched_getaffinity(0)))))
fse = os.fsencode


class Violation(Exception):
    """The property is broken.  key identifies the specific failure, for the
    known-findings file."""
    def __init__(self, msg, key=None, detail=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key
        self.detail = detail


class EnvError(Exception):
    """The environment (not bup) failed: the check gives no answer."""


def rng(*key):
    return random.Random(hashlib.sha256(repr(key).encode()).digest())


def q(x, n=300):
    r = repr(x)
    return r if len(r) <= n else r[:n] + '...(%d)' % len(r)


# -- environment for bup --------------------------------------------------------

def base_env():
    e = {k: v for k, v in os.environ.items()
         if not (k.startswith(('BUP_', 'GIT_', 'PYTHON', 'LD_', 'ASAN', 'UBSAN', 'MAKE'))
                 or k in ('TMPDIR', 'DISPLAY', 'SSH_CONNECTION'))}
    e.update(HOME='/nonexistent-bv', LANG='C.UTF-8', LC_ALL='C.UTF-8', TZ='UTC',
             PATH='/opt/vp/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
             PYTHONHASHSEED='0',
             GIT_CONFIG_NOSYSTEM='1', GIT_CONFIG_GLOBAL='/dev/null')
    return e


class R:
    """Result of a command."""
    __slots__ = ('rc', 'out', 'err', 'args')
    def __init__(self, rc, out, err, args):
        self.rc, self.out, self.err, self.args = rc, out, err, args
    def __repr__(self):
        e = self.err if len(self.err) < 900 else self.err[:200] + b' [...] ' + self.err[-650:]
        return 'rc=%s err=%s out=%s' % (self.rc, q(e, 1500), q(self.out, 200))


def run(args, env=None, cwd=None, input=None, timeout=180, stdin=None, stdout=None, preexec=None, pass_fds=()):
    args = [fse(a) for a in args]
    p = subprocess.Popen(args, env=env, cwd=cwd,
                         stdin=subprocess.PIPE if input is not None else (stdin or subprocess.DEVNULL),
                         stdout=stdout if stdout is not None else subprocess.PIPE,
                         stderr=subprocess.PIPE, start_new_session=True, preexec_fn=preexec,
                         pass_fds=pass_fds)
    try:
        out, err = p.communicate(input, timeout=timeout)
    except subprocess.TimeoutExpired:
        killpg(p.pid)
        try:
            out, err = p.communicate(timeout=10)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = b'', b''
        raise Violation('command did not finish in %ds: %s; stderr %s'
                        % (timeout, q(args), q(err, 800)), key='hang')
    except BaseException:
        killpg(p.pid)
        raise
    return R(p.returncode, out if out is not None else b'', err, args)


def killpg(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


# -- building ------------------------------------------------------------------

def build_bup(dest, cflags='', ldflags='', cc=None, sanitize=None):
    """Build /repo's current working tree into dest (C from scratch)."""
    keep = ('lib', 'dev', 'src', 'config', 'bin', 'GNUmakefile', 'configure', 'bup', 'Documentation')
    os.mkdir(dest)
    def ign(d, names):
        out = []
        for n in names:
            if n in ('__pycache__', 'tmp') or n.endswith(('.o', '.so', '.d', '.pyc')):
                out.append(n)
        return out
    for k in ('lib', 'dev', 'config', 'src'):
        s = os.path.join(REPO, k)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(dest, k), symlinks=True, ignore=ign)
    for k in ('GNUmakefile', 'configure', 'bup', 'README.md'):
        s = os.path.join(REPO, k)
        if os.path.lexists(s):
            shutil.copy2(s, os.path.join(dest, k), follow_symlinks=False)
    os.makedirs(dest + '/Documentation', exist_ok=True)
    for p in ('lib/cmd/bup', 'dev/bup-exec', 'dev/bup-python', 'dev/python', 'dev/python-proposed', 'config/config.vars'):
        if p == 'config/config.vars' and os.path.exists(os.path.join(dest, p)):
            continue
        try:
            os.unlink(os.path.join(dest, p))
        except FileNotFoundError:
            pass
    # version info that make would take from git
    os.makedirs(dest + '/test/sampledata', exist_ok=True)
    ci = os.path.join(dest, 'lib/bup/checkout_info.py')
    env = base_env()
    env.update(BUP_PYTHON_CONFIG='/usr/bin/python3.12-config', HOME='/root')
    os.utime(os.path.join(dest, 'config/config.vars')) if os.path.exists(os.path.join(dest, 'config/config.vars')) else None
    targets = ['lib/bup/_helpers.so', 'lib/cmd/bup', 'dev/bup-exec', 'dev/bup-python']
    # make asks git for checkout info; give it a tiny repository of its own
    subprocess.run(['git', 'init', '-q', '.'], cwd=dest, env=env, check=True,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.run('git -c user.name=x -c user.email=x@x commit -q --allow-empty -m x', shell=True,
                   cwd=dest, env=env, check=True)
    mk = ['make', '-j8']
    if sanitize:
        cc = dest + '/cc-san'
        with open(cc, 'w') as f:
            f.write('#!/bin/sh\nexec gcc "$@" %s\n' % sanitize)
        os.chmod(cc, 0o755)
    if cc:
        mk.append('CC=' + cc)
    if cflags:
        mk.append('bup_config_cflags=' + config_var('bup_config_cflags', dest) + ' ' + cflags)
    r = subprocess.run(mk + targets, cwd=dest, env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise EnvError('build failed:\n' + r.stdout.decode('utf8', 'replace')[-3000:])
    shutil.rmtree(dest + '/.git', ignore_errors=True)
    subprocess.run([PY, '-m', 'compileall', '-q', '-j', '4', dest + '/lib/bup'], env=env,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def config_var(name, dest):
    try:
        with open(dest + '/config/config.vars') as f:
            m = re.search(r'^%s\s*:?=\s*(.*)$' % name, f.read(), re.M)
            return m.group(1).strip() if m else ''
    except OSError:
        return ''


# -- the check ------------------------------------------------------------------

class Check:
    def __init__(self, pid, level='exploration', rule='', assumptions=(), build=True):
        self.pid, self.level, self.rule = pid, level, rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        tier = os.environ.get('VERIF_TIER') or 'quick'
        seed = os.environ.get('VERIF_SEED') or '1'
        self.only = None
        self.keep = False
        a = sys.argv[1:]
        replay = None
        while a:
            x = a.pop(0)
            if x == '--tier': tier = a.pop(0)
            elif x == '--seed': seed = a.pop(0)
            elif x == '--case': self.only = a.pop(0)
            elif x == '--keep': self.keep = True
            elif x == '--replay': replay = a.pop(0)
            elif x in ('quick', 'thorough'): tier = x
            else: raise SystemExit('unknown argument %r' % x)
        self.tier = tier if tier in ('quick', 'thorough') else 'quick'
        self.seed = int(seed) if re.fullmatch(r'-?\d+', seed) else int.from_bytes(seed.encode()[:6], 'big')
        if replay:
            with open(replay) as f:
                d = json.load(f)
            self.seed, self.tier, self.only = d['seed'], d['tier'], d['case']
        self.quick = self.tier == 'quick'
        self.counters = {}
        self.sigs = set()
        self.nsigs = 0
        self.samples = []
        self.viol = []
        self.known = load_known(pid)
        self.evaluations = 0
        self.extra = {}
        os.umask(0o022)
        self.scratch = tempfile.mkdtemp(prefix='bv-%s-' % pid, dir='/tmp')
        os.chmod(self.scratch, 0o755)
        self.mainpid = os.getpid()
        atexit.register(self._cleanup)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda *_: sys.exit(2))
        self.bupdir = self.scratch + '/bup'
        if build:
            try:
                build_bup(self.bupdir)
            except EnvError as e:
                print('ERROR: %s' % e, file=sys.stderr)
                sys.exit(2)
        self.bup_exe = self.bupdir + '/bup'

    def _cleanup(self):
        if os.getpid() != self.mainpid:
            return
        if self.keep:
            print('kept', self.scratch)
            return
        force_rmtree(self.scratch)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def need(self, name, n):
        """A full run that observed fewer than n of these gives no answer."""
        if self.only is None and self.counters.get(name, 0) < n and not self.counters.get('cases_skipped_for_time') and not self.viol:
            print('ERROR: only %d %s observed' % (self.counters.get(name, 0), name), file=sys.stderr)
            self.count('harness_errors')

    def run_cases(self, cases, fn, budget=None, workers=NCPU, label=None):
        """cases: list of (key, param).  fn(Case, param) raises Violation.
        Every case runs in a forked worker with its own scratch directory."""
        cases = list(cases)
        if self.only is not None:
            cases = [c for c in cases if c[0] == self.only]
        if not cases:
            return
        budget = budget or self.pick(240, 3000)
        tend = time.time() + budget
        self._fn = fn
        self._cases = cases
        it = iter(range(len(cases)))
        pending = {}
        done = 0
        skipped = 0
        while True:
            while len(pending) < workers:
                if time.time() > tend:
                    rest = sum(1 for _ in it)
                    skipped += rest
                    break
                i = next(it, None)
                if i is None:
                    break
                rfd, wfd = os.pipe()
                sys.stdout.flush(); sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        os.close(rfd)
                        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
                            signal.signal(s, signal.SIG_DFL)
                        self._worker(i, wfd)
                        code = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        os._exit(code)
                os.close(wfd)
                pending[rfd] = (pid, i, [])
            if not pending:
                break
            import select
            rd, _, _ = select.select(list(pending), [], [], 5)
            for fd in rd:
                d = os.read(fd, 1 << 16)
                if d:
                    pending[fd][2].append(d)
                    continue
                pid, i, buf = pending.pop(fd)
                os.close(fd)
                _, st = os.waitpid(pid, 0)
                done += 1
                try:
                    res = json.loads(b''.join(buf))
                except ValueError:
                    print('ERROR: worker for case %s died (status %x)' % (cases[i][0], st), file=sys.stderr)
                    sys.exit(2)
                self._merge(cases[i][0], res)
        if skipped:
            self.count('cases_skipped_for_time', skipped)

    def _worker(self, i, wfd):
        key, param = self._cases[i]
        c = Case(self, key)
        t0 = time.monotonic()
        res = {'viol': [], 'err': None}
        try:
            os.mkdir(c.dir)
            try:
                self._fn(c, param)
            except Violation as e:
                c.violations.append((e.msg, e.key, e.detail))
            except EnvError as e:
                res['err'] = str(e)
            except Exception as e:
                from reader import FormatError
                if isinstance(e, FormatError):
                    tb = [f for f in traceback.extract_tb(e.__traceback__) if '/checks/' in f.filename]
                    c.violations.append(('repository format: %s (at %s)' % (e, ' '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb)), None, None))
                else:
                    res['err'] = traceback.format_exc()
        finally:
            c.close()
            if not self.keep:
                force_rmtree(c.dir)
        if os.environ.get('BV_TIMES'):
            os.write(2, b'%s %.1fs\n' % (key.encode(), time.monotonic() - t0))
        res.update(viol=c.violations, counters=c.counters, sigs=sorted(c.sigs), samples=c.samples,
                   evals=c.evals)
        d = json.dumps(res, default=repr).encode()
        while d:
            n = os.write(wfd, d)
            d = d[n:]

    def _merge(self, key, res):
        for k, v in res['counters'].items():
            self.count(k, v)
        self.sigs.update(res['sigs'])
        self.evaluations += res['evals'] or 1
        if len(self.samples) < 6:
            self.samples.extend(res['samples'][:2])
        for msg, k, detail in res['viol']:
            self.viol.append((key, msg, k, detail))
        if res['err']:
            self.count('harness_errors')
            if self.counters['harness_errors'] <= 2:
                print('ERROR in case %s:\n%s' % (key, res['err'][-2500:]), file=sys.stderr)

    def violation(self, case, msg, key=None, detail=None):
        self.viol.append((case, msg, key, detail))

    def finish(self):
        rdir = VERIF + '/evidence/replay'
        os.makedirs(rdir, exist_ok=True)
        bad = []
        known_seen = {}
        for case, msg, key, detail in self.viol:
            k = next((x for x in self.known if x['key'] and key and re.fullmatch(x['key'], key)), None)
            if k:
                known_seen.setdefault(k['key'], k)
                continue
            bad.append((case, msg, key, detail))
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s%s' % (
                self.pid, k['what'], '' if k['key'] in known_seen else ' (not exercised by this run)'))
        for n, (case, msg, key, detail) in enumerate(bad[:8]):
            h = hashlib.sha1(('%s|%s|%s' % (self.pid, case, msg)).encode('utf8', 'replace')).hexdigest()[:10]
            path = '%s/%s-%s.json' % (rdir, self.pid, h)
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'case': case, 'seed': self.seed, 'tier': self.tier,
                           'message': msg, 'key': key, 'detail': detail,
                           'rerun': '%s checks/%s.py --replay %s' % (PY, self.pid.lower(), path)},
                          f, indent=1, default=repr)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  case %s: %s' % (case, msg[:1500]))
        wall = time.time() - self.t0
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.sigs),
               'rule': self.rule, 'samples': self.samples[:6] or ['none'],
               'observed': dict(sorted(self.counters.items()))}
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(wall, 1),
              'violations': len(bad)}
        if self.only is None:
            os.makedirs(VERIF + '/evidence', exist_ok=True)
            tmp = VERIF + '/evidence/.%s.%d' % (self.pid, os.getpid())
            with open(tmp, 'w') as f:
                json.dump(ev, f, indent=1, default=repr)
            os.rename(tmp, VERIF + '/evidence/%s.json' % self.pid)
        print('%s %s seed=%d: %d evaluations, %d distinct, %d violations, %.1fs'
              % (self.pid, self.tier, self.seed, self.evaluations, len(self.sigs), len(bad), wall))
        if bad:
            sys.exit(1)
        if self.counters.get('harness_errors'):
            sys.exit(2)
        sys.exit(0)


def load_known(pid):
    out = []
    try:
        with open(VERIF + '/known-findings.txt') as f:
            for l in f:
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.rstrip('\n'))
                if m and m.group(1) == pid:
                    out.append({'key': m.group(2), 'what': m.group(3)})
    except FileNotFoundError:
        pass
    return out


def force_rmtree(path):
    assert fse(path).startswith(b'/tmp/bv-') or fse(path).startswith(b'/dev/shm/bv-'), path
    if not os.path.lexists(path):
        return
    def onerr(fn, p, exc):
        try:
            os.chmod(os.path.dirname(p), 0o700)
            if os.path.isdir(p) and not os.path.islink(p):
                os.chmod(p, 0o700)
                force_rmtree(p)
            else:
                os.unlink(p)
        except OSError:
            pass
    shutil.rmtree(path, onerror=onerr)


class Case:
    def __init__(self, check, key):
        self.check = check
        self.key = key
        self.rng = rng(check.seed, check.pid, key)
        h = hashlib.sha1(key.encode()).hexdigest()[:8]
        self.dir = check.scratch + '/c-' + h
        self.counters = {}
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.evals = 0
        self._n = 0
        self.procs = []
        self.env = base_env()
        self.env['HOME'] = self.dir + '/home'
        self.bup_dir = self.dir + '/repo'

    def close(self):
        for p in self.procs:
            killpg(p.pid)
            try:
                p.wait(5)
            except Exception:
                pass

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def eval(self, n=1):
        self.evals += n

    def sig(self, *parts):
        self.sigs.add(hashlib.sha1(repr(parts).encode()).hexdigest()[:12])

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s if isinstance(s, (dict, str)) else repr(s))

    def report(self, msg, key=None, detail=None):
        self.violations.append((msg, key, detail))

    def require(self, cond, msg, *a, key=None):
        if not cond:
            raise Violation(msg % a if a else msg, key=key)

    def tmp(self, name=None):
        self._n += 1
        return '%s/t%d%s' % (self.dir, self._n, '-' + name if name else '')

    def bup(self, *args, repo=None, ok=True, env=None, exe=None, **kw):
        """Run bup.  ok=True: a nonzero exit is a violation; ok=None: any."""
        e = dict(self.env)
        e['BUP_DIR'] = os.fsdecode(repo) if repo is not None else self.bup_dir
        if env:
            e.update(env)
        r = run([exe or self.check.bup_exe] + list(args), env=e, **kw)
        self.count('bup_commands')
        if r.rc < 0:
            raise Violation('bup %s died from signal %d: %r' % (q(args), -r.rc, r))
        if ok and r.rc != 0:
            raise Violation('bup %s failed: %r' % (q(args), r))
        if ok is False and r.rc == 0:
            raise Violation('bup %s unexpectedly succeeded: %r' % (q(args), r))
        return r

    def py(self, script, *args, repo=None, input=None, env=None, timeout=600, ok=True):
        """Run a Python worker (in /verif/lib/workers) inside bup's own runtime."""
        e = dict(self.env)
        e['BUP_DIR'] = os.fsdecode(repo) if repo is not None else self.bup_dir
        if env:
            e.update(env)
        r = run([self.check.bupdir + '/dev/bup-python', VERIF + '/lib/workers/' + script] + list(args),
                env=e, input=input, timeout=timeout)
        self.count('worker_runs')
        if ok and r.rc != 0:
            raise Violation('%s failed: %r' % (script, r))
        return r

    def git(self, *args, repo=None, ok=True, input=None):
        r = run(['git', '--git-dir', repo or self.bup_dir] + list(args), env=self.env, input=input)
        if ok and r.rc != 0:
            raise Violation('git %s failed: %r' % (q(args), r))
        return r


# -- trees ----------------------------------------------------------------------

_specials = [b'.bup', b'.bupl', b'.bupm', b'.bupd', b'x.bup', b'x.bupl', b'x.bupm', b'x.bupd', b'x.bupx',
             b'x.bup.bupl', b'.bupm.bupl', b'x.0.bupd', b'a..1.bupd', b'x..0.bupd', b'.git', b'.gitignore', b'-n', b'--',
             b' lead', b'trail ', b'new\nline', b'tab\t', b'quo"te', b"apos'", b'back\\slash', b'\xff\xfe', b'\x01\x02',
             b'caf\xc3\xa9', b'*', b'?', b'a.', b'a-', b'a0', b'a', b'a.b', b'a+b', b'%41', b'#h', b'~', b'...', b'..a',
             b'x' * 255, b'2024-01-01-000000', b'latest', b'0', b'00', b'$HOME', b'`', b'a;b', b'a|b', b'=', b'@', b'HEAD',
             b'\x7f', b'\r', b'bup-', b'.a', b'A', b'b', b'ab', b'a b', b'a\xe2\x80\xa8b', b'.tag', b'.commit']


def gen_name(r, taken=()):
    while True:
        k = r.random()
        if k < .35:
            n = r.choice(_specials)
        elif k < .5:
            n = r.choice(_specials)[:100] + r.choice([b'', b'.bup', b'.bupl', b'.bupm', b'.bupd', b'x', b'.', b'\n'])
        elif k < .7:
            n = bytes(r.choice(b'ab.-_0\x20\xff') for _ in range(r.randint(1, 6)))
        elif k < .8:
            n = bytes(r.choice([x for x in range(1, 256) if x != 47]) for _ in range(r.randint(1, 40)))
        else:
            n = b'f%d' % r.randint(0, 999)
        if n in (b'.', b'..') or len(n) > 255 or n in taken:
            continue
        return n


def gen_data(r, size=None, kind=None):
    if size is None:
        k = r.random()
        size = (0 if k < .08 else 1 if k < .12 else r.randint(2, 300) if k < .5 else r.randint(300, 9000) if k < .75
                else r.randint(9000, 70000) if k < .93 else r.randint(70000, 600000))
    kind = kind or r.choice(['rand', 'rand', 'zero', 'rep', 'text', 'mix'])
    if kind == 'rand':
        return r.randbytes(size)
    if kind == 'zero':
        return bytes(size)
    if kind == 'rep':
        u = r.randbytes(r.randint(1, 5000))
        return (u * (size // len(u) + 1))[:size]
    if kind == 'text':
        return (b''.join(b'line %d\n' % r.randint(0, 9999) for _ in range(size // 7 + 1)))[:size]
    out = []
    n = 0
    while n < size:
        d = gen_data(r, min(size - n, r.randint(1, 20000)), r.choice(['rand', 'zero', 'rep']))
        out.append(d)
        n += len(d)
    return b''.join(out)


def gen_mtime(r, sane=False):
    k = r.random()
    if sane or k < .7:
        return r.randint(10**9, 1500000000) * 10**9 + r.choice([0, r.randint(0, 999999999)])
    if k < .8:
        return r.choice([0, 1, 10**9, 999999999, 2**31 * 10**9, (2**31 - 1) * 10**9 + 999999999])
    if k < .9:
        return -r.randint(1, 2**31) * 10**9 + r.randint(0, 999999999)
    return r.randint(0, 2**33) * 10**9 + r.randint(0, 999999999)


class TreeGen:
    """Random hostile trees.  xattrs only where the filesystem takes them."""
    def __init__(self, r, maxentries=25, maxdepth=4, special=True, xattr=True, owners=True, times='wild',
                 links=True, big=True, names=gen_name, modes=True, unreadable_ok=True):
        self.__dict__.update(locals())

    def make(self, root):
        root = fse(root)
        os.makedirs(root, exist_ok=True)
        self.files = []
        self.left = self.r.randint(1, self.maxentries)
        self._fill(root, 0)
        self._finish(root)
        return root

    def _fill(self, d, depth):
        r = self.r
        taken = set(os.listdir(d))
        n = r.randint(1, 8) if depth else max(1, self.left)
        while n > 0 and self.left > 0:
            n -= 1
            self.left -= 1
            name = self.names(r, taken)
            if taken and r.random() < .15:      # extend (or cut) a sibling's name
                b = r.choice(sorted(taken))
                b = r.choice([b + x for x in (b'-', b'.', b' ', b'!', b'0', b'.bup', b'\x01', b'\xff', b'.x', b'/'[:0] + b',')] + [b[:-1]])
                if b and len(b) < 250 and b not in taken and b not in (b'.', b'..'):
                    name = b
            taken.add(name)
            p = os.path.join(d, name)
            k = r.random()
            if k < .25 and depth < self.maxdepth and len(p) < 2500:
                os.mkdir(p)
                if r.random() < .85:
                    self._fill(p, depth + 1)
            elif k < .33 and self.links:
                os.symlink(self._target(p), p)
            elif k < .38 and self.special:
                os.mkfifo(p)
            elif k < .40 and self.special:
                mksock(p)
            elif k < .42 and self.special and os.getuid() == 0:
                try:
                    os.mknod(p, r.choice([stat.S_IFCHR, stat.S_IFBLK]) | 0o600, os.makedev(r.randint(0, 300), r.randint(0, 70000)))
                except PermissionError:
                    os.mkfifo(p)
            elif k < .50 and self.files and self.links:
                os.link(r.choice(self.files), p, follow_symlinks=False)
            else:
                with open(p, 'wb') as f:
                    d2 = gen_data(r) if self.big else gen_data(r, r.randint(0, 2000))
                    if r.random() < .06:
                        f.seek(r.choice([0, 4096, 100000, 1 << 20]))
                        f.write(d2[:5000])
                        f.truncate(f.tell() + r.choice([0, 1, 8192, 70000]))
                    else:
                        f.write(d2)
                self.files.append(p)

    def _target(self, p):
        r = self.r
        return r.choice([b'.', b'..', b'a', b'../a', b'/nonexistent/' + b'x' * r.randint(1, 200), b'dangling', b'/etc/passwd',
                         b'\xff\n', os.path.basename(p)[:200], b'a/b/../c', b'x' * r.choice([1, 59, 60, 61, 1000])])

    def _finish(self, root):
        r = self.r
        dirs = []
        for dp, dn, fn in os.walk(root):
            for n in fn + [x for x in dn if os.path.islink(os.path.join(dp, x))]:
                self._meta(os.path.join(dp, n))
            dirs.append(dp)
        for dp in reversed(dirs):
            self._meta(dp)

    def _meta(self, p):
        r = self.r
        st = os.lstat(p)
        if self.owners and os.getuid() == 0 and r.random() < .2:
            os.chown(p, r.choice([0, 1, 1000, 65534, 12345, 2**31]), r.choice([0, 1, 4242, 100]), follow_symlinks=False)
        if not stat.S_ISLNK(st.st_mode):
            if self.xattr and r.random() < .12 and (stat.S_ISREG(st.st_mode) or stat.S_ISDIR(st.st_mode)):
                try:
                    for _ in range(r.randint(1, 3)):
                        os.setxattr(p, b'user.' + bytes(r.choice(b'abc\xff.') for _ in range(r.randint(1, 8))),
                                    gen_data(r, r.choice([0, 1, 10, 100])))
                except OSError:
                    pass
            if self.modes and r.random() < .5:
                m = r.choice([0o644, 0o755, 0o600, 0o777, 0o4755, 0o2755, 0o1777, 0o000, 0o111, 0o400, 0o7777, 0o222, r.randint(0, 0o7777)])
                os.chmod(p, m)
            if self.xattr and r.random() < .06 and (stat.S_ISREG(st.st_mode) or stat.S_ISDIR(st.st_mode)):
                set_acl(r, p, stat.S_ISDIR(st.st_mode))
        if self.times:
            at = gen_mtime(r, self.times == 'sane')
            mt = gen_mtime(r, self.times == 'sane')
            try:
                os.utime(p, ns=(at, mt), follow_symlinks=False)
            except (OSError, OverflowError):
                pass


def set_acl(r, p, isdir):
    """Set a random valid POSIX ACL through its xattr representation."""
    import struct
    def mk():
        ents = [(0x01, r.randint(0, 7), 0xffffffff)]
        for u in sorted(r.sample([1, 1000, 4242, 65534], r.randint(1, 3))):
            ents.append((0x02, r.randint(0, 7), u))
        ents.append((0x04, r.randint(0, 7), 0xffffffff))
        for g in sorted(r.sample([1, 100, 777], r.randint(0, 2))):
            ents.append((0x08, r.randint(0, 7), g))
        ents.append((0x10, r.randint(0, 7), 0xffffffff))
        ents.append((0x20, r.randint(0, 7), 0xffffffff))
        return struct.pack('<I', 2) + b''.join(struct.pack('<HHI', *e) for e in ents)
    try:
        os.setxattr(p, 'system.posix_acl_access', mk())
        if isdir and r.random() < .6:
            os.setxattr(p, 'system.posix_acl_default', mk())
    except OSError:
        pass


def mksock(p):
    d, b = os.path.split(p)
    cwd = os.open('.', os.O_RDONLY)
    try:
        os.chdir(d)
        s = socket.socket(socket.AF_UNIX)
        try:
            s.bind(b'sock.tmp-bv')
        finally:
            s.close()
        os.rename(b'sock.tmp-bv', b)
    finally:
        os.fchdir(cwd)
        os.close(cwd)


def snap(root, atime=False, xattr=True, mtime=True, owner=True, inode=True, content=True):
    """{relpath: entry} of everything under root (b'' is root itself)."""
    root = fse(root)
    out = {}
    inodes = {}
    def one(p, rel):
        st = os.lstat(p)
        e = {'type': stat.S_IFMT(st.st_mode)}
        if not stat.S_ISLNK(st.st_mode):
            e['mode'] = stat.S_IMODE(st.st_mode)
        if owner:
            e['owner'] = (st.st_uid, st.st_gid)
        if mtime:
            e['mtime'] = st.st_mtime_ns
        if atime:
            e['atime'] = st.st_atime_ns
        if stat.S_ISREG(st.st_mode):
            e['size'] = st.st_size
            if content:
                h = hashlib.sha1()
                with open(p, 'rb') as f:
                    while True:
                        d = f.read(1 << 20)
                        if not d:
                            break
                        h.update(d)
                e['sha'] = h.hexdigest()
        elif stat.S_ISLNK(st.st_mode):
            e['target'] = os.readlink(p)
        elif stat.S_ISCHR(st.st_mode) or stat.S_ISBLK(st.st_mode):
            e['rdev'] = st.st_rdev
        if inode and not stat.S_ISDIR(st.st_mode) and st.st_nlink > 1:
            inodes.setdefault((st.st_dev, st.st_ino), []).append(rel)
        if xattr and not stat.S_ISLNK(st.st_mode):
            try:
                xs = {n: os.getxattr(p, n, follow_symlinks=False) for n in os.listxattr(p, follow_symlinks=False)}
            except OSError:
                xs = {}
            if xs:
                e['xattr'] = xs
        out[rel] = e
        if stat.S_ISDIR(st.st_mode):
            for n in os.listdir(p):
                one(os.path.join(p, n), rel + b'/' + n if rel else n)
    one(root, b'')
    for grp in inodes.values():
        for p in grp:
            out[p]['links'] = tuple(sorted(grp))
    return out


def diff_snap(a, b, names=('expected', 'got'), limit=6, ignore=()):
    """Human-readable list of differences; empty when equal."""
    out = []
    for p in sorted(set(a) | set(b)):
        if p not in a:
            out.append('%r only in %s' % (p, names[1]))
        elif p not in b:
            out.append('%r only in %s' % (p, names[0]))
        else:
            for k in sorted(set(a[p]) | set(b[p])):
                if k in ignore:
                    continue
                if a[p].get(k) != b[p].get(k):
                    out.append('%r %s: %s %s, %s %s' % (p, k, names[0], q(a[p].get(k), 160), names[1], q(b[p].get(k), 160)))
        if len(out) >= limit:
            out.append('...')
            break
    return out


def tree_sig(s):
    """A structural signature of a snapshot, for counting distinct cases."""
    return tuple(sorted((p.count(b'/'), e['type'], e.get('mode', 0), min(e.get('size', 0), 1 << 14) // 512,
                         len(e.get('xattr', ())), len(e.get('links', ()))) for p, e in s.items()))


def cc(src, out, *flags):
    r = subprocess.run(['gcc', '-O1', '-g', '-Wall', '-fPIC', '-shared', '-o', out, src, '-ldl', '-lpthread', *flags],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise EnvError('compiling %s: %s' % (src, r.stdout.decode()))

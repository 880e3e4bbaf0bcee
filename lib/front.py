"""Long-lived front ends (vfs worker, bup web) for the checks."""
import http.client
from urllib.parse import quote as urlquote
from bv import *


class VFS:
    """A live vfs_worker."""
    def __init__(self, c, repo=None, remote=None, env=None):
        e = dict(c.env)
        e['BUP_DIR'] = repo or c.bup_dir
        e.update(env or {})
        self.c = c
        args = [c.check.bupdir + '/dev/bup-python', VERIF + '/lib/workers/vfs_worker.py', c.check.bupdir]
        if remote:
            args.append(remote)
            e['BUP_TEST_LEVEL'] = '1'
        self.errf = open(c.tmp('vfs.err'), 'w+b')
        self.p = subprocess.Popen(args, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, start_new_session=True)
        c.procs.append(self.p)

    def __call__(self, op, **kw):
        kw['op'] = op
        kw = {k: v.decode('latin-1') if isinstance(v, bytes) else v for k, v in kw.items()}
        self.p.stdin.write(json.dumps(kw).encode() + b'\n')
        self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l:
            self.errf.seek(0)
            raise Violation('vfs reader died on %s: %s' % (q(kw), q(self.errf.read(), 1500)))
        self.c.count('vfs_operations')
        return json.loads(l)

    def close(self):
        self.p.stdin.close()
        if self.p.wait(30):
            self.errf.seek(0)
            raise Violation('vfs reader exited %d: %s' % (self.p.returncode, q(self.errf.read(), 1500)))


class UnixHTTP(http.client.HTTPConnection):
    def __init__(self, path):
        super().__init__('localhost', timeout=60)
        self.upath = path
    def connect(self):
        self.sock = socket.socket(socket.AF_UNIX)
        self.sock.settimeout(60)
        self.sock.connect(self.upath)


class Web:
    def __init__(self, c, repo=None):
        e = dict(c.env)
        e['BUP_DIR'] = repo or c.bup_dir
        self.c = c
        self.sock = c.dir + '/w'
        self.log = open(c.tmp('web.err'), 'w+b')
        self.p = subprocess.Popen([c.check.bup_exe, 'web', 'unix://' + self.sock], env=e, stdin=subprocess.DEVNULL,
                                  stdout=self.log, stderr=self.log, start_new_session=True)
        c.procs.append(self.p)
        t = time.time() + 60
        while not os.path.exists(self.sock):
            if self.p.poll() is not None or time.time() > t:
                self.log.seek(0)
                raise Violation('bup web did not start: %s' % q(self.log.read(), 1500))
            time.sleep(.05)

    def req(self, path, method='GET', headers={}, query='', fail_ok=False):
        h = UnixHTTP(self.sock)
        for i in range(50):
            try:
                h.request(method, urlquote(path) + query, headers=dict(headers, Connection='close'))
                break
            except (ConnectionRefusedError, FileNotFoundError):
                h.close()
                time.sleep(.1)
        r = h.getresponse()
        try:
            d = r.read()
        except http.client.IncompleteRead as e:
            d = None
        h.close()
        self.c.count('web_requests')
        if r.status >= 500 and not fail_ok:
            self.log.flush()
            with open(self.log.name, 'rb') as f:
                t = f.read()[-700:]
            raise Violation('web: %s %r%s: status %d; %s' % (method, path, query, r.status, q(t, 800)))
        return r.status, {k.lower(): v for k, v in r.getheaders()}, d



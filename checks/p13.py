#!/usr/bin/python3.12
"""P13: whatever a client sends, the server changes only the repository it serves, only as allowed, and breaks nothing."""
import sys
sys.path.insert(0, __file__.rsplit('/', 2)[0] + '/lib')
import importlib.util, resource, socket, struct, subprocess, time, zlib
from bv import *
from scen import T0, force
from reader import Repo, FormatError, read_refs
spec = importlib.util.spec_from_file_location('p24', VERIF + '/checks/p24.py')
p24 = importlib.util.module_from_spec(spec)
spec.loader.exec_module(p24)

EVIL = VERIF + '/lib/workers/evilclient.py'
Z = b'0' * 40
TYPE = {b'commit': 1, b'tree': 2, b'blob': 3, b'tag': 4}


def nobody():
    p24.as_nobody()()
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))


def vuint(n):
    out = b''
    while 1:
        if n < 128: return out + bytes([n])
        out += bytes([n & 127 | 128])
        n >>= 7


def bvec(b): return vuint(len(b)) + b


def oid(kind, d): return hashlib.sha1(b'%s %d\0' % (kind, len(d)) + d).digest()


def packobj(kind, d):
    n = len(d)
    b = TYPE[kind] << 4 | n & 15
    n >>= 4
    h = b''
    while 1:
        if not n: break
        h += bytes([b | 128])
        b, n = n & 127, n >> 7
    return h + bytes([b]) + zlib.compress(d, 1)


def sendobj(o, buf, crc=None, n=None):
    return struct.pack('!I', len(buf) + 24 if n is None else n) + o + struct.pack('!I', zlib.crc32(buf) if crc is None else crc) + buf


class Side:
    """A served repository as it was before."""
    def __init__(self, path):
        self.path = path
        self.refs = read_refs(fse(path)) if os.path.isdir(path + '/refs') else {}
        self.files = files(path)
        self.rp = Repo(path) if os.path.isdir(path + '/objects/pack') else None


def files(d):
    """{path: (type, mode, content)}"""
    out = {}
    d = fse(d)
    for w, ds, fs in os.walk(d):
        for f in ds + fs:
            p = w + b'/' + f
            st = os.lstat(p)
            out[p[len(d) + 1:]] = (stat.S_IFMT(st.st_mode), st.st_mode & 0o7777, os.readlink(p) if stat.S_ISLNK(st.st_mode) else open(p, 'rb').read() if stat.S_ISREG(st.st_mode) else None)
    return out


def transient(f):
    """Files that a server may rewrite: caches, refs, and what git logs."""
    return f.endswith((b'.midx', b'.bloom')) or f.startswith((b'refs/', b'logs/')) or f in (b'packed-refs', b'refs', b'logs')


class Gen:
    """Client sessions, from well-behaved to hostile."""
    def __init__(self, c, r, w):
        self.c, self.r, self.w = c, r, w
        self.n = 0
        self.made = {}          # objects we offered, by oid

    def obj(self):
        """(kind, data) of something new"""
        r, w = self.r, self.w
        self.n += 1
        k = r.choice(['blob', 'blob', 'commit', 'commit', 'commit', 'tree', 'tag'])
        salt = b'%d-%d' % (self.n, r.getrandbits(60))
        if k == 'blob': x = b'blob', salt + bytes(r.choice([0, 100, 70000]))
        elif k == 'tree': x = b'tree', b'100644 f\0' + r.choice([w.blob, r.randbytes(20)]) + b'100644 g' + salt + b'\0' + w.blob
        elif k == 'tag': x = b'tag', b'object %s\ntype commit\ntag x\n\n%s' % (w.old.hex().encode(), salt)
        else:
            tree = r.choice([w.tree, w.tree, r.randbytes(20)])
            ps = r.choice([[w.old], [w.old], [w.old], [], [w.other], [w.older], [w.other, w.old], [r.randbytes(20)]])
            x = b'commit', b'tree %s\n%sauthor a <a@b> 1 +0000\ncommitter a <a@b> 1 +0000\n\n%s' % (tree.hex().encode(), b''.join(b'parent %s\n' % p.hex().encode() for p in ps), salt)
        self.made[oid(*x)] = x
        return x

    def hexes(self):
        r, w = self.r, self.w
        return r.choice([lambda: w.old.hex().encode(), lambda: w.old.hex().encode(), lambda: w.older.hex().encode(), lambda: w.other.hex().encode(), lambda: b'', lambda: Z, lambda: w.blob.hex().encode(), lambda: w.tree.hex().encode(),
                         lambda: r.choice(sorted(self.made) or [w.old]).hex().encode(), lambda: r.choice(sorted(self.made) or [w.old]).hex().encode(), lambda: r.randbytes(20).hex().encode(), lambda: w.old.hex().encode()[:8], lambda: w.old.hex().encode()[:7], lambda: b'zz', lambda: b'refs/heads/a', lambda: b'-d', lambda: w.old.hex().encode().upper()])()

    def ref(self):
        return self.r.choice([b'refs/heads/a'] * 6 + [b'refs/heads/b', b'refs/heads/new', b'refs/heads/x/y', b'refs/tags/t', b'refs/tags/new', b'refs/heads/../../evil', b'refs/heads/a.lock', b'HEAD', b'config', b'refs/notes/x', b'refs/heads/', b'', b'-d', b'--stdin', b'refs/heads/a b', b'a', b'refs/heads/\xff', b'refs/remotes/x',
                                                              b'refs/heads/../tags/t', b'refs/heads/a/../b', b'objects/pack/x', b'refs/heads/%s' % (b'l' * 300)])

    def path(self):
        w = self.w
        return self.r.choice([w.served] * 3 + [w.third, w.neighbour, w.served + '/', w.served + '/../third', '../third', '.', '', 'nosuch', w.dir + '/made%d' % self.r.randint(0, 2), w.dir + '/stuff', w.dir + '/stuff/file', '/nonexistent/x', w.served + '/objects', '~', '-d', w.dir + '/link', 'a\0b', '--help', w.neighbour]).encode()

    def receive(self, objs, end):
        return b'receive-objects-v2\n' + b''.join(objs) + end

    def objects(self):
        r, w = self.r, self.w
        out = []
        for _ in range(r.choice([0, 1, 2, 2, 5])):
            y = r.random()
            if y < .6:
                k, d = self.obj()
                out.append(sendobj(oid(k, d), packobj(k, d)))
            elif y < .8:
                # present already
                o = r.choice([w.blob, w.tree, w.old, w.other])
                k, d = w.side.rp.get(o)
                out.append(sendobj(o, packobj(k, d)))
            else:
                k, d = self.obj()
                self.made.pop(oid(k, d))
                b = packobj(k, d)
                z = r.choice(['crc', 'len+', 'len-', 'tiny', 'huge', 'garbage', 'empty', 'zlib'])
                if z == 'crc': x = sendobj(oid(k, d), b, crc=r.getrandbits(32))
                elif z == 'len+': x = sendobj(oid(k, d), b, n=len(b) + 24 + r.randint(1, 100))
                elif z == 'len-': x = sendobj(oid(k, d), b, n=24 + r.randint(0, len(b) - 1))
                elif z == 'tiny': x = struct.pack('!I', r.randint(1, 23)) + oid(k, d)
                elif z == 'huge': x = struct.pack('!I', r.choice([1 << 31, 0xfffffffe, 1 << 28])) + oid(k, d)
                elif z == 'garbage': x = sendobj(r.randbytes(20), r.randbytes(r.randint(1, 50)))
                elif z == 'empty': x = sendobj(r.randbytes(20), b'')
                else: x = sendobj(r.randbytes(20), b[:3] + r.randbytes(10))
                out.append(x)
        return out

    def update(self, good=False):
        r, w = self.r, self.w
        if good or r.random() < .4:
            # what a proper client does
            k, d = b'commit', b'tree %s\nparent %s\nauthor a <a@b> 1 +0000\ncommitter a <a@b> 1 +0000\n\n%d' % (w.tree.hex().encode(), w.old.hex().encode(), r.getrandbits(60))
            self.made[oid(k, d)] = (k, d)
            return self.receive([sendobj(oid(k, d), packobj(k, d))], r.choice([b'\0\0\0\0', b'\xff\xff\xff\xff'])) + b'update-ref refs/heads/a\n%s\n%s\n' % (oid(k, d).hex().encode(), w.old.hex().encode())
        return b'update-ref %s\n%s\n%s\n' % (self.ref(), self.hexes(), self.hexes())

    def command(self):
        r, w = self.r, self.w
        y = r.choice(['help', 'set-dir', 'init-dir', 'list-indexes', 'send-index', 'receive', 'receive', 'receive', 'read-ref', 'update', 'update', 'update', 'update', 'join', 'cat-batch', 'refs', 'rev-list', 'resolve', 'config-get', 'unknown', 'noise', 'blank'])
        self.kinds.append(y)
        if y == 'help': return b'help\n'
        if y in ('set-dir', 'init-dir'): return y.encode() + b' ' + self.path() + b'\n'
        if y == 'list-indexes': return b'list-indexes\n'
        if y == 'send-index':
            ix = sorted(f for f in w.side.files if f.endswith(b'.idx'))
            return b'send-index %s\n' % r.choice([os.path.basename(r.choice(ix)), os.path.basename(r.choice(ix)), b'../../config', b'/etc/passwd', b'nosuch.idx', b'.idx', b'..\\x.idx', w.neighbour.encode() + b'/objects/pack/x.idx', b'x\0.idx', b''])
        if y == 'receive': return self.receive(self.objects(), r.choice([b'\0\0\0\0'] * 3 + [b'\xff\xff\xff\xff', b'', b'\0']))
        if y == 'read-ref': return b'read-ref %s\n' % self.ref()
        if y == 'update': return self.update()
        if y == 'join': return r.choice([b'join ', b'cat ']) + r.choice([self.hexes(), b'a', b'b', b'nosuch', b'a~1', b'HEAD', b'--batch', b'', b'a b', b':/x', b'a:']) + b'\n'
        if y == 'cat-batch': return b'cat-batch\n' + b''.join(r.choice([self.hexes(), b'a', b'a^{tree}', b'nosuch', b'x y', b'--buffer', b'HEAD:']) + b'\n' for _ in range(r.randint(0, 4))) + r.choice([b'\n', b''])
        if y == 'refs': return b'refs %s\n' % r.choice([b'0 0', b'1 0', b'0 1', b'1 1', b'2 2', b'', b'0', b'x y']) + b''.join(self.ref() + b'\n' for _ in range(r.randint(0, 3))) + b'\n'
        if y == 'rev-list': return b'rev-list\n' + r.choice([b'\n', b'\n', b'3\n']) + r.choice([b'\n', b'%at\n', b'%H%n%B\n', b'%x00\n']) + r.choice([b'a', b'refs/heads/a', w.old.hex().encode(), b'--output=%s/pwned' % w.dir.encode(), b'nosuch', b'--all', b'-1', b'^a', b'a..b', b'--git-dir=x']) + b'\n\n'
        if y == 'resolve': return b'resolve %s\n' % r.choice([b'0', b'1', b'2', b'3', b'7', b'x', b'-1', b'']) + r.choice([bvec(p) for p in (b'/', b'/a', b'/a/latest', b'/a/latest/..', b'/nosuch', b'/.tag', b'../../etc/passwd', b'', b'x' * 5000)] + [vuint(1 << 40), vuint((1 << 63) - 1), b'\x80' * 20, bytes(20)])
        if y == 'config-get': return b'config-get\n' + bvec(r.choice([b'bup.repo.id', b'pack.packsizelimit', b'core.bare', b'user.name', b'', b'bup.split.trees'])) + bvec(r.choice([b'', b'int', b'bool', b'path', b'x']))
        if y == 'unknown': return r.choice([b'init-session', b'init_session', b'update_ref', b'receive_objects_v2', b'__init__', b'_get_commands', b'conn', b'repo', b'handle', b'delete-ref refs/heads/a', b'exec ls', b'gc', b'-h', b'\xff', b'set-dir', b'init-dir', b'update-ref', b'read-ref', b'send-index', b'join', b'_check', b'receive-objects']) + b'\n'
        if y == 'blank': return b'\n' * r.randint(1, 3)
        return r.randbytes(r.randint(1, 40)).replace(b'\n', b'x') + r.choice([b'\n', b''])

    def session(self):
        r = self.r
        self.kinds = []
        if r.random() < .25:
            # proper to the end, except for one thing
            s = b'help\n' + (b'list-indexes\n' if r.random() < .5 else b'') + self.update(True)
            self.kinds.append('good')
            if r.random() < .5: s += self.command()
        else: s = b''.join(self.command() for _ in range(r.choice([1, 1, 2, 3, 6])))
        if r.random() < .5: s += b'quit\n'
        how = r.choice(['whole'] * 6 + ['cut', 'cut', 'flip', 'insert', 'drop', 'dup'])
        if len(s) > 1:
            i = r.randrange(len(s))
            if how == 'cut': s = s[:i]
            elif how == 'flip': s = s[:i] + bytes([s[i] ^ 1 << r.randint(0, 7)]) + s[i + 1:]
            elif how == 'insert': s = s[:i] + r.choice([b'\n', b'\0', b'\xff' * 4, r.randbytes(5)]) + s[i:]
            elif how == 'drop': s = s[:i] + s[i + r.randint(1, 30):]
            elif how == 'dup': s = s[:i] + s[r.randrange(i + 1):]
        self.kinds.append(how)
        return s


def kind(rp, o):
    # (what clients sent may be garbage)
    try: return rp.get(o)[0]
    except (FormatError, zlib.error): return None


class World:
    def __init__(self, c, r, dumb):
        self.c, self.dir = c, c.dir
        self.served, self.third, self.neighbour = (c.dir + '/' + n for n in ('served', 'third', 'neighbour'))
        os.makedirs(c.dir + '/stuff')
        open(c.dir + '/stuff/file', 'w').write('precious')
        os.symlink(self.third, c.dir + '/link')
        os.makedirs(c.dir + '/cwd', exist_ok=True)
        self.data = gen_data(r, r.choice([100, 30000]))
        src = c.dir + '/stuff/src'
        TreeGen(r, maxentries=4, maxdepth=1, special=False, xattr=False, owners=False, times='sane', big=False, modes=False).make(src)
        os.makedirs(c.dir + '/stuff/sub/x')
        for n in (self.served, self.third, self.neighbour):
            c.bup('init', repo=n)
            c.bup('split', '-q', '-n', 'a', '-d', str(T0), input=b'%s' % n.encode(), repo=n)
            c.bup('split', '-q', '-n', 'a', '-d', str(T0 + 1), input=self.data, repo=n)
            c.bup('split', '-q', '-n', 'b', '-d', str(T0 + 2), input=b'other', repo=n)
            c.bup('tag', 't', 'a', repo=n)
            if r.random() < .5: c.bup('midx', '-f', repo=n)
            if r.random() < .3: c.git('pack-refs', '--all', repo=n)
        if dumb: open(self.served + '/bup-dumb-server', 'w').close()
        p24.chown_r(c.dir)
        self.note()

    def note(self):
        """What there is now."""
        self.side = s = Side(self.served)
        self.sides = {p: Side(p) for p in (self.third, self.neighbour)}
        self.old = s.refs[b'refs/heads/a']
        h = s.rp.history(self.old)
        self.older = h[1][0] if len(h) > 1 else self.old
        self.other = s.refs.get(b'refs/heads/b', self.old)
        self.tree = h[0][1]['tree']
        self.blob = next(o for o in sorted(s.rp.all_oids()) if kind(s.rp, o) == b'blob')
        self.outer = {f: v for f, v in files(self.dir).items() if not f.startswith((b'served/', b'home', b'daemon.err'))}


TRIPLE = re.compile(rb'update-ref ([^\n]*)\n([^\n]*)\n([^\n]*)')


def possible(before, triples, ok):
    """All values each ref may have: a change takes effect only if the ref has the expected value."""
    vals = {n: {o.hex().encode()} for n, o in before.items()}
    for _ in range(2):          # (a mutated stream may hold overlapping commands)
        for name, new, old in triples:
            name, new, old = name.strip(), new.strip().lower(), old.strip().lower()
            v = vals.setdefault(name, {b''} if name not in before else set())
            exp = b'' if old in (b'', Z) else old
            if not any((cur == b'' and exp == b'') or (exp and cur.startswith(exp)) for cur in v): continue
            if ok(name, new, old, v): v.add(b'' if new == Z else new)
    return vals


def no(c, w, mode, was, now, rel, init):
    """Why a file of a repository must not have changed, or ''."""
    if was:
        if transient(rel) or (init and rel in (b'config', b'HEAD', b'description') and now): return ''
        return 'changed' if now else 'removed'
    if mode == 'restore' and not transient(rel): return 'appeared, though restore only reads'
    if init or transient(rel): return ''
    # (a server that is ended when its client is gone may leave a pack it was writing)
    if rel.startswith(b'objects/pack-tmp-'):
        c.count('packs_given_up')
        return ''
    return '' if re.fullmatch(rb'objects/pack/pack-[0-9a-f]{40}\.(pack|idx)', rel) else 'left behind'


def judge(c, w, stream, mode, name, what):
    """Compare everything with what it was."""
    unrestricted = mode in ('server', 'daemon')
    named = []
    if unrestricted:
        for m in re.finditer(rb'(set|init)-dir ([^\n]*)', stream):
            p = m[2].strip()
            if b'\0' in p: continue
            named.append((os.path.realpath(os.path.join(fse(w.dir + '/cwd'), p)), m[1] == b'init'))
    inits = {p for p, i in named if i}
    allowed = {fse(os.path.realpath(w.served))} | {p for p, _ in named}
    now = files(w.dir)
    was = {**{f: v for f, v in w.outer.items()}, **{b'served/' + f: v for f, v in w.side.files.items()}}
    top = fse(os.path.realpath(w.dir))
    for f in set(now) | set(was):
        if f.startswith(b'home') or f in (b'evil', b'evil.out', b'daemon.err') or now.get(f) == was.get(f): continue
        full = top + b'/' + f
        bases = [a for a in allowed if full == a or full.startswith(a + b'/') or (a.startswith(full + b'/') and f not in was)]
        c.require(bases, '%s: %s was %s, outside of what is served', what, q(f), 'created' if f not in was else 'removed' if f not in now else 'changed')
        why = [no(c, w, mode, f in was, f in now, full[len(a) + 1:], a in inits) for a in bases]
        c.require('' in why, '%s: %s: %s', what, q(f), why[0])
    # refs
    triples = TRIPLE.findall(stream)
    for path, side in [(w.served, w.side)] + sorted(w.sides.items()):
        refs = read_refs(fse(path))
        rp = Repo(path)
        for n, o in refs.items():
            c.require(rp.has(o), '%s: %s points at %s, which is missing', what, q(n), o.hex())
        if refs == side.refs: continue
        c.count('refs_moved')
        def ok(name_, new, old, vals):
            if unrestricted or mode == 'get': return True
            if mode == 'restore' or name_ != b'refs/heads/' + name: return False
            try: k, d = rp.get(bytes.fromhex(new.decode()))
            except Exception: return False
            if k != b'commit': return False
            ps = {p.hex().encode() for p in rp.commit(bytes.fromhex(new.decode()))['parents']}
            return any(v in ps or v == b'' for v in vals)
        pos = possible(side.refs, triples if fse(os.path.realpath(path)) in allowed else [], ok)
        for n in set(refs) | set(side.refs):
            v = refs[n].hex().encode() if n in refs else b''
            ps = pos.get(n, {b''})
            c.require(any(v == p or (len(p) >= 4 and v.startswith(p)) for p in ps), '%s: %s of %s is now %s; it was %s, and the client sent %s', what, q(n), path, v or 'gone', side.refs[n].hex() if n in side.refs else 'missing', q([t for t in triples if t[0].strip() == n]))
    # all that was there is there, for git and for bup
    s = w.side
    x = run(['git', '--git-dir', w.served, 'cat-file', '--batch-check=%(objectname) %(objecttype)'], input=b''.join(o.hex().encode() + b'\n' for o in sorted(s.rp.all_oids()) if kind(s.rp, o)), env=c.env)
    c.require(b'missing' not in x.out, '%s: objects are gone: %s', what, q(x.out))


def session_case(c, p):
    mode, n = p
    r = c.rng
    c.env['BUP_TEST_LEVEL'] = '1'
    dumb = r.random() < .3
    w = World(c, r, dumb)
    os.chmod(c.dir, 0o755)
    g = Gen(c, r, w)
    dm = None
    if mode == 'daemon': dm = daemon(c, w)
    try:
        for i in range(n):
            s = g.session()
            what = '%s, dumb %s, client sent %s' % (mode, dumb, q(s, 1500))
            env = dict(c.env, BUP_DIR=w.served)
            name = b'a'
            if mode == 'server':
                x = run([c.check.bup_exe, 'server'], env=env, input=s, preexec=nobody, cwd=w.dir + '/cwd', timeout=100)
                out, rc = x.out, x.rc
                err = x.err
            elif mode == 'daemon':
                k = socket.create_connection(('127.0.0.1', dm[1]), timeout=60)
                out = b''
                try:
                    k.sendall(s)
                    k.shutdown(socket.SHUT_WR)
                    if r.random() < .8:
                        while 1:
                            b = k.recv(65536)
                            if not b: break
                            out += b
                except ConnectionError: pass
                except TimeoutError: raise Violation('%s: the server did not end' % what)
                k.close()
                dm[2] += 1
                t = time.monotonic()
                idle = 0
                while idle < 3:
                    if time.monotonic() - t > 60: raise Violation('%s: the server did not end' % what)
                    time.sleep(.02)
                    st = open('/proc/%d/stat' % dm[0].pid).read().rsplit(')', 1)[1].split()[0]
                    idle = 0 if st != 'S' or others(dm[0].pid) or open(c.dir + '/daemon.err', 'rb').read().count(b'accepted connection') < dm[2] else idle + 1
                rc, err = 0, b''
            else:
                evil = c.dir + '/evil'
                open(evil, 'wb').write(s)
                env.update(BUP_TEST_SSH_BUP_PATH=EVIL, BV_EVIL=evil, BV_EVIL_OUT=evil + '.out')
                name = r.choice([b'a', b'a', b'b', b'fresh'])
                A = {'save': ['save', '-n', name, '/x'], 'split': ['split', '-n', name, '/x'], 'restore': ['restore', '-C', '/nonexistent', '/a/latest'], 'get': ['get', '-s', '/nonexistent', '--ff', 'a']}[mode]
                x = run([c.check.bup_exe, 'on', '-'] + A, env=env, preexec=nobody, cwd=w.dir + '/cwd', timeout=100)
                rc, err = x.rc, x.err
                out = open(evil + '.out', 'rb').read() if os.path.exists(evil + '.out') else b''
                for f in evil, evil + '.out':
                    if os.path.exists(f): os.unlink(f)
            c.require(rc >= 0, '%s: the server died from signal %d', what, -rc)
            judge(c, w, s, mode, name, what)
            c.count('bytes_sent', len(s))
            c.count('sessions_' + mode)
            c.count('sessions_ended_well' if rc == 0 else 'sessions_refused')
            c.count('answers_ok', len(re.findall(rb'(?:^|\n)ok\n', out)))
            c.eval()
            c.sig(mode, tuple(g.kinds), rc, out.count(b'\nok\n'), read_refs(fse(w.served)) == w.side.refs)
            # carry on with what is there now
            for d in os.listdir(c.dir):
                if d.startswith('made') or d == 'pwned': force(c.dir + '/' + d)
            for d in os.listdir(c.dir + '/cwd'): force(c.dir + '/cwd/' + d)
            if r.random() < .2 or b'refs/heads/a' not in read_refs(fse(w.served)):
                for d in ('served', 'third', 'neighbour', 'stuff', 'link'):
                    if os.path.islink(c.dir + '/' + d): os.unlink(c.dir + '/' + d)
                    else: force(c.dir + '/' + d)
                w = g.w = World(c, r, dumb)
                g.made.clear()
            else:
                p24.chown_r(c.dir)
                w.note()
        # a good client still finds and stores everything
        far = ['-r', 'bup://127.0.0.1:%d%s' % (dm[1], w.served)] if mode == 'daemon' else ['-r', '-:' + w.served]
        c.bup('join', *far, w.older.hex())
        d = gen_data(r, 20000)
        c.bup('split', *far, '-q', '-n', 'after', input=d)
        c.require(c.bup('join', *far, 'after').out == d, 'after hostile sessions, a split does not come back')
        c.count('good_clients')
    finally:
        if dm:
            killpg(dm[0].pid)
            dm[0].wait()
    c.sample({'mode': mode, 'last': q(s, 300)})


def others(pg):
    """The living processes of a group apart from its leader."""
    n = []
    for d in os.listdir('/proc'):
        if not d.isdigit() or int(d) == pg: continue
        try: f = open('/proc/%s/stat' % d).read().rsplit(')', 1)[1].split()
        except OSError: continue
        if int(f[2]) == pg and f[0] not in 'ZX': n.append(int(d))
    return n


def daemon(c, w):
    for _ in range(20):
        s = socket.socket()
        s.bind(('127.0.0.1', 0))
        port = s.getsockname()[1]
        s.close()
        err = open(c.dir + '/daemon.err', 'wb')
        pr = subprocess.Popen([c.check.bup_exe, b'daemon', b'-l', b'127.0.0.1', b'-p', b'%d' % port], env=dict(c.env, BUP_DIR=w.served), stdin=subprocess.DEVNULL, stdout=err, stderr=err, start_new_session=True, cwd=w.dir + '/cwd', preexec_fn=nobody)
        t = time.monotonic()
        while time.monotonic() - t < 20 and pr.poll() is None:
            try: socket.create_connection(('127.0.0.1', port), timeout=5).close()
            except OSError: time.sleep(.05); continue
            return [pr, port, 1]
    raise EnvError('no daemon: %r' % open(c.dir + '/daemon.err', 'rb').read())


def cas_case(c, p):
    """Update-ref, one at a time: exactly what the client expected, or nothing."""
    r = c.rng
    w = World(c, r, False)
    s = w.side
    for i in range(p):
        refs = read_refs(fse(w.served))
        a = refs.get(b'refs/heads/a')
        known = sorted(set(o for o, _ in s.rp.history(w.old)) | {w.other})
        name = r.choice([b'refs/heads/a', b'refs/heads/a', b'refs/heads/b', b'refs/heads/n%d' % r.randint(0, 2), b'refs/tags/t', b'refs/tags/u'])
        cur = refs.get(name)
        new = r.choice(known + [w.tree, w.blob, r.randbytes(20)])
        exp = r.choice([cur, cur, cur, None, r.choice(known), r.randbytes(20)])
        x = run([c.check.bup_exe, 'server'], env=dict(c.env, BUP_DIR=w.served), input=b'update-ref %s\n%s\n%s\nquit\n' % (name, new.hex().encode(), exp.hex().encode() if exp else b''))
        after = read_refs(fse(w.served))
        want = dict(refs)
        should = cur == exp and s.rp.has(new) and (name.startswith(b'refs/tags/') or new in known)
        if should: want[name] = new
        show = 'update of %s (now %s) from %s to %s (%s): %r' % (q(name), cur and cur.hex(), exp and exp.hex(), new.hex(), s.rp.get(new)[0] if s.rp.has(new) else 'missing', x)
        c.require(after == want, '%s: refs are %s, not %s', show, q(after), q(want))
        c.require((b'ok' in x.out) == should and (x.rc == 0) == should, '%s: answered %s', show, 'ok' if b'ok' in x.out else 'not ok')
        c.count('updates_done' if should else 'updates_refused')
        c.eval()
        c.sig('cas', name[:10], cur is None, cur == exp, exp is None, s.rp.has(new), new in known)
    c.sample({'updates': p})


def misnamed_case(c, p):
    """An object sent under the name of one that is there already."""
    r = c.rng
    for dumb in (False, True):
        repo = c.dir + '/m%d' % dumb
        c.bup('init', repo=repo)
        good = b'good content'
        o = oid(b'blob', good)
        c.bup('split', '-q', '-n', 'x', input=good, repo=repo)
        if dumb: open(repo + '/bup-dumb-server', 'w').close()
        time.sleep(1.1)
        x = run([c.check.bup_exe, 'server'], env=dict(c.env, BUP_DIR=repo), input=b'receive-objects-v2\n' + sendobj(o, packobj(b'blob', b'evil content')) + b'\0\0\0\0quit\n')
        y = c.bup('join', o.hex(), repo=repo, ok=None)
        c.require(y.out == good, 'a client sent %s to a %s server with other content (%r); now it reads as %s', o.hex(), 'dumb' if dumb else 'smart', x, q(y.out), key='misnamed-object-dumb' if dumb else 'misnamed-object')
        c.eval()
        c.count('misnamed')


def dirs_case(c, p):
    """A session that goes from repository to repository: each command works on the one named last."""
    r = c.rng
    repos = [c.dir + '/d%d' % i for i in range(3)]
    for x in repos: c.bup('init', repo=x)
    made = {}
    want = [{} for _ in repos]
    s = b''
    at = 0
    packs = [0] * 3
    answers = []
    for i in range(p):
        y = r.choice(['set', 'set', 'store', 'store', 'read', 'init'])
        if y == 'set':
            at = r.randrange(3)
            s += b'set-dir %s\n' % fse(repos[at])
        elif y == 'init':
            at = r.randrange(3)
            s += b'init-dir %s\n' % fse(repos[at])
        elif y == 'store':
            t = b'tree', b''
            m = b'commit', b'tree %s\nauthor a <a@b> 1 +0000\ncommitter a <a@b> 1 +0000\n\n%d' % (oid(*t).hex().encode(), r.getrandbits(60))
            s += b'receive-objects-v2\n' + sendobj(oid(*t), packobj(*t)) + sendobj(oid(*m), packobj(*m)) + b'\0\0\0\0'
            n = b'refs/heads/n%d' % i
            s += b'update-ref %s\n%s\n\n' % (n, oid(*m).hex().encode())
            want[at][n] = oid(*m)
        else:
            k = r.choice(sorted({n for w in want for n in w}) or [b'refs/heads/none'])
            s += b'read-ref %s\n' % k
            answers.append(want[at][k].hex().encode() if k in want[at] else b'')
    x = run([c.check.bup_exe, 'server'], env=dict(c.env, BUP_DIR=repos[0]), input=s + b'quit\n')
    what = 'a client sent %s' % q(s, 1500)
    c.require(x.rc == 0, '%s: %r', what, x)
    for path, w in zip(repos, want):
        refs = read_refs(fse(path))
        c.require(refs == w, '%s: refs of %s are %s, not %s', what, path, q(refs), q(w))
        rp = Repo(path)
        for o in refs.values(): c.require(rp.has(o) and rp.has(rp.commit(o)['tree']), '%s: %s lacks what its refs name', what, path)
        got = {o for o in rp.all_oids() if rp.get(o)[0] == b'commit'}
        c.require(got == set(w.values()), '%s: %s has the commits %s', what, path, q(got))
    c.require([a for a in answers if a] == re.findall(rb'(?:^|\n)([0-9a-f]{40})(?=\n)', x.out), '%s: read-ref answered %s, not %s', what, q(x.out), answers)
    c.count('dirs')
    c.eval()
    c.sig('dirs', s.count(b'set-dir'), [len(w) for w in want])


def limits_case(c, p):
    """Sessions that would succeed if one single check were missing."""
    r = c.rng
    c.env['BUP_TEST_LEVEL'] = '1'
    w = World(c, r, False)
    os.chmod(c.dir, 0o755)
    def commit(tree, parents, salt):
        d = b'tree %s\n%sauthor a <a@b> 1 +0000\ncommitter a <a@b> 1 +0000\n\n%s' % (tree.hex().encode(), b''.join(b'parent %s\n' % x.hex().encode() for x in parents), salt)
        return oid(b'commit', d), packobj(b'commit', d)
    def serve(mode, s, name=b'a'):
        if mode == 'server': return run([c.check.bup_exe, 'server'], env=dict(c.env, BUP_DIR=w.served), input=s, preexec=nobody, cwd=w.dir + '/cwd', timeout=100)
        evil = c.dir + '/evil'
        open(evil, 'wb').write(s)
        A = {'save': ['save', '-n', name, '/x'], 'split': ['split', '-n', name, '/x'], 'restore': ['restore', '-C', '/nonexistent', '/a/latest'], 'get': ['get', '-s', '/nonexistent', '--ff', 'a']}[mode]
        x = run([c.check.bup_exe, 'on', '-'] + A, env=dict(c.env, BUP_DIR=w.served, BUP_TEST_SSH_BUP_PATH=EVIL, BV_EVIL=evil, BV_EVIL_OUT=evil + '.out'), preexec=nobody, cwd=w.dir + '/cwd', timeout=100)
        x.out = open(evil + '.out', 'rb').read() if os.path.exists(evil + '.out') else b''
        for f in evil, evil + '.out':
            if os.path.exists(f): os.unlink(f)
        return x
    # an index of another repository
    near = [f for f in os.listdir(w.neighbour + '/objects/pack') if f.endswith('.idx')][0]
    data = open(w.neighbour + '/objects/pack/' + near, 'rb').read()
    own = [f for f in os.listdir(w.served + '/objects/pack') if f.endswith('.idx')][0]
    x = serve('server', b'send-index %s\nquit\n' % fse(own))
    c.require(open(w.served + '/objects/pack/' + own, 'rb').read() in x.out, 'send-index %s: %r', own, x)
    for n in '../../../neighbour/objects/pack/' + near, w.neighbour + '/objects/pack/' + near:
        for m in 'server', 'get':
            x = serve(m, b'send-index %s\nquit\n' % fse(n))
            c.require(data[:500] not in x.out, '%s: a client asked for the index %s and got what is outside the repository', m, n)
            c.count('limits')
    # another repository than the one a command is restricted to, then all as usual
    for m in 'save', 'split', 'get', 'restore':
        for verb in b'set-dir', b'init-dir':
            for path in w.neighbour, w.served + '/../neighbour', w.dir + '/made-%s' % m, w.dir + '/link':
                side = w.sides[w.third if path.endswith('link') else w.neighbour]
                o, b = commit(w.tree, [w.old], b'moved')
                before = files(w.dir)
                old = side.refs[b'refs/heads/a']
                o, b = commit(side.rp.commit(old)['tree'], [old], b'elsewhere')
                s = verb + b' %s\nreceive-objects-v2\n' % fse(path) + sendobj(o, b) + b'\0\0\0\0update-ref refs/heads/a\n%s\n%s\nquit\n' % (o.hex().encode(), old.hex().encode())
                x = serve(m, s)
                after = files(w.dir)
                bad = [f for f in set(before) | set(after) if before.get(f) != after.get(f) and not f.startswith((b'evil', b'home', b'served/'))]
                c.require(not bad, 'bup on ... %s: a client that sent %s changed %s', m, q(s, 500), q(bad[:5]))
                c.count('limits')
    # refs that a restricted server must leave alone
    for m in 'save', 'split':
        w.note()
        refs = read_refs(fse(w.served))
        o, b = commit(w.tree, [w.old], b'child')
        stray, sb = commit(w.tree, [], b'stray')
        sib, ib = commit(w.tree, [w.older], b'sibling')
        H = lambda x: x.hex().encode() if x else b''
        for name, new, old in [(b'refs/heads/b', o, w.other), (b'refs/tags/t', o, refs[b'refs/tags/t']), (b'refs/heads/new', o, None), (b'refs/heads/a/b', o, None), (b'refs/heads/a', stray, w.old), (b'refs/heads/a', sib, w.old), (b'refs/heads/a', w.older, w.old), (b'refs/heads/a', w.tree, w.old), (b'refs/heads/a', o, w.older),
                               (b'refs/heads/a', o, w.other), (b'refs/heads/a', None, w.old), (b'refs/heads/a', stray, None), (b'refs/heads/a', r.randbytes(20), w.old), (b'refs/heads/../heads/b', o, w.other), (b'refs/heads/a', stray, w.tree)]:
            if new == w.old: continue
            s = b'receive-objects-v2\n' + sendobj(o, b) + sendobj(stray, sb) + sendobj(sib, ib) + b'\0\0\0\0update-ref %s\n%s\n%s\nquit\n' % (name, H(new), H(old))
            x = serve(m, s)
            now = read_refs(fse(w.served))
            c.require(now == refs, 'bup on ... %s -n a: a client moved %s from %s (it said %s) to %s', m, q(name), H(refs.get(name)), H(old), H(now.get(name)))
            c.count('limits')
        s = b'receive-objects-v2\n' + sendobj(o, b) + b'\0\0\0\0update-ref refs/heads/a\n%s\n%s\nquit\n' % (H(o), H(w.old))
        x = serve(m, s)
        c.require(read_refs(fse(w.served)) == {**refs, b'refs/heads/a': o}, 'bup on ... %s -n a: the update of a was refused: %r', m, x)
        c.count('updates_done')
        p24.chown_r(c.dir)
    # objects that did not arrive as they were sent
    w.note()
    for m in 'server', 'save', 'get':
        for i in range(4):
            d = b'blob', b'%d damaged' % r.getrandbits(60)
            o, b = oid(*d), packobj(*d)
            e = b'blob', b'%d whole' % r.getrandbits(60)
            if i == 0: bad = sendobj(o, b, crc=zlib.crc32(b) ^ 1 << r.randint(0, 31))
            elif i == 1: bad = sendobj(o, b[:-1] + bytes([b[-1] ^ 4]), crc=zlib.crc32(b))
            elif i == 2: bad = sendobj(o, b, n=len(b) + 24 + 50)
            else: bad = sendobj(o, b[:len(b) // 2], n=len(b) + 24)
            s = b'receive-objects-v2\n' + sendobj(oid(*e), packobj(*e)) + bad + (b'\0\0\0\0' if i < 2 else b'')
            x = serve(m, s)
            c.require(not Repo(w.served).has(o), '%s: kept an object that did not arrive whole (%s): %r', m, ['wrong checksum', 'wrong content', 'end of data', 'short'][i], x)
            c.count('limits')
    c.eval(c.counters.get('limits', 0))
    c.sig('limits')


def fsd(b): return os.fsdecode(b)


def go(c, p):
    {'cas': cas_case, 'misnamed': misnamed_case, 'dirs': dirs_case, 'limits': limits_case}.get(p[0], lambda c, n: session_case(c, p))(c, p[1])


if __name__ == '__main__':
    k = Check('P13', rule='each evaluation is one client session (a byte stream, well-formed or not) with bup server, bup daemon, or the restricted server inside bup on save/split/restore/get, judged against snapshots of the served repository, its neighbours and all around; distinct = (mode, kinds of commands, exit status, answers, whether refs moved)',
              assumptions=['servers run as nobody in a scratch directory; what a session may do elsewhere on the system is not looked at', 'an unrestricted server may be pointed at any directory its client names', 'the names of objects that are not there yet are taken from the client'])
    run(['chmod', '-R', 'a+rX', k.bupdir])
    os.chmod(k.scratch, 0o755)
    n, per = k.pick((16, 10), (240, 60))
    modes = ['server', 'server', 'server', 'save', 'split', 'restore', 'get', 'daemon']
    cases = [('misnamed', ('misnamed', 0))] + [('limits-%d' % i, ('limits', i)) for i in range(k.pick(1, 10))] + [('cas-%d' % i, ('cas', k.pick(15, 200))) for i in range(2)] + [('dirs-%d' % i, ('dirs', k.pick(8, 20))) for i in range(k.pick(4, 60))]
    k.run_cases(cases + [('%s-%d' % (modes[i % 8], i), (modes[i % 8], per)) for i in range(n)], go)
    k.need('sessions_server', 20)
    for m in 'save', 'split', 'restore', 'get', 'daemon': k.need('sessions_' + m, 10)
    k.need('refs_moved', 5)
    k.need('updates_done', 3)
    k.need('updates_refused', 5)
    k.need('answers_ok', 30)
    k.need('good_clients', 10)
    k.need('misnamed', 1)
    k.need('limits', 60)
    k.finish()

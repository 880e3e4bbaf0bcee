"""Random filesystem mutations confined to one directory."""
import os, shutil, stat
from bv import gen_name, gen_data, gen_mtime, mksock

fse = os.fsencode


class Mutator:
    def __init__(self, r, root, names=None, big=True, special=True):
        self.r, self.root = r, fse(root)
        self.names = names or gen_name
        self.big, self.special = big, special
        self.log = []

    def _paths(self):
        files, dirs = [], [self.root]
        for dp, dn, fn in os.walk(self.root):
            for n in dn:
                p = os.path.join(dp, n)
                (files if os.path.islink(p) else dirs).append(p)
            files.extend(os.path.join(dp, n) for n in fn)
        files.sort(); dirs.sort()
        return files, dirs

    def _new(self, dirs):
        d = self.r.choice(dirs)
        while len(d) > 2000:
            d = self.root
        return os.path.join(d, self.names(self.r, os.listdir(d)))

    def _data(self):
        r = self.r
        k = r.random()
        return gen_data(r, None if self.big and k < .2 else r.randint(0, 3000))

    def step(self):
        r = self.r
        files, dirs = self._paths()
        reg = [f for f in files if stat.S_ISREG(os.lstat(f).st_mode)]
        ops = ['create', 'create', 'mkdir', 'mkdirfill']
        if files: ops += ['delete', 'rename', 'todir', 'touch', 'tolink', 'owner', 'swap', 'exchange']
        if reg: ops += ['samesize', 'append', 'truncate', 'rewrite', 'link', 'link', 'unlinkcopy', 'chmod', 'xattr', 'atomic', 'relink', 'linkover']
        if len(dirs) > 1: ops += ['rmtree', 'mvdir', 'dirtofile', 'chmoddir', 'touchdir']
        if self.special: ops += ['fifo', 'symlink']
        op = r.choice(ops)
        try:
            getattr(self, '_' + op)(files, reg, dirs)
            self.log.append(op)
        except (FileExistsError, FileNotFoundError, IsADirectoryError, NotADirectoryError) as e:
            self.log.append('%s!%d' % (op, e.errno))
        return op

    def _write(self, p, d):
        with open(p, 'wb') as f:
            f.write(d)
    def _create(self, f, reg, dirs): self._write(self._new(dirs), self._data())
    def _mkdir(self, f, reg, dirs): os.mkdir(self._new(dirs))
    def _mkdirfill(self, f, reg, dirs):
        d = self._new(dirs)
        os.mkdir(d)
        for _ in range(self.r.randint(1, 4)):
            self._write(os.path.join(d, self.names(self.r, os.listdir(d))), self._data())
    def _delete(self, f, reg, dirs): os.unlink(self.r.choice(f))
    def _rename(self, f, reg, dirs): os.rename(self.r.choice(f), self._new(dirs))
    def _swap(self, f, reg, dirs):
        a, b = self.r.choice(f), self.r.choice(f)
        t = self.root + b'/.swp-tmp'
        if a != b:
            os.rename(a, t); os.rename(b, a); os.rename(t, b)
    def _exchange(self, f, reg, dirs):
        # replace a file by another one with the same size and times
        a = self.r.choice(f)
        st = os.lstat(a)
        if not stat.S_ISREG(st.st_mode): return
        os.unlink(a)
        self._write(a, self.r.randbytes(st.st_size))
        os.chmod(a, stat.S_IMODE(st.st_mode))
        os.utime(a, ns=(st.st_atime_ns, st.st_mtime_ns))
    def _todir(self, f, reg, dirs):
        p = self.r.choice(f)
        os.unlink(p); os.mkdir(p)
        if self.r.random() < .6: self._write(p + b'/inside', self._data())
    def _touch(self, f, reg, dirs):
        os.utime(self.r.choice(f), ns=(gen_mtime(self.r, True), gen_mtime(self.r)), follow_symlinks=False)
    def _touchdir(self, f, reg, dirs):
        os.utime(self.r.choice(dirs), ns=(gen_mtime(self.r, True), gen_mtime(self.r)))
    def _tolink(self, f, reg, dirs):
        p = self.r.choice(f)
        os.unlink(p); os.symlink(b'target-%d' % self.r.randint(0, 99), p)
    def _owner(self, f, reg, dirs):
        if os.getuid() == 0:
            os.chown(self.r.choice(f), self.r.choice([0, 1, 4242]), self.r.choice([0, 7]), follow_symlinks=False)
    def _samesize(self, f, reg, dirs):
        p = self.r.choice(reg)
        st = os.lstat(p)
        self._write2(p, self.r.randbytes(st.st_size))
        os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
    def _write2(self, p, d):
        with open(p, 'r+b') as fh:
            fh.write(d)
    def _append(self, f, reg, dirs):
        with open(self.r.choice(reg), 'ab') as fh: fh.write(self._data())
    def _truncate(self, f, reg, dirs):
        p = self.r.choice(reg)
        os.truncate(p, self.r.randint(0, os.lstat(p).st_size + 10))
    def _rewrite(self, f, reg, dirs): self._write(self.r.choice(reg), self._data())
    def _atomic(self, f, reg, dirs):
        p = self.r.choice(reg)
        self._write(p + b'.t' if len(p.split(b'/')[-1]) < 250 else self.root + b'/.t', self._data())
        os.rename(p + b'.t' if len(p.split(b'/')[-1]) < 250 else self.root + b'/.t', p)
    def _link(self, f, reg, dirs): os.link(self.r.choice(reg), self._new(dirs))
    def _linkover(self, f, reg, dirs):
        a, b = self.r.choice(reg), self.r.choice(f)
        if a != b:
            os.unlink(b); os.link(a, b)
    def _relink(self, f, reg, dirs):
        p = self.r.choice(reg)
        n = self._new(dirs)
        os.link(p, n); os.unlink(p)
        if self.r.random() < .5: os.link(n, p)
    def _unlinkcopy(self, f, reg, dirs):
        l = [p for p in reg if os.lstat(p).st_nlink > 1] or reg
        p = self.r.choice(l)
        with open(p, 'rb') as fh: d = fh.read()
        os.unlink(p); self._write(p, d)
    def _chmod(self, f, reg, dirs): os.chmod(self.r.choice(reg), self.r.choice([0o600, 0o644, 0o755, 0o4711, 0]))
    def _chmoddir(self, f, reg, dirs): os.chmod(self.r.choice(dirs), self.r.choice([0o700, 0o755, 0o1777, 0o2755]))
    def _xattr(self, f, reg, dirs):
        try:
            os.setxattr(self.r.choice(reg), b'user.m', b'%d' % self.r.randint(0, 9))
        except OSError:
            pass
    def _rmtree(self, f, reg, dirs): shutil.rmtree(self.r.choice(dirs[1:]))
    def _mvdir(self, f, reg, dirs):
        a = self.r.choice(dirs[1:])
        b = self._new([d for d in dirs if d != a and not d.startswith(a + b'/')])
        os.rename(a, b)
    def _dirtofile(self, f, reg, dirs):
        p = self.r.choice(dirs[1:])
        shutil.rmtree(p); self._write(p, self._data())
    def _fifo(self, f, reg, dirs): os.mkfifo(self._new(dirs))
    def _symlink(self, f, reg, dirs): os.symlink(self.r.choice([b'a', b'..', b'/x' * 30]), self._new(dirs))

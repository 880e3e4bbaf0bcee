"""Runs inside bup's runtime: executes vfs/fuse operations given as JSON lines on
stdin and reports what each one observed.  Bytes travel as latin-1 strings."""
import hashlib, json, sys, traceback
sys.path.insert(0, sys.argv[1] + '/lib')
from bup import git, vfs, metadata
from bup.repo import LocalRepo, repo_for_location, main_repo_location

def b(s): return s.encode('latin-1')
def s(x): return x.decode('latin-1')

def meta_of(m):
    if isinstance(m, int):
        return {'int': m}
    d = {k: getattr(m, k) for k in ('mode', 'uid', 'gid', 'atime', 'mtime', 'ctime', 'size', 'rdev')}
    d['user'] = s(m.user or b'')
    d['group'] = s(m.group or b'')
    d['target'] = s(m.symlink_target) if m.symlink_target is not None else None
    d['xattr'] = sorted([s(k), s(v)] for k, v in (m.linux_xattr or ()))
    d['hl'] = s(m.hardlink_target) if m.hardlink_target else None
    return d

def item_of(it):
    if it is None:
        return None
    return {'kind': type(it).__name__, 'mode': vfs.item_mode(it),
            'oid': it.oid.hex() if getattr(it, 'oid', None) else None,
            'coid': it.coid.hex() if getattr(it, 'coid', None) else None,
            'meta': meta_of(it.meta)}

def main():
    if len(sys.argv) > 2:
        repo = repo_for_location(main_repo_location(sys.argv[2].encode(), sys.exit))
    else:
        repo = LocalRepo()
    fs = None
    for line in sys.stdin:
        r = json.loads(line)
        out = {}
        try:
            op = r['op']
            if op.startswith('fuse') and fs is None:
                from bup.cmd import fuse as bfuse
                fs = {m: bfuse.BupFs(repo=repo, fake_metadata=not m) for m in (False, True)}
            if op == 'read':
                res = vfs.resolve(repo, b(r['path']))
                it = res[-1][1]
                out['size'] = vfs.item_size(repo, it)
                got = []
                with vfs.fopen(repo, it) as f:
                    for step in r['seq']:
                        if step[0] == 'seek':
                            try:
                                f.seek(step[1])
                                got.append('ok')
                            except OSError as e:
                                got.append('E%d' % e.errno)
                        elif step[0] == 'tell':
                            got.append(f.tell())
                        else:
                            d = f.read(step[1]) if step[1] is not None else f.read()
                            got.append([len(d), hashlib.sha1(d).hexdigest()])
                out['got'] = got
            elif op == 'oidread':
                with vfs.tree_data_reader(repo, bytes.fromhex(r['oid'])) as f:
                    d = f.read()
                out['got'] = [len(d), hashlib.sha1(d).hexdigest()]
            elif op == 'resolve':
                parent = None
                if r.get('parent') is not None:
                    parent = vfs.resolve(repo, b(r['parent']))
                fn = vfs.try_resolve if r.get('try') else vfs.resolve
                kw = {} if r.get('try') else {'follow': r.get('follow', True)}
                res = fn(repo, b(r['path']), parent=parent, want_meta=r.get('meta', True), **kw)
                out['res'] = [[s(n), item_of(i)] for n, i in res]
            elif op == 'contents':
                res = vfs.resolve(repo, b(r['path']))
                it = res[-1][1]
                names = [b(x) for x in r['names']] if r.get('names') else None
                ents = []
                for n, i in vfs.contents(repo, it, names, want_meta=r.get('meta', True)):
                    if r.get('full'):
                        i = vfs.ensure_item_has_metadata(repo, i, include_size=True)
                    ents.append([s(n), item_of(i)])
                out['ents'] = ents
            elif op == 'readlink':
                it = vfs.resolve(repo, b(r['path']), follow=False)[-1][1]
                out['target'] = s(vfs.readlink(repo, it))
            elif op == 'fuse_read':
                f = fs[r.get('meta', False)]
                p = b(r['path']).decode('utf-8', 'surrogateescape')
                out['open'] = f.open(p, r.get('flags', 0))
                got = []
                for off, size in r['reads']:
                    try:
                        d = f.read(p, size, off)
                    except OSError as e:
                        got.append('E%d' % e.errno)
                        continue
                    got.append([len(d), hashlib.sha1(d).hexdigest()] if isinstance(d, bytes) else d)
                out['got'] = got
            elif op == 'fuse_getattr':
                f = fs[r.get('meta', False)]
                st = f.getattr(b(r['path']).decode('utf-8', 'surrogateescape'))
                out['st'] = st if isinstance(st, int) else {
                    k: getattr(st, k) for k in ('st_mode', 'st_size', 'st_uid', 'st_gid', 'st_mtime', 'st_atime', 'st_ctime', 'st_nlink')}
            elif op == 'fuse_readdir':
                f = fs[r.get('meta', False)]
                out['names'] = [x if isinstance(x, int) else s(x.name.encode('utf-8', 'surrogateescape'))
                                for x in f.readdir(b(r['path']).decode('utf-8', 'surrogateescape'), 0)]
            elif op == 'fuse_readlink':
                f = fs[r.get('meta', False)]
                t = f.readlink(b(r['path']).decode('utf-8', 'surrogateescape'))
                out['target'] = t if isinstance(t, int) else s(t.encode('utf-8', 'surrogateescape'))
            elif op == 'clear':
                vfs.clear_cache()
            else:
                raise Exception('bad op')
        except vfs.IOError as e:
            out['ioerror'] = e.errno
        except BaseException as e:
            out['exc'] = type(e).__name__ + ': ' + str(e)[:300]
            out['tb'] = traceback.format_exc()[-1500:]
        sys.stdout.write(json.dumps(out) + '\n')
        sys.stdout.flush()
    repo.close()

main()

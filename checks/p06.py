#!/usr/bin/python3.12
"""P06: every view of a save shows exactly what was saved."""
import html, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../lib'))
from bv import *
from reader import Repo, FormatError, read_refs
from front import VFS, Web
from urllib.parse import unquote_to_bytes

D, L, F = 'dir', 'link', 'other'


class Node:
    def __init__(self, kind, ent=None, target=None, rel=None):
        self.kind, self.ent, self.target, self.rel = kind, ent, target, rel
        self.kids = {}


def model_tree(s):
    """Model of one save from an lstat snapshot."""
    nodes = {}
    for p, e in sorted(s.items(), key=lambda x: x[0].count(b'/') if x[0] else -1):
        k = D if e['type'] == stat.S_IFDIR else L if e['type'] == stat.S_IFLNK else F
        nodes[p] = Node(k, e, e.get('target'), p)
        if p:
            d, _, n = p.rpartition(b'/')
            nodes[d].kids[n] = nodes[p]
    return nodes[b'']


class Err(Exception):
    def __init__(self, n): self.n = n


def resolve(root, path, parent=None, follow=True, lenient=None):
    """POSIX style resolution; returns [(name, node or None)].  lenient collects
    the use of a link target that ends in a slash."""
    def split(p):
        parts = [x for x in p.split(b'/') if x not in (b'', b'.')]
        must = p.endswith((b'/', b'/.')) or not parts or p in (b'.',)
        return p.startswith(b'/'), must, parts
    ab, must, todo = split(path)
    if must: follow = True
    past = [(b'', root)] if ab or not parent else list(parent)
    hops = 0
    while todo:
        seg = todo.pop(0)
        if past[-1][1].kind != D:
            raise Err(20)
        if seg == b'..':
            if len(past) > 1: past.pop()
            continue
        n = past[-1][1].kids.get(seg)
        if n is None:
            return past + [(seg, None)]
        if n.kind == L and (todo or follow):
            hops += 1
            if hops > 101:
                raise Err(40)
            a, m, t = split(n.target)
            if n.target.endswith((b'/', b'/.')) and lenient is not None:
                lenient.append(1)
            if a: past = [(b'', root)]
            todo = t + todo
        else:
            past.append((seg, n))
            if todo and n.kind != D:
                raise Err(20)
    if must and past[-1][1].kind != D:
        raise Err(20)
    return past


def fmode(e):
    return stat.filemode(e['type'] | (e.get('mode', 0o777) & 0o777))


def lsline(e, name, cls=b'', tgt=True):
    t = e['type']
    size = (b'%d' % e['rdev'] if 'rdev' in e else b'%d' % e['size'] if 'size' in e else b'%d' % len(e['target']) if 'target' in e else b'0')
    tm = time.strftime('%Y-%m-%d %H:%M', time.gmtime(e['mtime'] // 10**9)).encode()
    n = name + cls + (b' -> ' + e['target'] if 'target' in e else b'')
    return b'%-10s %-11s %11s %16s %s' % (fmode(e).encode(), b'%d/%d' % e['owner'], size, tm, n)


def clsof(e, all_):
    t = e['type']
    return (b'@' if t == stat.S_IFLNK else b'/' if t == stat.S_IFDIR else b'|' if t == stat.S_IFIFO else b'=' if t == stat.S_IFSOCK
            else b'*' if t == stat.S_IFREG and all_ and e.get('mode', 0) & 0o111 else b'')


def cmp_item(where, it, e, sizes=False, kind=None):
    """it: worker's view of an item with full metadata."""
    m = it['meta']
    if 'int' in m:
        raise Violation('%s: no metadata (%s), saved %s' % (where, m, q(e)))
    want = {'mode': e['type'] | e.get('mode', 0o777), 'uid': e['owner'][0], 'gid': e['owner'][1], 'mtime': e['mtime']}
    if 'target' in e: want['target'] = e['target'].decode('latin-1')
    if 'rdev' in e: want['rdev'] = e['rdev']
    if sizes and 'size' in e: want['size'] = e['size']
    for k, v in want.items():
        if m[k] != v:
            raise Violation('%s: %s is %r, saved %r' % (where, k, m[k], v))
    xs = sorted([k, v.decode('latin-1')] for k, v in e.get('xattr', {}).items())
    if sorted([os.fsdecode(k.encode('latin-1')), v] for k, v in m['xattr']) != xs:
        raise Violation('%s: xattrs %s, saved %s' % (where, q(m['xattr']), q(xs)))


def build(c, kind):
    r = c.rng
    src = fse(c.dir) + b'/src'
    if kind == 'wide':
        os.mkdir(src)
        d = src + b'/' + r.choice([b'big', b'x.bup', b'w'])
        os.mkdir(d)
        for i in range(r.randint(500, c.check.pick(1500, 6000))):
            n = b'%d' % i if r.random() < .6 else r.choice([b'%d-x.bup', b'%d\xff', b'.bupm%d', b'%d.bupd', b'%d.bupl', b'a%d b', b'x..%d.bupd', b'.%d']) % i
            if len(n) > 200: continue
            p = d + b'/' + n
            k = r.random()
            if k < .1: os.mkdir(p)
            elif k < .2: os.symlink(b't%d' % i, p)
            elif k < .22: os.mkfifo(p)
            else:
                with open(p, 'wb') as f: f.write(b'%d' % (i if r.random() < .3 else 1))
            if k > .2 and r.random() < .3: os.chmod(p, r.randint(0, 0o777))
        with open(src + b'/other', 'wb') as f: f.write(b'o')
    else:
        TreeGen(r, maxentries=r.choice([8, 25, 60]), big=r.random() < .3).make(src)
    # links meant to be followed inside the save
    _, dirs, nondirs = None, [], []
    for dp, dn, fn in os.walk(src):
        dirs.append(dp)
        nondirs.extend(os.path.join(dp, x) for x in fn)
        if kind == 'wide': dn[:] = dn[:20]
    allp = (dirs + nondirs)
    st = os.lstat(src)
    for i in range(r.randint(2, 10)):
        d = r.choice(dirs)
        t = r.choice(allp)
        k = r.random()
        if k < .35: tgt = os.path.relpath(t, d)
        elif k < .6: tgt = r.choice([b'/main/latest', b'/main/latest/', b'//main//latest/.']) + t[len(src):]
        elif k < .7: tgt = r.choice([b'/', b'/main', b'/..', b'../../../../..', b'/.tag', b'.', b'./..', b'latest', b'/main/..', b'/nothing/here'])
        elif k < .8: tgt = os.path.relpath(t, d) + r.choice([b'/..', b'/.', b'/../x', b'/a/b'])
        elif k < .9: tgt = b'lnk%d' % r.randint(0, 9)      # chains and loops
        else: tgt = r.choice([b'..', b'../..', b'a/..', b'nothing/..'])
        p = d + b'/lnk%d' % i
        if len(tgt) < 4000 and not os.path.lexists(p):
            pst = os.lstat(d)
            os.symlink(tgt, p)
            os.utime(d, ns=(pst.st_atime_ns, pst.st_mtime_ns))
    return src


def case(c, kind):
    r = c.rng
    src = build(c, kind)
    s = snap(src)
    c.bup('init')
    c.bup('init', repo=c.dir + '/client')
    split = r.random() < .5 or kind == 'wide' and r.random() < .85
    if split: c.git('config', 'bup.split.trees', 'true')
    if r.random() < .4: c.git('config', 'bup.split.files', 'legacy:%d' % r.choice([13, 14, 16, 20]))
    c.bup('index', src)
    # an older, different save; some saves within one second
    times = [r.choice([1000000000, 1000000000, 1000000001, 1262304000, 4102444800, 86400]) for _ in range(r.randint(1, 4))]
    if r.random() < .1: times += [1000000000] * 11
    for t in times[:-1]:
        c.bup('save', '-q', '--strip', '-n', 'main', '-d', str(t), src)
    c.bup('save', '-q', '--strip', '-n', 'main', '-d', str(times[-1]), src)
    rp = Repo(c.bup_dir)
    tip = rp.refs()[b'refs/heads/main']
    hist = [o for o, _ in rp.history(tip)]
    c.require(len(hist) == len(times), 'branch has %d commits after %d saves', len(hist), len(times))
    tree = rp.commit(tip)['tree']
    c.git('branch', 'zz', tip.hex())
    c.git('branch', 'a-b.c', hist[-1].hex())
    c.git('tag', 'T1', tip.hex())
    c.git('tag', 'tree', tree.hex())
    regs = [p for p, e in s.items() if e['type'] == stat.S_IFREG]
    # model
    save = model_tree(s)
    names = save_names(times)
    root = Node(D)
    def branch(ts_names):
        b = Node(D, None)
        for n in ts_names: b.kids[n] = save
        b.kids[b'latest'] = Node(L, None, ts_names[-1])
        return b
    root.kids = {b'main': branch(names), b'zz': branch(names),
                 b'a-b.c': branch(save_names(times[:1])), b'.tag': Node(D)}
    root.kids[b'.tag'].kids = {b'T1': save, b'tree': save}
    base = r.choice([b'/main/latest', b'/main/' + names[-1], b'/.tag/T1', b'/zz/latest', b'/.tag/tree', b'/main/' + r.choice(names)])
    c.latest = names[-1]
    v = VFS(c)
    vr = VFS(c, repo=c.dir + '/client', remote='-:' + c.bup_dir)
    web = Web(c)
    check_tops(c, v, root, r)
    dirs = [p for p, e in s.items() if e['type'] == stat.S_IFDIR]
    todo = dirs if len(dirs) < 14 else [b''] + r.sample(dirs, 13)
    if kind == 'wide' and not any(len(nodeof(save, d).kids) > 400 for d in todo):
        todo.append(max(dirs, key=lambda d: len(nodeof(save, d).kids)))
    for d in todo:
        check_dir(c, v, vr, web, save, base, d, r)
    check_ls(c, save, base, r.sample(todo, min(3, len(todo))), s, r)
    check_resolve(c, v, vr, root, save, base, s, r)
    v.close(); vr.close()
    c.sig(kind, split, tree_sig(s))
    c.sample({'kind': kind, 'entries': len(s), 'split_trees': split, 'saves': times})
    c.count('entries', len(s))


def nodeof(n, rel):
    for x in rel.split(b'/') if rel else []:
        n = n.kids[x]
    return n


def save_names(times):
    """Names of a branch's saves, oldest first."""
    base = [time.strftime('%Y-%m-%d-%H%M%S', time.gmtime(t)).encode() for t in times]
    out = []
    seen = {}
    for n in base:
        k = base.count(n)
        if k == 1:
            out.append(n)
        else:
            i = seen.get(n, 0)
            seen[n] = i + 1
            out.append(b'%s-%0*d' % (n, len(str(k - 1)), i))
    return out


def s2(b_): return b_.decode('latin-1')


def get(v, *a, **k):
    x = v(*a, **k)
    if 'exc' in x:
        raise Violation('%s %s: %s' % (a, q(k), x))
    return x


def check_tops(c, v, root, r):
    for p, n in ((b'/', root), (b'/main', root.kids[b'main']), (b'/a-b.c', root.kids[b'a-b.c']), (b'/.tag', root.kids[b'.tag'])):
        for meta in (True, False):
            x = get(v, 'contents', path=p, meta=meta)
            got = [e[0] for e in x['ents']]
            want = sorted([s2(k) for k in n.kids] + ['.'])
            if sorted(got) != want:
                raise Violation('contents of %r: %s, expected %s' % (p, q(got), q(want)))
        o = c.bup('ls', '-a', p).out
        want = b''.join(k + b'\n' for k in sorted(list(n.kids) + [b'.', b'..']))
        if o != want:
            raise Violation('ls -a %r: %s, expected %s' % (p, q(o), q(want)))
        c.eval(2)


def check_dir(c, v, vr, web, save, base, d, r):
    node = nodeof(save, d)
    path = base + (b'/' + d if d else b'')
    kids = node.kids
    want = sorted([b'.'] + list(kids))
    # all entries, in full
    x = get(r.choice([v, v, vr]), 'contents', path=path, full=True)
    ents = {n.encode('latin-1'): i for n, i in x['ents']}
    if sorted(n.encode('latin-1') for n, _ in x['ents']) != want:
        raise Violation('contents of %r: extra %s missing %s' % (path, q(sorted(set(ents) - set(want))[:5]), q(sorted(set(want) - set(ents))[:5])))
    if x['ents'][0][0] != '.':
        raise Violation('contents of %r do not start with "."' % path)
    for n, it in ents.items():
        e = node.ent if n == b'.' else kids[n].ent
        cmp_item('%r in %r' % (n, path), it, e, sizes=True)
    c.count('entries_compared', len(ents))
    # a few names, some absent
    pre = [k for k in kids if any(o != k and o.startswith(k) for o in kids)]      # names that others extend
    for i in range(3 + min(5, len(pre))):
        pool = list(kids) + [b'.', b'nope', b'.bupm', b'x.bup']
        ask = r.sample(pool, r.randint(1, min(5, len(pool))))
        if i >= 3: ask = [r.choice(pre)]
        elif r.random() < .3 and kids:
            k = r.choice(list(kids))
            ask.append(r.choice([k + b'x', k[:-1] or b'q', k + b'.bup', k + b'/']))
        ask = [a for a in set(ask) if b'/' not in a]
        meta = r.random() < .7
        x = get(v, 'contents', path=path, names=[s2(a) for a in ask], meta=meta)
        got = sorted(e[0] for e in x['ents'])
        exp = sorted(s2(a) for a in ask if a in kids or a == b'.')
        if got != exp:
            raise Violation('contents of %r asked for %s: got %s, expected %s' % (path, q(ask), q(got), q(exp)))
        if meta:
            for n, it in x['ents']:
                nb = n.encode('latin-1')
                if nb != b'.' and kids[nb].kind != D:
                    cmp_item('%r in %r (asked by name)' % (nb, path), it, kids[nb].ent)
    # without metadata
    x = get(v, 'contents', path=path, meta=False)
    if sorted(e[0].encode('latin-1') for e in x['ents']) != want:
        raise Violation('contents of %r without metadata: %s' % (path, q([e[0] for e in x['ents']])))
    # fuse: the kernel follows links itself, so no link in the path
    path = base.replace(b'latest', c.latest) + (b'/' + d if d else b'')
    x = get(v, 'fuse_readdir', path=path, meta=r.random() < .5)
    if sorted(n.encode('latin-1') for n in x['names']) != sorted(want + [b'..']):
        raise Violation('fuse readdir of %r: %s' % (path, q(x['names'])))
    for n in r.sample(sorted(kids), min(3, len(kids))):
        p = path + b'/' + n
        e = kids[n].ent
        st = get(v, 'fuse_getattr', path=p, meta=True)['st']
        if isinstance(st, int) or st['st_mode'] != e['type'] | e.get('mode', 0o777) or (st['st_uid'], st['st_gid']) != e['owner'] \
           or st['st_mtime'] != max(0, e['mtime'] // 10**9) or 'size' in e and st['st_size'] != e['size']:
            raise Violation('fuse getattr of %r: %s, saved %s' % (p, st, q(e)))
        if kids[n].kind == L:
            for t in (get(v, 'fuse_readlink', path=p)['target'], get(v, 'readlink', path=p)['target']):
                if t.encode('latin-1') != e['target']:
                    raise Violation('link %r reads %r, saved %r' % (p, t, e['target']))
    st = get(v, 'fuse_getattr', path=path + b'/no such name')['st']
    if st != -2:
        raise Violation('fuse getattr of a missing name in %r: %s' % (path, st))
    # web
    for hidden in (0, 1):
        st, hd, body = web.req(path + b'/', query='?hidden=%d' % hidden + ('&meta=1&hash=1' if r.random() < .5 else ''))
        if st != 200:
            raise Violation('web listing of %r: status %d' % (path, st))
        links = re.findall(rb'<td class="dir-name">\s*<a href="([^"]*)">', body)
        got = []
        for l in links:
            l = unquote_to_bytes(html.unescape(l.decode('latin-1')).split('?')[0])
            got.append(l[:-1] if l.endswith(b'/') else l)
        exp = sorted([b'..'] + [k for k in kids if hidden or not k.startswith(b'.')])
        if sorted(got) != exp:
            raise Violation('web listing of %r (hidden=%d): extra %s missing %s' % (
                path, hidden, q(sorted(set(got) - set(exp))[:4]), q(sorted(set(exp) - set(got))[:4])))
        # follow one of the page's own links and its show/hide link
        if links and hidden == r.randint(0, 1):
            l = html.unescape(r.choice(links).decode('latin-1'))
            tn = unquote_to_bytes(l.split('?')[0]).rstrip(b'/')
            if tn in kids and kids[tn].kind == D:
                s_, _, b_ = web.req(path + b'/' + tn + b'/', query='?' + l.split('?')[1] if '?' in l else '')
                if s_ != 200:
                    raise Violation('web: following link %r of %r: status %d' % (l, path, s_))
            for l in re.findall(rb'<a href="\.(\?[^"]*)?">', body):
                s_, _, b_ = web.req(path + b'/', query=html.unescape(l.decode()))
                if s_ != 200:
                    raise Violation('web: following option link %r of %r: status %d' % (l, path, s_))
                c.count('web_option_links')
    c.eval(6)
    c.count('directories')


def check_ls(c, save, base, dirs, s, r):
    for d in dirs:
        node = nodeof(save, d)
        path = base + (b'/' + d if d else b'')
        kids = node.kids
        rem = ['-r', '-:' + c.bup_dir] if r.random() < .4 else []
        kw = dict(repo=c.dir + '/client', env={'BUP_TEST_LEVEL': '1'}) if rem else {}
        vis = {k: n for k, n in kids.items() if not k.startswith(b'.')}
        for opts, names, fmt in (
                ([], vis, lambda k, e: k), (['-A'], kids, lambda k, e: k),
                (['-F'], vis, lambda k, e: k + clsof(e, True)), (['-A', '--file-type'], kids, lambda k, e: k + clsof(e, False)),
                (['-l', '-n'], vis, lambda k, e: lsline(e, k)), (['-A', '-l', '-n', '-F'], kids, lambda k, e: lsline(e, k, clsof(e, True)))):
            if r.random() < .5: continue
            o = c.bup('ls', *rem, *opts, path if '-l' not in opts or d else path.replace(b'latest', c.latest), **kw).out   # like ls, -l does not follow
            exp = b''.join(fmt(k, names[k].ent) + b'\n' for k in sorted(names))
            if o != exp:
                i = next((i for i, (a, b_) in enumerate(zip(o.split(b'\n'), exp.split(b'\n'))) if a != b_), -1)
                raise Violation('ls %s %s %r: line %d is %s, expected %s' % (rem, opts, path, i, q(o.split(b'\n')[i:i + 2]), q(exp.split(b'\n')[i:i + 2])))
            c.eval()
            c.count('ls_listings')
        # ftp
        if not re.search(rb'["\\\n]', path):
            o = c.bup('ftp', input=b'ls -A "%s"\ncd "%s"\nls -A\n' % (path, path)).out
            exp = b''.join(k + b'\n' for k in sorted(kids)) * 2
            if o != exp and d:
                raise Violation('ftp ls of %r: %s, expected %s' % (path, q(o), q(exp)))
            elif o != exp:
                raise Violation('ftp ls of %r: %s, expected %s' % (path, q(o), q(exp)))
            c.eval()


def check_resolve(c, v, vr, root, save, base, s, r):
    paths = list(s)
    links = [p for p, e in s.items() if e['type'] == stat.S_IFLNK]
    for i in range(c.check.pick(70, 300)):
        k = r.random()
        p = r.choice(links if links and k < .6 else paths)
        path = base + b'/' + p
        for _ in range(r.randint(0, 2)):
            path += r.choice([b'/..', b'/.', b'/', b'/a', b'/lnk%d' % r.randint(0, 9), b'/../..', b'//', b'/latest', b'/.tag', b'/.bupm',
                              b'/' + r.choice(paths).split(b'/')[-1]])
        parent = None
        follow = r.random() < .6
        meta = r.random() < .7
        if r.random() < .2:
            parent = base
            path = path[len(base) + 1:] or b'.'
        len_ = []
        try:
            par = resolve(root, parent) if parent else None
            exp = resolve(root, path, par, follow, len_)
        except Err as e:
            exp = e.n
        w = vr if i % 4 == 0 else v
        x = get(w, 'resolve', path=path, parent=s2(parent) if parent else None, follow=follow, meta=meta)
        c.eval()
        c.count('resolutions')
        if isinstance(exp, int):
            c.count('resolution_errors')
            if x.get('ioerror') != exp:
                raise Violation('resolve %r (parent %r, follow %s): expected errno %d, got %s' % (path, parent, follow, exp, q(x)))
            continue
        if 'ioerror' in x:
            raise Violation('resolve %r (parent %r, follow %s): expected %s, got errno %s' % (path, parent, follow, q([n for n, _ in exp]), x['ioerror']))
        got = [n.encode('latin-1') for n, _ in x['res']]
        if got != [n for n, _ in exp]:
            raise Violation('resolve %r (parent %r, follow %s): got %s, expected %s' % (path, parent, follow, q(got), q([n for n, _ in exp])))
        leaf, it = exp[-1][1], x['res'][-1][1]
        if (leaf is None) != (it is None):
            raise Violation('resolve %r: %s, expected %s' % (path, q(it), leaf and leaf.kind))
        if leaf is None:
            c.count('resolution_missing')
            continue
        if leaf.ent and (stat.S_ISDIR(it['mode'])) != (leaf.kind == D):
            raise Violation('resolve %r: a %o, expected a %s' % (path, it['mode'], leaf.kind))
        if meta and leaf.ent:
            cmp_item('resolve %r' % path, it, leaf.ent)
        c.sig('res', tuple(y.kind if y else None for _, y in exp), follow, path.count(b'..'), p in links)


if __name__ == '__main__':
    k = Check('P06', rule='One evaluation = one directory listing (vfs contents full/by name/without metadata, fuse, web, ls variants, ftp ls) or one path '
              'resolution compared with a model built from an lstat snapshot of what was saved (POSIX symlink and dot-dot rules, the virtual root, '
              'branches, saves and tags). Distinct: by tree structure and by resolution shape.',
              assumptions=['an absolute symlink resolves from the root of the virtual filesystem', 'a link whose target ends in a slash may resolve to a non-directory'])
    n = k.pick(20, 500)
    k.run_cases([('%s-%d' % (('wide', 'tree', 'tree')[i % 3 if i % 6 < 3 else 1], i), ('wide', 'tree', 'tree')[i % 3 if i % 6 < 3 else 1]) for i in range(n)], case)
    k.finish()

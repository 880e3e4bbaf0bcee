"""A long-lived object lookup process, driven over stdin/stdout (one JSON value per line)."""
import json, os, sys
from bup import git

d = os.fsencode(sys.argv[1])
out = os.fdopen(os.dup(1), 'w')
os.dup2(2, 1)
lst = None
for line in sys.stdin:
    req = json.loads(line)
    op = req['op']
    try:
        if op == 'open':
            if lst is not None: lst.close()
            lst = git.PackIdxList(d, ignore_midx=req.get('ignore_midx', False))
            res = None
        elif op == 'refresh':
            lst.refresh(skip_midx=req.get('skip_midx', False))
            res = None
        elif op == 'close_temps':
            lst.close_temps()
            if req.get('refresh', True): lst.refresh()
            res = None
        elif op == 'query':
            res = []
            for oid, src, ofs in req['q']:
                r = lst.exists(bytes.fromhex(oid), want_source=src, want_offset=ofs)
                if not r:
                    res.append(None)
                else:
                    p = getattr(r, 'pack', None)
                    res.append([p and os.fsdecode(p), getattr(r, 'offset', None)])
        elif op == 'iter':
            res = [bytes(x).hex() for x in lst]
        elif op == 'state':
            res = {'midx': sum(1 for p in lst.packs if type(p).__name__ == 'PackMidx'), 'packs': len(lst.packs),
                   'bloom': lst.bloom is not None, 'do_bloom': lst.do_bloom, 'len': len(lst)}
        elif op == 'quit':
            break
        print(json.dumps({'ok': res}), file=out, flush=True)
    except Exception as ex:
        import traceback
        print(json.dumps({'error': traceback.format_exc()[-900:]}), file=out, flush=True)
if lst is not None:
    lst.close()

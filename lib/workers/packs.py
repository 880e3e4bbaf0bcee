"""Drive the pack and index writers directly."""
import json, os, random, sys
from bup import git
from bup.git import LocalPackStore, PackWriter, PackIdxV2Writer

m = sys.argv[1]
if m == 'objects':
    j = json.load(sys.stdin)
    git.check_repo_or_die()
    w = PackWriter(store=LocalPackStore(), compression_level=j['level'], max_pack_objects=j['max_objects'])
    out = []
    for size, kind, seed in j['specs']:
        d = bytes(size) if kind == 'zero' else random.Random(seed).randbytes(size)
        out.append(w.new_blob(d).hex())
    w.close()
    print(json.dumps(out))
elif m == 'idx':
    w = PackIdxV2Writer()
    for oid, crc, ofs in json.load(sys.stdin):
        w.add(bytes.fromhex(oid), crc, ofs)
    w.write(os.fsencode(sys.argv[2]), b'\x11' * 20)

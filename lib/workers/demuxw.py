"""Drive DemuxConn over a pipe: one JSON request per line (data hex, chunk sizes, operations), one answer per line."""
import io, json, os, sys, threading, time
from bup.helpers import DemuxConn

def feeder(fd, data, chunks, delays):
    p = i = 0
    try:
        while p < len(data):
            n = chunks[i % len(chunks)]
            b = data[p:p + n]
            while b: b = b[os.write(fd, b):]
            p += n
            if delays and delays[i % len(delays)]: time.sleep(delays[i % len(delays)])
            i += 1
    except BrokenPipeError:
        pass
    os.close(fd)

real = sys.stderr
for line in sys.stdin:
    q = json.loads(line)
    data = bytes.fromhex(q['data'])
    rfd, wfd = os.pipe()
    t = threading.Thread(target=feeder, args=(wfd, data, q['chunks'], q['delays']))
    t.start()
    if q['full']: t.join()
    got, err, init = [], None, None
    sys.stderr = io.TextIOWrapper(io.BytesIO(), write_through=True)
    nul = open(os.devnull, 'wb')
    try:
        with DemuxConn(rfd, nul) as d:
            for op in q['ops']:
                if op[0] == 'read': x = d.read(op[1]).hex()
                elif op[0] == 'line': x = d.readline().hex()
                elif op[0] == 'has': x = bool(d.has_input())
                elif op[0] == 'rest':
                    x = b''
                    while 1:
                        b = d.read(op[1])
                        if not b: break
                        x += b
                    x = x.hex()
                got.append(x)
    except Exception as e:
        err = '%s: %s' % (type(e).__name__, e)
    sys.stderr.flush()
    e = sys.stderr.buffer.getvalue()
    sys.stderr = real
    os.close(rfd)
    t.join()
    nul.close()
    print(json.dumps({'got': got, 'err': err, 'stderr': e.hex()}), flush=True)

#!/usr/bin/python3.12 -SE
"""Pass bytes on in pieces of random size: as the program started in place of bup on the far end
(BV_REAL is the real one), or as a TCP relay (drip.py listen PORT)."""
import os, random, select, socket, subprocess, sys, time


def sizes(r):
    return r.choice([[1, 2, 3], [1, 7, 100, 1000], [1, 4096, 65536], [13, 511, 8192]])


def pump(pairs, r):
    """[(from, to, close)]"""
    sz = sizes(r)
    live = list(pairs)
    budget = 3000       # after this many small pieces, large ones
    while live:
        rd, _, _ = select.select([p[0] for p in live], [], [])
        for p in [p for p in live if p[0] in rd]:
            budget -= 1
            try: b = os.read(p[0], r.choice(sz) if budget > 0 else 1 << 18)
            except ConnectionError: b = b''
            if not b:
                live.remove(p)
                p[2]()
                continue
            if r.random() < .002: time.sleep(.003)
            try:
                while b: b = b[os.write(p[1], b):]
            except (BrokenPipeError, ConnectionError):
                live.remove(p)
                p[2]()


def relay(s, port, seed):
    t = socket.create_connection(('127.0.0.1', port))
    def shut(x):
        def f():
            try: x.shutdown(socket.SHUT_WR)
            except OSError: pass
        return f
    pump([(s.fileno(), t.fileno(), shut(t)), (t.fileno(), s.fileno(), shut(s))], random.Random(seed))


if __name__ == '__main__':
    seed = int(os.environ.get('BV_DRIP', '1'))
    if sys.argv[1] == 'listen':
        l = socket.socket()
        l.bind(('127.0.0.1', 0))
        l.listen(5)
        print(l.getsockname()[1], flush=True)
        import signal
        signal.signal(signal.SIGCHLD, signal.SIG_IGN)
        while 1:
            s, _ = l.accept()
            seed += 1
            if not os.fork():
                l.close()
                relay(s, int(sys.argv[2]), seed)
                os._exit(0)
            s.close()
    p = subprocess.Popen([os.environ['BV_REAL']] + sys.argv[1:], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    ours, theirs = p.stdin.fileno(), p.stdout.fileno()
    # the far end may exit before our input ends
    import threading
    def up():
        try: pump([(0, ours, p.stdin.close)], random.Random(seed))
        except Exception: pass
    threading.Thread(target=up, daemon=True).start()
    pump([(theirs, 1, lambda: None)], random.Random(seed + 1))
    rc = p.wait()
    os._exit(rc if rc >= 0 else 128 - rc)

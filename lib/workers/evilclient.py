#!/usr/bin/python3.12 -SE
"""Stands in for the far end of bup on (on--server): swallow the command, then send the bytes in
BV_EVIL to the server and record what it answers."""
import os, struct, sys, threading, time
assert sys.argv[1] == 'on--server', sys.argv
n = struct.unpack('!I', os.read(0, 4))[0]
got = b''
while len(got) < n: got += os.read(0, n - len(got))
os.write(2, b'BUPMUX')
out = open(os.environ['BV_EVIL_OUT'], 'wb')
last = [time.monotonic()]
def rd():
    while 1:
        b = os.read(0, 65536)
        if not b: break
        last[0] = time.monotonic()
        out.write(b)
        out.flush()
t = threading.Thread(target=rd, daemon=True)
t.start()
d = open(os.environ['BV_EVIL'], 'rb').read()
try:
    while d: d = d[os.write(1, d):]
except BrokenPipeError: pass
os.close(1)
# (bup on keeps our input open for as long as we live)
last[0] = time.monotonic()
while t.is_alive() and time.monotonic() - last[0] < 1: t.join(.05)
try: os.write(2, struct.pack('!IB', 0, 3))
except BrokenPipeError: pass
os._exit(0)

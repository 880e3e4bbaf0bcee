#!/usr/bin/python3 -SE
"""Run under bup mux: perform the steps of a JSON script."""
import json, os, random, signal, sys, time

def data(seed, n, kind):
    r = random.Random(seed)
    if kind == 'rand': return r.randbytes(n)
    if kind == 'nl': return (b'\n' * n)
    if kind == 'text': return b''.join(b'line %d of text\n' % i for i in range(n // 12 + 1))[:n]
    if kind == 'sync': return (b'BUPMUX' * (n // 6 + 1))[:n]
    if kind == 'end': return (b'\0\0\0\0\3' * (n // 5 + 1))[:n]
    if kind == 'hdr': return (b'\0\0\0\5\1hello\xff\xff\xff\xff\2' * (n // 15 + 1))[:n]

def main():
    for s in json.loads(open(sys.argv[1]).read()):
        op = s[0]
        if op == 'w':
            b = data(*s[2:])
            while b: b = b[os.write(s[1], b):]
        elif op == 'sleep': time.sleep(s[1])
        elif op == 'close': os.close(s[1])
        elif op == 'exit': os._exit(s[1])
        elif op == 'kill': signal.signal(signal.SIGPIPE, signal.SIG_DFL); os.kill(os.getpid(), s[1]); time.sleep(5)
        elif op == 'cat':
            while 1:
                b = os.read(0, 65536)
                if not b: break
                while b: b = b[os.write(s[1], b):]
        elif op == 'fork':          # a child that writes on after we have exited
            if os.fork() == 0:
                time.sleep(.1)
                os.write(s[1], data(*s[2:]))
                os._exit(0)

if __name__ == '__main__': main()

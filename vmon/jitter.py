"""Stops and continues the children of a process at random times.

  python -S jitter.py PID SEED MEAN_MS

Runs as a sibling of the observed workers (never of the pool itself), so that
it cannot hold any lock of the observed process while that one forks.
"""
import os
import random
import signal
import sys
import time


def children(pid):
    out = []
    try:
        for t in os.listdir(f'/proc/{pid}/task'):
            with open(f'/proc/{pid}/task/{t}/children') as f:
                out += [int(x) for x in f.read().split()]
    except OSError:
        pass
    return out


def main():
    pid, seed, ms = int(sys.argv[1]), int(sys.argv[2]), float(sys.argv[3])
    r = random.Random(seed)
    me = os.getpid()
    n = 0
    running = [True]
    signal.signal(signal.SIGTERM, lambda *a: running.__setitem__(0, False))
    while running[0] and os.getppid() == pid:
        kids = [c for c in children(pid) if c != me]
        sel = [c for c in kids if r.random() < .5]
        for c in sel:
            try:
                os.kill(c, signal.SIGSTOP)
                n += 1
            except OSError:
                pass
        time.sleep(r.random() * ms / 500)
        for c in sel:
            try:
                os.kill(c, signal.SIGCONT)
            except OSError:
                pass
        time.sleep(r.random() * ms / 500)
    print(n)


main()

"""Runs functions in threads under controlled or perturbed scheduling of the repository's code.

baton():  exactly one thread runs at a time; at lines of repository code the baton is handed to another thread by the
          case's own random source, so a schedule replays exactly. For code that takes no locks.
jitter(): threads run freely; at lines of repository code they are delayed at random, with a tiny switch interval.
Both return (results, signature): per thread ('ok', value) or ('error', exception), and a digest of the order in which the
threads crossed lines of repository code.
"""
import os
import sys
import threading
import time

from rv.core import digest
from rv.paths import REPO

TOOL = 3
PREFIX = REPO + os.sep


class _Hook(object):
    def __init__(self, on_line):
        mon = sys.monitoring

        def cb(code, line):
            if not code.co_filename.startswith(PREFIX):
                return mon.DISABLE
            on_line(code, line)

        self.cb = cb

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, 'rv-interleave')
        mon.register_callback(TOOL, mon.events.LINE, self.cb)
        mon.set_events(TOOL, mon.events.LINE)

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.free_tool_id(TOOL)


def _call(fn):
    try:
        return ('ok', fn())
    except Exception as e:
        return ('error', e)


def baton(rng, fns, p=0.2):
    n = len(fns)
    sems = [threading.Semaphore(0) for _ in range(n)]
    alive = list(range(n))
    who = {}
    trace = []
    results = [None] * n
    done = threading.Semaphore(0)

    def on_line(code, line):
        me = who.get(threading.get_ident())
        if me is None or rng.random() >= p:
            return
        others = [k for k in alive if k != me]
        if not others:
            return
        k = rng.choice(others)
        trace.append((me, line, k))
        sems[k].release()
        sems[me].acquire()

    def body(k):
        sems[k].acquire()
        who[threading.get_ident()] = k
        try:
            results[k] = _call(fns[k])
        finally:
            del who[threading.get_ident()]
            alive.remove(k)
            if alive:
                sems[rng.choice(alive)].release()
            else:
                done.release()

    ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(n)]
    with _Hook(on_line):
        for t in ts:
            t.start()
        sems[rng.randrange(n)].release()
        done.acquire()
        for t in ts:
            t.join()
    return results, digest(trace), len(trace)


def jitter(rng, fns, p=0.05, longest=0.002):
    import random
    n = len(fns)
    results = [None] * n
    trace = []
    local = threading.local()
    seeds = [rng.random() for _ in range(n)]
    gate = threading.Barrier(n)

    def on_line(code, line):
        r = getattr(local, 'rng', None)
        if r is None:
            return
        if r.random() < p:
            trace.append((local.me, line))
            time.sleep(r.random() * longest if r.random() < 0.3 else 0)

    def body(k):
        local.rng = random.Random(seeds[k])
        local.me = k
        gate.wait()
        results[k] = _call(fns[k])

    ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(n)]
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        with _Hook(on_line):
            for t in ts:
                t.start()
            for t in ts:
                t.join()
    finally:
        sys.setswitchinterval(old)
    return results, digest(trace), len(trace)

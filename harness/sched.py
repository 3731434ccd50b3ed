# -*- coding: utf-8 -*-
"""Controlled scheduler: real threads, one running at a time, switched at
source lines of the library

A schedule is a list of (thread, stop): run that thread until it is about to
execute its stop-th traced line (None: to its end).  A thread found waiting
(for a lock, if the library should have any) is left alone; the schedule goes
on with the next segment and collects it later.
"""
import os
import sys
import time
from java.util.concurrent import Callable

BLOCKED_MS = 4000
DEAD_S = 20


class Deadlock(Exception):
    pass


class Call(Callable):
    def __init__(self, fn):
        self.fn = fn

    def call(self):
        try:
            return ('ok', self.fn())
        except Exception, e:
            return ('exc', e)


def classes():
    """where run.py compiled StepTask to"""
    d = os.environ.get('VERIF_CLASSES')
    if d not in sys.path:
        sys.path.append(d)


def task(root, fn, record=False):
    classes()
    import StepTask
    return StepTask(root, Call(fn), record)


def run(root, fns, plan):
    """returns the outcomes, the lines executed and the number of blocked segments"""
    tasks = [task(root, f) for f in fns]
    blocked = 0
    late = []
    for k, stop in plan:
        t = tasks[k]
        if t.done or (stop is not None and t.n >= stop):
            continue
        if t in late:
            t.stop = -1 if stop is None else stop
        else:
            t.resume(-1 if stop is None else stop)
        if t.await(BLOCKED_MS):
            if t in late:
                late.remove(t)
        elif t not in late:
            late.append(t)
            blocked += 1
    for t in tasks:                                     # let everything end
        t.stop = -1
    end = time.time() + DEAD_S
    while [t for t in tasks if not t.done]:
        for t in tasks:
            if not t.done and (t.parked or not t.started):
                t.resume(-1)
            t.await(200)
        if time.time() > end:
            raise Deadlock('threads wait for each other, or one does not end')
    return [outcome(t) for t in tasks], sum([int(t.n) for t in tasks]), blocked


def outcome(t):
    if t.error is not None:
        return 'exc', t.error
    return t.result


def record(root, fn):
    t = task(root, fn, True)
    t.resume(-1)
    if not t.await(DEAD_S * 1000):
        raise Deadlock('does not end')
    return [(f, int(a), int(b)) for f, a, b in t.record]


def points(trace, which):
    """stops (1-based) of the first, second and last execution of each line"""
    seen = {}
    for i, x in enumerate(trace):
        seen.setdefault(x, []).append(i + 1)
    out = set()
    for v in seen.values():
        out.add(v[0])
        if which > 1:
            out.add(v[-1])
        if which > 2 and len(v) > 2:
            out.add(v[1])
            out.add(v[len(v) // 2])
    return sorted(out)

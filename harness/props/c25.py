# -*- coding: utf-8 -*-
"""Interleavings of threads that process one message each"""
import os
import engine
from java.lang import System
import isolate
import sched
from engine import Space, free, dev
from mcommon import cleanup
from props import c24
from props.c24 import library, alone, difference

ROOT = os.path.join(os.path.realpath(os.environ.get('VERIF_REPO', '/repo')), 'messaging') + os.sep
INFO = {}


def use(m, name):
    def fn():
        x = m.run(name)
        return x, m.show(x)
    return fn


def info(name):
    """traces of the first and a later execution, without other threads"""
    if name not in INFO:
        m = library()
        INFO[name] = tuple([sched.record(ROOT, use(m, name)) for i in range(3)])
    return INFO[name]


def functions(trace):
    return set([(x[0], x[1]) for x in trace])


PARTNERS = {}


def partners(name, names, n=None):
    """the fewest others that together enter every function ``name`` enters (greedy), the closest first"""
    if (name, n) not in PARTNERS:
        left = functions(info(name)[2])
        out = []
        rest = [x for x in names if x != name]
        while rest and (n is None or len(out) < n):
            best = max(rest, key=lambda x: (len(left & functions(info(x)[2])), -len(info(x)[2])))
            gain = left & functions(info(best)[2])
            if not gain:
                break
            out.append(best)
            rest.remove(best)
            left = left - gain
        PARTNERS[name, n] = out
    return PARTNERS[name, n]


def judge(ctx, m, names, tasks, what):
    for n, (st, v) in zip(names, tasks):
        if st != 'ok':
            ctx.fail('%s: %s raised %r' % (what, n, v))
        x, text = v
        if text != alone(n):
            ctx.fail('%s: %s gives %s' % (what, n, difference(text, alone(n))))
        after = m.show(x)
        if after != text:
            ctx.fail('%s: the result of %s changed: %s' % (what, n, difference(after, text)))


def where(trace, i):
    f, first, line = trace[i - 1]
    return '%s:%d' % (f[len(ROOT):], line)


def go(ctx, m, names, plan, what):
    ctx.started = System.currentTimeMillis()            # the time limit is for one schedule
    try:
        tasks, lines, blocked = sched.run(ROOT, [use(m, n) for n in names], plan)
    except sched.Deadlock, e:
        ctx.fail('%s: %s' % (what, e))
    ctx.op(lines)
    ctx.states += 1
    judge(ctx, m, names, tasks, what)
    return blocked


def warmed(names, used=True):
    """a copy of the library that has processed the messages before"""
    for n in names:
        alone(n), info(n)                               # these load copies of their own
    m = library()
    if used:
        for n in names:
            m.run(n)
    return m


def one(cfg, ctx):
    """A to a point, B from beginning to end, A to its end"""
    a, b = cfg['a'], cfg['b']
    if b not in (cfg['all'] or partners(a, cfg['names'])):
        return 'no function in common that other partners do not cover'
    trace = info(a)[2]
    if cfg['all'] and not functions(trace) & functions(info(b)[2]):
        return 'no function in common'
    m = warmed([a, b])
    stops = sched.points(trace, cfg['which'])[cfg['k']::cfg['of']]
    n = 0
    for i in stops:
        n += go(ctx, m, [a, b], [(0, i), (1, None), (0, None)], '%s before %s, then %s' % (a, where(trace, i), b))
    return 'held at every point' if not n else 'held; one thread waited for the other'


def same_calls(cfg, ctx):
    """A to a point, its twin from beginning to end, A to its end"""
    a, b = cfg['ab']
    trace = info(a)[2]
    m = warmed([a, b])
    for i in sched.points(trace, cfg['which'])[cfg['k']::cfg['of']]:
        go(ctx, m, [a, b], [(0, i), (1, None), (0, None)], '%s before %s, then %s' % (a, where(trace, i), b))
    return 'held at every point'


def two(cfg, ctx):
    """A to a point, B to a point, A to its end, B to its end"""
    a, b = cfg['a'], cfg['b']
    common = functions(info(a)[2]) & functions(info(b)[2])
    ta, tb = info(a)[2], info(b)[2]
    pa = [i for i in sched.points(ta, cfg['which']) if ta[i - 1][:2] in common][cfg['k']::cfg['of']]
    pb = [i for i in sched.points(tb, cfg['which']) if tb[i - 1][:2] in common]
    if not pb:
        return 'no function in common'
    m = warmed([a, b])
    for i in pa:
        for j in pb:
            go(ctx, m, [a, b], [(0, i), (1, j), (0, None), (1, None)],
               '%s before %s, %s before %s' % (a, where(ta, i), b, where(tb, j)))
    return 'held'


def three(cfg, ctx):
    """A to a point, B to a point, C, B, A"""
    a, b, c = cfg['abc']
    ta, tb = info(a)[2], info(b)[2]
    common = functions(ta) & functions(tb)
    m = warmed([a, b, c])
    pb = [i for i in sched.points(tb, 1) if tb[i - 1][:2] in common]
    for i in [i for i in sched.points(ta, 1) if ta[i - 1][:2] in common][cfg['k']::cfg['of']]:
        for j in pb[(i * 5) % cfg['step']::cfg['step']]:
            go(ctx, m, [a, b, c], [(0, i), (1, j), (2, None), (1, None), (0, None)],
               '%s before %s, %s before %s, %s' % (a, where(ta, i), b, where(tb, j), c))
    return 'held'


def lines_of(trace):
    d = {}
    for x in trace:
        d.setdefault((x[0], x[1]), []).append(x[2])
    return d


def first(cfg, ctx):
    """the very first uses: preempted wherever the first execution differs from later ones"""
    a, b = cfg['ab'] if 'ab' in cfg else (cfg['a'], cfg['b'])
    cold, again, later = info(a)
    x, y = lines_of(cold), lines_of(later)
    odd = set([f for f in x if x[f] != y.get(f)])
    if cfg['entry']:
        stops = [1]
    else:
        stops = [i for i in sched.points(cold, 2) if cold[i - 1][:2] in odd]
        if not stops:
            return 'the first execution is like any other'
    for i in stops:
        m = warmed([a, b], False)
        go(ctx, m, [a, b], [(0, i), (1, None), (0, None)], 'first use: %s before %s, then %s' % (a, where(cold, i), b))
    return 'held'


class Names(list):
    def __repr__(self):
        return '<%d actions>' % len(self)


CLOSE = [('submit_gsm', 'submit_absolute'), ('submit_absolute', 'submit_gsm'), ('submit_ucs2', 'submit_8bit'), ('submit_8bit', 'submit_ucs2'),
         ('deliver_gsm', 'deliver_alnum'), ('deliver_ucs2', 'deliver_8bit'), ('deliver_concat', 'deliver_ucs2'),
         ('encode_text', 'encode_changed'), ('decode_bare', 'decode_all'), ('decode_all', 'push'), ('alphabet', 'deliver_alnum'),
         ('deliver_report', 'deliver_gsm')]


def spaces(tier):
    q = tier != 'thorough'
    F = free
    names = Names([n for n in sorted(library().ACTIONS) if n not in c24.SWEEPS and not n.startswith('twin_')])
    twins = [tuple(p[::d]) for n, p in sorted(library().TWINS.items()) for d in (1, -1)]
    some = CLOSE[:6] if q else CLOSE
    out = [
        Space('first use', [F('a', names), F('b', names), F('entry', [0] if q else [0, 1])], first,
              note='threads that are the first users of the library'),
        Space('three threads', [F('abc', [('submit_gsm', 'submit_absolute', 'submit_8bit'), ('deliver_gsm', 'deliver_alnum', 'deliver_concat'),
                                          ('decode_bare', 'push', 'encode_text')]), F('k', range(8)), F('of', [8]), F('step', [12 if q else 2])], three),
    ]
    out.insert(0, Space('the same calls with other values', [F('ab', twins), F('k', range(8)), F('of', [8]), F('which', [2 if q else 5])],
                        same_calls, note='one preemption, at the first and last execution of every line (thorough: at five); every pair of twins'))
    out.insert(1, Space('first use, the same calls', [F('ab', twins), F('entry', [0, 1])], first))
    if q:
        out.insert(1, Space('one preemption', [F('a', names), F('b', names), F('k', range(4)), F('of', [4]), F('which', [2]), F('all', [None]),
                            F('names', [names])], one,
              note='at the first and last execution of every line of A; partners B enter every function of A that any other action enters'))
    else:
        out += [
            Space('two preemptions', [F('a', [p[0]]), F('b', [p[1]]), F('which', [1]), F('k', range(16)), F('of', [16])], two)
            for p in some]
        for s, p in zip(out[-len(some):], some):
            s.name += ' ' + '+'.join(p)
        out.append(Space('one preemption, all pairs', [F('a', names), F('b', names), F('k', range(2)), F('of', [2]), F('which', [2]),
                                                       F('all', [names])], one))
    return out

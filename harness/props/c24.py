# -*- coding: utf-8 -*-
"""Histories of messages, against a library that has processed nothing before"""
import os
import engine
import isolate
from engine import Space, free, dev
from mcommon import SCRATCH, cleanup
from java.lang import System

READY = []
ALONE = {}


def library():
    if not READY:
        isolate.prepare(os.environ.get('VERIF_REPO', '/repo'))
        READY.append(1)
    m = isolate.fresh('actions')
    m.SCRATCH = SCRATCH
    return m


def alone(name):
    if name not in ALONE:
        m = library()
        ALONE[name] = m.show(m.run(name))
    return ALONE[name]


def difference(a, b):
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    return '...%s... instead of ...%s...' % (a[max(0, n - 60):n + 160], b[max(0, n - 60):n + 160])


def history(names, ctx):
    """run the named actions on one copy of the library"""
    want = [alone(n) for n in names]
    m = library()
    kept = []
    for i, n in enumerate(names):
        ctx.started = System.currentTimeMillis()        # the time limit is for one use
        x = m.run(n)
        ctx.op()
        kept.append(x)
        got = m.show(x)
        if got != want[i]:
            ctx.fail('%s after %r gives %s' % (n, names[:i] if i < 4 else names[:3] + ['... %d' % i], difference(got, want[i])))
        if i < 4:
            ctx.state(tuple(names[:i + 1]))
    for i, x in enumerate(kept):
        got = m.show(x)
        if got != want[i]:
            ctx.fail('the result of %s (%d of %d) changed after %r: %s' % (
                n, i + 1, len(names), names[i + 1:] if len(names) < 6 else '%d others' % (len(names) - i - 1), difference(got, want[i])))
    return 'as alone'


def single(cfg, ctx):
    """twice, each on its own copy: the baseline is a function of the action"""
    a = alone(cfg['a'])
    m = library()
    x = m.run(cfg['a'])
    ctx.op(2)
    ctx.eq(m.show(x), a, '%s on a second fresh copy' % cfg['a'])
    ctx.eq(m.show(x), a, '%s seen a second time' % cfg['a'])
    return 'ok'


def rest(names, a, b):
    """the others, in an order that depends on the pair"""
    i, j = names.index(a), names.index(b)
    others = [n for n in names if n not in (a, b)]
    k = (i * 7 + j * 3) % len(others)
    others = others[k:] + others[:k]
    return others[::-1] if (i + j) % 2 else others


def pairs(cfg, ctx):
    h = [cfg['a'], cfg['b']]
    names = cfg['names']
    if (names.index(h[0]) * 7 + names.index(h[1])) % cfg['tail'] == 0:
        h += rest(cfg['names'], *h) + h
    return history(h, ctx)


def triples(cfg, ctx):
    return history([cfg['a'], cfg['b'], cfg['c']], ctx)


HEAVY = ['decode_and_encode', 'decode_more', 'decode_refused', 'deliver_variety', 'encode_addresses', 'encode_pages', 'encode_refused', 'smil_sources']
SWEEPS = ['every_decoder', 'every_encoder']


def sweep(cfg, ctx):
    return history([cfg['a'], cfg['b']] + ([cfg['c']] if cfg['c'] else []) + [cfg['b'], cfg['a']], ctx)


def repeated(cfg, ctx):
    return history([cfg['a']] * cfg['n'] + [n for n in cfg['names']], ctx)


class Names(list):
    def __repr__(self):
        return '<%d actions>' % len(self)


def spaces(tier):
    q = tier != 'thorough'
    F = free
    everything = Names(sorted([n for n in library().ACTIONS if not n.startswith('twin_')]))
    names = Names([n for n in everything if n not in SWEEPS])
    sweeps = Names(SWEEPS)
    out = [
        Space('alone', [F('a', everything)], single, note='each action on two fresh copies of the library'),
        Space('repeated', [F('a', names), F('n', [260] if q else [260, 1030]), F('names', [names])], repeated,
              note='one action many times, then every action'),
        Space('all encoders and decoders', [F('a', everything), F('b', sweeps), F('c', [None] + sweeps if q else [None] + everything)],
              sweep, note='whatever is used before and between: every decoder and encoder on a list of values'),
        Space('pairs', [F('a', names), F('b', names), F('tail', [3 if q else 1]), F('names', [names])], pairs,
              note='every ordered pair first; then (after every third pair in the quick tier) all other actions and the pair again'),
    ]
    if not q:
        light = Names([n for n in names if n not in HEAVY])
        out.append(Space('triples', [F('a', light), F('b', light), F('c', light)], triples,
                         note='every history of three actions (without those that take most time)'))
    return out

# -*- coding: utf-8 -*-
"""The preview iterator against a list with two cursors"""
import array
import itertools
from engine import Space, free, dev
from messaging.mms.iterator import PreviewIterator


class Counting(object):
    """an iterator that shows how far it was read; exhausted for good"""
    def __init__(self, data):
        self.data, self.n = list(data), 0

    def __iter__(self):
        return self

    def next(self):
        if self.n >= len(self.data):
            raise StopIteration
        self.n += 1
        return self.data[self.n - 1]


def gen(data):
    for x in data:
        yield x


def pairs(data):
    return [(i, x) for i, x in enumerate(data)]


KINDS = {'list': list, 'tuple': tuple, 'generator': gen, 'array': lambda d: array.array('B', d), 'iterator': lambda d: iter(d),
         'counting': Counting, 'nested': lambda d: PreviewIterator(d)}
VALUES = {'numbers': [7, 0, 3, 255, 128, 9, 1, 2], 'same': [0] * 8, 'odd': [None, False, 0, '', (), StopIteration, [], 5]}


class Model(object):
    def __init__(self, data):
        self.data, self.read, self.look = list(data), 0, 0

    def next(self):
        self.look = 0
        if self.read >= len(self.data):
            return 'stop'
        self.read += 1
        return ('value', self.data[self.read - 1])

    def preview(self):
        i = self.read + self.look
        if i >= len(self.data):
            return 'stop'
        self.look += 1
        return ('value', self.data[i])

    def reset(self):
        self.look = 0

    def state(self):
        return len(self.data) - self.read, self.look


def do(it, op):
    if op == 'r':
        return it.reset_preview()
    try:
        return ('value', it.next() if op == 'n' else it.preview())
    except StopIteration:
        return 'stop'


def step(ctx, it, m, op, done):
    got = do(it, op)
    ctx.op()
    want = {'n': m.next, 'p': m.preview, 'r': m.reset}[op]()
    if op != 'r' and got != want or op != 'r' and got != 'stop' and got[1] is not want[1]:
        ctx.fail('after %r: %s gives %r, expected %r' % (done, {'n': 'next', 'p': 'preview'}[op], got, want))
    ctx.state((m.state(), op))


def walk(cfg, ctx):
    data = VALUES[cfg['values']][:cfg['n']]
    for rest in cfg['rests']:
        ops = cfg['head'] + rest
        it = ctx.must('creating', PreviewIterator, KINDS[cfg['kind']](data))
        if iter(it) is not it:
            ctx.fail('iter() gives another object')
        m = Model(data)
        for i, op in enumerate(ops):
            step(ctx, it, m, op, ops[:i])
        left = []
        if cfg['drain'] == 'list':
            left = list(it)
        else:
            for x in it:
                left.append(x)
        if left != m.data[m.read:]:
            ctx.fail('after %r: left %r, expected %r' % (ops, left, m.data[m.read:]))
        for op in 'npnrpp':                             # and exhausted for good
            if op != 'r' and do(it, op) != 'stop':
                ctx.fail('after %r: more elements after the end' % (ops,))
    return 'ok'


def twins(cfg, ctx):
    """two iterators, used alternately"""
    data = [VALUES['numbers'][:cfg['n'][0]], [v + 1 for v in VALUES['numbers'][:cfg['n'][1]]]]
    for rest in cfg['rests']:
        ops = cfg['head'] + rest
        its = [PreviewIterator(list(d)) for d in data]
        ms = [Model(d) for d in data]
        for i, (k, op) in enumerate(ops):
            step(ctx, its[k], ms[k], op, ops[:i])
        for it, m in zip(its, ms):
            ctx.eq(list(it), m.data[m.read:], 'what is left of one of two iterators after %r' % (ops,))
    return 'ok'


class Hiccup(Exception):
    pass


class Faulty(object):
    """a source some of whose reads fail; a failed read consumes nothing"""
    def __init__(self, data, faults, exc):
        self.data, self.faults, self.exc = list(data), faults, exc
        self.reads = self.n = 0

    def __iter__(self):
        return self

    def next(self):
        self.reads += 1
        if self.reads - 1 in self.faults:
            raise self.exc
        if self.n >= len(self.data):
            raise StopIteration
        self.n += 1
        return self.data[self.n - 1]


class FaultyModel(object):
    """two cursors over what was read; reads on demand"""
    def __init__(self, src):
        self.src, self.got, self.read, self.look = src, [], 0, 0

    def at(self, i):
        if i == len(self.got):
            self.got.append(self.src.next())
        return self.got[i]

    def next(self):
        self.look = 0
        v = self.at(self.read)
        self.read += 1
        return v

    def preview(self):
        v = self.at(self.read + self.look)
        self.look += 1
        return v

    def reset(self):
        self.look = 0


def attempt(fn):
    try:
        return 'value', fn()
    except StopIteration:
        return 'stop', None
    except Hiccup, e:
        return 'failed', e


def faults(cfg, ctx):
    """what the source raises is passed on and loses nothing"""
    exc = StopIteration() if cfg['exc'] == 'stop' else Hiccup('x')
    data = VALUES['numbers'][:cfg['n']]
    for rest in cfg['rests']:
        ops = cfg['head'] + rest
        it = PreviewIterator(Faulty(data, cfg['faults'], exc))
        m = FaultyModel(Faulty(data, cfg['faults'], exc))
        for i, op in enumerate(ops + ['r', 'n', 'n', 'n', 'n', 'n']):
            got = attempt({'n': it.next, 'p': it.preview, 'r': it.reset_preview}[op])
            want = attempt({'n': m.next, 'p': m.preview, 'r': m.reset}[op])
            ctx.op()
            if got != want:
                ctx.fail('reads %r of the source fail; after %r: %s gives %r, expected %r' % (
                    sorted(cfg['faults']), ops[:i], {'n': 'next', 'p': 'preview', 'r': 'reset'}[op], got, want))
            ctx.state((m.read, m.look, len(m.got), m.src.reads, op))
    return 'ok'


class Block(list):
    def __repr__(self):
        return '<%d sequences>' % len(self)


def seqs(alphabet, n):
    return Block([list(t) for t in itertools.product(alphabet, repeat=n)])


def spaces(tier):
    q = tier != 'thorough'
    F = free
    depth = 11 if q else 14
    heads = [list(t) for t in itertools.product('npr', repeat=depth - 5)]
    two = [(k, op) for k in (0, 1) for op in 'npr']
    return [
        Space('sequences', [F('values', ['numbers']), F('kind', ['list']), F('n', range(6)), F('drain', ['list']),
                            F('head', heads), F('rests', [seqs('npr', 5)])], walk,
              note='all sequences of %d operations; every prefix is checked on the way' % depth),
        Space('kinds of iterables', [F('values', sorted(VALUES)), F('kind', sorted(KINDS)), F('n', range(5)),
                                     F('drain', ['list', 'for']), F('head', [list(t) for t in itertools.product('npr', repeat=2)]),
                                     F('rests', [seqs('npr', 5)])], walk,
              skip=lambda c: c['kind'] == 'array' and c['values'] == 'odd'),
        Space('two iterators', [F('n', [(0, 2), (2, 2), (3, 1)]), F('head', [list(t) for t in itertools.product(two, repeat=3 if q else 5)]),
                                F('rests', [seqs(two, 3)])], twins),
        Space('failing sources', [F('exc', ['stop', 'other']), F('n', range(4 if q else 5)),
                                  F('faults', [frozenset(t) for k in range(1, 3 if q else 4) for t in itertools.combinations(range(6), k)]),
                                  F('head', [list(t) for t in itertools.product('npr', repeat=2 if q else 3)]),
                                  F('rests', [seqs('npr', 5)])], faults,
              note='sources whose reads fail (or that have nothing more for the moment) at every pair (triple) of reads'),
    ]

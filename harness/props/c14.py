# -*- coding: utf-8 -*-
"""Attribute validation"""
from datetime import datetime, timedelta, date, time, tzinfo
import itertools
from engine import Space, free, dev
import common
import ref_sms
from messaging.sms import SmsSubmit
from messaging.utils import FixedOffset

CLASSES = ['+', '0', '7', '9', ' ', 'a', 'F', '-', '*', '.', '\n', '\x00', u'\u0661', u'\xb2']
GOOD = '+34616585119'


def valid(n):
    if n[:1] == '+':
        n = n[1:]
    if not 3 <= len(n) <= 20:
        return False
    for c in n:
        if not '0' <= c <= '9':
            return False
    return True


def msg():
    s = SmsSubmit(GOOD, u'hello')
    s.csca = '+34607003110'
    s.ref = 3
    return s


def base_attrs():
    return dict(number=GOOD, csca='+34607003110', text=u'hello', ref=3)


def out(s):
    return [(p.pdu, p.length, p.cnt, p.seq) for p in s.to_pdu()]


BASE = out(msg())


def try_number(ctx, s, attr, n, fresh=False):
    """returns whether it was accepted; s is as before afterwards"""
    before = getattr(s, attr)
    st, e = ctx.call(setattr, s, attr, n)
    if n == '' or valid(n):
        if st != 'ok':
            ctx.fail('%s=%r is refused: %r' % (attr, n, e))
        ctx.eq(getattr(s, attr), n, attr)
        if n or attr == 'csca':
            a = base_attrs()
            a[attr] = n or None
            common.check_submit(ctx, SmsSubmit, a, s)
        setattr(s, attr, before)
        return True
    if st == 'ok':
        ctx.fail('%s=%r is accepted' % (attr, n))
    if not isinstance(e, (ValueError, TypeError)):
        ctx.fail('%s=%r raised %r' % (attr, n, e))
    ctx.eq(getattr(s, attr), before, '%s after refusing %r' % (attr, n))
    if fresh:
        ctx.refuses('building a message for %r' % n, (ValueError, TypeError), SmsSubmit, n, u'x')
    return False


def strings(cfg, ctx):
    """all strings starting with the given classes, up to two more"""
    s = msg()
    head = ''.join([CLASSES[i] for i in cfg['head']])
    acc = rej = 0
    for l in range(0, cfg['more'] + 1):
        for t in itertools.product(CLASSES, repeat=l):
            n = head + ''.join(t)
            for attr in ('number', 'csca'):
                ctx.op()
                if try_number(ctx, s, attr, n, l == 0):
                    acc += 1
                else:
                    rej += 1
    ctx.eq(out(s), BASE, 'PDU after all assignments')
    return 'some accepted' if acc else 'all refused'


def lengths(cfg, ctx):
    s = msg()
    n = cfg['plus'] + ''.join(['0123456789'[(i * 7 + cfg['s']) % 10] for i in range(cfg['len'])])
    if cfg['pos'] is not None:
        if cfg['pos'] > len(n):
            return 'out of range'
        n = n[:cfg['pos']] + cfg['chr'] + n[cfg['pos'] + (not cfg['ins']):]
    if cfg['uni']:
        n = unicode(n)
    r = [try_number(ctx, s, a, n, a == 'number') for a in ('number', 'csca')]
    ctx.eq(out(s), BASE, 'PDU afterwards')
    return 'accepted' if r[0] else 'refused'


class Odd(object):
    pass


class LikeDate(object):
    """has what a datetime has, but is none"""
    year, month, day, hour, minute, second, tzinfo = 2012, 1, 1, 1, 1, 1, None
    days, seconds = 1, 0


OTHERS = [12345, 12345L, 123.5, ['1234'], ('123',), Odd(), LikeDate(), {'123': 1}, True, -1]


def klass(cfg, ctx):
    v = cfg['v']
    s = msg()
    if cfg['first'] is not None:
        s.klass = cfg['first']
    before, b = s.klass, out(s)
    st, e = ctx.call(setattr, s, 'klass', v)
    if isinstance(v, int) and 0 <= v <= 3:
        if st != 'ok':
            ctx.fail('class %r refused: %r' % (v, e))
        ctx.eq(s.klass, v, 'klass')
        a = base_attrs()
        a['klass'] = v
        common.check_submit(ctx, SmsSubmit, a, s)
        return 'accepted'
    if st == 'ok':
        ctx.fail('class %r accepted' % (v,))
    if isinstance(v, int):
        if not isinstance(e, ValueError):
            ctx.fail('class %r raised %r' % (v, e))
    elif not isinstance(e, TypeError):
        ctx.fail('class %r raised %r' % (v, e))
    ctx.eq(s.klass, before, 'klass after refusing %r' % (v,))
    ctx.eq(out(s), b, 'PDU after refusing %r' % (v,))
    return 'refused'


def validity(cfg, ctx):
    v = cfg['v']
    s = msg()
    if cfg['first'] is not None:
        s.validity = cfg['first']
    before, b = s.validity, out(s)
    st, e = ctx.call(setattr, s, 'validity', v)
    if v is None or isinstance(v, (timedelta, datetime)):
        if st != 'ok':
            ctx.fail('validity %r refused: %r' % (v, e))
        ctx.eq(s.validity, v, 'validity')
        a = base_attrs()
        a['validity'] = v
        common.check_submit(ctx, SmsSubmit, a, s)
        return 'accepted'
    if st == 'ok':
        ctx.fail('validity %r accepted' % (v,))
    if not isinstance(e, (ValueError, TypeError)):
        ctx.fail('validity %r raised %r' % (v, e))
    ctx.eq(s.validity, before, 'validity after refusing %r' % (v,))
    ctx.eq(out(s), b, 'PDU after refusing %r' % (v,))
    return 'refused'


def not_strings(cfg, ctx):
    s = msg()
    ctx.refuses('%s=%r' % (cfg['attr'], cfg['v']), (ValueError, TypeError), setattr, s, cfg['attr'], cfg['v'])
    ctx.eq(out(s), BASE, 'PDU afterwards')
    ctx.eq((s.number, s.csca), (GOOD, '+34607003110'), 'numbers afterwards')
    return 'refused'


SETS = [
    ('number', '123', 1), ('number', '+12345678901234567890', 1), ('number', '12', 0), ('number', '+12', 0),
    ('number', '123456789012345678901', 0), ('number', '++123', 0), ('number', '12a4', 0), ('number', 99, 0),
    ('csca', '+999', 1), ('csca', '98765432109876543210', 1), ('csca', None, 1), ('csca', '1 23', 0), ('csca', '+', 0),
    ('csca', '12\n', 0), ('csca', '+123456789012345678901', 0),
    ('klass', 0, 1), ('klass', 3, 1), ('klass', -1, 0), ('klass', 4, 0), ('klass', 1.0, 0), ('klass', '2', 0),
    ('klass', None, 0),
    ('validity', None, 1), ('validity', timedelta(days=1), 1), ('validity', datetime(2012, 2, 3, 4, 5, 6), 1),
    ('validity', 0, 0), ('validity', date(2012, 2, 3), 0), ('validity', '1 day', 0),
    ('encode', None, 1),
]


def history(cfg, ctx):
    a = base_attrs()
    a.update(klass=None, validity=None)
    s = msg()
    keys = ('number', 'csca', 'klass', 'validity')
    for i in range(len(cfg)):
        k, v, ok = cfg['op%d' % i]
        ctx.op()
        if k == 'encode':
            common.check_submit(ctx, SmsSubmit, a, s)
        elif ok:
            ctx.must('%s=%r' % (k, v), setattr, s, k, v)
            a[k] = v
        else:
            ctx.refuses('%s=%r' % (k, v), (ValueError, TypeError), setattr, s, k, v)
        for x in keys:
            ctx.eq(getattr(s, x), a[x], '%s after %s=%r' % (x, k, v))
        ctx.state(tuple(repr(a[x]) for x in keys))
    common.check_submit(ctx, SmsSubmit, a, s)
    return 'refusals %d' % len([1 for i in range(len(cfg)) if not cfg['op%d' % i][2]])


def spaces(tier):
    q = tier != 'thorough'
    n = len(CLASSES)
    heads = [()] + [(i,) for i in range(n)]
    deep = [(i, j, k) for i in range(n) for j in range(n) for k in range(n)]
    first_k = free('first', [None, 0, 2, 3])
    ints = range(-3, 301) + [2 ** 31 - 1, -2 ** 31, 65536, 256, 257, 258, 259]
    vals = [None, timedelta(0), timedelta(days=3), timedelta(minutes=5), timedelta(weeks=63), timedelta(days=500),
            timedelta(-1), datetime(2012, 12, 31, 23, 59, 59), datetime(2000, 1, 1, 0, 0, 0, 0, FixedOffset(-60, 'x')),
            date(2012, 1, 1), time(1, 2, 3), '2012-01-01', u'', '', (1, 2), [], FixedOffset(60, 'x'), 0, False] + OTHERS
    return [
        Space('short strings', [free('head', heads), free('more', [1])], strings),
        Space('strings of three characters and more', [free('head', deep), free('more', [1 if q else 2])], strings),
        Space('lengths', [free('plus', ['', '+']), free('len', range(0, 26)), free('s', [0, 3]), free('pos', [None]),
                          free('chr', ['']), free('ins', [True]), free('uni', [False, True])], lengths),
        Space('one wrong character', [free('plus', ['', '+']), free('len', [2, 3, 4, 11, 19, 20, 21] if q else
                                                                    range(1, 24)), free('s', [1]),
                                      free('pos', range(0, 23)), free('chr', CLASSES + ['/', ':', u'\uff11']),
                                      free('ins', [False, True]), free('uni', [False, True])], lengths),
        Space('numbers of other types', [free('attr', ['number', 'csca']), free('v', OTHERS)], not_strings),
        Space('class', [first_k, free('v', ints + [None, '1', u'1', 1.0, 0.0, [1], (1,), {}, Odd(), '', timedelta(1)])],
              klass),
        Space('validity', [free('first', [None, timedelta(days=3), datetime(2010, 1, 1)]), free('v', vals)], validity),
        Space('sequences', [free('op%d' % i, SETS) for i in range(3 if q else 4)], history),
    ]

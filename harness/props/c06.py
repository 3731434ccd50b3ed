# -*- coding: utf-8 -*-
"""Relative validity"""
from bisect import bisect_right
from datetime import timedelta
from engine import Space, free, dev
import ref_sms
from messaging.sms import SmsSubmit
from messaging.utils import timedelta_to_relative_validity as conv

SEC = [ref_sms.relative_minutes(v) * 60 for v in range(256)]
assert SEC == sorted(SEC)
LO, HI = 300, 63 * 7 * 86400


def want(total_us):
    """total microseconds -> octet or None"""
    if total_us < LO * 1000000 or total_us > HI * 1000000:
        return None
    return bisect_right(SEC, total_us // 1000000) - 1


def direct(ctx, t, us):
    w = want(us)
    if w is None:
        ctx.refuses('duration %r' % t, ValueError, conv, t)
        return 'refused'
    got = ctx.must('conversion of %r' % t, conv, t)
    ctx.eq(got, w, 'octet for %r' % t)
    return 'unit %s' % ('5min' if w < 144 else '30min' if w < 168 else 'day' if w < 197 else 'week')


def block(cfg, ctx):
    r = None
    for s in range(cfg['from'], cfg['to'], cfg['step']):
        r = direct(ctx, timedelta(seconds=s), s * 1000000)
        ctx.traces += 1
        ctx.states += 1
    return r


def boundary(cfg, ctx):
    us = cfg['at'] * 1000000 + cfg['delta']
    t = timedelta(microseconds=us)
    r = direct(ctx, t, us)
    w = want(us)
    s = ctx.must('building', SmsSubmit, '+34616585119', cfg['text'])
    s.ref = 1
    s.validity = t
    if w is None:
        ctx.refuses('to_pdu with validity %r' % t, ValueError, s.to_pdu)
        return r
    for p in ctx.must('to_pdu', s.to_pdu):
        try:
            q = ref_sms.parse_submit(p.pdu)
        except ref_sms.Bad, e:
            ctx.fail('malformed PDU: %s' % e)
        ctx.eq(q['vp'], ('rel', w), 'validity in the PDU for %r' % t)
    return r


def spaces(tier):
    q = tier != 'thorough'
    day = 86400
    blocks = [(a, a + 500, 1) for a in range(-500, 25 * 3600 + 500, 500)]
    mins = [(a * 60, a * 60 + 60 * 720, 60) for a in range(0, 63 * 7 * 1440 + 1440, 720)]
    if not q:
        # every second of the whole range
        mins = [(a, a + 7200, 1) for a in range(0, HI + 7200, 7200)]
    out = []
    for name, bl in (('every second to 25 hours', blocks),
                     ('every minute to 63 weeks' if q else 'every second to 63 weeks', mins)):
        out.append(Space(name, [free('b', bl)],
                         lambda c, ctx: block(dict(zip(('from', 'to', 'step'), c['b'])), ctx)))
    at = sorted(set(SEC + [0, 60, LO, HI, HI + day, HI * 2, -300, -day, 12 * 3600, 24 * 3600,
                           12 * 3600 + 1200, 30 * day + 3600, 35 * day, 400 * 365 * day]))
    out.append(Space('table boundaries through to_pdu',
                     [free('at', at),
                      free('delta', [0, -1, 1, -1000000, 1000000, -999999, 999999, 60000000, -60000000]),
                      free('text', [u'hola', u'x' * 200])], boundary))
    return out

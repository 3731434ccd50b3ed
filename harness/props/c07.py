# -*- coding: utf-8 -*-
"""Absolute validity, FixedOffset and delivery timestamps"""
from datetime import datetime, timedelta
from engine import Space, free, dev
import ref_sms
from messaging.sms import SmsSubmit, SmsDeliver
from messaging.utils import FixedOffset, datetime_to_absolute_validity


def encode(ctx, d, q):
    got = ctx.must('datetime_to_absolute_validity', datetime_to_absolute_validity, d)
    ctx.eq(list(got), ref_sms.scts(d.year, d.month, d.day, d.hour, d.minute, d.second, q),
           'timestamp octets of %r' % d)


def through_pdu(ctx, d, q):
    s = SmsSubmit('+34616585119', u'hola')
    s.ref = 1
    s.validity = d
    for p in ctx.must('to_pdu', s.to_pdu):
        try:
            r = ref_sms.parse_submit(p.pdu)
        except ref_sms.Bad, e:
            ctx.fail('malformed PDU: %s' % e)
        ctx.eq(r['vp'], ('abs', d.year % 100, d.month, d.day, d.hour, d.minute, d.second, q),
               'validity in the PDU for %r' % d)


def deliver(ctx, y, mo, d, h, mi, s, q):
    o = ref_sms.build_deliver(ref_sms.address('+34616585119'), 0, [0x41],
                              ts=ref_sms.scts(y, mo, d, h, mi, s, q))
    m = ctx.must('decoding', SmsDeliver, ref_sms.hexl(o))
    want = datetime(y, mo, d, h, mi, s) - timedelta(minutes=15 * q)
    ctx.eq(m.date, want, 'UTC date of %s' % ((y, mo, d, h, mi, s, q),))
    ctx.eq(m.data['date'], want, 'data[date]')


def zoned(cfg, ctx):
    q = cfg['q']
    args = [cfg[k] for k in ('y', 'mo', 'd', 'h', 'mi', 's')]
    try:
        naive = datetime(*args)
    except ValueError:
        return 'no such date'
    if q is None:
        encode(ctx, naive, 0)
        through_pdu(ctx, naive, 0)
        return 'naive'
    aware = naive.replace(tzinfo=FixedOffset(q * 15, 'zone'))
    encode(ctx, aware, q)
    through_pdu(ctx, aware, q)
    if args[0] < 2069:
        deliver(ctx, *(args + [q]))
    return 'zoned'


def day(cfg, ctx):
    base = datetime(2000, 1, 1) + timedelta(days=cfg['n'], hours=cfg['h'], minutes=17, seconds=59)
    for q in cfg['qs']:
        encode(ctx, base.replace(tzinfo=FixedOffset(q * 15, 'z')), q)
        if base.year < 2069:
            deliver(ctx, base.year, base.month, base.day, base.hour, base.minute, base.second, q)
        ctx.traces += 1
    encode(ctx, base, 0)
    return 'ok'


def offset(cfg, ctx):
    s = '%s%02d%02d' % (cfg['sign'], cfg['h'], cfg['m'])
    tz = ctx.must('from_timezone(%r)' % s, FixedOffset.from_timezone, s, 'name')
    want = timedelta(minutes=cfg['h'] * 60 + cfg['m'])
    if cfg['sign'] == '-':
        want = -want
    check_tz(ctx, tz, want, s)
    t2 = FixedOffset(cfg['h'] * 60 + cfg['m'] if cfg['sign'] == '+' else -cfg['h'] * 60 - cfg['m'], 'name')
    check_tz(ctx, t2, want, 'minutes')
    check_tz(ctx, FixedOffset(want, 'name'), want, 'timedelta')
    d = datetime(2012, 2, 29, 0, 10, 11)
    utc = (d.replace(tzinfo=tz)).utctimetuple()
    ctx.eq(tuple(utc)[:6], tuple((d - want).timetuple())[:6], 'UTC time with zone %s' % s)
    return 'ok'


def check_tz(ctx, tz, want, s):
    ctx.eq(tz.utcoffset(None), want, 'utcoffset of %s' % s)
    ctx.eq(tz.utcoffset(datetime(2012, 7, 1)), want, 'utcoffset of %s' % s)
    ctx.eq(tz.dst(None), timedelta(0), 'dst of %s' % s)
    ctx.eq(tz.tzname(None), 'name', 'name of %s' % s)


def no_zone(cfg, ctx):
    tz = ctx.must('from_timezone', FixedOffset.from_timezone, cfg['s'], 'name')
    check_tz(ctx, tz, timedelta(0), repr(cfg['s']))
    return 'ok'


def spaces(tier):
    q = tier != 'thorough'
    Q = [0] + [x for x in range(-79, 80) if x]
    few = [0, 1, -1, 22, -22, 79, -79, 12, -12]
    fields = [dev('q', Q + [None]), dev('y', [2012] + [y for y in range(2000, 2100) if y != 2012]),
              dev('mo', [2, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]), dev('d', [28] + [x for x in range(1, 32) if x != 28]),
              dev('h', [13] + [x for x in range(24) if x != 13]), dev('mi', [37] + [x for x in range(60) if x != 37]),
              dev('s', [0] + range(1, 60))]
    return [
        Space('zone strings', [free('sign', ['+', '-']), free('h', range(24)), free('m', range(60))], offset),
        Space('no zone', [free('s', ['', None, '+0000', '-0000'])], no_zone),
        Space('fields', fields, zoned, k=1 if q else 2),
        Space('zone and hour', [free('q', Q), free('y', [2000, 2008]), free('mo', [1, 2, 12]), free('d', [1, 29, 31]),
                                free('h', range(24)), free('mi', [0, 59]), free('s', [7])], zoned,
              skip=lambda c: (q and (c['h'] in range(5, 19) and c['h'] % 5)) or (q and c['mi'] and c['h'] % 2)),
        Space('every day', [free('n', range(0, 36525)), free('h', [0] if q else [0, 23]),
                            free('qs', [(0, -20)] if q else [(0, 20), (-36, 48)])], day,
              skip=lambda c: q and c['n'] % 5 and not (57 <= c['n'] % 365 <= 62)),
    ]

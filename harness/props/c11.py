# -*- coding: utf-8 -*-
"""Status reports"""
from datetime import datetime
from engine import Space, free, dev
from dcommon import Addr, digits
import ref_sms
from messaging.sms import SmsDeliver

LABEL = {0x00: 'SR-OK', 0x30: 'SR-STORED'}


def fmt_ts(t):
    return '%02d/%02d/%02d %02d:%02d:%02d' % (t[0] % 100, t[1], t[2], t[3], t[4], t[5])


def dt(t):
    y = t[0] % 100
    return datetime(2000 + y if y < 69 else 1900 + y, *t[1:6])


def ts_octets(t):
    if isinstance(t, list):
        return t
    return ref_sms.scts(*t)


def case(cfg, ctx):
    a, scts, dis, status = cfg['addr'], cfg['scts'], cfg['dt'], cfg['status']
    tail = cfg['tail'] if status is not None else ()
    o = ref_sms.build_status(cfg['mr'], a.octets(), ts_octets(scts), ts_octets(dis), status,
                             csca=cfg['csca'], fo=cfg['fo'], tail=tail)
    h = ref_sms.hexl(o)
    if cfg['lower']:
        h = h.lower()
    m = ctx.must('decoding %s' % h, SmsDeliver, h)
    bad_s, bad_d = isinstance(scts, list), isinstance(dis, list)
    want_s = None if bad_s else dt(scts)
    want_d = None if bad_d else dt(dis)
    ctx.eq(m.sr, dict(recipient=a.expected(), scts=want_s, dt=want_d, status=status), 'sr of %s' % h)
    ctx.eq(m.data['sr'], m.sr, 'data[sr]')
    ctx.eq(m.number, LABEL.get(status, 'SR-UNKNOWN'), 'label of %s' % h)
    ctx.eq(m.csca, cfg['csca'], 'service centre of %s' % h)
    ctx.eq(m.date, want_s, 'date of %s' % h)
    ctx.eq(m.type, 0x03, 'type')
    for k in ('text', 'number', 'csca', 'date', 'type', 'fmt', 'pid', 'dcs'):
        ctx.eq(m.data[k], getattr(m, k), 'data[%s] of %s' % (k, h))
    c = m.udh.concat
    ctx.eq((c.ref, m.data['ref']), (cfg['mr'], cfg['mr']), 'message reference of %s' % h)
    parts = m.text.split('|')
    ctx.eq(len(parts), 3, 'fields of the text %r' % m.text)
    ctx.eq(parts[0], a.expected(), 'recipient in the text of %s' % h)
    # textual timestamps are as received; an unreadable one leaves no date
    ctx.eq(parts[1], '' if bad_s else fmt_ts(scts), 'time in the text of %s' % h)
    delivered = status in (0x00, None)
    if not delivered:
        ctx.eq(parts[2], '', 'discharge time of an undelivered message, %s' % h)
    else:
        ctx.eq(parts[2], '' if bad_d else fmt_ts(dis), 'discharge time in the text of %s' % h)
    return m.number


def spaces(tier):
    q = tier != 'thorough'
    addrs = [Addr('num', '+34626754920')]
    for n in range(0, 21):
        addrs += [Addr('num', '+' + digits(n)), Addr('num', digits(n, 8))]
    addrs += [Addr('num', v, t) for v in ('*100#', '#', 'a', 'bc', '1a2b3c', '#*#*#*#*', 'c' * 20) for t in (None, 1)]
    for t in (0, 1, 2, 3, 4, 6, 7):
        addrs += [Addr('num', digits(5, 4), t), Addr('num', digits(10, 4), t)]
    good = [(2010, 2, 28, 13, 48, 58, 4)]
    times = good + [(2000 + y, 2, 28, 1, 2, 3, 0) for y in range(69)] + \
        [(2011, mo, 1, 0, 0, 0, 0) for mo in range(1, 13)] + [(2012, 1, d, 9, 9, 9, 8) for d in range(1, 32)] + \
        [(2012, 2, 29, h, 30, 30, -8) for h in range(24)] + [(2012, 3, 11, 2, mi, 5, 0) for mi in range(60)] + \
        [(2012, 10, 28, 1, 30, s, 79) for s in range(60)]
    bads = [[0] * 7, [0xff] * 7, ref_sms.scts(2010, 2, 1, 1, 1, 1)[:1] + [0x31] + [0x10] * 5,
            [0x01, 0x20, 0x03, 0x52, 0x10, 0x10, 0], [0x01, 0x20, 0x03, 0x10, 0x06, 0x10, 0],
            [0xa1, 0x20, 0x03, 0x10, 0x06, 0x10, 0]]
    stats = range(256) + [None]
    dims = [dev('addr', addrs), dev('mr', [0x12] + range(256)), dev('scts', times + bads), dev('dt', times + bads),
            dev('status', stats), dev('csca', [None, '+34607003110', '123', '+1234', '4' * 20]),
            dev('fo', [0x06, 0x02, 0x22, 0x26]), dev('lower', [False, True]), dev('tail', [(), (0x00,), (0x03, 0x41, 0x00)])]
    s2 = [dims[0]] + [dims[1]] + [dev('scts', times[:1] + times[1::(11 if q else 3)] + bads),
                                  dev('dt', times[:1] + times[1::(11 if q else 3)] + bads)] + dims[4:]
    return [
        Space('every field value', dims, case, k=1),
        Space('all options, deviation bounded', s2, case, k=2),
        Space('status, times and reference', [free('addr', [addrs[0], addrs[3], addrs[6]]), free('mr', [0, 0xff]),
                                              free('scts', good + bads), free('dt', good + bads[:3]),
                                              free('status', [0, 1, 2, 0x20, 0x2f, 0x30, 0x31, 0x40, 0x46, 0x63, 0x7f, 0xff, None]),
                                              free('csca', [None, '+34607003110']), free('fo', [0x06]), free('lower', [False, True]),
                                              free('tail', [()])], case),
    ]

# -*- coding: utf-8 -*-
"""User data header elements"""
from array import array
from engine import Space, free, dev
from dcommon import Addr, Text, fits, check_deliver
import ref_sms
from props.c08 import BASE
from messaging.sms import SmsDeliver
from messaging.sms.udh import UserDataHeader


def model(ies):
    concat = ports = None
    headers = {}
    for i, d in ies:
        headers[i] = list(d)
        if i == 0:
            concat = (d[0], d[1], d[2], True)
        elif i == 8:
            concat = (d[0] << 8 | d[1], d[2], d[3], False)
        elif i == 4:
            ports = (d[0], d[1], True)
        elif i == 5:
            ports = (d[0] << 8 | d[1], d[2] << 8 | d[3], False)
    return concat, ports, headers


def view(u):
    c = u.concat and (u.concat.ref, u.concat.cnt, u.concat.seq, u.concat.eight_bits)
    p = u.ports and (u.ports.dest_port, u.ports.orig_port, u.ports.eight_bits)
    return c, p, dict((k, list(v)) for k, v in u.headers.items())


def check(ies, ctx, pdu=True, fmt=0, n=5):
    octs = []
    for i, d in ies:
        octs += [i, len(d)] + list(d)
    want = model(ies)
    u = ctx.must('from_bytes', UserDataHeader.from_bytes, array('B', octs))
    ctx.eq(view(u), want, 'header %r' % octs)
    ctx.state(repr(octs))
    t = Text(fmt, 'pat', n)
    if pdu and fits(t, octs):
        m = check_deliver(ctx, SmsDeliver, BASE['addr'], t, None, 0, fmt, octs, BASE['ts'])
        ctx.eq(view(m.udh), want, 'header %r in a PDU' % octs)
        d = m.data
        if want[0]:
            ctx.eq((d.get('ref'), d.get('cnt'), d.get('seq')), want[0][:3], 'data dictionary')
        else:
            ctx.eq([k for k in ('ref', 'cnt', 'seq') if k in d], [], 'concatenation keys')
        repr(m.udh)
    return '%d elements' % len(ies)


def seqs(cfg, ctx):
    ies = [cfg[k] for k in sorted(cfg) if k.startswith('e') and cfg[k] is not None]
    return check(ies, ctx, fmt=cfg.get('fmt', 0), n=cfg.get('n', 5))


def gap(cfg):
    seen = False
    for k in sorted(cfg):
        if k.startswith('e'):
            if cfg[k] is None:
                seen = True
            elif seen:
                return True
    return False


def value(cfg, ctx):
    d = [0x11, 0x22, 0x33, 0x44][:cfg['len']]
    d[cfg['i']] = cfg['v']
    d[cfg['j']] = cfg['w']
    return check([(0x24, [1])] * cfg['pre'] + [(cfg['id'], d)] + [(0x25, [2, 3])] * cfg['post'], ctx,
                 pdu=cfg['pdu'])


def ids(cfg, ctx):
    i = cfg['id']
    ln = {0: 3, 8: 4, 4: 2, 5: 4}.get(i, cfg['len'])
    d = [(k * 3 + 1) & 255 for k in range(ln)]
    ies = [(i, d)]
    if cfg['before'] is not None:
        ies.insert(0, cfg['before'])
    if cfg['after'] is not None:
        ies.append(cfg['after'])
    return check(ies, ctx)


POOL = [(0, [0x12, 3, 1]), (0, [0xff, 255, 254]), (8, [1, 2, 4, 3]), (8, [0xab, 0xcd, 2, 2]), (4, [240, 250]),
        (5, [0x0b, 0x84, 0x23, 0xf0]), (5, [0xff, 0xff, 0, 0]), (0x70, []), (0x71, [0]), (0x71, [0, 3, 9, 9, 9]),
        (1, [0x80, 5]), (0x22, [0x08, 0x04, 1, 2, 3, 4, 5, 6, 7])]


def spaces(tier):
    q = tier != 'thorough'
    d = 3 if q else 4
    out = [
        Space('element sequences', [free('e%d' % i, [None] + POOL) for i in range(d)] + [free('fmt', [0, 4, 8])],
              seqs, skip=gap),
        Space('field values', [free('id', [0, 8, 4, 5]), free('len', [3, 4, 2]), free('i', range(4)), free('v', range(256)),
                               free('j', range(4)), free('w', [0, 1, 0x80, 0xff]), free('pre', [0, 1]), free('post', [0, 1]),
                               free('pdu', [True])], value,
              skip=lambda c: c['len'] != {0: 3, 8: 4, 4: 2, 5: 4}[c['id']] or c['i'] >= c['len'] or
              c['j'] >= c['len'] or (q and c['i'] == c['j'] and c['w']) or (q and c['pre'] != c['post'])),
        Space('unknown elements of any identifier and length',
              [free('id', range(256)), free('len', range(0, 12) if q else range(0, 60)),
               free('before', [None, POOL[0], POOL[5]]), free('after', [None, POOL[2], POOL[4]])], ids,
              skip=lambda c: c['id'] in (0, 4, 5, 8) and c['len']),
        Space('sequences of five and six small elements',
              [free('e%d' % i, [None, POOL[0], POOL[2], POOL[4], POOL[7], POOL[5]]) for i in range(5 if q else 6)],
              seqs, skip=gap),
    ]
    return out

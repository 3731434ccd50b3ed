# -*- coding: utf-8 -*-
"""SUBMIT -> conforming relay -> DELIVER -> reassembly"""
import itertools
from datetime import datetime
from engine import Space, free, dev
import common
import ref_gsm
import ref_sms
from props.c04 import filler, FMT, EURO
from messaging.sms import SmsSubmit, SmsDeliver

TS = ref_sms.scts(2011, 12, 31, 22, 33, 44, 0)
DATE = datetime(2011, 12, 31, 22, 33, 44)


def send(ctx, a):
    sms = ctx.must('building', common.make, SmsSubmit, a)
    return ctx.must('to_pdu', sms.to_pdu)


def relay(ctx, pdu, lower=False):
    try:
        p = ref_sms.parse_submit(pdu.pdu)
    except ref_sms.Bad, e:
        ctx.fail('the service centre rejects the PDU: %s' % e)
    h = ref_sms.hexl(ref_sms.relay(p, TS))
    return h.lower() if lower else h


def receive(ctx, hexpdu, a, fmt, klass):
    d = ctx.must('decoding the delivery', SmsDeliver, hexpdu)
    ctx.eq(d.number, a['number'], 'sender')
    ctx.eq(d.pid, a.get('pid') or 0, 'protocol id')
    ctx.eq(d.fmt, fmt, 'alphabet')
    ctx.eq(d.csca, '+34607003110', 'service centre')
    ctx.eq(d.date, DATE, 'date')
    if klass is not None:
        ctx.eq(d.dcs & 0x13, 0x10 | klass, 'class bits')
    ctx.eq(d.data['text'], d.text, 'data[text]')
    return d


def whole(cfg, ctx, text, fmt, order):
    a = dict(number=cfg.get('number', '+34616585119'), text=text, fmt=fmt, ref=1,
             klass=cfg.get('klass'), pid=cfg.get('pid'), rand_id=cfg.get('rand_id', 9))
    f = common.choose_fmt(fmt, text)
    pdus = send(ctx, a)
    n = common.min_parts(f, text)
    ctx.eq(len(pdus), n, 'parts')
    idx = range(len(pdus))
    if order == 'reversed':
        idx.reverse()
    elif order is not None:
        idx = list(order)
        if len(idx) != len(pdus):
            return 'other part count'
    inbox = {}
    for i in idx:
        d = receive(ctx, relay(ctx, pdus[i], cfg.get('lower', False)), a, f, a['klass'])
        if n == 1:
            if d.udh is not None:
                ctx.fail('a single message has a header: %r' % d.udh)
            inbox.setdefault((d.number, None), {})[1] = d
            continue
        if d.udh is None or d.udh.concat is None:
            ctx.fail('part %d has no concatenation information' % (i + 1))
        c = d.udh.concat
        ctx.eq((c.ref, c.cnt, c.seq), (d.data['ref'], d.data['cnt'], d.data['seq']),
               'data dictionary')
        ctx.eq((c.ref, c.cnt), (a['rand_id'] & 255, n), 'reference and count')
        inbox.setdefault((d.number, c.ref), {})[c.seq] = d
    ctx.eq(len(inbox), 1, 'messages in the inbox')
    got = inbox.values()[0]
    ctx.eq(sorted(got), range(1, n + 1), 'sequence numbers received')
    back = ''.join([got[s].text for s in sorted(got)]) if f == 4 else \
        u''.join([got[s].text for s in sorted(got)])
    ctx.eq(common.plain(back), common.plain(text), 'text after reassembly')
    return '%s parts, alphabet %d' % (n if n < 5 else 'many', f)


def by_length(cfg, ctx):
    return whole(cfg, ctx, filler(cfg['kind'], cfg['n']), cfg['fmt'], cfg['order'])


def chars(cfg, ctx):
    text = unichr(cfg['c'])
    if cfg['pre']:
        text = u'abc' + text + u'd'
    return whole(cfg, ctx, text, None, None)


def orders(cfg, ctx):
    kind, fmt, n = cfg['text']
    return whole(cfg, ctx, filler(kind, n), fmt, cfg['order'])


def ext_pos(cfg, ctx):
    t = u'a' * cfg['n']
    t = t[:cfg['i']] + EURO * cfg['m'] + t[cfg['i']:]
    return whole(cfg, ctx, t, None, None)


def two_messages(cfg, ctx):
    """every interleaving of the parts of two messages from the same sender"""
    msgs = []
    for k, rid in (('a', 17), ('b', cfg['refb'])):
        kind, fmt, n = cfg[k]
        t = filler(kind, n)
        a = dict(number='+34616585119', text=t, fmt=fmt, ref=1, rand_id=rid)
        msgs.append((t, common.choose_fmt(fmt, t), [relay(ctx, p) for p in send(ctx, a)]))
    na, nb = len(msgs[0][2]), len(msgs[1][2])
    count = 0
    for pos in itertools.combinations(range(na + nb), na):
        ia = ib = 0
        inbox = {}
        for s in range(na + nb):
            if s in pos:
                h = msgs[0][2][ia]
                ia += 1
            else:
                h = msgs[1][2][ib]
                ib += 1
            d = ctx.must('decoding', SmsDeliver, h)
            c = d.udh.concat
            inbox.setdefault(c.ref, {})[c.seq] = d.text
            ctx.state((ia, ib, cfg['a'], cfg['b']))
        ctx.eq(sorted(inbox), sorted([17, cfg['refb'] & 255]), 'references in the inbox')
        for rid, (t, f, _) in ((17, msgs[0]), (cfg['refb'] & 255, msgs[1])):
            back = u''.join([common.plain(inbox[rid][s]) for s in sorted(inbox[rid])])
            ctx.eq(back, common.plain(t), 'text after interleaved reassembly')
        count += 1
    ctx.traces += count
    return '%d interleavings' % count


def spaces(tier):
    q = tier != 'thorough'
    lens = range(0, 320) + range(320, 470 if q else 900)
    perm = [p for k in (2, 3, 4) for p in itertools.permutations(range(k))]
    if not q:
        perm += list(itertools.permutations(range(5)))
    long_ = [('gsm', None, 161), ('gsm', 0, 400), ('ucs', None, 100), ('ucs', 8, 200),
             ('oct', 4, 150), ('oct', 4, 500), ('ext', None, 100), ('ext', 0, 300), ('ucs', None, 265)]
    if not q:
        long_ += [('gsm', 0, 700), ('ucs', 8, 330), ('oct', 4, 660)]
    two = [('gsm', None, 161), ('ucs', None, 190), ('oct', 4, 300), ('ext', 0, 90)]
    return [
        Space('every length', [free('n', lens), free('kind', ['gsm', 'ext', 'ucs', 'oct', 'str']),
                               free('fmt', [None, 0, 4, 8]), free('order', [None, 'reversed']),
                               free('lower', [False, True])],
              by_length, skip=lambda c: c['fmt'] not in FMT[c['kind']] or
              (c['kind'] in ('ucs', 'ext') and c['n'] > 330) or
              (c['lower'] != (c['order'] is not None)) or
              (q and c['kind'] == 'str' and (c['n'] % 4 or c['fmt'] is not None))),
        Space('every character', [free('c', [c for c in range(0x10000) if not 0xd800 <= c < 0xe000]),
                                  free('pre', [0, 1])], chars,
              skip=lambda c: q and c['pre'] and c['c'] > 0x2fff and c['c'] % 4),
        Space('every arrival order', [free('text', long_), free('order', perm)], orders),
        Space('two-septet characters at every position',
              [free('n', [153, 158, 160, 170, 305, 310]), free('i', range(0, 311)), free('m', [1, 2])],
              ext_pos, skip=lambda c: c['i'] > c['n'] or (q and c['n'] > 160 and c['m'] > 1)),
        Space('interleaving of two messages', [free('a', two), free('b', two), free('refb', [18, 0, 0xff, 0x112])],
              two_messages, skip=lambda c: c['refb'] & 255 == 17),
        Space('options', [free('text', [('gsm', None, 20), ('gsm', 0, 200), ('ucs', None, 20), ('oct', 4, 200)]),
                          free('order', [None]),
                          dev('number', ['+34616585119'] + [p + ('9876543210' * 2)[:n] for n in range(3, 21) for p in ('', '+')]),
                          dev('klass', [None, 0, 1, 2, 3]), dev('pid', range(256)),
                          dev('rand_id', [9] + range(256))], orders, k=1 if q else 2),
    ]

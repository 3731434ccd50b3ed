# -*- coding: utf-8 -*-
"""WAP pushes"""
import array
import itertools
from engine import Space, free, dev
import ref_mms as M
import ref_sms
import ref_wsp as W
from dcommon import Addr
from mcommon import Named, pattern, cleanup
from props import c18
from messaging.mms.message import MMSMessage
from messaging.sms import SmsDeliver
from messaging.sms.wap import is_a_wap_push_notification, is_mms_notification, extract_push_notification

T = W.text
TS = ref_sms.scts(2012, 3, 4, 5, 6, 7, 8)


def string(octets):
    return ''.join([chr(b) for b in octets])


def recognise(cfg, ctx):
    for t in cfg['tails']:
        o = cfg['head'] + t
        s = string(o)
        got = ctx.must('recognising %r' % s, is_a_wap_push_notification, s)
        want = len(o) > 1 and o[1] == 6
        if got is not want:
            ctx.fail('%r: recognised as push: %r' % (s, got))
        ctx.op()
        if not want and len(o) < 40:
            st, v = ctx.call(extract_push_notification, s)
            if st == 'ok':
                ctx.fail('%r is no push, and was extracted' % s)
    return 'ok'


def not_strings(cfg, ctx):
    ctx.refuses('recognising %r' % (cfg['v'],), TypeError, is_a_wap_push_notification, cfg['v'])
    return 'refused'


def H(n, v, o):
    return n, v, M.field(n, o)


def notification(url='http://promms/servlets/x', frm='+44778/TYPE=PLMN', tr='T1'):
    return [H('Message-Type', 'm-notification-ind', [0x82]), H('Transaction-Id', tr, T(tr)), H('MMS-Version', '1.0', [0x90]),
            H('From', frm, M.from_(frm)), H('Message-Class', 'Personal', [0x80]), H('Message-Size', 29696, W.long_(29696)),
            H('Expiry', 72000, M.expiry('relative', 72000)), H('Content-Location', url, T(url))]


def push(tid, headers, hs, octets=None):
    return [tid, 6] + W.uintvar(len(headers), octets) + headers + c18.pdu(hs)


def extracted(ctx, s, hs, what):
    if ctx.must('recognising ' + what, is_a_wap_push_notification, s) is not True:
        ctx.fail('%s is not recognised' % what)
    m = ctx.must('extracting ' + what, extract_push_notification, s)
    c18.same(ctx, m, hs, [], what)
    d = dict([(h[0], h[1]) for h in hs])
    want = d.get('From') is not None and d.get('Content-Location') is not None
    got = ctx.must('classifying', is_mms_notification, m)
    if bool(got) != want:
        ctx.fail('%s: classified as MMS notification: %r' % (what, got))
    return m


def filler(kind, n):
    if kind == 'usual':
        o = T('application/vnd.wap.mms-message') + [0xaf, 0x84]
        return (o + [0xb4, 0x87] * n)[:n]
    if kind == 'push octets':
        return ([1, 6, 0x8c, 0x82] * n)[:n]
    return [{'zero': 0, 'ff': 255, '80': 128, '84': 0x84}[kind]] * n


def headers(cfg, ctx):
    hs = notification()
    for n in cfg['ns']:
        if cfg['octets'] and len(W.uintvar(n)) > cfg['octets']:
            continue
        s = string(push(cfg['tid'], filler(cfg['kind'], n), hs, cfg['octets']))
        extracted(ctx, s, hs, 'push with %d octets of headers' % n)
    return cfg['kind']


def contents(cfg, ctx):
    hs = notification()[:3] + [h for h in cfg['hs']]
    extracted(ctx, string(push(1, filler('usual', 34), hs)), hs, 'push with %r' % [h[:2] for h in hs[3:]])
    return 'ok'


FORMS = {'concat8': lambda r, n, i: [0, 3, r % 256, n, i] + [5, 4, 0x0b, 0x84, 0x23, 0xf0],
         'concat16': lambda r, n, i: [8, 4, r // 256, r % 256, n, i] + [5, 4, 0x0b, 0x84, 0x23, 0xf0],
         'ports first': lambda r, n, i: [5, 4, 0x0b, 0x84, 0x23, 0xf0, 0, 3, r % 256, n, i],
         'no ports': lambda r, n, i: [0, 3, r % 256, n, i],
         'ports only': lambda r, n, i: [5, 4, 0x0b, 0x84, 0x23, 0xf0]}


def split(cfg, ctx):
    """octets over several SMS, received in any order, joined by sequence number"""
    hs = notification('http://m/' + 'u' * cfg['url'])
    if cfg['more']:
        hs = hs + [H('Subject', pattern_text(cfg['more']), T(pattern_text(cfg['more'])))]
    o = push(cfg['tid'], filler('usual', cfg['n']), hs)
    form = FORMS[cfg['form']]
    room = min(cfg['size'], 140 - 1 - len(form(0, 0, 0)))
    chunks = [o[i:i + room] for i in range(0, len(o), room)]
    if cfg['form'] == 'ports only' and len(chunks) > 1 or len(chunks) > 255:
        return 'not in one SMS'
    pdus = [ref_sms.build_deliver(Addr('num', '+34616585119').octets(), 4, c, csca='+34607003110',
                                  udh=form(cfg['ref'], len(chunks), i + 1), dcs=cfg['dcs'], ts=TS) for i, c in enumerate(chunks)]
    if cfg['order'] == 'reversed':
        pdus.reverse()
    elif cfg['order'] == 'odd first':
        pdus = pdus[1::2] + pdus[::2]
    got = {}
    for p in pdus:
        m = ctx.must('decoding an SMS', SmsDeliver, ref_sms.hexl(p))
        ctx.eq(m.fmt, 4, 'format')
        if m.udh.concat is not None:
            ctx.eq((m.udh.concat.ref, m.udh.concat.cnt), (cfg['ref'] if cfg['form'] == 'concat16' else cfg['ref'] % 256, len(chunks)),
                   'concatenation')
            k = m.udh.concat.seq
        else:
            k = 1
        if cfg['form'] != 'no ports':
            ctx.eq((m.udh.ports.dest_port, m.udh.ports.orig_port), (0x0b84, 0x23f0), 'ports')
        if k in got:
            ctx.fail('two parts with number %d' % k)
        got[k] = m.text
    ctx.eq(sorted(got), range(1, len(chunks) + 1), 'numbers of the parts')
    s = ''.join([got[k] for k in sorted(got)])
    ctx.eq(s, string(o), 'joined octets')
    if not isinstance(s, str):
        ctx.fail('joined octets are %r' % type(s))
    extracted(ctx, s, hs, 'a push over %d SMS' % len(chunks))
    return '%d SMS' % len(chunks) if len(chunks) < 8 else 'many SMS'


def pattern_text(n):
    return ''.join([chr(0x80 + (i * 5) % 0x80) if i % 3 == 0 else chr(33 + i % 90) for i in range(n)])


def classify(cfg, ctx):
    hs = [h for h in (cfg['type'], cfg['from'], cfg['loc'], cfg['other']) if h is not None]
    extracted(ctx, string(push(7, filler('usual', 34), hs)), hs, 'push with %r' % [h[:2] for h in hs])
    return '%d headers' % len(hs)


def held(cfg, ctx):
    """classification of any message object"""
    m = MMSMessage()
    for n in ('From', 'Content-Location', 'Message-Type', 'Content-Type'):
        if cfg[n] != 'keep':
            m.headers.pop(n, None)
            if cfg[n] != 'none':
                m.headers[n] = cfg[n]
    before = dict(m.headers)
    got = ctx.must('classifying %r' % m.headers, is_mms_notification, m)
    if bool(got) != (m.headers.get('From') is not None and m.headers.get('Content-Location') is not None):
        ctx.fail('%r: classified as MMS notification: %r' % (m.headers, got))
    ctx.eq(m.headers, before, 'headers after classifying')
    return 'notification' if got else 'other'


class Block(list):
    def __repr__(self):
        return '<%s..%s>' % (self[0], self[-1])


def spaces(tier):
    q = tier != 'thorough'
    F = free
    by = [[i] for i in range(256)]
    lens = range(0, 300) + range(16380, 16390)
    blocks = [Block(lens[i:i + 31]) for i in range(0, len(lens), 31)]
    cat = c18.CAT
    few = [h for h in cat if h[0] not in ('Message-Type', 'MMS-Version')]
    reps = [h for h in c18.REP if h[0] not in ('Message-Type', 'Transaction-Id', 'MMS-Version')]
    loc = [h for h in cat if h[0] == 'Content-Location']
    frm = [h for h in cat if h[0] == 'From']
    empty = ([h for h in frm if h[1] == ''] + [None] * 4)[:4] + [h for h in loc if h[1] == '']
    assert None not in empty
    return [
        Space('recognition', [F('head', [[]] + by), F('tails', [[[]] + by + [[i, j] for i in (5, 6, 7, 0) for j in (0, 6, 255)]])],
              recognise, note='every string of up to two octets'),
        Space('recognition of long strings', [F('head', [[a, b] for a in (0, 1, 6, 255) for b in range(256)]),
                                              F('tails', [[[6] * 3, [0] * 100, [1, 6] * 200]])], recognise),
        Space('not strings', [F('v', [None, 1, 1.5, [1, 6], (1, 6), {}, u'', u'\x01\x06', array.array('B', [1, 6]), True, object])],
              not_strings),
        Space('push headers', [F('kind', ['usual', 'zero', 'ff', '80', '84', 'push octets']), F('tid', [0, 1, 6, 255]),
                               F('octets', [None, 2, 3, 5]), F('ns', blocks)], headers),
        Space('transaction ids', [F('kind', ['usual']), F('tid', range(256)), F('octets', [None, 2]), F('ns', [[0, 34, 200]])], headers),
        Space('contents', [F('hs', [[h] for h in few] + [[a, b] for a in few for b in (reps[:4] if q else reps) if a[0] != b[0]])],
              contents),
        Space('split over SMS', [F('url', [0, 60, 130, 300, 600, 1500]), F('more', [0, 90, 200]), F('tid', [1, 6]), F('n', [0, 34, 130]),
                                 F('form', sorted(FORMS)), F('size', [140, 128, 50, 7]), F('ref', [1, 0xff, 0x9f8e]),
                                 F('dcs', [4, 0xf5] if q else [4, 0xf4, 0xf5, 0x14, 0x44]), F('order', ['given', 'reversed', 'odd first'])],
              split, skip=lambda c: c['size'] == 7 and (c['url'] > 300 or c['order'] == 'given') or
              (q and c['dcs'] != 4 and c['order'] != 'odd first') or (q and c['tid'] == 6 and c['ref'] != 1)),
        Space('split at every place', [F('url', [40]), F('more', [0, 60]), F('tid', [1]), F('n', [34]), F('form', ['concat8', 'concat16']),
                                       F('size', range(1, 141)), F('ref', [7]), F('dcs', [4]), F('order', ['given', 'reversed'])], split),
        Space('classification', [F('type', [('Message-Type', v, M.field('Message-Type', [128 + i])) for i, v in enumerate(M.MTYPES)]),
                                 F('from', [None] + frm[::6] + empty[:4]), F('loc', [None] + loc[::4] + empty[4:]), F('other', [None] + reps)], classify,
              skip=lambda c: c['other'] and c['other'][0] in ('From', 'Content-Location')),
        Space('classification of messages', [F('From', ['none', None, '', ' ', '0', '<not inserted>', '+1/TYPE=PLMN']),
                                             F('Content-Location', ['none', None, '', ' ', '0', 'http://x/y']),
                                             F('Message-Type', ['keep', 'none', 'm-notification-ind', 'm-delivery-ind', 'x']),
                                             F('Content-Type', ['keep', ('text/plain', {})])], held),
    ]

# -*- coding: utf-8 -*-
"""Reused message objects"""
from datetime import datetime, timedelta
from engine import Space, free, dev
import common
import ref_gsm
import ref_sms
from dcommon import Addr, Text, ie_filler
from messaging.sms import SmsSubmit, SmsDeliver
from messaging.utils import FixedOffset

TEXTS = {
    'hello': u'hello', 'empty': u'', 'euro': u'caf\xe9 {\u20ac}', 'cyr': u'\u0416\u4e2d', 'oct': u'\xff\xb5x',
    'gsm160': u'\u0394' * 160, 'gsm161': u'x' * 161, 'esc': u'x' * 152 + u'[]' * 20,
    'ucs71': u'\u0416' * 71, 'oct141': u'\xb5' * 141, 'str': 'plain',
}
ZONED = datetime(2011, 11, 1, 2, 3, 4, 0, FixedOffset(-210, 'z'))
SETS = [
    ('text', 'hello'), ('text', 'euro'), ('text', 'cyr'), ('text', 'oct'), ('text', 'gsm161'), ('text', 'esc'),
    ('text', 'ucs71'), ('text', 'empty'),
    ('fmt', None), ('fmt', 0), ('fmt', 4), ('fmt', 8),
    ('klass', 0), ('klass', 3),
    ('number', '123'), ('number', '+34616585119'),
    ('csca', '+34607003110'), ('csca', None), ('csca', '12345'),
    ('pid', 0x7f), ('pid', 0),
    ('ref', None), ('ref', 0), ('ref', 0x1ff),
    ('rand_id', None), ('rand_id', 7), ('rand_id', 0x1fe),
    ('validity', None), ('validity', timedelta(hours=13)), ('validity', ZONED), ('validity', timedelta(minutes=1)),
    ('srr', True), ('srr', False),
    # refused
    ('number', 'abc'), ('csca', '1'), ('klass', 4), ('klass', 'x'), ('validity', 5),
    # encode here
    ('encode', 1), ('encode', 2),
]
BAD = dict(number=('abc',), csca=('1',), klass=(4, 'x'), validity=(5,))


def start():
    return dict(number='+491700000001', text=u'first', csca=None, fmt=None, klass=None, pid=0, ref=None, rand_id=None,
                validity=None, srr=False)


def apply_one(ctx, s, a, op):
    k, v = op
    if k == 'encode':
        for _ in range(v):
            common.check_submit(ctx, SmsSubmit, a, s)
        return
    if v in BAD.get(k, ()):
        ctx.refuses('%s=%r' % (k, v), (ValueError, TypeError), setattr, s, k, v)
        return
    if k == 'text':
        v = TEXTS[v]
    ctx.must('%s=%r' % op, setattr, s, 'request_status' if k == 'srr' else k, v)
    a[k] = v


def history(cfg, ctx):
    a = start()
    s = SmsSubmit(a['number'], a['text'])
    for i in range(len(cfg)):
        apply_one(ctx, s, a, cfg['op%d' % (i + 1)])
        ctx.op()
        ctx.state(tuple(sorted((k, repr(v)) for k, v in a.items())))
    r = common.check_submit(ctx, SmsSubmit, a, s)
    # and once more, nothing may have changed
    common.check_submit(ctx, SmsSubmit, a, s)
    return r


PROFILES = [
    dict(number='123', text='hello'),
    dict(number='+34616585119', text='cyr', csca='+34607003110'),
    dict(number='+34616585119', text='gsm161', fmt=0, ref=5),
    dict(number='+34616585119', text='ucs71', ref=6, rand_id=9, klass=1),
    dict(number='999', text='oct141', fmt=4, rand_id=255),
    dict(number='999', text='hello', fmt=8, validity=timedelta(days=2), srr=True),
    dict(number='999', text='str', fmt=4, validity=ZONED, pid=0x40),
    dict(number='+999', text='esc', klass=0, srr=True, validity=timedelta(weeks=6)),
    dict(number='+999', text='cyr', fmt=0),                      # cannot be encoded
    dict(number='+999', text='hello', validity=timedelta(minutes=1)),      # neither
    dict(number='+12345678901234567890', text='gsm160', csca='123', ref=255),
    dict(number='4567', text='empty', klass=3),
]


def goto(ctx, s, a, b):
    for k in sorted(b):
        if a[k] == b[k] and type(a[k]) == type(b[k]):
            continue
        v = b[k]
        ctx.must('%s=%r' % (k, v), setattr, s, 'request_status' if k == 'srr' else k, v)
        a[k] = v


def profile(i, klass):
    b = start()
    b.update(PROFILES[i])
    b['text'] = TEXTS[b['text']]
    if b['klass'] is None:
        b['klass'] = klass              # a class cannot be taken away again
    return b


def chain(cfg, ctx):
    a = start()
    s = SmsSubmit(a['number'], a['text'])
    r = None
    for i in range(len(cfg) // 2):
        goto(ctx, s, a, profile(cfg['p%d' % i], a['klass']))
        for _ in range(cfg['e%d' % i]):
            r = common.check_submit(ctx, SmsSubmit, a, s)
    return r


def auto_refs(cfg, ctx):
    a = start()
    a['text'] = TEXTS[cfg['text']]
    s = SmsSubmit(a['number'], a['text'])
    seen = set()
    refs = []
    for i in range(cfg['n']):
        fmt = common.choose_fmt(None, a['text'])
        if cfg['reset']:
            s.ref = None
        pdus = ctx.must('encoding no. %d' % (i + 1), s.to_pdu)
        p = common.check_pdus(ctx, pdus, a, fmt, common.min_parts(fmt, a['text']))
        seen.add(p[0]['mr'])
        if p[0]['udhi']:
            ref = p[0]['ies'][0][1][0]
            seen.add(ref)
            if ref in refs[-100:]:
                ctx.fail('long message no. %d has the concatenation reference of the one %d before' % (
                    i + 1, len(refs) - max([k for k, x in enumerate(refs) if x == ref])))
            refs.append(ref)
    return 'octets' if len(seen) > 1 else 'one reference'


# -- received messages -----------------------------------------------------

NUM = Addr('num', '+34616585119')
TS = ref_sms.scts(2012, 3, 4, 5, 6, 7, 8)
DT = ref_sms.scts(2012, 3, 4, 5, 16, 17, 8)


def D(addr, text, csca='+34607003110', udh=None, pid=0, dcs=None, ts=TS):
    return ref_sms.hexl(ref_sms.build_deliver(addr.octets(), text.fmt, text.payload(), csca=csca, udh=udh, pid=pid,
                                              dcs=dcs, ts=ts))


def pdus():
    gsm = D(NUM, Text(0, 'pat', 20))
    concat = D(NUM, Text(0, 'pat', 20), udh=[0, 3, 1, 2, 1])
    return [
        ('gsm', gsm),
        ('no csca', D(Addr('num', '123'), Text(8, 'pat', 5), None, pid=0x40)),
        ('concat', concat),
        ('ports', D(NUM, Text(4, 'pat', 10), udh=[5, 4, 0x0b, 0x84, 0x23, 0xf0])),
        ('alnum', D(Addr('alnum', u'Bank'), Text(0, 'esc', 10), None)),
        ('report', ref_sms.hexl(ref_sms.build_status(7, NUM.octets(), TS, DT, 0, csca='+34607003110'))),
        ('report without csca', ref_sms.hexl(ref_sms.build_status(9, Addr('num', '12').octets(), TS, DT, 0x30))),
        ('class', D(NUM, Text(0, 'pat', 3), dcs=0xf1, ts=ref_sms.scts(2001, 1, 1, 0, 0, 0, -22))),
        ('odd', gsm + '0'),
        ('cut in number', gsm[:30]),
        ('cut in date', concat[:56]),
        ('cut header', concat[:66]),
        ('submit', '01' + gsm[2:18] + '01' + gsm[20:]),
        ('no hex', 'zz' + gsm[2:]),
        ('bad month', gsm[:44].replace(gsm[44:], '') + gsm[44:46] + '31' + gsm[48:]),
        ('empty', ''),
    ]


def snap(m):
    u = None
    if m.udh is not None:
        c = m.udh.concat and (m.udh.concat.ref, m.udh.concat.cnt, m.udh.concat.seq, m.udh.concat.eight_bits)
        p = m.udh.ports and (m.udh.ports.dest_port, m.udh.ports.orig_port, m.udh.ports.eight_bits)
        u = (c, p, dict((k, list(v)) for k, v in m.udh.headers.items()))
    d = [(k, getattr(m, k)) for k in ('text', 'number', 'csca', 'pid', 'dcs', 'fmt', 'date', 'type', 'sr', 'mtype',
                                      'pdu')]
    return dict(d, udh=u, data=dict(m.data))


def reassign(cfg, ctx):
    seq = [cfg['a%d' % i] for i in range(len(cfg) - 1)]
    m = None
    last = None
    for name, h in seq:
        st, f = ctx.call(SmsDeliver, h, cfg['strict'])
        if m is None:
            if st != 'ok':
                # no object to go on with
                return 'refused at once'
            m = SmsDeliver(h, cfg['strict'])
            last = snap(f)
            continue
        st2, e = ctx.call(setattr, m, 'pdu', h)
        ctx.eq(st2, st, 're-assigning %s (%r)' % (name, e))
        if st == 'ok':
            last = snap(f)
            got = snap(m)
            for k in sorted(last):
                ctx.eq(got[k], last[k], '%s after re-assigning %s' % (k, name))
        else:
            ctx.eq(e.__class__, f.__class__, 'exception re-assigning %s' % name)
        ctx.state((name, st, cfg['strict']))
    return 'ends decoded' if st == 'ok' else 'ends refused'


class Named(tuple):
    def __repr__(self):
        return '<%s>' % self[0]


def spaces(tier):
    q = tier != 'thorough'
    ops = [free('op%d' % (i + 1), SETS) for i in range(3 if q else 4)]
    P = range(len(PROFILES))
    n = 3 if q else 4
    ch = []
    for i in range(n):
        ch += [free('p%d' % i, P), free('e%d' % i, [1, 2] if i == n - 1 else ([0, 1] if q else [0, 1, 2]))]
    L = [Named(x) for x in pdus()]
    re = [free('a%d' % i, L) for i in range(3 if q else 4)] + [free('strict', [True, False])]
    return [
        Space('profiles one after another', ch, chain),
        Space('attribute changes and encodings', ops, history,
              note='every sequence of that many operations, then two encodings'),
        Space('automatic references', [free('text', sorted(TEXTS)), free('reset', [True, False]),
                                       free('n', [600])], auto_refs),
        Space('received object re-assigned', re, reassign),
    ]

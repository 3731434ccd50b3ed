# -*- coding: utf-8 -*-
"""Single-part SUBMIT PDUs against an independent 23.040 parser"""
from datetime import datetime, timedelta
from engine import Space, free, dev
import common
import ref_gsm
from messaging.sms import SmsSubmit
from messaging.utils import FixedOffset


def numbers(lengths):
    out = []
    for l in lengths:
        d = ('1234567890' * 3)[:l]
        out += ['+' + d, d]
    return out + ['000', '+00000000000000000000', '+999', '9' * 20, '0044',
                  '+10', ][:5]


def gsm_len(n):
    a = ref_gsm.BASIC_CHARS
    return (a * 2)[7:7 + n]


def ucs(n):
    return (u'\u0416\u4e2d\uffe6a\u00e9\u0100\ufffd' * 12)[:n]


class T(object):
    """lazily described text, so that configurations print shortly"""
    def __init__(self, kind, n):
        self.kind, self.n = kind, n

    def get(self):
        k, n = self.kind, self.n
        if k == 'gsm':
            return gsm_len(n)
        if k == 'str':
            return 'abcdefgh ' [:9] * (n // 9) + 'xyzxyzxyz'[:n % 9]
        if k == 'ext':
            return (ref_gsm.EXT_CHARS * 20)[:n]
        if k == 'ucs':
            return ucs(n)
        if k == 'mix':
            return gsm_len(n - 1) + u'\u0416'
        if k == 'oct':
            return u''.join([unichr((i * 37 + 11) & 255) for i in range(n)])
        if k == 'chr':
            return unichr(n)
        if k == 'end@':
            return gsm_len(n - 1) + u'@'
        raise KeyError(k)

    def __repr__(self):
        return '<%s %d>' % (self.kind, self.n)


VALS = [None] + [timedelta(minutes=m) for m in (5, 9, 10, 60, 719, 720, 721, 750, 1439, 1440)] + \
    [timedelta(minutes=1440, seconds=1), timedelta(days=2), timedelta(days=29, hours=23),
     timedelta(days=30), timedelta(days=30, seconds=1), timedelta(days=35),
     timedelta(weeks=62, days=6), timedelta(weeks=63), timedelta(minutes=4, seconds=59),
     timedelta(weeks=63, seconds=1), timedelta(hours=12, minutes=29, seconds=59)] + \
    [datetime(2012, 2, 29, 23, 59, 58), datetime(2000, 1, 1), datetime(2099, 12, 31, 9, 8, 7),
     datetime(2010, 10, 20, 0, 30, 0, 0, FixedOffset(330, 'x')),
     datetime(2010, 10, 20, 12, 0, 0, 0, FixedOffset(-180, 'x')),
     datetime(2010, 7, 20, 12, 0, 0, 0, FixedOffset(-570, 'x')),
     datetime(2010, 7, 20, 12, 0, 0, 0, FixedOffset(840, 'x'))]


def case(cfg, ctx):
    a = dict(cfg)
    a['text'] = cfg['text'].get()
    fmt = common.choose_fmt(a['fmt'], a['text'])
    n = common.min_parts(fmt, a['text'])
    if n is not None and n > 1:
        return 'multipart (see C04)'
    return common.check_submit(ctx, SmsSubmit, a)


def other_alphabet(cfg, ctx):
    s = SmsSubmit('+34616585119', cfg['text'].make() if hasattr(cfg['text'], 'make') else cfg['text'])
    s.fmt = cfg['fmt']
    if cfg['klass'] is not None:
        s.klass = cfg['klass']
    ctx.refuses('alphabet %r' % (cfg['fmt'],), ValueError, s.to_pdu)
    return 'refused'


def spaces(tier):
    q = tier != 'thorough'
    texts = [T('gsm', 4)] + [T('gsm', n) for n in range(0, 161)] + \
        [T('ext', n) for n in (1, 2, 3, 7, 40, 79, 80)] + \
        [T('str', n) for n in (0, 1, 7, 8, 70, 71, 140, 160)] + \
        [T('mix', n) for n in (1, 2, 8, 69, 70)] + \
        [T('ucs', n) for n in (1, 2, 35, 69, 70)] + \
        [T('oct', n) for n in (1, 20, 70, 127, 128, 139, 140)] + \
        [T('end@', n) for n in (1, 7, 8, 16, 159, 160)]
    nums = numbers(range(3, 21))
    N = dev('number', ['+34616585119'] + nums)
    C = dev('csca', [None] + nums)
    X = dev('text', texts)
    F = dev('fmt', [None, 0, 4, 8])
    K = dev('klass', [None, 0, 1, 2, 3])
    P = dev('pid', range(256))
    R = dev('ref', [0x55, None] + range(256) + [256, 511, 0x12345])
    V = dev('validity', VALS)
    S = dev('srr', [False, True])
    few = lambda d, idx: free(d[0], [d[1][i] for i in idx])
    chars = [T('chr', c) for c in range(0x10000) if not 0xd800 <= c < 0xe000]
    chars += [T('chr', c) for c in (0x10000, 0x1f600)]
    small = [
        few(N, [0, 1, 2, 3, 4, 36]) , few(C, [0, 1, 4, 35, 36]),
        free('text', [T('gsm', 0), T('gsm', 7), T('ext', 5), T('gsm', 160), T('ucs', 70),
                      T('ucs', 1), T('oct', 140)]),
        free('fmt', [None, 0, 4, 8]), free('klass', [None, 0, 3]),
        free('pid', [0, 0x7f, 0xff]), free('ref', [0, 0xff, None]),
        free('validity', [VALS[0], VALS[4], VALS[22], VALS[26]]),
        free('srr', [False, True])]
    if q:
        small[0] = few(N, [1, 4, 36])
        small[1] = few(C, [0, 1, 36])
        small[5] = free('pid', [0, 0xff])
        small[6] = free('ref', [0xfe])
    out = [
        Space('all options, deviation bounded', [N, C, X, F, K, P, R, V, S], case, k=2),
        Space('reduced full cross product', small, case),
        Space('other alphabets', [free('fmt', [-1, 1, 2, 3, 5, 6, 7, 9, 10, 11, 12, 15, 16, 20, 64, 128, 240, 244, 255, 256]),
                                  free('text', ['', 'hello', 'x' * 200, u'\u20ac']), free('klass', [None, 0, 3])], other_alphabet),
        Space('every character',
              [few(N, [0]), few(C, [0]), free('text', chars), F, K, few(P, [0]), few(R, [0]),
               few(V, [0]), few(S, [0])], case, k=1 if q else 2),
    ]
    if not q:
        some = lambda d, step: dev(d[0], d[1][:1] + d[1][1::step])
        out.append(Space('three deviations', [some(N, 5), some(C, 5), some(X, 9), F, K,
                                              some(P, 23), some(R, 23), some(V, 2), S], case, k=3))
    return out

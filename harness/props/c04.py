# -*- coding: utf-8 -*-
"""Segmentation of long texts"""
from datetime import datetime, timedelta
import itertools
from engine import Space, free, dev
import common
import ref_gsm
from props.c03 import numbers, VALS
from messaging.sms import SmsSubmit

EURO = u'\u20ac'


def filler(kind, n):
    if kind == 'gsm':
        a = ref_gsm.BASIC_CHARS
    elif kind == 'a':
        a = u'a'
    elif kind == 'ext':
        a = ref_gsm.EXT_CHARS
    elif kind == 'ucs':
        a = u'\u0416\u4e2d\uffe6a\u00e9\u0100\ufffd\x1b'
    elif kind == 'oct':
        a = u''.join([unichr(i) for i in range(256)])
    elif kind == 'str':
        a = 'abcdefg'
    else:
        raise KeyError(kind)
    return (a * (n // len(a) + 1))[:n]


FMT = {'gsm': (None, 0), 'a': (0,), 'ext': (None, 0), 'ucs': (None, 8), 'oct': (4,),
       'str': (None, 0, 4, 8)}


def submit(cfg, ctx, text, fmt):
    a = dict(number='+34616585119', text=text, fmt=fmt, ref=7)
    for k in ('number', 'csca', 'klass', 'pid', 'ref', 'validity', 'srr', 'rand_id'):
        if k in cfg:
            a[k] = cfg[k]
    return common.check_submit(ctx, SmsSubmit, a)


def by_length(cfg, ctx):
    return submit(cfg, ctx, filler(cfg['kind'], cfg['n']), cfg['fmt'])


def wrong_fmt(cfg):
    return cfg['fmt'] not in FMT[cfg['kind']]


def one_ext(cfg, ctx):
    t = filler('gsm' if cfg['bg'] else 'a', cfg['n'])
    i = cfg['i']
    if i < 0:
        i += len(t)
    t = t[:i] + cfg['c'] * cfg['m'] + t[i:]
    return submit(cfg, ctx, t, 0 if cfg['bg'] else None)


def window(cfg, ctx):
    lim = common.PART[cfg['fmt']]
    special = EURO if cfg['fmt'] == 0 else u'\x1b'
    w = u''.join([special if (cfg['word'] >> k) & 1 else u'a' for k in range(cfg['w'])])
    t = u'b' * (lim * cfg['k'] - cfg['back']) + w + u'c' * cfg['tail']
    if cfg['word2']:
        w2 = u''.join([special if (cfg['word2'] >> k) & 1 else u'd' for k in range(4)])
        t = t + w2 + u'e' * 5
    if len(t) <= common.LIMIT[cfg['fmt']] - 10:
        t = t + u'f' * lim
    return submit(cfg, ctx, t, cfg['fmt'])


def parts(cfg, ctx):
    kind, fmt = cfg['kind']
    lim = common.PART[fmt]
    if kind == 'ext':
        lim = lim // 2
    n = lim * (cfg['parts'] - 1) + (1 if cfg['edge'] else lim)
    return submit(cfg, ctx, filler(kind, n), fmt)


def options(cfg, ctx):
    kind, fmt, n = cfg['text']
    return submit(cfg, ctx, filler(kind, n), fmt)


def spaces(tier):
    q = tier != 'thorough'
    g = range(161, 470 if q else 780)
    kinds = ['gsm', 'ext', 'ucs', 'oct', 'str']
    lens = range(68, 280) + range(280, 700 if q else 1300)
    out = [
        Space('every length', [free('n', lens), free('kind', kinds), free('fmt', [None, 0, 4, 8]),
                               free('rand_id', [0x80])], by_length,
              skip=lambda c: wrong_fmt(c) or (c['kind'] == 'ucs' and c['n'] > 420) or
              (c['kind'] == 'ext' and c['n'] > 400)),
        Space('two-septet character at every position',
              [free('n', [159, 160, 305, 306, 307, 330] if q else [159, 160, 161, 304, 305, 306, 307, 308, 330, 458, 459, 460]),
               free('i', range(0, 331) if q else range(0, 461)),
               free('c', [EURO, u'['] if q else list(ref_gsm.EXT_CHARS)),
               free('m', [1, 2, 3]), free('bg', [0, 1])], one_ext,
              skip=lambda c: c['i'] > c['n'] or (q and c['c'] == u'[' and c['m'] > 1)
              or (q and c['m'] > 1 and not c['bg'])),
        Space('every pattern of two-septet characters around a boundary',
              [free('fmt', [0]), free('k', [1]), free('w', [8 if q else 10]),
               free('word', range(2 ** (8 if q else 10))), free('back', range(1, 10)),
               free('tail', [20, 146, 150, 160]), free('word2', [0, 5, 15] if q else range(16))],
              window),
        Space('patterns around the second and third boundary',
              [free('fmt', [0]), free('k', [2, 3]), free('w', [6]), free('word', range(64)),
               free('back', range(1, 8)), free('tail', [20, 150]), free('word2', [0])], window),
        Space('escape octets in 8-bit and UCS2 text around a boundary',
              [free('fmt', [4, 8]), free('k', [1, 2]), free('w', [4]), free('word', range(16)),
               free('back', range(1, 6)), free('tail', [3, 20, 133]), free('word2', [0, 3])], window),
        Space('every concatenation reference',
              [free('rand_id', [None] + range(256) + [256, 300, 511, 65535]),
               free('n', [161, 400]), free('kind', ['gsm', 'ucs', 'oct']), free('fmt', [None, 4]),
               ], by_length, skip=wrong_fmt),
        Space('part counts',
              [free('parts', [2, 3, 9, 10, 11, 15, 16, 17, 26, 99, 100, 127, 128, 129, 200, 215, 216,
                              223, 224, 225, 254, 255, 256] if q else range(2, 258)),
               free('edge', [0, 1]),
               free('kind', [('gsm', 0), ('ucs', 8), ('oct', 4), ('a', 0)] +
                    ([] if q else [('ext', 0)])),
               free('rand_id', [0xd8])], parts),
        Space('options of multipart messages',
              [free('text', [('gsm', 0, 161), ('gsm', None, 320), ('ucs', None, 71), ('ucs', 8, 140),
                             ('oct', 4, 141), ('ext', 0, 90)]),
               dev('number', ['+34616585119'] + numbers(range(3, 21))),
               dev('csca', [None] + numbers(range(3, 21, 3))),
               dev('klass', [None, 0, 1, 2, 3]),
               dev('pid', [0] + ([1, 0x7f, 0x80, 0xff] if q else range(1, 256))),
               dev('ref', [7, None, 0, 0xff, 256 + 9] if q else [7, None] + range(256)),
               dev('rand_id', [3, None, 0, 0x80, 0xff, 0x100]),
               dev('validity', VALS), dev('srr', [False, True])], options, k=2),
    ]
    return out

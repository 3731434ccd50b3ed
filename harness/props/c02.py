# -*- coding: utf-8 -*-
"""Septet packing, 8-bit/UCS2 packing and nibble/hex helpers"""
from array import array
from engine import Space, free, dev, Violation
import ref_sms
from ref_sms import hexl
import messaging.utils as U

UDH = [5, 0, 3, 0xff, 0x80, 0x01]


def low(octets):
    return hexl(octets).lower()


def st(octets):
    return ''.join([chr(o) for o in octets])


def vals(s):
    return [ord(c) for c in s]


def septet_case(septs, udh, ctx):
    n = len(septs)
    if udh is None:
        want = [n] + ref_sms.pack7(septs)
        got = ctx.must('packing', U.pack_8bits_to_7bits, st(septs))
    else:
        want = [n + 7] + udh + ref_sms.pack7(septs, 1)
        got = ctx.must('packing', U.pack_8bits_to_7bits, ' ' + st(septs), st(udh))
    ctx.eq(got, low(want), 'packing %d septets' % n)
    for name, arg in (('unpack_msg', got[2:]), ('unpack_msg', got[2:].upper()),
                      ('unpack_msg2', array('B', want[1:]))):
        back = vals(ctx.must(name, getattr(U, name), arg))
        if udh is None:
            head, rest = back[:n], back[n:]
            ctx.eq(head, septs, name)
            if any(rest) or len(rest) > 1:
                ctx.fail('%s invents septets %r' % (name, rest))
        else:
            ctx.eq(back[7:7 + n], septs, name + ' after a header')
    return 'n%%8=%d' % (n % 8)


def one(cfg, ctx):
    n, i = cfg['n'], cfg['i']
    s = [cfg['bg']] * n
    if n:
        s[i] = cfg['v']
    return septet_case(s, cfg['udh'], ctx)


def pair(cfg, ctx):
    s = [cfg['bg']] * cfg['n']
    i = cfg['i']
    s[i], s[i + 1] = cfg['a'], cfg['b']
    return septet_case(s, cfg['udh'], ctx)


def out_of_range(cfg):
    return cfg['i'] >= max(cfg['n'], 1)


def octets_case(cfg, ctx):
    n, i = cfg['n'], cfg['i']
    s = [cfg['bg']] * n
    if n:
        s[i] = cfg['v']
    text = u''.join([unichr(c) for c in s]) if cfg['uni'] else st(s)
    udh = cfg['udh']
    if udh is None:
        got = ctx.must('8-bit packing', U.pack_8bits_to_8bit, text)
        want = [n] + s
    else:
        got = ctx.must('8-bit packing', U.pack_8bits_to_8bit, text, st(udh))
        want = [n + len(udh)] + udh + s
    ctx.eq(got, low(want), '8-bit packing of %d octets' % n)
    return 'ok'


def ucs2_case(cfg, ctx):
    n, i = cfg['n'], cfg['i']
    s = [cfg['bg']] * n
    if n:
        s[i] = cfg['v']
    text = u''.join([unichr(c) for c in s])
    udh = cfg['udh']
    pay = []
    for c in s:
        pay += [c >> 8, c & 255]
    if udh is None:
        got = ctx.must('UCS2 packing', U.pack_8bits_to_ucs2, text)
        want = [2 * n] + pay
    else:
        got = ctx.must('UCS2 packing', U.pack_8bits_to_ucs2, text, st(udh))
        want = [2 * n + len(udh)] + udh + pay
    ctx.eq(got, low(want), 'UCS2 packing of %d characters' % n)
    return 'ok'


def digits_case(cfg, ctx):
    d = ['0123456789'[(cfg['s'] + k) % 10] for k in range(cfg['n'])]
    if cfg['n']:
        d[cfg['i']] = cfg['d']
    d = ''.join(d)
    h = low(ref_sms.semi(d))
    ctx.eq(ctx.must('swap_number', U.swap_number, h), d, 'swap_number(%r)' % h)
    return 'odd' if len(d) % 2 else 'even'


def swap_case(cfg, ctx):
    x = [cfg['a%d' % k] for k in range(len(cfg)) if cfg['a%d' % k] is not None]
    keep = x[:]
    got = ctx.must('swap', U.swap, x)
    want = x[:]
    for k in range(0, len(x) - 1, 2):
        want[k], want[k + 1] = x[k + 1], x[k]
    ctx.eq(got, want, 'swap')
    ctx.eq(x, keep, 'argument of swap after the call')
    ctx.eq(ctx.must('swap', U.swap, got), keep, 'swap twice')
    return 'ok'


def hex_case(cfg, ctx):
    o = [cfg['a'], cfg['b']] if cfg['b'] is not None else [cfg['a']]
    h = low(o)
    ctx.eq(ctx.must('encode_str', U.encode_str, st(o)), h, 'encode_str')
    ctx.eq(ctx.must('encode_bytes', U.encode_bytes, o), h, 'encode_bytes')
    for x in (h, h.upper()):
        ctx.eq(list(ctx.must('to_array', U.to_array, x)), o, 'to_array')
    ctx.eq(vals(ctx.must('to_bytes', U.to_bytes, o)), o, 'to_bytes')
    return 'ok'


def gap(cfg):
    seen = False
    for k in sorted(cfg):
        if cfg[k] is None:
            seen = True
        elif seen:
            return True
    return False


def spaces(tier):
    q = tier != 'thorough'
    hi = [0x00, 0x01, 0x40, 0x7f] if q else [0x00, 0x01, 0x02, 0x04, 0x08, 0x10,
                                             0x20, 0x40, 0x2a, 0x55, 0x7f]
    udhs = [None, UDH]
    pv = [0, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x7f, 0x7e, 0x3f, 0x55, 0x2a, 0x1b]
    if not q:
        pv = range(128)
    return [
        Space('septets: every length and position',
              [free('n', range(161)), free('i', range(160)), free('v', hi),
               free('bg', [0, 0x7f]), free('udh', [None])], one, skip=out_of_range),
        Space('septets after a header: every length and position',
              [free('n', range(154)), free('i', range(153)), free('v', hi[:2] + hi[-1:]),
               free('bg', [0, 0x7f]), free('udh', [UDH])], one, skip=out_of_range),
        Space('septets: every value at every position',
              [free('n', [1, 7, 8, 9, 16, 17]), free('i', range(17)),
               free('v', range(128)), free('bg', [0, 0x7f, 0x2a]),
               free('udh', udhs)], one, skip=out_of_range),
        Space('septets: every adjacent pair',
              [free('n', [9, 10]), free('i', range(8)), free('a', pv),
               free('b', pv), free('bg', [0, 0x7f] if q else [0]), free('udh', udhs)], pair),
        Space('octets: every length and position',
              [free('n', range(141)), free('i', range(140)),
               free('v', [0, 0x41, 0x80, 0xff]), free('bg', [0x20]),
               free('uni', [False, True]), free('udh', [None, UDH])],
              octets_case, skip=lambda c: out_of_range(c) or
              (c['udh'] is not None and c['n'] > 134) or (q and c['i'] % 3)),
        Space('octets: every value',
              [free('n', [1, 2, 140]), free('i', [0, 1, 139]), free('v', range(256)),
               free('bg', [0, 0xff]), free('uni', [False, True]), free('udh', [None])],
              octets_case, skip=out_of_range),
        Space('UCS2: every character',
              [free('n', [1, 2]), free('i', [0, 1]),
               free('v', [c for c in range(0x10000) if not 0xd800 <= c < 0xe000]),
               free('bg', [0x41]), free('udh', [None])], ucs2_case,
              skip=lambda c: c['i'] != c['n'] - 1),
        Space('UCS2: every length and position',
              [free('n', range(71)), free('i', range(70)),
               free('v', [0, 0x4e2d, 0xffff, 0x00e9]), free('bg', [0x41, 0xfffd]),
               free('udh', udhs)], ucs2_case,
              skip=lambda c: out_of_range(c) or (c['udh'] is not None and c['n'] > 67)),
        Space('digit strings',
              [free('n', range(0, 33)), free('i', range(32)),
               free('d', list('0123456789')), free('s', range(10))],
              digits_case, skip=out_of_range),
        Space('nibble swap', [free('a%d' % i, [None, '0', 'f', 'A']) for i in range(6 if q else 8)],
              swap_case, skip=gap),
        Space('hex helpers', [free('a', range(256)), free('b', [None] + range(256))],
              hex_case),
    ]

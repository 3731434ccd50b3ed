# -*- coding: utf-8 -*-
"""GSM 03.38 codec: every character/byte, every pair, all short class words"""
from engine import Space, free, dev, Violation
import ref_gsm
import messaging.sms.gsm0338 as G

MODES = ('strict', 'ignore', 'replace')


def ref_encode(text, mode):
    out = []
    for c in text:
        e = ref_gsm.ENC.get(c)
        if e is not None:
            out.extend(e)
        elif mode == 'strict':
            return None
        elif mode == 'replace':
            out.append(ref_gsm.REPLACE.get(c, 0x3f))
    return ''.join([chr(x) for x in out])


def ref_decode(octets, mode):
    out = []
    i, n = 0, len(octets)
    while i < n:
        b = octets[i]
        i += 1
        if b == 0x1b:
            if i < n:
                out.append(ref_gsm.EXT.get(octets[i], u'\xa0'))
                i += 1
            else:
                out.append(u'\xa0')
        elif b < 0x80:
            out.append(ref_gsm.BASIC[b])
        elif mode == 'strict':
            return None
        elif mode == 'replace':
            out.append(u'?')
    return u''.join(out)


def check_text(text, ctx):
    for mode in MODES:
        want = ref_encode(text, mode)
        st, got = ctx.call(text.encode, 'gsm0338', mode)
        if want is None:
            if st == 'ok':
                ctx.fail('strict encoding of %r accepted: %r' % (text, got))
            if not isinstance(got, UnicodeError):
                ctx.fail('strict encoding of %r raised %r' % (text, got))
        else:
            if st != 'ok':
                ctx.fail('encoding %r (%s) raised %r' % (text, mode, got))
            ctx.eq(got, want, 'encoding %r (%s)' % (text, mode))
    want = ref_encode(text, 'strict')
    ctx.eq(bool(ctx.must('is_gsm_text', G.is_gsm_text, text)), want is not None,
           'is_gsm_text(%r)' % text)
    if want is not None:
        ctx.eq(ctx.must('decode', want.decode, 'gsm0338'), text,
               'decoding what was encoded')
        return 'representable'
    return 'not representable'


def check_bytes(octets, ctx):
    s = ''.join([chr(b) for b in octets])
    res = 'ok'
    for mode in MODES:
        want = ref_decode(octets, mode)
        st, got = ctx.call(s.decode, 'gsm0338', mode)
        if want is None:
            res = 'refused'
            if st == 'ok':
                ctx.fail('strict decoding of %r accepted: %r' % (s, got))
            if not isinstance(got, UnicodeError):
                ctx.fail('strict decoding of %r raised %r' % (s, got))
        else:
            if st != 'ok':
                ctx.fail('decoding %r (%s) raised %r' % (s, mode, got))
            ctx.eq(got, want, 'decoding %r (%s)' % (s, mode))
    return res


def one_char(cfg, ctx):
    return check_text(unichr(cfg['c']), ctx)


def words(cfg, ctx):
    return check_text(u''.join([cfg[k] for k in sorted(cfg)]), ctx)


def bytes_(cfg, ctx):
    return check_bytes([cfg[k] for k in sorted(cfg) if cfg[k] is not None], ctx)


def long_text(cfg, ctx):
    base = ref_gsm.ALPHABET
    s = cfg['shift']
    t = (base[s:] + base[:s]) * 3
    t = t[:cfg['n']]
    if cfg['bad'] is not None and cfg['bad'] < len(t):
        i = cfg['bad']
        t = t[:i] + u'\u0416' + t[i + 1:]
    return check_text(t, ctx)


def long_bytes(cfg, ctx):
    t = [(i * 37 + cfg['shift']) % 127 for i in range(cfg['n'])]
    t = [b if b != 0x1b else 0x41 for b in t]
    i = cfg['at']
    if i is not None:
        for k, b in enumerate(cfg['what']):
            if i + k < len(t):
                t[i + k] = b
    return check_bytes(t, ctx)


def gap_words(cfg):
    seen = False
    for k in sorted(cfg):
        if cfg[k] is None:
            seen = True
        elif seen:
            return True
    return False


def spaces(tier):
    q = tier != 'thorough'
    # every BMP scalar value plus a few beyond it
    chars = [c for c in xrange(0x10000) if not 0xd800 <= c < 0xe000]
    chars += [0x10000, 0x1f600, 0x10ffff]
    alpha = list(ref_gsm.ALPHABET)
    more = [u'\x1b', u'\xa0', u'\u00e7', u'\u0391', u'\u0416', u'\u4e2d',
            u'\u00c8', u'`', u'\x00', u'\x7f', u'\u0100']
    cls = [u'', u'a', u'@', u'\u20ac', u'e', u'[', u'<', u'\n', u'\u00e7',
           u'\u0416', u'\x1b']
    bcls = [None, 0x1b, 0x65, 0x00, 0x41, 0x0a, 0x3c, 0x40, 0x7f, 0x80, 0xff,
            0x1c]
    d = 4 if q else 6
    out = [
        Space('every character', [free('c', chars)], one_char),
        Space('every ordered pair of characters',
              [free('a', alpha + more), free('b', alpha + more)], words),
        Space('words over character classes',
              [free('c%d' % i, cls) for i in range(d)], words,
              note='up to %d characters' % d),
        Space('every pair of bytes',
              [free('b0', range(256)), free('b1', [None] + range(256))],
              bytes_),
        Space('words over byte classes',
              [free('b%d' % i, bcls) for i in range(d)], bytes_,
              skip=gap_words),
        Space('long texts', [free('n', range(0, 330)), free('shift', [0, 5, 50, 100]),
                             free('bad', [None, 0, 1, 80, 152, 159, 160, 200, 255, 256, 300])], long_text),
        Space('long byte strings', [free('n', range(0, 330, 1 if not q else 3) + [159, 160, 161, 254, 255, 256, 1000]), free('shift', [0, 64]),
                                    free('at', [None, 0, 1, 79, 151, 152, 158, 159, 160, 254, 255, 256]), free('what', [(0x1b, 0x65), (0x1b, 1), (0x80,)])],
              long_bytes),
    ]
    if not q:
        out.append(Space('every triple of special characters',
                         [free('a', list(ref_gsm.EXT_CHARS) + more + alpha[::3]),
                          free('b', list(ref_gsm.EXT_CHARS) + more + alpha[::3]),
                          free('c', list(ref_gsm.EXT_CHARS) + more + alpha[::3])],
                         words))
        out.append(Space('escape byte followed by every pair',
                         [free('b0', [0x1b, 0x80, 0x65]), free('b1', range(256)),
                          free('b2', range(256))], bytes_))
    return out

# -*- coding: utf-8 -*-
"""DELIVER decoding, field for field"""
from engine import Space, free, dev
import dcommon
from dcommon import Addr, Text, digits, ie_filler, fits, check_deliver
import ref_gsm
import ref_sms
from messaging.sms import SmsDeliver

CONCAT = [0, 3, 0x42, 2, 1]


def case(cfg, ctx):
    text, udh = cfg['text'], cfg['udh']
    if not fits(text, udh):
        return 'does not fit'
    check_deliver(ctx, SmsDeliver, cfg['addr'], text, cfg['csca'], cfg['pid'],
                  text.fmt if cfg['dcs'] is None else cfg['dcs'] | text.fmt, udh, cfg['ts'],
                  fo=cfg['fo'], lower=cfg['lower'], strict=cfg['strict'], smsc_ton=cfg['smsc_ton'])
    return 'alphabet %d, header %s' % (text.fmt, udh is not None)


def other_type(cfg, ctx):
    """only SMS-DELIVER (and status reports) can be decoded"""
    c = BASE
    o = ref_sms.build_deliver(c['addr'].octets(), cfg['fmt'], Text(cfg['fmt'], 'pat', cfg['n']).payload(), csca=cfg['csca'],
                              pid=cfg['pid'], udh=cfg['udh'], ts=ref_sms.scts(*c['ts']), fo=cfg['fo'])
    ctx.refuses('a PDU of type 1: %s' % ref_sms.hexl(o), ValueError, SmsDeliver, ref_sms.hexl(o), cfg['strict'])
    return 'refused'


def full(cfg, ctx):
    c = dict(BASE)
    c.update(cfg)
    if 'ul' in cfg:
        ul = cfg['ul']
        c['udh'] = None if ul is None else ie_filler(ul)
    if 'n' in cfg:
        c['text'] = Text(cfg['fmt'], cfg['kind'], cfg['n'])
    if 'word' in cfg:
        c['addr'] = Addr('alnum', cfg['word'][:cfg['len']])
    return case(c, ctx)


BASE = dict(addr=Addr('num', '+34616585119'), text=Text(0, 'pat', 20), csca='+34607003110',
            pid=0, dcs=None, udh=None, ts=(2012, 3, 4, 5, 6, 7, 4), fo=0x04, lower=False,
            strict=True, smsc_ton=None)


def spaces(tier):
    q = tier != 'thorough'
    addrs = [BASE['addr']]
    for n in range(0, 21):
        addrs += [Addr('num', '+' + digits(n)), Addr('num', digits(n, 9))]
    for t in (0, 2, 3, 4, 6, 7, 1):
        for n in (1, 2, 11, 12):
            addrs.append(Addr('num', digits(n, 3), t))
    for n in range(1, 12):
        addrs += [Addr('alnum', u'Provider Ab'[:n]), Addr('alnum', u'@@@@@@@@@@@'[:n]),
                  Addr('alnum', u'\u00e0' * n)]
    addrs += [Addr('alnum', u'\u20acuro'), Addr('alnum', u'[]{}\\'), Addr('alnum', u'\u0394\u00df@')]
    addrs += [Addr('num', v, t) for v in ('*100#', '#', '*', 'a', 'bc', '1a2b3c', '#*#*#*#*', '0*9#8a7b6c5', 'c' * 20) for t in (None, 1, 6)]
    texts = [BASE['text']] + [Text(0, 'pat', n) for n in range(0, 161)] + \
        [Text(0, k, n) for k in ('7f', '00') for n in (1, 6, 7, 8, 9, 15, 16, 159, 160)] + \
        [Text(0, 'esc', n) for n in (2, 3, 8, 14, 16, 159, 160)] + \
        [Text(4, 'pat', n) for n in range(0, 141, 7)] + [Text(4, 'ff', 140), Text(4, '00', 9)] + \
        [Text(8, 'pat', n) for n in range(0, 71, 5)]
    udhs = [None, CONCAT] + [ie_filler(n) for n in (0, 2, 3, 4, 5, 6, 7, 8, 9, 12, 20)] + \
        [[8, 4, 1, 2, 3, 1], [5, 4, 0x0b, 0x84, 0x23, 0xf0], CONCAT + [5, 4, 0x0b, 0x84, 0x23, 0xf0],
         [4, 2, 1, 2]]
    csc = [BASE['csca'], None] + [p + digits(n, 2) for n in range(1, 21) for p in ('', '+')]
    ts = [BASE['ts'], (2000, 1, 1, 0, 0, 0, 0), (2012, 2, 29, 23, 59, 59, -32), (2068, 12, 31, 23, 45, 1, -79),
          (2001, 10, 20, 3, 30, 9, 79), (2009, 9, 9, 9, 9, 9, 1), (2019, 7, 8, 20, 50, 40, -1), (2012, 12, 31, 23, 59, 0, -8),
          (2012, 1, 1, 0, 10, 0, 23)]
    fos = [0x04, 0x00, 0x20, 0x24, 0x80, 0x84, 0xa4, 0x03, 0x07]
    dims = [dev('addr', addrs), dev('text', texts), dev('csca', csc), dev('pid', range(256)),
            dev('dcs', [None, 0x10, 0x11, 0x12, 0x13, 0xf0, 0xf1, 0x40]), dev('udh', udhs), dev('ts', ts),
            dev('fo', fos), dev('lower', [False, True]), dev('strict', [True, False]),
            dev('smsc_ton', [None, 0, 1, 2, 3, 5, 6, 7])]
    if not q:
        fewer = [dev('addr', addrs[:1] + addrs[1::4]), dev('text', texts[:1] + texts[1::9]),
                 dev('csca', csc[:2] + csc[2::6]), dev('pid', [0, 1, 0x7f, 0xff]), dims[4], dims[5], dims[6],
                 dims[7], dims[8], dims[9], dims[10]]
    words = [u'ABCDEFGHIJK', u'@@@@@@@@@@@', u'\u00e0' * 11, u'a@\u00a3 _z0\u00e0@b@', u'xxxxxx@@@@@']
    # reserved combination: UCS2 with group 1111 does not exist
    bad = lambda c: c['dcs'] == 0xf0 | 8
    out = [
        Space('all options, deviation bounded', dims, case, k=2,
              skip=lambda c: (c['dcs'] in (0xf0, 0xf1) and c['text'].fmt == 8)),
        Space('other types of PDU', [free('fo', [f | 1 for f in range(0, 256, 4)]), free('fmt', [0, 4, 8]), free('n', [0, 1, 20]),
                                     free('csca', [None, '+34607003110']), free('pid', [0, 0x7f]), free('udh', [None, CONCAT]),
                                     free('strict', [True, False])], other_type),
        Space('every header length with every 7-bit text length',
              [free('ul', [None] + range(0, 140)), free('n', range(0, 161)), free('kind', ['pat', '7f']),
               free('fmt', [0])], full,
              skip=lambda c: c['ul'] == 1 or (c['ul'] is not None and ((c['ul'] + 1) * 8 + 6) // 7 + c['n'] > 160)
              or (q and c['kind'] == '7f' and c['ul'] is not None and (c['ul'] % 7 != c['n'] % 7))),
        Space('every header length with 8-bit and UCS2 text',
              [free('ul', [None] + range(0, 140)), free('n', range(0, 141)), free('kind', ['pat']),
               free('fmt', [4, 8])], full,
              skip=lambda c: c['ul'] == 1 or (c['n'] * (c['fmt'] // 4)) + (0 if c['ul'] is None else c['ul'] + 1) > 140
              or (q and (c['n'] % 3 == 1 and c['fmt'] == 4))),
        Space('every character value in the text',
              [free('text', [Text(0, 'one', c) for c in range(128) if c != 0x1b] +
                    [Text(4, 'one', c) for c in range(256)] +
                    [Text(8, 'one', c) for c in range(0x10000) if not 0xd800 <= c < 0xe000])],
              lambda c, ctx: full(c, ctx)),
        Space('alphanumeric senders', [free('word', words), free('len', range(1, 12)),
                                       free('text', [Text(0, 'pat', 0), Text(0, 'pat', 9), Text(8, 'pat', 3)]),
                                       free('csca', [None, '+3460700311'])], full),
        Space('every character in an alphanumeric sender',
              [free('addr', [Addr('alnum', u'x' * k + c) for c in ref_gsm.ALPHABET for k in range(0, 9)])], full),
        Space('every digit position of senders and service centres',
              [free('n', range(1, 21)), free('i', range(20)), free('d', list('0123456789*#abc')), free('plus', ['', '+'])],
              digit_case, skip=lambda c: c['i'] >= c['n']),
    ]
    if not q:
        out.append(Space('three deviations', fewer, case, k=3,
                         skip=lambda c: (c['dcs'] in (0xf0, 0xf1) and c['text'].fmt == 8)))
    return out


def digit_case(cfg, ctx):
    d = ['5'] * cfg['n']
    d[cfg['i']] = cfg['d']
    num = cfg['plus'] + ''.join(d)
    c = dict(BASE)
    c['addr'] = Addr('num', num)
    c['csca'] = num
    return case(c, ctx)

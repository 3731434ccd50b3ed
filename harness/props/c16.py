# -*- coding: utf-8 -*-
"""MMS headers: encode, read with an independent parser and with the library"""
import itertools
from engine import Space, free, dev
import ref_mms as M
import ref_wsp as W
from messaging.mms.message import MMSMessage
from messaging.mms.wsp_pdu import EncodeError

CH = ['a', 'Z', '"', '\x7f', '\x00', '\x80', '\xff', '\x1f', '\n', ' ', '0', '\x05', '/', '\xe9', '<', '\t']
TEXTS = ('Bcc', 'Cc', 'To', 'Subject', 'Response-Text', 'Message-ID', 'Transaction-Id', 'From', 'X-Foo', 'Expires')


def message(headers, drop=()):
    m = MMSMessage()
    for k in drop:
        del m.headers[k]
    for k, v in headers:
        m.headers[k] = v
    return m


def roundtrip(ctx, headers, what, drop=(), expect=None):
    """headers: list of (name, value)"""
    m = message(headers, drop)
    want = dict(M.DEFAULTS)
    for k, v in headers:
        if k in ('X-Mms-Message-Type', 'X-Mms-Transaction-Id'):
            k = k[6:]
        elif k == 'X-Mms-Version':
            k = 'MMS-Version'
        want[k] = v
    if want['Message-Type'] == 'm-send-req' and not ('To' in want or 'Cc' in want or 'Bcc' in want):
        want['Message-Type'] = 'm-retrieve-conf'
    if expect:
        want.update(expect)
    data = ctx.must('encoding %s' % what, m.encode)
    wire = dict(want)
    if wire.get('From') == '':
        wire['From'] = None
    try:
        hs, parts = M.parse(list(data))
        got = M.as_dict(hs)
    except W.Bad, e:
        ctx.fail('%s: the PDU is not well-formed: %s: %r' % (what, e, data.tostring()[:300]))
    for d in drop:
        # chosen by the library
        if d == 'Transaction-Id' and got.get(d, '').isdigit():
            want[d] = wire[d] = got[d]
    ctx.eq(got, wire, '%s: headers on the wire' % what)
    ctx.eq(len(parts), 1, '%s: parts on the wire' % what)
    back = ctx.must('decoding %s' % what, MMSMessage.from_data, data)
    if want.get('From') == '':
        want['From'] = '<not inserted>'
    ctx.eq(back.headers, want, '%s: decoded headers' % what)
    for k, v in back.headers.items():
        if isinstance(want[k], basestring) != isinstance(v, basestring):
            ctx.fail('%s: %s decoded as %r' % (what, k, v))
    ctx.eq(len(back.data_parts), 1, '%s: decoded parts' % what)
    return want


def one_text(cfg, ctx):
    for tail in cfg['tails']:
        s = cfg['head'] + tail
        for name in TEXTS:
            h = [(name, s)]
            if '\x00' in s:
                ctx.refuses('%s: %r' % h[0], EncodeError, message(h).encode)
            else:
                roundtrip(ctx, h, '%s: %r' % h[0])
    return 'refused' if '\x00' in cfg['head'] else 'ok'


def lengths(cfg, ctx):
    h = [(cfg['name'], cfg['c'] * cfg['n'])]
    roundtrip(ctx, h, '%s of %d characters' % (cfg['name'], cfg['n']))
    return cfg['name']


def kinds(cfg, ctx):
    """message type, destinations and the X-Mms- spelling"""
    h, drop = [], []
    for n in ('To', 'Cc', 'Bcc'):
        if cfg[n]:
            h.append((n, '+1234/TYPE=PLMN'))
    for k, x in (('Message-Type', 'X-Mms-Message-Type'), ('Transaction-Id', 'X-Mms-Transaction-Id'),
                 ('MMS-Version', 'X-Mms-Version')):
        v, how = cfg[k]
        if how == 'drop':
            drop.append(k)
        elif how == 'keep':
            pass
        elif how == 'both':
            h.append((k, M.DEFAULTS[k]))
            h.append((x, v))
        elif how == 'x':
            drop.append(k)
            h.append((x, v))
        else:
            h.append((k, v))
    expect = {}
    if 'Message-Type' in drop and cfg['Message-Type'][1] == 'drop':
        expect['Message-Type'] = 'm-retrieve-conf'
    w = roundtrip(ctx, h, '%r' % h, drop, expect)
    return w['Message-Type']


def unknown_type(cfg, ctx):
    """documented: sent as m-send-req"""
    roundtrip(ctx, [('Message-Type', cfg['t']), ('To', '1')], 'type %r' % cfg['t'], (), {'Message-Type': 'm-send-req'})
    return 'ok'


def combos(cfg, ctx):
    h = [(k, cfg[k]) for k in sorted(cfg) if cfg[k] is not None]
    roundtrip(ctx, h, repr(h))
    return '%d headers' % len(h)


def pairs(cfg, ctx):
    h = list(cfg['hs'])
    roundtrip(ctx, h, repr(h))
    return 'ok'


def ctypes(cfg, ctx):
    d = dict([p for p in (cfg['p1'], cfg['p2']) if p is not None])
    roundtrip(ctx, [('Content-Type', (cfg['m'], d))], 'content type %s %r' % (cfg['m'], d))
    return '%d parameters' % len(d)


KNOWN = ('Bcc', 'Cc', 'Content-Location', 'Content-Type', 'Date', 'Delivery-Report', 'Delivery-Time', 'Expiry', 'From', 'Message-Class',
         'Message-ID', 'Message-Type', 'MMS-Version', 'Message-Size', 'Priority', 'Read-Reply', 'Report-Allowed', 'Response-Status',
         'Response-Text', 'Sender-Visibility', 'Status', 'Subject', 'To', 'Transaction-Id')
NAMES = sorted(set([f(k) for k in KNOWN for f in (str.lower, str.upper, str.swapcase, str.capitalize, lambda k: 'X-Mms-' + k,
                                                  lambda k: k + 'x', lambda k: k[:-1], lambda k: 'X-' + k)]) - set(KNOWN) -
               set(['X-Mms-Message-Type', 'X-Mms-Transaction-Id'])) + \
    ['Accept', 'Accept-Charset', 'Age', 'Cache-Control', 'Connection', 'Content-Encoding', 'Content-ID', 'Content-Length', 'ETag',
     'Expires', 'Host', 'Server', 'User-Agent', 'Via', 'Warning', 'WWW-Authenticate', 'Profile', 'Encoding-Version', '0', '5', '~',
     '!#$%&\'*+-.^_`|~', 'A' * 130, 'Name', 'Q', 'Charset', 'headers', 'data']


def named(cfg, ctx):
    h = [(cfg['name'], cfg['v'])] + ([cfg['other']] if cfg['other'] else [])
    roundtrip(ctx, h, repr(h))
    return 'ok'


def refused(cfg, ctx):
    name, v = cfg['h']
    ctx.refuses('%s: %r' % (name, v), None, message([('To', '1'), (name, v)]).encode)
    return name


TXT = ['x', '', 'a b', '<0000>', 'na me.jpg', '"', '\x7f', '\xe9', '1', '1.0', 'a' * 120, '\x05y', 'a;b=c']
PARAMS = [(n, t) for n in ('Name', 'Filename', 'Start', 'Start-info', 'X-foo', 'charset') for t in TXT] + \
    [('Type', t) for t in TXT if t and 32 <= ord(t[0]) < 127] + [('Type', 5), ('Padding', 0), ('Padding', 127), ('Level', '1.2')] + \
    [('X-foo', i) for i in (0, 1, 127, 128, 255, 256, 65536, int(2 ** 31 - 1))]
DATE = M.when(1000000000)


def spaces(tier):
    q = tier != 'thorough'
    chars = [''] + CH
    tails = chars if q else [''.join(t) for n in range(3) for t in itertools.product(CH, repeat=n)]
    one = [''.join(t) for n in range(2) for t in itertools.product(CH, repeat=n)] + \
        [a + b for a in CH for b in CH if '\x00' not in a + b and (not q or CH.index(b) < 8)]
    versions = ['%d.%d' % (a, b) for a in range(0, 10) for b in range(0, 18)] + [str(a) for a in range(20)] + \
        ['', '1.2.4', 'x', '01.0', '1.', '.1', '-1.0', '\x7f', '\xe9', ' 1.0', '"1.0']
    F = free
    nasty = [('To', '\x7f'), ('To', '\xe9'), ('To', ''), ('To', '+34616/TYPE=PLMN'), ('Cc', 'a' * 300), ('Cc', '"x'),
             ('Bcc', 'b@x'), ('From', ''), ('From', 'x' * 28), ('From', 'x' * 29), ('From', '\xe9' * 28), ('From', 'x' * 126),
             ('From', 'x' * 400), ('Subject', ''), ('Subject', '\x1f'), ('Subject', 'caf\xc3\xa9'), ('Response-Text', '\x05'),
             ('Message-ID', '<a@b>'), ('Message-ID', ''), ('Status', 'Expired'), ('Status', 'Unrecognised'),
             ('Message-Size', 0), ('Message-Size', 128), ('Message-Size', 1 << 24), ('X-Foo', ''), ('X-Foo', '\xff'), ('a', 'b'),
             ('Expires', 'never'), ('Server', 'x'), ('MMS-Version', '1'), ('MMS-Version', '1.2.4'), ('MMS-Version', '7.14'),
             ('Transaction-Id', ''), ('Transaction-Id', '\x80'), ('Message-Type', 'm-delivery-ind')]
    sizes = sorted(set([n for b in range(0, 31) for n in ((1 << b) - 1, 1 << b, (1 << b) + 1)])) + [int(2 ** 31 - 1)]
    how = lambda v: [(v, 'plain'), (v, 'keep'), (v, 'x'), (v, 'both'), (v, 'drop')]
    bad = [(n, v) for n, vs in (
        ('Date', [DATE, 0, '']), ('Delivery-Report', [True, False]), ('Delivery-Time', [('relative', 5), ('absolute', 5)]),
        ('Expiry', [DATE, 5]), ('Message-Class', ['Personal', 'x']), ('Priority', ['Low', 'High']), ('Read-Reply', [True, False]),
        ('Report-Allowed', [True, False]), ('Sender-Visibility', ['Hide', 'Show']), ('Content-Location', ['http://x/y']),
        ('Response-Status', ['Ok', 'x']), ('Message-Size', [-1, -128, -65536, '5', None, 2.5]),
        ('To', [5, None, u'\u20ac', 'a\x00b', ['+1', '+2']]), ('Subject', [5, None, u'\u0100', '\x00']), ('From', [5, u'\u20ac', '\x00a']),
        ('Message-ID', [5, u'\u0100']), ('MMS-Version', ['1\x00', 1.0, 5]), ('X-Foo', [5, None, 'a\x00', u'\u20ac']),
        ('X Foo', ['x']), ('', ['x']), ('X\xe9', ['x']), ('X:', ['x']), ('Status', ['Unknown', '', None]),
        ('Transaction-Id', [5, '\x00', None]),
        ('Content-Type', [('image/\x00', {}), ('', {}), ('\x05', {}), ('image/gif', {'Name': 'a\x00'}), ('image/gif', {'a b': 'c'}),
                          ('image/gif', {'X': -1}), ('image/gif', {'Padding': 128})])) for v in vs]
    return [
        Space('one text header', [F('head', one), F('tails', [tails])], one_text,
              note='every header with a text value, all strings of up to 3 (4) characters over 16 classes'),
        Space('text lengths', [F('name', TEXTS), F('c', ['x', '\xe9']),
                               F('n', [0, 1] + range(26, 36) + range(124, 132) + [254, 255, 256, 257, 1000, 16381, 16382, 16383,
                                                                                  16384, 16385])], lengths),
        Space('message type', [F('To', [0, 1]), F('Cc', [0, 1]), F('Bcc', [0, 1]),
                               F('Message-Type', [h for t in M.MTYPES for h in ((t, 'plain'), (t, 'x'), (t, 'both'))] +
                                 [(None, 'keep'), (None, 'drop')]),
                               F('Transaction-Id', how('Ab-9')), F('MMS-Version', how('1.2'))], kinds),
        Space('unknown message type', [F('t', ['m-foo', '', 'M-SEND-REQ', 'm-read-rec-ind'])], unknown_type),
        Space('versions', [F('MMS-Version', versions)], combos),
        Space('sizes', [F('Message-Size', sizes)], combos),
        Space('statuses', [F('Status', M.STATUS), F('Message-Type', M.MTYPES)], combos),
        Space('combinations', [F('To', [None, '+1/TYPE=PLMN']), F('Cc', [None, 'b']), F('Bcc', [None, 'c']),
                               F('From', [None, '', 'me@x']), F('Subject', [None, 'hi there']), F('Response-Text', [None, 't']),
                               F('Message-ID', [None, '<1>']), F('Status', [None, 'Deferred']), F('Message-Size', [None, 70000]),
                               F('X-Foo', [None, 'v w']), F('abc', [None, ''])], combos),
        Space('pairs of headers', [F('hs', [(a, b) for a in nasty for b in nasty if a[0] < b[0]])], pairs),
        Space('triples of headers', [F('hs', [] if q else [
            (a, b, c) for a in nasty for b in nasty for c in nasty if a[0] < b[0] < c[0]])], pairs),
        Space('content types', [F('m', W.MEDIA + ['application/smil', 'x', 'a' * 200] if not q else
                                  ['application/vnd.wap.multipart.related', 'application/vnd.wap.multipart.mixed',
                                   'application/x-smil', '*/*', 'multipart/mixed']),
                                F('p1', [None] + PARAMS), F('p2', [None, ('Start', '<0>'), ('Type', 'application/smil'),
                                                                  ('z', 'y' * 100)])], ctypes,
              skip=lambda c: c['p1'] and c['p2'] and c['p1'][0] == c['p2'][0]),
        Space('media types', [F('m', W.MEDIA + ['application/smil', 'x', 'a' * 200]), F('p1', [None, ('Name', 'x')]),
                              F('p2', [None])], ctypes),
        Space('application headers', [F('name', NAMES), F('v', ['', 'x', 'a b', 'no', '1', '\x80', '\xff"', '128']),
                                      F('other', [None, ('To', '+1'), ('X-Foo', 'y'), ('Subject', 's')])], named,
              note='names that differ from a known header in case only, and names known to WSP'),
        Space('refused', [F('h', bad)], refused),
    ]

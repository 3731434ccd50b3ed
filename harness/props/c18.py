# -*- coding: utf-8 -*-
"""MMS PDUs from an independent encoder"""
import array
import itertools
from engine import Space, free, dev
import ref_mms as M
import ref_wsp as W
from mcommon import Named, pattern, write, cleanup
from messaging.mms.message import MMSMessage

T = W.text
TXT = ['x', '', 'a b', '+34616/TYPE=PLMN', 'me@example.com', '\xe9', 'caf\xc3\xa9', '"q', ' ', 'a' * 29, 'a' * 30, 'a' * 31,
       'a' * 127, 'a' * 300, '0', '\x7fdel', '\x05', '\n', '\x1f', '\xff\xfe']
CS = [0x6a, 3, 4, 0x7ea, 0x11, 0x3e8, 0x7f, 0x80, 1000, 2252]


def strings(name):
    out = []
    for s in TXT:
        out.append((name, s, T(s, True)))
        if not s or ord(s[0]) < 127 and ord(s[0]) > 31:
            out.append((name, s, T(s)))
        for cs in CS if s in ('x', '', 'caf\xc3\xa9', '\x05', 'a' * 29, 'a' * 30, 'a' * 300) else [0x6a]:
            b = W.integer(cs) + T(s, None if s[:1] != '\x7f' else True)
            out.append((name, s, W.vlen(len(b)) + b))
        b = W.long_(0x6a) + T(s, True)
        out.append((name, s, W.vlen(len(b), True) + b))
        b = [128] + T(s, True)                           # any charset
        out.append((name, s, W.vlen(len(b)) + b))
    return out


def plain_texts(name):
    out = []
    for s in TXT:
        out.append((name, s, T(s, True)))
        if not s or ord(s[0]) < 127:
            out.append((name, s, T(s)))
    return out


LONGS = sorted(set([0, 1, 127, 128, 255, 256, 29696, 65535, 65536, 2 ** 24 - 1, 2 ** 24, int(2 ** 31 - 1)]))
TIMES = [0, 1, 1072915200, 1109635200, 951782400, 951868799, 1234567890, 255, 256, 65535, int(2 ** 31 - 1)]


def catalogue():
    c = []
    for n in ('Bcc', 'Cc', 'To', 'Subject', 'Response-Text'):
        c += strings(n)
    for n in ('Content-Location', 'Message-ID', 'Transaction-Id'):
        c += plain_texts(n)
    for v in TIMES:
        for o in (None, 4, 6):
            c.append(('Date', M.when(v), W.long_(v, o)))
            c.append(('Expiry', M.when(v), M.expiry('absolute', v, o)))
            c.append(('Delivery-Time', ('absolute', v), M.expiry('absolute', v, o)))
        c.append(('Expiry', M.when(v), M.expiry('absolute', v, None, True)))
    for v in LONGS:
        for o in (None, 4, 5):
            for qt in (False, True):
                c.append(('Expiry', v, M.expiry('relative', v, o, qt)))
                c.append(('Delivery-Time', ('relative', v), M.expiry('relative', v, o, qt)))
            c.append(('Message-Size', v, W.long_(v, o)))
    for n in ('Delivery-Report', 'Read-Reply', 'Report-Allowed'):
        c += [(n, True, [128]), (n, False, [129])]
    for i, v in enumerate(M.CLASSES):
        c.append(('Message-Class', v, [128 + i]))
    for v in ('x-class', 'Personal', 'a', 'y' * 50):
        c.append(('Message-Class', v, W.raw(v) + [0]))
    for i, v in enumerate(M.PRIORITIES):
        c.append(('Priority', v, [128 + i]))
    c += [('Sender-Visibility', 'Hide', [128]), ('Sender-Visibility', 'Show', [129])]
    for i, v in enumerate(M.RSTATUS):
        c.append(('Response-Status', v, [128 + i]))
    for i, v in enumerate(M.STATUS):
        c.append(('Status', v, [128 + i]))
    for i, v in enumerate(M.MTYPES):
        c.append(('Message-Type', v, [128 + i]))
    for a in range(1, 8):
        for b in range(15):
            c.append(('MMS-Version', '%d.%d' % (a, b), [128 + a * 16 + b]))
        c.append(('MMS-Version', '%d' % a, [128 + a * 16 + 15]))
    for v in ('1.0', '1.2.3', '8.0', '', 'x'):
        c.append(('MMS-Version', v, T(v)))
    for qt in (False, True):
        c.append(('From', '<not inserted>', M.from_(None, quote=qt)))
        for s in TXT:
            b = [128] + T(s, True)
            c.append(('From', s, W.vlen(len(b), qt) + b))
            for cs in (0x6a, 4, 1000):
                c.append(('From', s, M.from_(s, cs, qt) if s[:1] != '\x7f' else W.vlen(len(b), qt) + b))
    return [(n, v, M.field(n, o)) for n, v, o in c]


APP = [(n, v, M.app_field(n, v)) for n in ('X-Foo', 'a', 'To', 'x' * 80) for v in ('', 'x', 'a b', '\xe9', 'z' * 200)]
APP += [(n, v, W.raw(n) + [0] + T(v, True)) for n, v in (('X-Foo', 'q'), ('b', ''))]
CAT = catalogue()
FIRST = {'Message-Type': ('Message-Type', 'm-retrieve-conf', [0x8c, 0x84]),
         'Transaction-Id': ('Transaction-Id', 'T1', [0x98, 0x54, 0x31, 0]),
         'MMS-Version': ('MMS-Version', '1.1', [0x8d, 0x91])}
# one or more representatives of every kind of header
REP = []
for _n in sorted(M.NUMBER):
    if _n != 'Content-Type':
        _c = [h for h in CAT if h[0] == _n]
        REP += [_c[0]] if _n in FIRST else [_c[0], _c[-1]]
REP += [APP[2]]


def part_case(ctype, octets, hs, data):
    return octets, hs, data


def expected(hs):
    d = dict(M.DEFAULTS)
    for n, v, o in hs:
        d[n] = v
    return d


def pdu(hs):
    out = []
    for h in hs:
        out += h[2]
    return out


def decode(ctx, octets, what, how=0):
    if how == 1:
        path = write('pdu.mms', ''.join([chr(b) for b in octets]))
        return ctx.must('decoding the file ' + what, MMSMessage.from_file, path)
    return ctx.must('decoding ' + what, MMSMessage.from_data, array.array('B', octets))


def same(ctx, m, hs, parts, what):
    want = expected(hs)
    ctx.eq(m.headers, want, '%s: headers' % what)
    for k, v in want.items():
        if type(m.headers[k]) != type(v) and not (isinstance(v, (int, long)) and isinstance(m.headers[k], (int, long)) and
                                                  not isinstance(v, bool)):
            ctx.fail('%s: %s is %r, expected %r' % (what, k, m.headers[k], v))
    ctx.eq(m.content_type, want['Content-Type'][0], '%s: content type' % what)
    got = m.data_parts
    ctx.eq(len(got), len(parts), '%s: number of parts' % what)
    for i, (p, w) in enumerate(zip(got, parts)):
        h = dict(p.headers)
        ct = h.pop('Content-Type', None)
        ctx.eq(ct, w[0], '%s: content type of part %d' % (what, i))
        ctx.eq((p.content_type, p.content_type_parameters), w[0], '%s: content type of part %d' % (what, i))
        ctx.eq(h, w[1], '%s: headers of part %d' % (what, i))
        ctx.eq(p.data, w[2], '%s: data of part %d' % (what, i))
        ctx.eq(len(p), len(w[2]), '%s: length of part %d' % (what, i))


def one(cfg, ctx):
    """one header among the obligatory ones, at every place"""
    h = cfg['h']
    base = [FIRST[k] for k in ('Message-Type', 'Transaction-Id', 'MMS-Version') if k != h[0]]
    for i in range(len(base) + 1):
        hs = base[:i] + [h] + base[i:]
        for tail in (0, 1, 2):
            o = pdu(hs)
            want = hs
            parts = []
            if tail:
                want = hs + [('Content-Type', ('application/vnd.wap.multipart.mixed', {}), [])]
                o = o + [0x84, 0xa3]
            if tail == 2:
                o = o + M.body([M.part(W.media('image/gif'), [], [1, 2, 0])])
                parts = [(('image/gif', {}), {}, '\x01\x02\x00')]
            same(ctx, decode(ctx, o, '%s=%r' % h[:2]), want, parts, '%s=%r (%r)' % (h[0], h[1], h[2]))
            ctx.op()
    return h[0]


def sequence(cfg, ctx):
    hs = [h for h in cfg['hs']]
    same(ctx, decode(ctx, pdu(hs), repr([h[:2] for h in hs])), hs, [], repr([h[:2] for h in hs]))
    return 'ok'


def permutation(cfg, ctx):
    hs = [cfg['hs'][i] for i in cfg['order']]
    hs = hs + [('Content-Type', ('application/vnd.wap.multipart.related', {}), [0x84, 0xb3])]
    o = pdu(hs) + M.body([M.part(W.media('text/plain'), [0x8e] + T('l'), [65])])
    same(ctx, decode(ctx, o, 'a permutation', cfg['how']), hs, [(('text/plain', {}), {'Content-Location': 'l'}, 'A')],
         repr([h[:2] for h in hs]))
    return 'ok'


def ct(m, params, opts=(False, False)):
    """name, decoded, octets; params: (number or name, octets, decoded name, decoded value)"""
    d = {}
    o = []
    for no, v, name, val in params:
        d[name] = val
        o.append(W.param(no, v))
    return (m, d), W.content_type(m, o, *opts)


PAR = [(0, W.uintvar(11), 'Q', 0.1), (1, W.short(0x6a), 'Charset', 'utf-8'), (1, W.short(3), 'Charset', 'us-ascii'),
       (1, [0x80], 'Charset', '*'), (1, W.long_(0x3e8), 'Charset', 'iso-10646-ucs-2'), (1, W.long_(0x7ea), 'Charset', 'big5'),
       (2, W.short(0x12), 'Level', '1.2'), (3, W.short(5), 'Type', 5), (3, W.long_(300), 'Type', 300), (5, T('n'), 'Name', 'n'),
       (5, T(''), 'Name', ''), (6, T('\xe9.jpg', True), 'Filename', '\xe9.jpg'), (6, T('f' * 140), 'Filename', 'f' * 140),
       (8, W.short(0), 'Padding', 0), (9, W.media('application/smil'), 'Type', 'application/smil'), (9, W.short(0x33), 'Type', 0x33),
       (10, T('<0000>'), 'Start', '<0000>'), (10, T('0.smil'), 'Start', '0.smil'), (11, T('i'), 'Start-info', 'i'),
       ('x-tok', W.raw('tok') + [0], 'x-tok', 'tok'), ('x', W.quoted('a b'), 'x', 'a b'), ('y', [0], 'y', ''),
       ('z', W.short(0), 'z', 0), ('w', W.long_(1000), 'w', 1000), ('name', T('lower'), 'name', 'lower')]
CTS = ['image/jpeg', 'text/plain', 'application/smil', 'audio/amr', 'application/vnd.wap.multipart.related', '*/*',
       'application/vnd.wap.multipart.mixed', 'application/vnd.oma.drm.rights+wbxml', 'a' * 130]


def ctypes(cfg, ctx):
    ps = [p for p in (cfg['p1'], cfg['p2'], cfg['p3']) if p is not None]
    dec, o = ct(cfg['m'], ps, cfg['form'])
    # as the header of the message and of a part
    hs = [FIRST['Message-Type'], ('Content-Type', dec, [0x84] + o)]
    b = M.body([M.part(o, [], [1, 2]), M.part(o, [0x8e] + T('l'), []), M.part(W.media('image/gif'), [], [0])])
    same(ctx, decode(ctx, pdu(hs) + b, 'content type %r' % (dec,)), hs,
         [(dec, {}, '\x01\x02'), (dec, {'Content-Location': 'l'}, ''), (('image/gif', {}), {}, '\x00')],
         'content type %r' % (dec,))
    return '%d parameters' % len(ps)


PH = [[], [('Content-Location', 'l.jpg', [0x8e] + T('l.jpg'))], [('Content-ID', '<1>', [0xc0] + W.quoted('<1>'))],
      [('Content-ID', '<2>', [0xc0] + T('<2>'))], [('Content-ID', '<3>', W.raw('Content-ID') + [0] + T('<3>'))],
      [('X-foo', 'bar', W.raw('X-foo') + [0] + T('bar'))], [('X-foo', '', W.raw('X-foo') + [0] + T(''))],
      [('Content-Location', '', [0x8e] + T(''))], [('Content-Location', '\xe9', [0x8e] + T('\xe9', True))],
      [('Content-Location', 'l' * 200, [0x8e] + T('l' * 200))],
      [('X-foo', '\xff', W.raw('X-foo') + [0] + T('\xff', True))], [('To', 'a', W.raw('To') + [0] + T('a'))]]
PH += [a + b for a in PH[1:] for b in PH[1:] if a[0][0] != b[0][0]]
PH += [PH[1] + PH[2] + PH[5], PH[5] + PH[2] + PH[1]]


def part(ctype, hs, data, lens=(None, None)):
    dec, o = ctype
    ho = []
    d = {}
    for n, v, x in hs:
        ho += x
        d[n] = v
    return M.part(o, ho, [ord(c) for c in data], lens), (dec, d, data)


def build(ctx, parts, what, mtype='application/vnd.wap.multipart.mixed', how=0, count=None):
    hs = [FIRST['Message-Type'], FIRST['Transaction-Id'], FIRST['MMS-Version'],
          ('Content-Type', (mtype, {}), [0x84] + W.media(mtype))]
    o = pdu(hs) + M.body([p[0] for p in parts], count)
    same(ctx, decode(ctx, o, what, how), hs, [p[1] for p in parts], what)
    return '%d parts' % len(parts) if len(parts) < 9 else 'many parts'


def part_headers(cfg, ctx):
    c = ct(cfg['m'], [cfg['p']] if cfg['p'] else [])
    return build(ctx, [part(c, cfg['hs'], 'data\x00'), part(ct('text/plain', []), [], 'end')], repr(cfg['hs'])[:200])


def part_sizes(cfg, ctx):
    for n in cfg['ns']:
        d = pattern(cfg['content'], n)
        build(ctx, [part(ct('image/gif', []), PH[1], d, (cfg['hl'], cfg['dl'])), part(ct('text/plain', []), [], 'end')],
              'part of %d octets' % n)
    return 'ok'


def part_counts(cfg, ctx):
    return build(ctx, [part(ct('image/gif', []), PH[i % 4], str(i)) for i in range(cfg['n'])], '%d parts' % cfg['n'],
                 count=cfg['octets'], how=cfg['how'])


SOME = [part(ct('image/gif', []), [], ''), part(ct('audio/amr', [PAR[9]]), PH[1], '\x00\x84\xff'),
        part(ct('application/smil', [PAR[1]]), PH[2] + PH[1], '<smil/>'), part(ct('text/plain', [PAR[2]]), PH[5], 'x' * 200),
        part(ct('image/jpeg', [], (True, True)), PH[4], '\xff\xd8'),
        part(ct('application/vnd.wap.multipart.related', [PAR[14], PAR[16]]), [], '\x01\x02\x02\x80\x80ab'),
        part(ct('x', []), PH[9], 'y' * 128)]


def part_lists(cfg, ctx):
    return build(ctx, [SOME[i] for i in cfg['parts']], 'parts %r' % (cfg['parts'],), cfg['m'])


def repeated(cfg, ctx):
    """several recipients: the header occurs several times"""
    n = cfg['h']
    hs = [FIRST['Message-Type'], (n, 'first', M.field(n, T('first'))), (n, 'second', M.field(n, T('second')))]
    m = decode(ctx, pdu(hs), '%s twice' % n)
    v = m.headers.get(n)
    if 'first' not in v or 'second' not in v:
        ctx.fail('%s occurs twice, the message only shows %r' % (n, v))
    return 'ok'


UNKNOWN = [('Message-Type', b, '<unknown>') for b in range(0x87, 0x100)] + \
    [('Response-Status', b, 'Error-unspecified') for b in range(0x89, 0x100)] + \
    [('Status', b, 'Unrecognised') for b in range(0x85, 0x100)]


def unknown(cfg, ctx):
    """values of later versions: what follows is still read"""
    n, b, v = cfg['u']
    hs = [(n, v, M.field(n, [b])), FIRST['Transaction-Id'], ('Subject', 's', M.field('Subject', T('s')))]
    same(ctx, decode(ctx, pdu(hs), '%s 0x%02x' % (n, b)), hs, [], '%s 0x%02x' % (n, b))
    return n


def rep(hs):
    return Named(repr([h[:2] for h in hs])[:200], hs)


def spaces(tier):
    q = tier != 'thorough'
    F = free
    two = [[a, b] for a in CAT for b in REP if a[0] != b[0]] + [[b, a] for a in CAT for b in REP if a[0] != b[0]]
    reps1 = [h for i, h in enumerate(REP) if i == 0 or REP[i - 1][0] != h[0]]
    three = [list(t) for t in itertools.permutations(reps1, 3)]
    four = [] if q else [list(t) for t in itertools.permutations(reps1, 4)]
    groups = [[FIRST['Message-Type'], FIRST['Transaction-Id'], FIRST['MMS-Version']] + [h for h in REP if h[0] == n][:1]
              for n in sorted(M.NUMBER) if n not in FIRST and n != 'Content-Type']
    groups5 = [[FIRST['Message-Type'], FIRST['Transaction-Id'], FIRST['MMS-Version']] +
               [[h for h in REP if h[0] == n][-1] for n in names] for names in (
                   ('From', 'Subject'), ('To', 'Cc'), ('Date', 'Expiry'), ('Delivery-Time', 'Priority'),
                   ('Message-Class', 'Message-Size'), ('Content-Location', 'From'), ('Status', 'Message-ID'),
                   ('Response-Status', 'Response-Text'))]
    return [
        Space('one header', [F('h', CAT + APP)], one, note='every header of the catalogue at every place'),
        Space('two headers', [F('hs', two)], sequence),
        Space('three headers', [F('hs', three)], sequence),
        Space('four headers', [F('hs', four)], sequence),
        Space('orders of four headers', [F('hs', groups), F('order', list(itertools.permutations(range(4)))), F('how', [0, 1])],
              permutation, skip=lambda c: q and c['how'] and c['order'][0] != 3),
        Space('orders of five headers', [F('hs', groups5), F('order', list(itertools.permutations(range(5)))), F('how', [0])],
              permutation),
        Space('content types', [F('m', CTS), F('p1', [None] + PAR), F('p2', [None] + PAR), F('p3', [None] if q else [None] + PAR[::3]),
                                F('form', [(False, False), (True, True)])], ctypes,
              skip=lambda c: len(set([p[2] for p in (c['p1'], c['p2'], c['p3']) if p])) <
              len([p for p in (c['p1'], c['p2'], c['p3']) if p]) or
              (q and c['form'][0] and c['p1'] and c['p2'] and c['m'] not in CTS[1:3])),
        Space('media types', [F('m', W.MEDIA), F('p1', [None, PAR[9]]), F('p2', [None]), F('p3', [None]),
                              F('form', [(False, False), (True, False), (True, True)])], ctypes),
        Space('part headers', [F('m', ['image/jpeg', 'audio/amr']), F('p', [None, PAR[1], PAR[9]]), F('hs', PH)], part_headers),
        Space('part sizes', [F('content', ['count', 'zero', 'ff']), F('hl', [None, 2, 4]), F('dl', [None, 3, 4]),
                             F('ns', [range(0, 20), range(120, 136), [16383, 16384]] + ([] if q else [range(20, 120)]))], part_sizes),
        Space('part counts', [F('n', range(0, 8) + [126, 127, 128, 129]), F('octets', [None, 2, 4]), F('how', [0, 1])], part_counts),
        Space('part lists', [F('m', ['application/vnd.wap.multipart.mixed', 'application/vnd.wap.multipart.related']),
                             F('parts', [t for n in range(4) for t in itertools.product(range(len(SOME)), repeat=n)])], part_lists),
        Space('unknown values', [F('u', UNKNOWN)], unknown),
        Space('repeated headers', [F('h', ['To', 'Cc', 'Bcc'])], repeated),
    ]

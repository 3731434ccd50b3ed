# -*- coding: utf-8 -*-
"""MMS bodies: every part arrives as it was, in order"""
import itertools
from engine import Space, free, dev
import ref_mms as M
import ref_wsp as W
from mcommon import P, Named, pattern, page, bytes_of, write, cleanup
from messaging.mms.message import MMSMessage


def check(ctx, m, want, what):
    smil = bytes_of(ctx.must('smil', m.smil))
    # what the message says of itself
    mine = [p.headers['Content-Type'] + ( without_type(p.headers), p.data) for p in m.data_parts]
    compare(ctx, mine, ([('application/smil', {}, {}, smil)] if m.pages else []) + want, what + ': parts of the message itself')
    if m.pages:
        ctx.eq(m.content_type, RELATED, what + ': content type of a message with pages')
    want = [('application/smil', {}, {'Content-ID': '<0000>'}, smil)] + want
    data = ctx.must('encoding ' + what, m.encode)
    try:
        hs, parts = M.parse(data)
    except W.Bad, e:
        ctx.fail('%s: the PDU is not well-formed: %s' % (what, e))
    compare(ctx, parts, want, what + ': on the wire')
    back = ctx.must('decoding ' + what, MMSMessage.from_data, data)
    ctx.eq(back.headers['Content-Type'], m.headers['Content-Type'], what + ': content type of the message')
    got = []
    for p in back.data_parts:
        h = dict(p.headers)
        ct = h.pop('Content-Type', None)
        ctx.eq(ct, (p.content_type, p.content_type_parameters), what + ': the content type of a decoded part')
        if not isinstance(p.data, str):
            ctx.fail('%s: data of a decoded part is %r' % (what, type(p.data)))
        ctx.eq(len(p), len(p.data), what + ': length of a decoded part')
        got.append((p.content_type, p.content_type_parameters, h, p.data))
    compare(ctx, got, want, what + ': decoded')
    return '%d parts' % len(want) if len(want) < 12 else 'many parts'


RELATED = 'application/vnd.wap.multipart.related'


def without_type(h):
    return dict([(k, v) for k, v in h.items() if k != 'Content-Type'])


def typed(cfg, ctx):
    """the content type of the message: set before, between or after pages are added"""
    m = MMSMessage()
    want = []
    now = ('application/vnd.wap.multipart.mixed', {})
    for s in cfg['steps']:
        if isinstance(s, tuple):
            m.headers['Content-Type'] = now = s
        else:
            x, w = page(text=s)
            m.add_page(x)
            want += w
            if now[0] != RELATED:
                now = RELATED, {}
        ctx.eq(m.headers['Content-Type'], now, 'content type after %r' % (s,))
        ctx.eq(m.content_type, now[0], 'content type after %r' % (s,))
    if cfg['steps'] and cfg['steps'][-1][0] != RELATED and isinstance(cfg['steps'][-1], tuple):
        return 'changed afterwards'
    return check(ctx, m, want, repr(cfg['steps']))


def compare(ctx, got, want, what):
    if got == want:
        return
    ctx.eq(len(got), len(want), what + ': number of parts')
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.eq(g[:3], w[:3], '%s: type, parameters and headers of part %d' % (what, i))
        if g[3] != w[3]:
            k = [j for j in range(min(len(g[3]), len(w[3]))) if g[3][j] != w[3][j]]
            ctx.fail('%s: data of part %d differ at %s (%d, %d octets)' % (what, i, k[:1], len(g[3]), len(w[3])))


def plain(ps):
    m = MMSMessage()
    for p in ps:
        m.add_data_part(p.build())
    return m, [p.expected() for p in ps]


def one(cfg, ctx):
    for n in cfg['sizes']:
        p = P(pattern(cfg['content'], n), 'image/jpeg', {}, (), cfg['form'])
        # a second part shows where the first one ends
        m, want = plain([p, P('end', 'text/plain')] if cfg['follow'] else [p])
        check(ctx, m, want, 'part of %d octets' % n)
        ctx.op()
    return 'ok'


def contents(cfg, ctx):
    ps = [P(chr(cfg['a']) + t, cfg['ctype'], form=cfg['form']) for t in cfg['tails']]
    m, want = plain(ps)
    return check(ctx, m, want, 'contents starting with %r' % chr(cfg['a']))


def lists(cfg, ctx):
    m, want = plain([p for p in cfg['parts'] if p is not None])
    return check(ctx, m, want, repr(cfg['parts'])[:300])


def many(cfg, ctx):
    n = cfg['n']
    m, want = plain([P(pattern('count', i % 5), 'image/gif', {}, [('X', str(i))] if i % 3 == 0 else []) for i in range(n)])
    return check(ctx, m, want, '%d parts' % n)


def hlen(cfg, ctx):
    for n in cfg['ns']:
        p = P('data', cfg['ctype'], cfg['params'], [(cfg['h'], 'v' * n)])
        m, want = plain([p, P('end', 'text/plain')])
        check(ctx, m, want, 'part header of %d characters' % n)
        ctx.op()
    return 'ok'


PAGES = [Named(''.join(n), v) for n, v in [
    (('I' if i else '', 'A' if a else '', 'T' if t else '') if (i or a or t) else ('empty',), (i, a, t))
    for i in (0, 1) for a in (0, 1) for t in (0, 1)]]


def pages(cfg, ctx):
    m = MMSMessage()
    want = []
    n = 0
    data = [P('data %d\x00' % i, 'application/x', {}, [('X-n', str(i))]) for i in range(cfg['data'])]
    for i, pg in enumerate(cfg['pages']):
        if cfg['when'] == i and data:
            p = data.pop(0)
            m.add_data_part(p.build())
        im, au, tx = pg.value
        x, w = page(('i%d%s' % (i, cfg['ext'][0]), '\xff\xd8\x00%d' % i) if im else None,
                    ('a%d%s' % (i, cfg['ext'][1]), '#!AMR\n%d\x80' % i) if au else None, ('text %d' % i) if tx else None)
        for p in x.data_parts:
            p.data
        m.add_page(x)
        want += w
    for p in data:
        m.add_data_part(p.build())
    want += [P('data %d\x00' % i, 'application/x', {}, [('X-n', str(i))]).expected() for i in range(cfg['data'])]
    return check(ctx, m, want, repr(cfg['pages']))


def texts(cfg, ctx):
    m = MMSMessage()
    want = []
    for t in cfg['texts']:
        x, w = page(text=t)
        m.add_page(x)
        want += w
    return check(ctx, m, want, repr(cfg['texts']))


class Block(list):
    def __repr__(self):
        return '<%s..%s>' % (self[0], self[-1])


def blocks(ns, n):
    return [Block(ns[i:i + n]) for i in range(0, len(ns), n)]


TXT = ['x', '', 'a b', '<0000>', 'na me.jpg', '"', '\x7f', '\xe9', '1.0', 'a' * 120, '\x05y', 'a;b=c']
CTYPES = ['image/jpeg', 'text/plain', 'application/smil', 'audio/amr', 'x', 'application/vnd.wap.multipart.related',
          'application/octet-stream', 'text/x-vCard', 'image/*', 'application/vnd.oma.drm.rights+wbxml', 'a' * 126]
PARAMS = [{}] + [{n: t} for n in ('Name', 'Filename', 'Start', 'Start-info', 'X-foo') for t in TXT] + \
    [{'Type': 'application/smil'}, {'Type': 5}, {'Padding': 3}, {'Level': '1.2'}, {'a': 300}, {'a': 0},
     {'Name': 'n', 'Filename': 'f', 'Start': '<s>'}, {'Name': 'a' * 60, 'b': 'c', 'd': 77}]
HEADERS = [('Content-Location', t) for t in TXT] + [('Content-ID', '<1>'), ('Content-ID', '"<1>'), ('X-foo', ''), ('X-foo', 'a b'),
                                                    ('X-foo', '\xe9'), ('x', 'y'), ('Server', 'apache'), ('Date', 'now'),
                                                    ('Content-Disposition', 'attachment'), ('Content-Length', '3'),
                                                    ('Profile-Warning', 'w'), ('Accept-Charset', 'utf-8'), ('To', 'me'),
                                                    ('Accept', 'image/gif'), ('Accept', 'x'), ('Message-ID', 'z'),
                                                    ('Content-Location', 'u' * 127), ('Content-Base', 'http://x/')]


def again(cfg, ctx):
    """the same slides and parts added several times, and parts of slides attached as well"""
    slides = [page(text='one'), page(text='one')]
    ps = [P('data', 'image/gif'), P('data', 'image/gif')]
    parts = [p.build() for p in ps]
    m = MMSMessage()
    on_pages, attached = [], []
    for s in cfg['steps']:
        if s[0] == 'slide':
            m.add_page(slides[s[1]][0])
            on_pages += slides[s[1]][1]
        elif s[0] == 'part':
            m.add_data_part(parts[s[1]])
            attached.append(ps[s[1]].expected())
        else:
            m.add_data_part(slides[s[1]][0].text[0])
            attached += slides[s[1]][1]
    return check(ctx, m, on_pages + attached, repr(cfg['steps']))


def spaces(tier):
    q = tier != 'thorough'
    F = free
    small = range(0, 300)
    big = range(16370, 16400)
    huge = [] if q else [[n] for n in (65535, 65536, 65537, 2 ** 21 - 1, 2 ** 21, 2 ** 21 + 1)]
    some = [P(''), P('\x00'), P('x', 'text/plain', form='text'), P('\x80\x00\xff', form='array'), P('z' * 128, 'audio/amr'),
            P('s', 'application/smil', {'Name': 'n'}, [('Content-ID', '<2>'), ('Content-Location', 'l')]),
            P('l', 'x', {'a': 'b' * 130}), P('h', 'image/gif', {}, [('X-' + 'h' * 60, 'v' * 70)]), P('f\r\n\x1a', form='file'),
            P('u', 'text/plain', form='unicode'), P('\x84\x03', 'application/vnd.wap.mms-message', {}, [('To', 'x')]),
            P('p', 'application/vnd.wap.multipart.related', {'Type': 'application/smil', 'Start': '<0>'})]
    tails = ['', '\x00', '\xff', 'a', '\x80', '\r\n', '\x1a']
    return [
        Space('sizes', [F('content', ['count', 'zero', 'ff']), F('form', ['str', 'array', 'file', 'text']), F('follow', [0, 1]),
                        F('sizes', blocks(small, 30))], one,
              skip=lambda c: c['form'] == 'text' and False),
        Space('large sizes', [F('content', ['count', 'zero', 'ff']), F('form', ['str', 'array']), F('follow', [1]),
                              F('sizes', blocks(big, 3 if q else 1) + huge)], one,
              skip=lambda c: q and (c['content'], c['form']) not in (('count', 'str'), ('ff', 'array'))),
        Space('contents', [F('a', range(256)), F('ctype', ['image/jpeg', 'text/plain', 'application/smil']),
                           F('form', ['str', 'array', 'file']), F('tails', [tails])], contents),
        Space('number of parts', [F('n', range(0, 12) + range(120, 135) + ([] if q else range(250, 260) + [16382, 16383, 16384]))],
              many),
        Space('length of the part headers', [F('h', ['Content-Location', 'X-foo']), F('ctype', ['image/jpeg', 'audio/amr']),
                                             F('params', [{}, {'Name': 'n'}]),
                                             F('ns', blocks(range(0, 260) + range(16330, 16390), 10))], hlen),
        Space('content types and parameters', [F('parts', [
            [P('data', c, pa, hs), P('end', 'text/plain')] for c in CTYPES for pa in PARAMS
            for hs in ([], [('Content-Location', 'l'), ('X-a', 'b')])])], lists),
        Space('part headers', [F('parts', [[P('data', 'image/gif', pa, [h1, h2] if h2 else [h1]), P('end', 'text/plain')]
                                           for h1 in HEADERS for h2 in [None] + HEADERS if not h2 or h1[0] < h2[0]
                                           for pa in ({}, {'Name': 'x'})])], lists),
        Space('lists of parts', [F('parts', [list(t) for n in range(0, 4 if q else 5) for t in itertools.product(some, repeat=n)
                                             if n < 3 or q or n < 4 or t[0] is some[0] or t[3] is some[5]])], lists),
        Space('pages', [F('pages', [list(t) for n in range(0, 4) for t in itertools.product(PAGES, repeat=n)]),
                        F('data', [0, 1, 2]), F('when', [-1, 0, 1]), F('ext', [('.jpg', '.wav'), ('.xyzzy', '')])], pages,
              skip=lambda c: (c['when'] >= 0 and (not c['data'] or c['when'] >= len(c['pages']))) or
              (q and len(c['pages']) == 3 and (c['when'] != -1 or c['data'] == 1 or c['ext'][1] == ''))),
        Space('content type of the message', [F('steps', [list(t) for n in range(0, 4 if q else 5)
                                                          for t in itertools.product(STEPS, repeat=n)])], typed),
        Space('the same part again', [F('steps', [t for n in range(0, 4 if q else 6)
                                                  for t in itertools.product([(w, i) for w in ('slide', 'part', 'text') for i in (0, 1)], repeat=n)])], again,
              note='slides, parts and the texts of slides, equal ones and the same ones several times'),
        Space('texts of pages', [F('texts', [[a] for a in TEXTS] + [[a, b] for a in TEXTS for b in TEXTS])], texts),
    ]


STEPS = ['one', 'two', ('application/vnd.wap.multipart.mixed', {}), (RELATED, {}),
         (RELATED, {'Start': '<0000>', 'Type': 'application/smil'}), ('application/vnd.wap.multipart.alternative', {'Name': 'n'}),
         ('image/gif', {})]
TEXTS = ['', 'x', 'a\r\nb', '<&>"\'', 'caf\xc3\xa9', '\xe9', 'a' * 129, ']]>', '\t', '&amp;']

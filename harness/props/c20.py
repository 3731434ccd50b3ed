# -*- coding: utf-8 -*-
"""The presentation part, read with an independent XML parser"""
import itertools
import re
from engine import Space, free, dev
from mcommon import Named, P, page, write, cleanup, TYPES
from messaging.mms.message import MMSMessage, MMSMessagePage, DataPart
from javax.xml.parsers import DocumentBuilderFactory
from org.xml.sax import InputSource, ErrorHandler
from java.io import StringReader
from java.lang import String, Throwable


class Quiet(ErrorHandler):
    def warning(self, e):
        pass

    def error(self, e):
        raise e

    def fatalError(self, e):
        raise e


def parse(ctx, text, what):
    b = DocumentBuilderFactory.newInstance().newDocumentBuilder()
    b.setErrorHandler(Quiet())
    try:
        return b.parse(InputSource(StringReader(String(unicode_of(text))))).getDocumentElement()
    except Exception, e:
        ctx.fail('%s: the SMIL is no well-formed XML: %s' % (what, e))
    except Throwable, e:
        ctx.fail('%s: the SMIL is no well-formed XML: %s' % (what, e))


def unicode_of(text):
    return u''.join([unichr(ord(c)) for c in text])


def kids(node, name=None):
    out = []
    ns = node.getChildNodes()
    for i in range(ns.getLength()):
        n = ns.item(i)
        if n.getNodeType() == 1 and (name is None or n.getNodeName() == name):
            out.append(n)
    return out


def attrs(node):
    m = node.getAttributes()
    d = {}
    for i in range(m.getLength()):
        d[unicode(m.item(i).getNodeName())] = unicode(m.item(i).getNodeValue())
    return d


def norm(s):
    """what an XML parser makes of white space in an attribute"""
    return re.sub(u'[\t\n\r]', u' ', unicode_of(s).replace(u'\r\n', u'\n'))


class Medium(object):
    def __init__(self, kind, src, data, times, how='file'):
        self.kind, self.src, self.data, self.times, self.how = kind, src, data, times, how

    def __repr__(self):
        return '%s(%r %s %s)' % (self.kind, self.src, self.times, self.how)


class Page(object):
    def __init__(self, media=(), duration=None, order=None, late=False):
        self.media, self.duration, self.late = list(media), duration, late
        self.order = order or range(len(self.media))

    def __repr__(self):
        return 'Page(%s %r%s%s)' % (self.duration, self.media, self.order if len(self.media) > 1 else '',
                                    ' duration last' if self.late else '')


CLOCK = re.compile(r'^([+-]?[0-9]+)(\.[0-9]+)?(h|min|s|ms)?$')


def clock(ctx, v, what):
    """milliseconds of a SMIL clock value (seconds where no unit is given)"""
    if v is None:
        return None
    m = CLOCK.match(v)
    if m is None:
        ctx.fail('%s: %r is no SMIL clock value' % (what, v))
    unit = {'h': 3600000, 'min': 60000, 's': 1000, None: 1000, 'ms': 1}[m.group(3)]
    ms = int(m.group(1)) * unit
    if m.group(2):
        ms += int(round(float(m.group(2)) * unit))
    return ms


def build(p):
    pg = MMSMessagePage()
    if p.duration is not None and not p.late:
        pg.set_duration(p.duration)
    for i in p.order:
        m = p.media[i]
        if m.kind == 'text':
            pg.add_text(m.src, *m.times)
            continue
        path = write(m.src, m.data)
        (pg.add_image if m.kind == 'img' else pg.add_audio)(path, *m.times)
        part = (pg.image if m.kind == 'img' else pg.audio)[0]
        if m.how == 'id':
            del part.headers['Content-Location']
            part.headers['Content-ID'] = m.src
        elif m.how == 'both':
            part.headers['Content-ID'] = '<other>'
        elif m.how == 'neither':
            del part.headers['Content-Location']
        elif m.how == 'renamed':
            part.headers['Content-Location'] = 'new' + m.src
    if p.duration is not None and p.late:
        pg.set_duration(p.duration)
    return pg


def expected_times(m, duration):
    b, e = m.times if m.times else (0, 0)
    if b <= 0 and e <= 0:
        return None
    if e <= 0 or e > duration:
        e = duration
    return b, e


def check(ctx, pages, what, msg=None, size=(176, 220)):
    m = MMSMessage()
    if msg:
        msg(m)
    for p in pages:
        m.add_page(build(p))
    root = parse(ctx, ctx.must('smil', m.smil), what)
    ctx.eq(root.getNodeName(), 'smil', what + ': root')
    ctx.eq([unicode(n.getNodeName()) for n in kids(root)], ['head', 'body'], what + ': head and body')
    head, body = kids(root)
    lay = kids(head, 'layout')
    ctx.eq(len(lay), 1, what + ': layouts')
    rl = kids(lay[0], 'root-layout')
    ctx.eq(len(rl), 1, what + ': root layouts')
    a = attrs(rl[0])
    ctx.eq((a.get('width'), a.get('height')), (str(size[0]), str(size[1])), what + ': size')
    areas = [attrs(r) for r in kids(lay[0], 'region')]
    regions = [r.get('id') for r in areas]
    ctx.eq(len(set(regions)), len(regions), what + ': names of the regions')
    if size == (176, 220):
        check_areas(ctx, areas, size, what)
    pars = kids(body)
    ctx.eq([n.getNodeName() for n in pars], ['par'] * len(pages), what + ': time containers')
    for i, (par, p) in enumerate(zip(pars, pages)):
        w = '%s: page %d' % (what, i)
        d = p.duration if p.duration is not None else 4000
        ctx.eq(clock(ctx, attrs(par).get('dur'), w), d, w + ': duration')
        got = {}
        for n in kids(par):
            k = unicode(n.getNodeName())
            if k in got:
                ctx.fail('%s: two %s elements' % (w, k))
            got[k] = attrs(n)
        ctx.eq(sorted(got), sorted([x.kind for x in p.media]), w + ': media')
        for x in p.media:
            g = got[x.kind]
            src = {'renamed': 'new' + x.src, 'neither': x.data}.get(x.how, x.src)
            ctx.eq(g.get('src'), norm(src), '%s: source of %s' % (w, x.kind))
            if 'region' in g and g['region'] not in regions:
                ctx.fail('%s: region %s is not defined' % (w, g['region']))
            if x.kind != 'audio' and 'region' not in g:
                ctx.fail('%s: %s has no region' % (w, x.kind))
            t = expected_times(x, d)
            b, e = clock(ctx, g.get('begin'), w), clock(ctx, g.get('end'), w)
            if x.times and x.times[0] < 0:
                # the moment the slide is opened
                if t is not None and e is not None:
                    ctx.eq(e, t[1], '%s: end of %s' % (w, x.kind))
            elif t is None:
                if b not in (None, 0) or e not in (None, d):
                    ctx.fail('%s: %s without times has %s, %s' % (w, x.kind, b, e))
            else:
                ctx.eq((b or 0, e), t, '%s: times of %s' % (w, x.kind))
    return '%d pages' % len(pages)


def check_areas(ctx, areas, size, what):
    """on the screen the message is made for, all regions are to be seen and none covers another"""
    boxes = []
    for r in areas:
        try:
            l, t, w, h = [int(r[k]) for k in ('left', 'top', 'width', 'height')]
        except (KeyError, ValueError):
            ctx.fail('%s: place of the region %r' % (what, r))
        if l < 0 or t < 0 or w <= 0 or h <= 0 or l + w > size[0] or t + h > size[1]:
            ctx.fail('%s: the region %r is not within the %dx%d of the layout' % (what, r, size[0], size[1]))
        for l2, t2, w2, h2 in boxes:
            if l < l2 + w2 and l2 < l + w and t < t2 + h2 and t2 < t + h:
                ctx.fail('%s: regions cover each other: %r' % (what, areas))
        boxes.append((l, t, w, h))


def pages(cfg, ctx):
    return check(ctx, cfg['pages'], repr(cfg['pages'])[:300])


def sizes(cfg, ctx):
    def setup(m):
        m.width, m.height = cfg['w'], cfg['h']
    return check(ctx, cfg['pages'], 'size %dx%d' % (cfg['w'], cfg['h']), setup, (cfg['w'], cfg['h']))


def refused(cfg, ctx):
    """an end before the begin is refused"""
    b, e = cfg['times']
    pg = MMSMessagePage()
    path = write('i.jpg', 'x')
    for fn, a in ((pg.add_text, 'x'), (pg.add_image, path), (pg.add_audio, path)):
        st, v = ctx.call(fn, a, b, e)
        if 0 < e < b:
            if st == 'ok' or not isinstance(v, ValueError):
                ctx.fail('end %d before begin %d: %r' % (e, b, v))
        elif st != 'ok':
            ctx.fail('begin %d, end %d: raised %r' % (b, e, v))
    if 0 < e < b:
        ctx.eq((pg.text, pg.image, pg.audio), (None, None, None), 'a refused medium is on the page')
        ctx.eq(pg.number_of_parts(), 0, 'parts')
    return 'ok'


def parts(cfg, ctx):
    """the parts of a page and of the message are those the SMIL shows"""
    m = MMSMessage()
    built = []
    for p in cfg['pages']:
        pg = build(p)
        built.append(pg)
        ctx.eq(pg.number_of_parts(), len(p.media), 'parts of a page')
        ctx.eq(len(pg.data_parts), len(p.media), 'parts of a page')
        for x in p.media:
            d = x.data if x.kind != 'text' else x.src
            if not [q for q in pg.data_parts if q.data == d]:
                ctx.fail('%r is not among the parts of its page' % x)
        m.add_page(pg)
    n = sum([len(p.media) for p in cfg['pages']])
    if cfg['pages']:
        ctx.eq(len(m.data_parts), n + 1, 'parts of the message')
        ctx.eq(m.data_parts[0].data, m.smil(), 'the first part')
        ctx.eq((m.data_parts[0].content_type, m.data_parts[0].content_type_parameters), ('application/smil', {}),
               'the type of the first part')
        ctx.eq([id(x) for x in m.data_parts[1:]], [id(x) for pg in built for x in pg.data_parts], 'order of the parts')
    else:
        ctx.eq(m.data_parts, [], 'parts of no page')
    ctx.eq(len(m.pages), len(built), 'pages')
    ctx.eq([x is y for x, y in zip(m.pages, built)], [True] * len(built), 'pages')
    return 'ok'


HOW = ('file', 'id', 'both', 'renamed', 'neither')


def spaces(tier):
    q = tier != 'thorough'
    F = free
    I = lambda t=(0, 0), n='i.jpg', how='file': Medium('img', n, 'image ' + n, t, how)
    A = lambda t=(0, 0), n='a.wav', how='file': Medium('audio', n, 'audio ' + n, t, how)
    X = lambda t=(0, 0), s='text': Medium('text', s, None, t)
    durations = [None, 1, 2, 1000, 3999, 4000, 4001, int(2 ** 31 - 1)]
    vals = [0, 1, 2, 999, 1000, 3999, 4000, 4001, 5000, -1]
    times = [(b, e) for b in vals for e in vals if not 0 < e < b]
    fewtimes = [(0, 0), (1, 0), (0, 500), (500, 900), (0, 9000), (5000, 0), (4000, 4000)]
    one = [Page([f(t)], d, None, l) for f in (I, A, X) for t in times for d in durations for l in (False, True)
           if not (l and d is None)]
    three = [Page([I(a), A(b), X(c)], d) for a in fewtimes for b in fewtimes for c in fewtimes for d in (None, 800)]
    orders = [Page([I((1, 2)), A((3, 4)), X((5, 6))], 1000, list(o)) for o in itertools.permutations(range(3))]
    plain = [Page(), Page([I()]), Page([A()]), Page([X()]), Page([I(), A()], 1000), Page([I(), X()]), Page([A(), X()], 10),
             Page([I(), A(), X()], 20)]
    timed = [Page([I((1, 7), 'j.jpg')], 5), Page([A((2, 0), 'b.wav')], 30), Page([X((3, 4), 'other')], 1),
             Page([I((0, 1), 'k.gif'), A((0, 2), 'c.wav'), X((0, 3), 'x')])]
    allp = plain + timed
    chars = [u'a', u' ', u'&', u'<', u'>', u'"', u"'", u'\n', u'\t', u']', u';', u'-']
    strings = [''.join([str(c) for c in t]) for n in range(4 if q else 5) for t in itertools.product(chars, repeat=n)]
    strings += ['&amp;', ']]>', '<!-- -->', 'caf\xe9', 'caf\xc3\xa9', '\xff', 'x' * 2000, '&#65;', '<par/>', '%s', '\\n']
    names = ['a b.jpg', "it's.jpg", 'a&b.jpg', 'a<b>.jpg', '"q".gif', 'x', '.jpg', 'a' * 100 + '.png', '<0001>', 'caf\xc3\xa9.jpg', 'a;b']
    srcs = [Page([f((0, 0), n, h)]) for f in (I, A) for n in names for h in HOW]
    mixed = [Page(ms, 1000) for hi in (None,) + HOW for ha in (None,) + HOW for t in (None, 'text')
             for ms in [[f((0, 0), n, h) for f, n, h in ((I, 'i.jpg', hi), (A, 'a.wav', ha)) if h] + ([X((0, 0), t)] if t else [])]
             if len(ms) > 1]
    return [
        Space('one medium', [F('pages', [[p] for p in one])], pages, note='begin, end and duration at every boundary'),
        Space('three media', [F('pages', [[p] for p in three])], pages),
        Space('order of adding', [F('pages', [[p] for p in orders] + [[a, b] for a in orders for b in orders])], pages),
        Space('lists of pages', [F('pages', [list(t) for n in range(0, 4 if q else 5)
                                             for t in itertools.product(allp if n < 4 else allp[:9], repeat=n)])], pages),
        Space('many pages', [F('pages', [[allp[(i * 5 + k) % len(allp)] for i in range(n)] for n in (10, 50, 200)
                                         for k in range(len(allp))])], pages),
        Space('texts', [F('pages', [[Page([X((0, 0), s)])] for s in strings])], pages),
        Space('sources', [F('pages', [[p] for p in srcs] + [[p, Page([I(), X()])] for p in srcs])], pages),
        Space('sources of several media', [F('pages', [[p] for p in mixed] + [[a, b] for a in mixed for b in (
            mixed if not q else mixed[::5] + plain)])], pages, note='every kind of source of image and audio on the same page'),
        Space('sizes', [F('w', [0, 1, 176, 640, 100000]), F('h', [0, 1, 220, 480]), F('pages', [[], plain[1:3]])], sizes),
        Space('order of times', [F('times', [(b, e) for b in vals for e in vals])], refused),
        Space('parts', [F('pages', [list(t) for n in range(0, 4) for t in itertools.product(allp, repeat=n)])], parts),
    ]

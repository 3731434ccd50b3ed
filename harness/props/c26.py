# -*- coding: utf-8 -*-
"""Assembling slides, parts and messages: the last accepted call of each kind counts, a refused one does not"""
import array
import itertools
import os
from engine import Space, free, dev
import ref_mms as M
from mcommon import Named, P, write, cleanup, SCRATCH, TYPES, arr
from messaging.mms.message import MMSMessage, MMSMessagePage, DataPart

FILES = [('a.jpg', '\xff\xd8a'), ('b.gif', 'GIF89a\x00'), ('c.wav', 'RIFF'), ('d.xyzzy', ''), ('e', '\x80\x00'), ('f.txt', 'text')]


def path(name):
    p = os.path.join(SCRATCH, name)
    if not os.path.exists(p):
        write(name, dict(FILES)[name])
    return p


class Op(object):
    """one call: its name, its arguments, and the exception it must raise (None: accepted)"""
    def __init__(self, name, args, error=None):
        self.name, self.args, self.error = name, args, error

    def __repr__(self):
        return '%s%r' % (self.name, self.args) + ('!' if self.error else '')


class File(str):
    """a file of the scratch directory, named without it in reports"""


def real(a):
    return path(str(a)) if isinstance(a, File) else a


def file_view(name):
    data = dict(FILES)[name]
    return (TYPES[os.path.splitext(name)[1]], {}), {'Content-Location': name}, data


def part_view(p):
    h = dict(p.headers)
    ct = h.pop('Content-Type')
    return ct, h, p.data


def page_view(pg):
    return tuple([None if x is None else (part_view(x[0]),) + tuple(x[1:]) for x in (pg.image, pg.audio, pg.text)]) + (pg.duration,)


def step(model, op):
    """the slide (image, audio, text, duration) after an accepted call"""
    m = list(model)
    a = op.args
    if op.name == 'set_duration':
        m[3] = a[0]
    elif op.name == 'add_text':
        m[2] = ((('text/plain', {}), {}, a[0]),) + times(a)
    else:
        m[0 if op.name == 'add_image' else 1] = (file_view(str(a[0])),) + times(a)
    return tuple(m)


def times(a):
    return (a[1:] + (0, 0))[:2]


def call(ctx, obj, op):
    st, e = ctx.call(getattr(obj, op.name), *[real(a) for a in op.args])
    if op.error is None:
        if st != 'ok':
            ctx.fail('%r is refused: %r' % (op, e))
        return True
    if st == 'ok':
        ctx.fail('%r is accepted' % op)
    if not isinstance(e, op.error):
        ctx.fail('%r raised %r' % (op, e))
    return False


def same_page(ctx, pg, model, what):
    ctx.eq(page_view(pg), model, what)
    media = [x for x in model[:3] if x is not None]
    ctx.eq(pg.number_of_parts(), len(media), what + ': number of parts')
    ctx.eq([part_view(p) for p in pg.data_parts], [x[0] for x in media], what + ': parts')
    ctx.eq([len(p) for p in pg.data_parts], [len(x[0][2]) for x in media], what + ': lengths of the parts')


EMPTY = (None, None, None, 4000)


def page_histories(cfg, ctx):
    """every call of cfg['last'] after the calls of cfg['ops']"""
    for last in cfg['last']:
        ctx.op()
        pg, other = MMSMessagePage(), MMSMessagePage()
        m = EMPTY
        for op in cfg['ops'] + (last,):
            if call(ctx, pg, op):
                m = step(m, op)
            same_page(ctx, pg, m, 'slide after %r' % ((cfg['ops'] + (last,)),))
        same_page(ctx, other, EMPTY, 'another slide')
    return '%d calls' % (len(cfg['ops']) + 1)


def page_graph(cfg, ctx):
    """every call in the state cfg['path'] leads to"""
    for op in cfg['calls']:
        ctx.op()
        pg = MMSMessagePage()
        m = EMPTY
        for o in cfg['path']:
            call(ctx, pg, o)
            m = step(m, o)
        same_page(ctx, pg, m, 'state')
        if call(ctx, pg, op):
            m = step(m, op)
        same_page(ctx, pg, m, 'state %r after %r' % (cfg['path'], op))
    msg = MMSMessage()
    msg.add_page(pg)
    try:
        parts = M.parse(ctx.must('encode', msg.encode))[1][1:]
    except M.W.Bad, e:
        ctx.fail('not well-formed: %s' % e)
    want = [x[0][0] + (x[0][1], x[0][2]) for x in m[:3] if x is not None]
    ctx.eq([tuple(p) for p in parts], want, 'the parts sent of the slide %r' % (m,))
    return '%d media' % len(want)


def reachable(calls):
    seen = {repr(EMPTY): ()}
    todo = [(EMPTY, ())]
    while todo:
        m, p = todo.pop(0)
        for op in calls:
            if op.error is None:
                n = step(m, op)
                if repr(n) not in seen:
                    seen[repr(n)] = p + (op,)
                    todo.append((n, p + (op,)))
    return sorted(seen.values(), key=lambda p: (len(p), repr(p)))


def page_ops():
    t = TypeError
    ok = [Op('add_image', (File('a.jpg'),)), Op('add_image', (File('b.gif'), 5, 9)), Op('add_image', (File('d.xyzzy'), 7)),
          Op('add_audio', (File('c.wav'),)), Op('add_audio', (File('e'), 0, 3)), Op('add_audio', (File('a.jpg'), -1, -1)),
          Op('add_text', ('one',)), Op('add_text', ('', 1, 2)), Op('add_text', ('two', 9000, 9000)),
          Op('set_duration', (1,)), Op('set_duration', (5000,))]
    bad = []
    for n, good in (('add_image', File('a.jpg')), ('add_audio', File('c.wav')), ('add_text', 'new')):
        for x in (None, 5, 1.5, ('a',), ['a']):
            bad.append(Op(n, (x,), t))
        for x in ('1', None, 1.5, 2.0, (1,)):
            bad += [Op(n, (good, x), t), Op(n, (good, 0, x), t), Op(n, (good, x, x), t), Op(n, (good, 5, x), t), Op(n, (good, x, 5), t)]
        for b, e in ((2, 1), (9000, 1), (4001, 4000)):
            bad.append(Op(n, (good, b, e), ValueError))
        if n != 'add_text':
            for f in ('/nonexistent/x.jpg', '', SCRATCH, SCRATCH + '/none.jpg', 'a.jpg'):
                bad.append(Op(n, (f,), (OSError, IOError)))
    for d in (0, -1, -4000):
        bad.append(Op('set_duration', (d,), ValueError))
    for d in (None, '1', 1.5, 2000.0, (1,)):
        bad.append(Op('set_duration', (d,), t))
    return ok, bad


# ------------------------------------------------------------------ data parts
def pstep(model, op):
    ct, h, data = model
    a = op.args
    if op.name == 'from_file':
        return file_view(str(a[0]))
    if op.name == 'set_text':
        return ('text/plain', {}), {}, a[0]
    if op.name == 'set_data':
        d = a[0].tostring() if isinstance(a[0], array.array) else a[0]
        return (a[1], dict(a[2]) if len(a) > 2 and a[2] is not None else {}), {}, d
    if op.name == 'type':
        return (a[0], {}), h, data
    if op.name == 'param':
        return (ct[0], dict(ct[1].items() + [a])), h, data
    h = dict(h)
    h[a[0]] = a[1]
    return ct, h, data


def pcall(ctx, p, op):
    if op.name == 'type':
        p.content_type = op.args[0]
        return True
    if op.name == 'header':
        p.headers[op.args[0]] = op.args[1]
        return True
    if op.name == 'param':
        p.headers['Content-Type'][1][op.args[0]] = op.args[1]
        return True
    if op.name == 'set_data' and len(op.args) > 2 and op.args[2] is not None:
        return call(ctx, p, Op(op.name, op.args[:2] + (dict(op.args[2]),), op.error))
    return call(ctx, p, op)


def part_histories(cfg, ctx):
    for last in cfg['last']:
        for read in cfg['read']:
            ctx.op()
            p, other = DataPart(), DataPart()
            m = (('application/octet-stream', {}), {}, '')
            ops = cfg['ops'] + (last,)
            for i, op in enumerate(ops):
                if pcall(ctx, p, op):
                    m = pstep(m, op)
                if read or i == len(ops) - 1:
                    ctx.eq(part_view(p), m, 'part after %r' % (ops[:i + 1],))
                    ctx.eq((len(p), p.content_type), (len(m[2]), m[0][0]), 'length and type of the part after %r' % (ops[:i + 1],))
            ctx.eq(part_view(other), (('application/octet-stream', {}), {}, ''), 'another part')
            ctx.eq(part_view(DataPart()), (('application/octet-stream', {}), {}, ''), 'a new part')
    return '%d calls' % (len(cfg['ops']) + 1)


def two_parts(cfg, ctx):
    """calls of two parts and of the texts of two slides, in any order"""
    for last in cfg['last']:
        ctx.op()
        parts = [DataPart(), DataPart()]
        pages = [MMSMessagePage(), MMSMessagePage()]
        m = [(('application/octet-stream', {}), {}, '')] * 2 + [None] * 2
        ops = cfg['ops'] + (last,)
        for i, op in ops:
            if op.name == 'add_text':
                call(ctx, pages[i], op)
                m[2 + i] = ('text/plain', {}), {}, op.args[0]
            else:
                pcall(ctx, parts[i], op)
                m[i] = pstep(m[i], op)
            for n, p in enumerate(parts[:2] + [pg.text and pg.text[0] for pg in pages]):
                ctx.eq(None if p is None else part_view(p), m[n], 'part %d of 4 after %r' % (n + 1, ops))
    return '%d calls' % (len(cfg['ops']) + 1)


def part_ops():
    ok = [Op('from_file', (File(n),)) for n, d in FILES]
    ok += [Op('set_text', (t,)) for t in ('', 'text')]
    ok += [Op('set_data', a) for a in (('', 'x/y'), ('data', 'image/gif', {'Name': 'n'}), ('\x00', 'a', None), ('b', 'text/plain', {}),
                                       (arr('ar\xff'), 'image/png'), (arr(''), 'image/png', {'a': 'b'}))]
    ok += [Op('type', ('audio/amr',)), Op('header', ('X-a', 'b')), Op('header', ('Content-ID', '<1>')), Op('param', ('Name', 'in place'))]
    bad = [Op('from_file', (f,), (OSError, IOError)) for f in ('/nonexistent/x.jpg', '', SCRATCH, SCRATCH + '/none.jpg', 'a.jpg')]
    bad += [Op('from_file', (f,), Exception) for f in (None, 5.5, ('a',))]
    return ok, bad


# ------------------------------------------------------------------ messages
def messages(cfg, ctx):
    pages = []
    for i in range(3):
        pg = MMSMessagePage()
        if i:
            pg.add_text('t%d' % i)
        if i == 2:
            pg.add_image(path('a.jpg'))
        pages.append(pg)
    parts = [P('p%d' % i, 'image/gif').build() for i in range(2)]
    m, other = MMSMessage(), MMSMessage()
    wp, wd = [], []
    for op in cfg['ops']:
        if op < 3:
            m.add_page(pages[op])
            wp.append(pages[op])
        else:
            m.add_data_part(parts[op - 3])
            wd.append(parts[op - 3])
        ctx.eq([id(x) for x in m.pages], [id(x) for x in wp], 'pages after %r' % (cfg['ops'],))
        want = [x for pg in wp for x in pg.data_parts] + wd
        got = m.data_parts
        if wp:
            ctx.eq((got[0].content_type, got[0].data), ('application/smil', m.smil()), 'the first part after %r' % (cfg['ops'],))
            got = got[1:]
        ctx.eq([id(x) for x in got], [id(x) for x in want], 'parts after %r' % (cfg['ops'],))
    ctx.eq((len(other.pages), len(other.data_parts)), (0, 0), 'another message')
    return '%d pages, %d parts' % (len(wp), len(wd))


def spaces(tier):
    q = tier != 'thorough'
    F = free
    for n, d in FILES:
        path(n)
    ok, bad = page_ops()
    all_ = ok + bad
    few = ok + bad[::9]
    pok, pbad = part_ops()
    pall = pok + pbad
    both = [(i, o) for i in (0, 1) for o in [x for x in pok if x.name in ('type', 'header', 'param')][:4] + [
        Op('set_text', ('t',)), Op('add_text', ('u',)), Op('set_data', ('d', 'text/plain')), Op('set_data', ('d', 'image/gif', {'Name': 'n'})),
        Op('from_file', (File('b.gif'),))]]
    graph = reachable(ok)
    return [
        Space('every state of a slide, every call', [F('path', graph), F('calls', [ok, bad[0::2], bad[1::2]])], page_graph,
              note='all reachable states of the slide over the accepted calls'),
        Space('histories of a slide', [F('ops', [t for n in range(0, 2) for t in itertools.product(all_, repeat=n)]),
                                       F('last', [all_])], page_histories),
        Space('longer histories of a slide', [F('ops', [t for n in range(2, 3 if q else 4) for t in itertools.product(few, repeat=n)]),
                                              F('last', [few])], page_histories),
        Space('histories of a part', [F('ops', [t for n in range(0, 3 if q else 4) for t in itertools.product(pall if n < 3 else pok, repeat=n)]),
                                      F('last', [pall]), F('read', [(0, 1)])], part_histories),
        Space('histories of two parts', [F('ops', [t for n in range(0, 3 if q else 4) for t in itertools.product(both, repeat=n)]),
                                         F('last', [both])], two_parts, note='and of the texts of two slides'),
        Space('histories of a message', [F('ops', [t for n in range(0, 5 if q else 7) for t in itertools.product(range(5), repeat=n)])],
              messages),
    ]

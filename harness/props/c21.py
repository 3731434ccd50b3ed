# -*- coding: utf-8 -*-
"""Encoding and describing messages: repeatable, without side effects"""
import array
import copy
import itertools
import os
from engine import Space, free, dev
import ref_mms as M
import ref_wsp as W
from mcommon import Named, P, page, arr, pattern, write, bytes_of, cleanup, SCRATCH
from messaging.mms.message import MMSMessage, MMSMessagePage, DataPart
from messaging.mms.mms_pdu import MMSEncoder, MMSDecoder


def base_empty():
    return MMSMessage()


def base_plain():
    m = MMSMessage()
    m.headers['To'] = '+1/TYPE=PLMN'
    m.headers['Subject'] = 'hi'
    m.add_data_part(P('data\x00\xff', 'image/gif', {'Name': 'n'}, [('Content-Location', 'l')]).build())
    m.add_data_part(P('more', 'x', {}, [('X-a', 'b')], 'array').build())
    return m


def base_pages():
    m = MMSMessage()
    m.headers['Cc'] = 'me@x'
    m.headers['From'] = ''
    pg, w = page(('i.jpg', '\xff\xd8i'), ('a.wav', 'RIFF'), 'text 1', 1000, ((0, 10), (5, 0), (1, 5000)))
    m.add_page(pg)
    pg, w = page(text='text 2')
    m.add_page(pg)
    pg, w = page(('i.jpg', '\xff\xd8i'))
    m.add_page(pg)
    return m


def base_mixed():
    m = base_pages()
    m.add_data_part(P('d', 'application/vnd.wap.multipart.related', {'Type': 'application/smil'}).build())
    m.width = 99
    return m


def base_x():
    m = MMSMessage()
    del m.headers['Message-Type']
    del m.headers['Transaction-Id']
    m.headers['X-Mms-Message-Type'] = 'm-send-req'
    m.headers['X-Mms-Transaction-Id'] = 'tr'
    m.headers['X-Mms-Version'] = '1.2'
    m.add_data_part(P('a', 'text/plain', form='text').build())
    return m


def base_send():
    m = MMSMessage()                                    # a send request without a recipient
    m.headers['Content-Type'] = ('application/vnd.wap.multipart.related', {'Start': '<0000>', 'Type': 'application/smil'})
    m.add_data_part(DataPart(write('f.png', '\x89PNG\r\n')))
    return m


def base_decoded():
    return MMSMessage.from_data(base_plain().encode())


def base_shared():
    """one part used twice, one page used twice"""
    m = MMSMessage()
    p = P('shared', 'image/gif').build()
    m.add_data_part(p)
    m.add_data_part(p)
    pg, w = page(('i.jpg', 'x'), None, 'twice')
    m.add_page(pg)
    m.add_page(pg)
    return m


def base_subclassed():
    m = MMSMessage()
    m.headers['To'] = 'x'
    m.headers['Message-Type'] = 'm-retrieve-conf'
    pg, w = page(None, ('a.wav', '\x00\x01'), '')
    m.add_page(pg)
    return m


BASES = [Named(f.__name__[5:], f) for f in (base_empty, base_plain, base_pages, base_mixed, base_x, base_send, base_decoded,
                                           base_shared, base_subclassed)]


def parts_of(m):
    ps = []
    for pg in m.pages:
        for x in (pg.image, pg.audio, pg.text):
            if x is not None:
                ps.append(x[0])
    seen = m.data_parts
    return ps + [p for p in seen if not [q for q in ps if q is p]][1 if m.pages else 0:]


def snapshot(m):
    """what the owner of the message can see of it"""
    pages = []
    for pg in m.pages:
        one = [id(pg), pg.duration, pg.number_of_parts()]
        for x in (pg.image, pg.audio, pg.text):
            one.append(None if x is None else (id(x[0]),) + x[1:])
        pages.append(one)
    parts = []
    for p in parts_of(m):
        parts.append((id(p), copy.deepcopy(p.headers), p.content_type, copy.deepcopy(p.content_type_parameters), p.data, len(p)))
    return copy.deepcopy(m.headers), m.content_type, pages, parts, m.width, m.height, m.subject, m.transactionID


def decoded_view(m):
    return m.headers, [(p.headers, p.content_type_parameters, p.data, len(p)) for p in m.data_parts]


def list_of(data, ctx, what):
    if not isinstance(data, array.array):
        ctx.fail('%s is %r' % (what, type(data)))
    return data.tolist()


ENCODER = MMSEncoder()
DECODER = MMSDecoder()
OPS = ['encode', 'encoder', 'to_file', 'smil', 'data_parts', 'data', 'len', 'from_file', 'reencode']


def do(m, op, ctx, i):
    if op == 'encode':
        return 'wire', list_of(m.encode(), ctx, op)
    if op == 'encoder':                                 # one encoder for everything
        return 'wire', list_of(ENCODER.encode(m), ctx, op)
    if op in ('to_file', 'from_file', 'reencode'):
        path = os.path.join(SCRATCH, 'm%d.mms' % (i % 2))
        m.to_file(path)
        f = open(path, 'rb')
        octets = f.read()
        f.close()
        if op == 'to_file':
            return 'wire', [ord(c) for c in octets]
        a = decoded_view(MMSMessage.from_file(path))
        b = decoded_view(MMSMessage.from_data(arr(octets)))
        ctx.eq(a, b, 'from_file and from_data')
        c = decoded_view(DECODER.decode_file(path))
        ctx.eq(c, b, 'a decoder used before and a new one')
        return 'decoded', b
    if op == 'smil':
        return op, m.smil()
    if op == 'data_parts':
        return op, [(p.content_type, p.headers, p.data, len(p)) for p in m.data_parts]
    if op == 'data':
        return op, [p.data for p in parts_of(m)]
    if op == 'len':
        ps = parts_of(m)
        n = [len(p) for p in ps]
        ctx.eq(n, [len(p.data) for p in ps], 'lengths of the parts')
        return op, n


def repeat(cfg, ctx):
    m = cfg['base'].value()
    early = cfg['early']
    first = {}
    before = None if early else snapshot(m)
    for i, op in enumerate(cfg['ops']):
        kind, r = ctx.must('%s (step %d)' % (op, i), do, m, op, ctx, i)
        r = copy.deepcopy(r)
        if kind in first:
            if r != first[kind]:
                ctx.fail('%s after %s: %s differs from the first time' % (op, list(cfg['ops'][:i]), kind))
        first[kind] = r
        now = snapshot(m)
        if before is None:
            before = now                                # the first look at the parts is after the first operation
        elif now != before:
            for a, b in zip(before, now):
                if a != b:
                    ctx.fail('%s after %s changed the message: %r is now %r' % (op, list(cfg['ops'][:i]), a, b))
        ctx.state((cfg['base'].name, early, tuple(cfg['ops'][:i + 1])))
    if early:
        # against a message nothing was done with
        o = cfg['base'].value()
        for kind, op in (('wire', 'encode'), ('smil', 'smil')):
            if kind in first:
                ctx.eq(do(o, op, ctx, 0)[1], first[kind], '%s of a new message' % kind)
        a, b = snapshot(o), before
        ctx.eq(a[:2] + a[4:], b[:2] + b[4:], 'headers of a new message')
        ctx.eq([x[1:] for x in a[3]], [x[1:] for x in b[3]], 'parts of a new message')
    return cfg['ops'][-1]


def isolated(cfg, ctx):
    """returned objects belong to the caller"""
    m = cfg['base'].value()
    e1 = m.encode()
    want = e1.tolist()
    for i in range(len(e1)):
        e1[i] = 0
    del e1[5:]
    ctx.eq(m.encode().tolist(), want, 'encoding after the first result was changed')
    b1 = MMSMessage.from_data(array.array('B', want))
    b2 = MMSMessage.from_data(array.array('B', want))
    v = copy.deepcopy(decoded_view(b2))
    b1.headers['To'] = 'changed'
    b1.headers['Content-Type'][1]['X'] = 'changed'
    for p in b1.data_parts:
        p.headers['X-changed'] = 'y'
        p.content_type_parameters['Z'] = 'z'
        p.set_data('changed', 'x')
    b1.add_data_part(DataPart())
    ctx.eq(decoded_view(b2), v, 'a message decoded twice')
    n = MMSMessage()
    ctx.eq(n.headers, M.DEFAULTS, 'headers of a new message')
    ctx.eq((n.pages, n.data_parts), ([], []), 'parts of a new message')
    d = array.array('B', want)
    b3 = MMSMessage.from_data(d)
    for i in range(len(d)):
        d[i] = 0x41
    ctx.eq(decoded_view(b3), v, 'a message whose source was overwritten')
    # parts set from a caller's dictionary
    return 'ok'


# -- data parts ------------------------------------------------------------

A = {'short': 'S', 'long': 'a much longer content\x00\xff\r\n', 'empty': ''}
POPS = ['from A', 'from B', 'A long', 'A empty', 'B short', 'str', 'array', 'text', 'nothing', 'len', 'data', 'encode', 'delete A']


def histories(cfg, ctx):
    """candidates: contents the part may deliver"""
    path = {'A': write('A.gif', A['short']), 'B': write('B.xyzzy', A['long'])}
    files = {'A': A['short'], 'B': A['long']}
    p = DataPart()
    cand, src, told = [''], None, False
    ctype = 'application/octet-stream'
    loc = None
    for i, op in enumerate(cfg['ops']):
        if op in ('from A', 'from B'):
            n = op[-1]
            st, v = ctx.call(p.from_file, path[n])
            if files[n] is None:
                if st == 'ok' or not isinstance(v, OSError):
                    ctx.fail('a file that is not there: %r' % (v,))
                continue
            if st != 'ok':
                ctx.fail('%s raised %r' % (op, v))
            cand, src, told = [files[n]], n, False
            ctype, loc = {'A': 'image/gif', 'B': 'application/octet-stream'}[n], {'A': 'A.gif', 'B': 'B.xyzzy'}[n]
        elif op == 'delete A':
            if files['A'] is not None:
                os.remove(path['A'])
                files['A'] = None
        elif op[:2] in ('A ', 'B '):
            n = op[0]
            files[n] = A[op[2:]]
            write(os.path.basename(path[n]), files[n])
            if src == n and not told:
                cand.append(files[n])
        elif op in ('str', 'array', 'text', 'nothing'):
            d = {'str': 'str\x80', 'array': 'arr\x00\xff!', 'text': 'some text', 'nothing': ''}[op]
            if op == 'text':
                p.set_text(d)
                ctype = 'text/plain'
            else:
                p.set_data(arr(d) if op == 'array' else d, 'image/png', {'Name': 'n'})
                ctype = 'image/png'
            cand, src, told, loc = [d], None, True, None
        else:
            if op == 'len':
                st, n = ctx.call(len, p)
                if st == 'ok':
                    cand = [c for c in cand if len(c) == n]
                    if not cand:
                        ctx.fail('%s gives length %d' % (cfg['ops'][:i + 1], n))
            elif op == 'data':
                st, d = ctx.call(lambda: p.data)
                if st == 'ok':
                    if d not in cand:
                        ctx.fail('%s delivers %r, expected one of %r' % (cfg['ops'][:i + 1], d, cand))
                    cand = [d]
            else:
                m = MMSMessage()
                m.add_data_part(p)
                st, d = ctx.call(m.encode)
                if st == 'ok':
                    try:
                        hs, parts = M.parse(d)
                    except W.Bad, e:
                        ctx.fail('%s: the PDU is not well-formed: %s' % (cfg['ops'][:i + 1], e))
                    d = parts[-1][3]
                    if d not in cand:
                        ctx.fail('%s encodes %r, expected one of %r' % (cfg['ops'][:i + 1], d, cand))
                    cand = [d]
                    ctx.eq(parts[-1][0], ctype, '%s: content type' % (cfg['ops'][:i + 1],))
                    ctx.eq(parts[-1][2].get('Content-Location'), loc, '%s: location' % (cfg['ops'][:i + 1],))
            if st != 'ok':
                if not (src == 'A' and files['A'] is None and not told):
                    ctx.fail('%s raised %r' % (cfg['ops'][:i + 1], n if op == 'len' else d))
            else:
                told = True
        ctx.eq(p.content_type, ctype, '%s: content type' % (cfg['ops'][:i + 1],))
        ctx.eq(p.headers.get('Content-Location'), loc, '%s: location' % (cfg['ops'][:i + 1],))
        ctx.state((op, tuple(sorted(cand)), src, told, files['A'] is None))
    # the end of the history: length and data agree
    st, n = ctx.call(len, p)
    if st == 'ok':
        d = ctx.must('data after %r' % (cfg['ops'],), lambda: p.data)
        if len(d) != n or d not in cand:
            ctx.fail('%s: length %d, data %r, expected one of %r' % (cfg['ops'], n, d, cand))
        ctx.eq(len(p), n, 'length again')
    elif not (src == 'A' and files['A'] is None and not told):
        ctx.fail('%s: len raised %r' % (cfg['ops'], n))
    return cfg['ops'][-1]


def changes(cfg, ctx):
    """after any changes to a message it encodes as one built that way at once"""
    m = MMSMessage()
    m.headers['To'] = 'a'
    pages, parts = [], []
    for i, op in enumerate(cfg['ops']):
        if op == 'encode':
            m.encode()
        elif op == 'smil':
            m.smil()
        elif op == 'page':
            pg, w = page(None, None, 't%d' % i)
            m.add_page(pg)
            pages.append([pg, 't%d' % i, None, 4000])
        elif op == 'text' and pages:
            pages[-1][0].add_text('n%d' % i)
            pages[-1][1] = 'n%d' % i
        elif op == 'image' and pages:
            pages[-1][0].add_image(write('i%d.jpg' % i, 'img%d' % i))
            pages[-1][2] = 'i%d.jpg' % i, 'img%d' % i
        elif op == 'duration' and pages:
            pages[-1][0].set_duration(100 + i)
            pages[-1][3] = 100 + i
        elif op == 'part':
            p = P('d%d' % i, 'x').build()
            m.add_data_part(p)
            parts.append([p, 'd%d' % i, 'x'])
        elif op == 'content' and parts:
            parts[-1][0].set_data('c%d' % i, 'image/gif')
            parts[-1][1:] = ['c%d' % i, 'image/gif']
        elif op == 'subject':
            m.headers['Subject'] = 's%d' % i
    n = MMSMessage()
    n.headers['To'] = 'a'
    if 'Subject' in m.headers:
        n.headers['Subject'] = m.headers['Subject']
    want = []
    for pg, t, im, d in pages:
        x, w = page(im, None, t, d)
        n.add_page(x)
        want += w
    for p, d, c in parts:
        n.add_data_part(P(d, c).build())
        want.append((c, {}, {}, d))
    try:
        hs, got = M.parse(m.encode())
    except W.Bad, e:
        ctx.fail('%s: the PDU is not well-formed: %s' % (cfg['ops'], e))
    ctx.eq(got[1:], want, '%s: parts' % (cfg['ops'],))
    ctx.eq(m.smil(), n.smil(), '%s: SMIL' % (cfg['ops'],))
    ctx.eq(M.as_dict(hs), M.as_dict(M.parse(n.encode())[0]), '%s: headers' % (cfg['ops'],))
    ctx.eq(got, M.parse(n.encode())[1], '%s: all parts' % (cfg['ops'],))
    ctx.eq([(p.content_type, p.data) for p in m.data_parts], [(p.content_type, p.data) for p in n.data_parts],
           '%s: parts' % (cfg['ops'],))
    return cfg['ops'][-1]


# -- encodings that fail ---------------------------------------------------

def victim(m, which):
    ps = parts_of(m)
    return ps[which % len(ps)] if ps else None


FAULTS = {
    'message header': lambda m, w: m.headers.update({'Date': 5}),
    'message text': lambda m, w: m.headers.update({'Subject': u'\u20ac'}),
    'application header': lambda m, w: m.headers.update({'X Y': 'z'}),
    'message content type': lambda m, w: m.headers.update({'Content-Type': ('image/gif', {'X': -1})}),
    'message content type text': lambda m, w: m.headers.update({'Content-Type': (u'\u20ac', {})}),
    'type': lambda m, w: m.headers.update({'MMS-Version': 5}),
    'part header': lambda m, w: victim(m, w).headers.update({'X-bad': u'\u20ac'}),
    'part header name': lambda m, w: victim(m, w).headers.update({'X bad': 'x'}),
    'part content type': lambda m, w: victim(m, w).headers.update({'Content-Type': ('image/gif', {'a b': 'c'})}),
    'part content type value': lambda m, w: victim(m, w).headers.update({'Content-Type': ('\x00', {})}),
    'part data': lambda m, w: victim(m, w).set_data(5, 'image/gif'),
    'part text': lambda m, w: victim(m, w).set_data(u'\u20ac', 'image/gif'),
    'missing file': lambda m, w: victim(m, w).from_file(write('gone.gif', 'x')),
}


def deep(m):
    """the whole message, looked at without reading contents"""
    parts = []
    for p in [x[0] for pg in m.pages for x in (pg.image, pg.audio, pg.text) if x is not None] + m._data_parts_seen:
        parts.append((id(p), sorted(p.headers.items()), p.content_type_parameters))
    return copy.deepcopy(sorted(m.headers.items())), copy.deepcopy(parts), [
        (id(pg), pg.duration, [x and (id(x[0]),) + x[1:] for x in (pg.image, pg.audio, pg.text)]) for pg in m.pages], m.width, m.height


def failing(cfg, ctx):
    """an encoding that raises changes nothing, and the message encodes as if it had not been tried"""
    res = []
    for tried in (False, True):
        m = cfg['base'].value()
        m._data_parts_seen = m.data_parts[1 if m.pages else 0:]
        if cfg['fault'][:4] in ('part', 'miss') and not parts_of(m):
            return 'no part'
        held = copy.deepcopy(m.headers)
        who = victim(m, cfg['which']) if parts_of(m) else None
        hold = (copy.deepcopy(who.headers), who.data) if who is not None else None
        FAULTS[cfg['fault']](m, cfg['which'])
        if cfg['fault'] == 'missing file':
            os.remove(os.path.join(SCRATCH, 'gone.gif'))
        if tried:
            before = deep(m)
            for op in cfg['ops']:
                if op == 'encode':
                    st, v = ctx.call(m.encode)
                elif op == 'encoder':
                    st, v = ctx.call(ENCODER.encode, m)
                elif op == 'to_file':
                    path = write('f.mms', 'written before')
                    st, v = ctx.call(m.to_file, path)
                    if st != 'ok':
                        f = open(path, 'rb')
                        ctx.eq(f.read(), 'written before', 'the file of a message with a bad %s' % cfg['fault'])
                        f.close()
                elif op == 'smil':
                    st, v = ctx.call(m.smil)
                    if cfg['fault'] == 'missing file':
                        st = 'exc'                      # may need the file, or not
                else:
                    st, v = ctx.call(lambda: [p.data for p in m.data_parts])
                if st == 'ok' and op in ('encode', 'encoder', 'to_file'):
                    return 'encodable'
                now = deep(m)
                for a, b in zip(before, now):
                    if a != b:
                        ctx.fail('%s, which cannot encode a bad %s, changed the message: %r is now %r' % (op, cfg['fault'], a, b))
        m.headers.clear()
        m.headers.update(held)
        if who is not None:
            hs = hold[0]
            ct = hs['Content-Type']
            who.set_data(hold[1], ct[0], ct[1])
            for k, v in hs.items():
                who.headers[k] = v
        res.append((ctx.must('encoding after repair', m.encode).tolist(), ENCODER.encode(m).tolist(), m.smil()))
    ctx.eq(res[1], res[0], 'the message after failed %s for a bad %s' % (list(cfg['ops']), cfg['fault']))
    return 'ok'


def spaces(tier):
    q = tier != 'thorough'
    F = free
    deep = 3 if q else 4
    seqs = [t for n in range(1, deep + 1) for t in itertools.product(OPS, repeat=n)]
    hist = [t for n in range(1, 5 if q else 6) for t in itertools.product(POPS, repeat=n)
            if t[0] not in ('len', 'data', 'encode', 'A long', 'A empty', 'B short', 'delete A') and (n < 5 or t[0] in ('from A', 'str'))]
    cops = ['encode', 'smil', 'page', 'text', 'image', 'duration', 'part', 'content', 'subject']
    ch = [t for n in range(1, 5 if q else 6) for t in itertools.product(cops, repeat=n)]
    return [
        Space('operations', [F('base', BASES), F('early', [False, True]), F('ops', seqs)], repeat,
              note='every sequence of up to %d reading operations' % deep,
              skip=lambda c: q and len(c['ops']) == 3 and c['base'].name not in ('pages', 'mixed', 'plain', 'x')
              and (c['early'] or c['ops'][0] == c['ops'][1])),
        Space('failing encodings', [F('base', BASES), F('fault', sorted(FAULTS)), F('which', range(3 if q else 6)),
                                    F('ops', [t for n in range(1, 3 if q else 4) for t in itertools.product(
                                        ['encode', 'encoder', 'to_file', 'smil', 'parts'], repeat=n)])], failing,
              skip=lambda c: c['which'] and c['fault'][:4] not in ('part', 'miss')),
        Space('results belong to the caller', [F('base', BASES)], isolated),
        Space('histories of a data part', [F('ops', hist)], histories),
        Space('changes between encodings', [F('ops', ch)], changes),
    ]

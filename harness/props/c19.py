# -*- coding: utf-8 -*-
"""Damaged MMS data: every cut, every single octet replaced"""
import array
from engine import Space, free, dev
import ref_mms as M
import ref_wsp as W
from mcommon import Named, P, page, pattern, write, bytes_of, cleanup
from messaging.mms.message import MMSMessage
from messaging.sms.wap import extract_push_notification
from java.lang import Error

T = W.text


class Base(object):
    """octets, where the headers and the parts end, and what they say"""
    def __init__(self, name, hs, parts=None, push=()):
        self.name = name
        self.push = list(push)
        self.octets = list(push)
        self.heads, self.ends = [], []
        for n, v, o in hs:
            self.octets += o
            self.heads.append((len(self.octets), n, v))
        if parts is not None:
            self.octets += W.uintvar(len(parts))
            for o, d in parts:
                self.octets += o
                self.ends.append((len(self.octets), d))

    def __repr__(self):
        return '%s (%d octets)' % (self.name, len(self.octets))


def H(n, v, o):
    return n, v, M.field(n, o)


RET = [H('Message-Type', 'm-retrieve-conf', [0x84]), H('Transaction-Id', 'Tr', T('Tr')), H('MMS-Version', '1.1', [0x91])]
IND = [H('Message-Type', 'm-notification-ind', [0x82]), H('Transaction-Id', 'T9', T('T9')), H('MMS-Version', '1.2', [0x92])]
MIXED = ('Content-Type', ('application/vnd.wap.multipart.mixed', {}), [0x84, 0xa3])


def RELATED():
    o = W.content_type('application/vnd.wap.multipart.related', [W.param(10, T('<0>')), W.param(9, W.media('application/smil'))])
    return 'Content-Type', ('application/vnd.wap.multipart.related', {'Start': '<0>', 'Type': 'application/smil'}), [0x84] + o


def part(m, hs, data):
    ho, d = [], {}
    for n, v, o in hs:
        ho += o
        d[n] = v
    return M.part(W.media(m), ho, [ord(c) for c in data]), ((m, {}), d, data)


def bases(tier):
    cl = ('Content-Location', 'l.gif', [0x8e] + T('l.gif'))
    cid = ('Content-ID', '<0>', [0xc0] + W.quoted('<0>'))
    x = ('X-a', 'b', W.raw('X-a') + [0] + T('b'))
    note = IND + [H('From', '+1/TYPE=PLMN', M.from_('+1/TYPE=PLMN')), H('Message-Class', 'Personal', [0x80]),
                  H('Message-Size', 29696, W.long_(29696)), H('Expiry', 72000, M.expiry('relative', 72000)),
                  H('Content-Location', 'http://m/1', T('http://m/1'))]
    all_ = RET + [H('Date', M.when(10 ** 9), W.long_(10 ** 9)), H('From', '<not inserted>', M.from_(None)), H('To', 'to', T('to')),
                  H('Cc', 'cc', W.encoded_string('cc', 0x6a)), H('Bcc', 'bcc', T('bcc')), H('Subject', 's \xe9', T('s \xe9')),
                  H('Delivery-Report', True, [128]), H('Read-Reply', False, [129]), H('Report-Allowed', True, [128]),
                  H('Delivery-Time', ('absolute', 10 ** 9), M.expiry('absolute', 10 ** 9)),
                  H('Expiry', M.when(10 ** 9), M.expiry('absolute', 10 ** 9)), H('Message-Class', 'cls', W.raw('cls') + [0]),
                  H('Message-ID', 'id', T('id')), H('Priority', 'High', [130]), H('Response-Status', 'Ok', [128]),
                  H('Response-Text', 'rt', T('rt')), H('Sender-Visibility', 'Show', [129]), H('Status', 'Retrieved', [129]),
                  ('X-a', 'v', M.app_field('X-a', 'v'))]
    b = [
        Base('notification', note),
        Base('notification in a push', note, None, [5, 6, 3, 0xbe, 0xaf, 0x84]),
        Base('every header', all_),
        Base('mixed', RET + [MIXED], [part('text/plain', [], 'ab'), part('image/gif', [cl], '\x01\x02\x03')]),
        Base('related', RET + [RELATED()], [part('application/smil', [cid, cl], '<smil/>'), part('x-y', [x], ''),
                                            part('image/jpeg', [x, cl, cid], '\xff\xd8\x00')]),
        Base('long part', RET + [H('Subject', 'x' * 40, W.encoded_string('x' * 40, 4)), MIXED],
             [part('image/gif', [('Content-Location', 'l' * 120, [0x8e] + T('l' * 120))], pattern('count', 130))]),
        Base('headers and parts', all_ + [MIXED], [part('text/plain', [], 'ab'), part('image/gif', [cl], 'c')]),
        Base('many parts', RET + [MIXED], [part('text/plain', [], str(i % 10)) for i in range(130)]),
    ]
    # encoded by the library
    m = MMSMessage()
    m.headers['To'] = '+1/TYPE=PLMN'
    m.headers['Subject'] = 'subject'
    pg, want = page(('i.jpg', '\xff\xd8\x01'), ('a.wav', 'RIFF'), 'some text')
    m.add_page(pg)
    m.add_data_part(P('d\x00', 'x', {}, [('X-n', '1')]).build())
    b.append(Own('library message', m))
    m = MMSMessage()
    m.headers.update({'Message-Type': 'm-notifyresp-ind', 'Status': 'Retrieved', 'From': ''})
    b.append(Own('library response', m))
    return b


class Own(Base):
    """a PDU the library encodes; intact content is what its decoder shows for the whole PDU"""
    def __init__(self, name, m):
        self.name, self.push = name, []
        self.octets = list(m.encode())
        o = MMSMessage.from_data(array.array('B', self.octets))
        self.full = o
        hs, parts = M.parse(self.octets)
        self.heads = []
        for k, v in hs:
            self.heads.append((None, k, o.headers[k]))
        self.ends = []
        for p in o.data_parts:
            h = dict(p.headers)
            self.ends.append((None, (h.pop('Content-Type'), h, p.data)))


def run(base, octets, how):
    if base.push:
        return extract_push_notification(''.join([chr(b) for b in octets]))
    if how:
        return MMSMessage.from_file(write('cut.mms', ''.join([chr(b) for b in octets])))
    return MMSMessage.from_data(array.array('B', octets))


def cuts(cfg, ctx):
    base = cfg['base'].value
    n = cfg['n']
    st, m = ctx.call(run, base, base.octets[:n], cfg['how'])
    if st != 'ok':
        if isinstance(m, Error):
            ctx.fail('%s cut after %d octets: %r' % (base, n, m))
        if n == len(base.octets):
            ctx.fail('%s: raised %r' % (base, m))
        return 'refused'
    # some prefix of the headers ...
    ok = None
    want = dict(M.DEFAULTS)
    if m.headers == want:
        ok = 0
    for i, (end, k, v) in enumerate(base.heads):
        if end is not None and end > n:
            break
        want[k] = v
        if m.headers == want:
            ok = i + 1
    if ok is None:
        ctx.fail('%s cut after %d octets gives headers %r' % (base, n, m.headers))
    # ... and of the parts
    ps = m.data_parts
    if len(ps) > len(base.ends):
        ctx.fail('%s cut after %d octets gives %d parts' % (base, n, len(ps)))
    if ps and ok != len(base.heads):
        ctx.fail('%s cut after %d octets gives parts without all headers' % (base, n))
    for p, (end, w) in zip(ps, base.ends):
        h = dict(p.headers)
        got = h.pop('Content-Type', None), h, p.data
        ctx.eq(got, w, '%s cut after %d octets: a part' % (base, n))
        ctx.eq(len(p), len(w[2]), '%s cut after %d octets: length of a part' % (base, n))
        if end is not None and end > n:
            ctx.fail('%s cut after %d octets gives a part that ends after %d' % (base, n, end))
    if n == len(base.octets):
        ctx.eq((ok, len(ps)), (len(base.heads), len(base.ends)), '%s: headers and parts' % base)
    return '%d headers' % ok if not ps else '%s parts' % (len(ps) if len(ps) < 5 else 'many')


def replaced(cfg, ctx):
    base = cfg['base'].value
    i = cfg['i']
    if i >= len(base.octets):
        return 'no such octet'
    res = {}
    for v in cfg['values']:
        o = base.octets[:]
        o[i] = v
        st, m = ctx.call(run, base, o, 0)
        if st == 'ok':
            len(m.data_parts)
        elif isinstance(m, Error):
            ctx.fail('%s with octet %d = 0x%02x: %r' % (base, i, v, m))
        res[st] = 1
    return '+'.join(sorted(res))


def replaced2(cfg, ctx):
    base = cfg['base'].value
    i, j = cfg['ij']
    for v in cfg['values']:
        for w in cfg['values']:
            o = base.octets[:]
            o[i], o[j] = v, w
            st, m = ctx.call(run, base, o, 0)
            if st == 'ok':
                len(m.data_parts)
            elif isinstance(m, Error):
                ctx.fail('%s with octets %d, %d = 0x%02x, 0x%02x: %r' % (base, i, j, v, w, m))
    return 'ok'


def spaces(tier):
    q = tier != 'thorough'
    F = free
    bs = [Named(repr(b), b) for b in bases(tier)]
    short = [b for b in bs if len(b.value.octets) < (260 if q else 800) or b.value.name.startswith('library')]
    out = []
    for b in bs:
        n = len(b.value.octets)
        out.append(Space('cuts of ' + b.value.name, [F('base', [b]), F('n', range(n, -1, -1)), F('how', [0, 1] if n < 300 else [0])],
                         cuts))
    for b in short:
        n = len(b.value.octets)
        own = b.value.name == 'library message'
        vals = range(256) if not own or not q else sorted(set([0, 1, 2, 3, 30, 31, 32, 34, 65, 126, 127, 128, 129, 130, 131, 132,
                                                              144, 179, 192, 254, 255]))
        out.append(Space('octets of ' + b.value.name, [F('base', [b]), F('i', range(n)), F('values', [vals])], replaced))
    if not q:
        few = [0, 1, 30, 31, 34, 65, 127, 128, 132, 255]
        for b in bs:
            n = len(b.value.octets)
            if n < 130:
                out.append(Space('pairs of octets of ' + b.value.name, [
                    F('base', [b]), F('ij', [(i, j) for i in range(n) for j in range(i + 1, n)]), F('values', [few])], replaced2))
    return out

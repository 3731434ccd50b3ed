# -*- coding: utf-8 -*-
"""Damaged SMS PDUs"""
from engine import Space, free, dev
from dcommon import Addr, Text, digits, ie_filler
import ref_gsm
import ref_sms
from messaging.sms import SmsDeliver

A = Addr('num', '+34616585119')
TS = ref_sms.scts(2012, 3, 4, 5, 6, 7, 8)
DT = ref_sms.scts(2012, 3, 4, 5, 16, 17, 8)
CONCAT = [0, 3, 0x42, 2, 1]
BOTH = CONCAT + [5, 4, 0x0b, 0x84, 0x23, 0xf0]


def D(addr, text, csca='+34607003110', udh=None, pid=0, dcs=None):
    return ref_sms.build_deliver(addr.octets(), text.fmt, text.payload(), csca=csca, udh=udh, pid=pid, dcs=dcs, ts=TS)


def bases(tier):
    b = [
        ('gsm', D(A, Text(0, 'pat', 11))),
        ('gsm without service centre', D(A, Text(0, 'pat', 8), None)),
        ('gsm with escapes', D(Addr('num', '12345'), Text(0, 'esc', 16))),
        ('gsm with concatenation', D(A, Text(0, 'pat', 17), udh=CONCAT)),
        ('gsm with two elements', D(A, Text(0, 'pat', 5), None, udh=BOTH)),
        ('ucs2', D(A, Text(8, 'pat', 6))),
        ('ucs2 with concatenation', D(A, Text(8, 'pat', 5), udh=CONCAT)),
        ('8-bit', D(A, Text(4, 'pat', 12), None)),
        ('8-bit with unknown element', D(A, Text(4, 'pat', 9), udh=ie_filler(9))),
        ('16-bit concatenation', D(A, Text(8, 'pat', 4), None, udh=[8, 4, 1, 2, 3, 1])),
        ('alphanumeric', D(Addr('alnum', u'Provider'), Text(0, 'pat', 9))),
        ('empty text', D(A, Text(0, 'pat', 0))),
        ('waiting indication', D(A, Text(0, 'pat', 7), dcs=0xc8)),
        ('status report', ref_sms.build_status(7, A.octets(), TS, DT, 0, csca='+34607003110')),
        ('status report without service centre', ref_sms.build_status(255, Addr('num', '12345').octets(), TS, DT, 0x30)),
        ('status report with more fields', ref_sms.build_status(1, A.octets(), TS, DT, 0x46, tail=(0x03, 0x41, 0x00))),
    ]
    if tier == 'thorough':
        b += [('long gsm', D(A, Text(0, 'pat', 160))), ('long ucs2', D(A, Text(8, 'pat', 67), udh=CONCAT)),
              ('long 8-bit', D(A, Text(4, 'pat', 140))),
              ('gsm fill bits', D(A, Text(0, '7f', 30), udh=ie_filler(3)))]
    return b


def view(m):
    u = None
    if m.udh is not None:
        c = m.udh.concat and (m.udh.concat.ref, m.udh.concat.cnt, m.udh.concat.seq, m.udh.concat.eight_bits)
        p = m.udh.ports and (m.udh.ports.dest_port, m.udh.ports.orig_port, m.udh.ports.eight_bits)
        u = (c, p, dict((k, list(v)) for k, v in m.udh.headers.items()))
    return dict(number=m.number, csca=m.csca, pid=m.pid, dcs=m.dcs, fmt=m.fmt, date=m.date, udh=u, type=m.type)


def compare(ctx, m, o, what):
    """m was decoded from a damaged copy of the PDU that gave o"""
    a, b = view(m), view(o)
    if o.sr is not None:
        if m.sr is None:
            ctx.fail('%s: a status report became a message' % what)
        for k in ('recipient', 'scts', 'dt', 'status'):
            x, y = m.sr[k], o.sr[k]
            if x != y and not (x is None and k != 'recipient'):
                ctx.fail('%s: %s became %r (was %r)' % (what, k, x, y))
        ctx.eq((a['csca'], a['udh']), (b['csca'], b['udh']), what + ': service centre and reference')
        if a['number'] != b['number'] and a['number'] != 'SR-UNKNOWN':
            ctx.fail('%s: outcome became %r' % (what, a['number']))
        if m.sr['status'] is None:
            ctx.eq(a['number'], 'SR-UNKNOWN', what + ': outcome without a status')
        return 'partial report' if m.sr != o.sr else 'same'
    ctx.eq(m.sr, None, what + ': status report')
    for k in sorted(b):
        ctx.eq(a[k], b[k], '%s: %s' % (what, k))
    t, full = m.text, o.text
    if t == full:
        return 'same'
    if not full.startswith(t):
        # an escape sequence cut in two reads as one NBSP
        if not (o.fmt == 0 and t and t[-1] == u'\xa0' and full.startswith(t[:-1])
                and full[len(t) - 1:len(t)] in tuple(ref_gsm.EXT_CHARS)):
            ctx.fail('%s: text %r is not a prefix of %r' % (what, t, full))
    return 'prefix'


def cut(cfg, ctx):
    name, h = cfg['at'][0]
    n = cfg['at'][1]
    what = '%s cut to %d digits' % (name, n)
    st0, o = ctx.call(SmsDeliver, h)
    if st0 != 'ok':
        ctx.fail('%s: the intact PDU is refused: %r' % (name, o))
    piece = h[:n] if cfg['extra'] is None else h + cfg['extra']
    if cfg['lower']:
        piece = piece.lower()
    st, m = ctx.call(SmsDeliver, piece, cfg['strict'])
    if len(piece) % 2:
        if cfg['strict']:
            if st == 'ok':
                ctx.fail('%s: odd length accepted in strict mode' % what)
            if not isinstance(m, ValueError):
                ctx.fail('%s: odd length raised %r' % (what, m))
            return 'odd refused'
        st2, m2 = ctx.call(SmsDeliver, piece[:-1], False)
        ctx.eq(st, st2, what + ': lenient outcome with and without the last digit')
        if st == 'ok':
            ctx.eq((view(m), m.text, m.sr), (view(m2), m2.text, m2.sr), what + ': lenient result')
    if st != 'ok':
        if len(piece) >= len(h):
            ctx.fail('%s: complete data refused' % what)
        return 'refused'
    return compare(ctx, m, o, what)


def subst(cfg, ctx):
    name, h = cfg['at'][0]
    i = cfg['at'][1]
    piece = h[:2 * i] + ref_sms.hexl([cfg['v']]) + h[2 * i + 2:]
    st, m = ctx.call(SmsDeliver, piece)
    return 'decoded' if st == 'ok' else 'refused'


class At(tuple):
    def __repr__(self):
        return '%s@%d' % (self[0], self[1])


def spaces(tier):
    bs = [(n, ref_sms.hexl(o)) for n, o in bases(tier)]
    cuts = [At((b, i)) for b in bs for i in range(len(b[1]) + 1)]
    ends = [At((b, len(b[1]))) for b in bs]
    subs = [At((b, i)) for b in bs for i in range(len(b[1]) // 2)]
    return [
        Space('every cut', [free('at', cuts), free('strict', [True, False]), free('extra', [None]),
                            free('lower', [False, True])], cut),
        Space('extra digit', [free('at', ends), free('strict', [True, False]), free('extra', ['0', 'F']),
                              free('lower', [False])], cut),
        Space('every octet substituted', [free('at', subs), free('v', range(256))], subst),
    ] + ([Space('every pair of structural octets substituted',
                [free('at', [At((b, i)) for b in bs[:12] for i in range(min(30, len(b[1]) // 2))]),
                 free('j', range(1, 24)), free('v', SPECIAL), free('w', SPECIAL)], subst2)]
         if tier == 'thorough' else [])


SPECIAL = [0, 1, 2, 3, 0x0f, 0x1f, 0x3f, 0x40, 0x44, 0x7f, 0x80, 0xd0, 0xf0, 0xff]


def subst2(cfg, ctx):
    name, h = cfg['at'][0]
    i = cfg['at'][1]
    j = i + cfg['j']
    if 2 * j + 2 > len(h):
        return 'out of range'
    piece = h[:2 * i] + ref_sms.hexl([cfg['v']]) + h[2 * i + 2:]
    piece = piece[:2 * j] + ref_sms.hexl([cfg['w']]) + piece[2 * j + 2:]
    st, m = ctx.call(SmsDeliver, piece)
    return 'decoded' if st == 'ok' else 'refused'

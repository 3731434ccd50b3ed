# -*- coding: utf-8 -*-
"""Shared DELIVER oracle"""
from datetime import datetime, timedelta
import common
import ref_gsm
import ref_sms
from ref_sms import hexl


class Addr(object):
    """an originator address: digits with a type of number, or a word"""
    def __init__(self, kind, value, ton=None):
        self.kind, self.value, self.ton = kind, value, ton

    def octets(self):
        if self.kind == 'alnum':
            return ref_sms.alnum_address(ref_gsm.septets(self.value))
        t = None if self.ton is None else 0x81 | self.ton << 4
        return ref_sms.address(self.value, t)

    def expected(self):
        if self.kind == 'alnum':
            return self.value
        if self.ton is not None:
            return ('+' if self.ton == 1 else '') + self.value
        return self.value

    def __repr__(self):
        return '<%s %r ton=%s>' % (self.kind, self.value, self.ton)


def digits(n, s=1):
    return ''.join(['0123456789'[(s + i) % 10] for i in range(n)])


def ie_filler(n):
    """a header of exactly n octets made of one unknown element"""
    if n == 0:
        return []
    return [0x70, n - 2] + [(i * 7 + 3) & 255 for i in range(n - 2)]


class Text(object):
    """payload description: pattern of n units in alphabet fmt"""
    def __init__(self, fmt, kind, n):
        self.fmt, self.kind, self.n = fmt, kind, n

    def __repr__(self):
        return '<%s/%d %d>' % (self.kind, self.fmt, self.n)

    def payload(self):
        f, k, n = self.fmt, self.kind, self.n
        if f == 0:
            if k == 'pat':
                out, i = [], 5
                while len(out) < n:
                    if i % 128 != 0x1b:
                        out.append(i % 128)
                    i += 1
                return out
            if k == 'esc':
                out = []
                e = sorted(ref_gsm.EXT)
                i = 0
                while len(out) + 2 <= n:
                    out += [0x1b, e[i % len(e)]]
                    i += 1
                return out + [0x41] * (n - len(out))
            if k == 'one':
                return [n]
            return [int(k, 16)] * n
        if f == 4:
            if k == 'one':
                return [n]
            if k == 'pat':
                return [(i * 29 + 1) & 255 for i in range(n)]
            return [int(k, 16)] * n
        if k == 'one':
            return [n >> 8, n & 255]
        out = []
        base = u'\u0416\u4e2da\uffe6\x00\u00e9\ufffd\u0100'
        for i in range(n):
            c = ord(base[i % len(base)])
            out += [c >> 8, c & 255]
        return out

    def expected(self):
        p = self.payload()
        if self.fmt == 0:
            return ref_gsm.text(p)
        return ref_sms.payload_text(self.fmt, p)


def quarters_date(ts):
    y, mo, d, h, mi, s, q = ts
    return datetime(y, mo, d, h, mi, s) - timedelta(minutes=15 * q)


def dcs_fmt(dcs):
    return ref_sms.alphabet(dcs)


def fits(text, udh):
    """does the user data fit 140 octets?"""
    hl = 0 if udh is None else len(udh) + 1
    if text.fmt == 0:
        hs = (hl * 8 + 6) // 7
        return hs + text.n <= 160 and (text.kind != 'one' or text.n < 128)
    size = len(text.payload())
    return hl + size <= 140


def check_deliver(ctx, SmsDeliver, addr, text, csca, pid, dcs, udh, ts, fo=0x04,
                  lower=False, strict=True, smsc_ton=None, hexpdu=None, obj=None):
    if hexpdu is None:
        prefix = ref_sms.smsc_prefix(csca, None if smsc_ton is None else 0x81 | smsc_ton << 4)
        o = ref_sms.build_deliver(addr.octets(), text.fmt, text.payload(), csca=prefix, pid=pid,
                                  dcs=dcs, udh=udh, ts=ref_sms.scts(*ts), fo=fo)
        hexpdu = hexl(o)
        if lower:
            hexpdu = hexpdu.lower()
    m = obj
    if m is None:
        m = ctx.must('decoding %s' % hexpdu, SmsDeliver, hexpdu, strict)
    want_csca = csca
    if smsc_ton is not None and csca is not None:
        want_csca = ('+' if smsc_ton == 1 else '') + csca.lstrip('+')
    exp = dict(number=addr.expected(), csca=want_csca, pid=pid, dcs=dcs, fmt=text.fmt,
               date=quarters_date(ts), text=text.expected())
    for k in sorted(exp):
        got = getattr(m, k)
        ctx.eq(got, exp[k], '%s of %s' % (k, hexpdu))
        ctx.eq(m.data[k], exp[k], 'data[%s] of %s' % (k, hexpdu))
    ctx.eq((m.sr, m.data['sr']), (None, None), 'sr of a delivery')
    ctx.eq((m.type, m.data['type']), (None, None), 'type of a delivery')
    if udh is None:
        ctx.eq(m.udh, None, 'user data header')
    else:
        if m.udh is None:
            ctx.fail('no user data header reported for %s' % hexpdu)
        want = {}
        for i, d in ref_sms.parse_ies(udh):
            want[i] = d
        got = dict((k, list(v)) for k, v in m.udh.headers.items())
        ctx.eq(got, want, 'information elements of %s' % hexpdu)
    return m

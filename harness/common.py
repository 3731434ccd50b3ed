# -*- coding: utf-8 -*-
"""Shared oracle for SmsSubmit: what the PDUs must say for given attributes"""
from datetime import datetime, timedelta
import ref_gsm
import ref_sms
from ref_sms import Bad

LIMIT = {0: 160, 4: 140, 8: 70}
PART = {0: 153, 4: 134, 8: 67}


def units(fmt, text):
    """atoms (lists of septets/octets/characters) that may not be split"""
    if fmt == 0:
        out = []
        for c in text:
            e = ref_gsm.ENC.get(c)
            if e is None:
                return None
            out.append(e)
        return out
    lim = 0x100 if fmt == 4 else 0x10000
    for c in text:
        if ord(c) >= lim:
            return None
    return [(ord(c),) for c in text]


def choose_fmt(fmt, text):
    if fmt is not None:
        return fmt
    return 0 if ref_gsm.septets(text) is not None else 8


def min_parts(fmt, text):
    """None: not encodable; otherwise the least number of parts"""
    u = units(fmt, text)
    if u is None:
        return None
    total = 0
    for e in u:
        total += len(e)
    if total <= LIMIT[fmt]:
        return 1
    lim, n, room = PART[fmt], 0, 0
    for e in u:
        l = len(e)
        if l > room:
            n += 1
            room = lim
        room -= l
    return n


def quarters(d):
    off = d.utcoffset()
    if off is None:
        return 0
    return (off.days * 86400 + off.seconds) // 900


def expected_vp(v):
    if v is None:
        return None
    if isinstance(v, datetime):
        return ('abs', v.year % 100, v.month, v.day, v.hour, v.minute,
                v.second, quarters(v))
    return ('rel', ref_sms.relative_octet(v))


def plain(text):
    """text as the unicode string with the same code points"""
    return u''.join([unichr(ord(c)) for c in text])


def make(SmsSubmit, a):
    """build a SmsSubmit from an attribute dict"""
    s = SmsSubmit(a['number'], a['text'])
    apply_attrs(s, a)
    return s


def apply_attrs(s, a):
    if a.get('csca') is not None:
        s.csca = a['csca']
    if a.get('fmt') is not None:
        s.fmt = a['fmt']
    if a.get('klass') is not None:
        s.klass = a['klass']
    if a.get('pid'):
        s.pid = a['pid']
    if a.get('ref') is not None:
        s.ref = a['ref']
    if a.get('rand_id') is not None:
        s.rand_id = a['rand_id']
    if a.get('validity') is not None:
        s.validity = a['validity']
    if a.get('srr'):
        s.request_status = True


def check_fields(ctx, pdu, a, fmt, what):
    """everything except the user data; returns the parsed PDU"""
    try:
        p = ref_sms.parse_submit(pdu.pdu)
    except Bad, e:
        ctx.fail('%s is not a well-formed SUBMIT: %s (%s)' % (what, e, pdu.pdu))
    ctx.eq(pdu.length, p['tpdu_octets'], what + ': announced length')
    ctx.eq(p['csca'], a.get('csca'), what + ': service centre')
    ctx.eq(p['number'], a['number'], what + ': recipient')
    ctx.eq(p['pid'], a.get('pid') or 0, what + ': protocol id')
    ctx.eq(p['fmt'], fmt, what + ': alphabet')
    ctx.eq(p['klass'], a.get('klass'), what + ': class')
    if a.get('ref') is not None:
        ctx.eq(p['mr'], a['ref'] & 0xff, what + ': message reference')
    ctx.eq(p['vp'], expected_vp(a.get('validity')), what + ': validity')
    ctx.eq(p['srr'], bool(a.get('srr')), what + ': status report request')
    ctx.eq((p['rd'], p['rp']), (False, False), what + ': other flags')
    return p


def check_submit(ctx, SmsSubmit, a, sms=None):
    """full oracle for to_pdu of the message described by ``a``"""
    fmt = choose_fmt(a.get('fmt'), a['text'])
    n = min_parts(fmt, a['text'])
    if sms is None:
        sms = ctx.must('building the message', make, SmsSubmit, a)
    if n is None or n > 255:
        ctx.refuses('text that cannot be encoded (alphabet %s, parts %s)' % (fmt, n),
                    None, sms.to_pdu)
        return 'refused'
    v = a.get('validity')
    if v is not None and not isinstance(v, datetime) and \
            ref_sms.relative_octet(v) is None:
        ctx.refuses('validity %r' % v, ValueError, sms.to_pdu)
        return 'validity refused'
    pdus = ctx.must('to_pdu', sms.to_pdu)
    check_pdus(ctx, pdus, a, fmt, n)
    return '%s parts, alphabet %d' % (n if n < 5 else 'many', fmt)


def check_pdus(ctx, pdus, a, fmt, n):
    text = a['text']
    ctx.eq(len(pdus), n, 'number of parts')
    parsed = [check_fields(ctx, p, a, fmt, 'part %d/%d' % (i + 1, n))
              for i, p in enumerate(pdus)]
    for i, p in enumerate(pdus):
        ctx.eq((p.cnt, p.seq), (n, i + 1), 'count and sequence of part %d' % (i + 1))
    if n == 1:
        p = parsed[0]
        ctx.eq(p['udhi'], False, 'header indicator of a single part')
        ctx.eq(plain(p['text']), plain(text), 'text')
        return parsed
    ref = None
    whole = []
    mr = parsed[0]['mr']
    for i, p in enumerate(parsed):
        what = 'part %d/%d' % (i + 1, n)
        ctx.eq(p['udhi'], True, what + ': header indicator')
        ies = p['ies']
        if len(ies) != 1 or ies[0][0] != 0 or len(ies[0][1]) != 3:
            ctx.fail('%s: header %r is not one 8-bit concatenation element'
                     % (what, ies))
        r, cnt, seq = ies[0][1]
        if ref is None:
            ref = r
        ctx.eq(r, ref, what + ': concatenation reference')
        ctx.eq((cnt, seq), (n, i + 1), what + ': header count and sequence')
        ctx.eq(p['mr'], mr, what + ': message reference')
        whole.extend(p['payload'])
        # no escape sequence cut in two
        if fmt == 0 and p['payload'] and p['payload'][-1] == 0x1b and \
                (len(p['payload']) < 2 or p['payload'][-2] != 0x1b):
            ctx.fail('%s ends in the middle of an escape sequence' % what)
        if fmt == 8 and len(p['payload']) % 2:
            ctx.fail('%s ends in the middle of a character' % what)
    if a.get('rand_id') is not None:
        ctx.eq(ref, a['rand_id'] & 0xff, 'concatenation reference')
    ctx.eq(whole, ref_sms.text_payload(fmt, text), 'joined payload of all parts')
    return parsed

# -*- coding: utf-8 -*-
"""Independent 3GPP TS 23.040 codec used as the oracle.

Works on lists of octets and on explicit bit streams; shares no code with the
library under test.
"""
from datetime import timedelta
import ref_gsm

HEXU = '0123456789ABCDEF'


class Bad(Exception):
    """not a well-formed PDU"""


# ---------------------------------------------------------------- primitives
def hexl(octets):
    return ''.join([HEXU[o >> 4] + HEXU[o & 15] for o in octets])


_HV = {}
for _i in range(256):
    _HV[HEXU[_i >> 4] + HEXU[_i & 15]] = _i


def unhex(s):
    """strict: even length, upper case hex digits"""
    if len(s) % 2:
        raise Bad('odd number of hex digits')
    try:
        return [_HV[s[i:i + 2]] for i in xrange(0, len(s), 2)]
    except KeyError, e:
        raise Bad('not upper case hex: %s' % e)


def pack7(septs, fill=0):
    """septets -> octets after ``fill`` zero bits"""
    acc, nbits, out = 0, fill, []
    for s in septs:
        acc |= s << nbits
        nbits += 7
        while nbits >= 8:
            out.append(acc & 0xff)
            acc >>= 8
            nbits -= 8
    if nbits:
        out.append(acc & 0xff)
    return out


def unpack7(octets, n, fill=0):
    acc, nbits, out = 0, 0, []
    pos = 0
    if fill:
        acc, nbits, pos = octets[0] >> fill, 8 - fill, 1
    while len(out) < n:
        if nbits < 7:
            if pos >= len(octets):
                raise Bad('user data shorter than announced')
            acc |= octets[pos] << nbits
            pos += 1
            nbits += 8
        out.append(acc & 0x7f)
        acc >>= 7
        nbits -= 7
    if acc:
        raise Bad('padding bits not zero')
    if pos != len(octets):
        raise Bad('user data longer than announced')
    return out


def semi(digits):
    """digits -> swapped BCD octets"""
    d = ['0123456789*#abc'.index(c) for c in digits]
    if len(d) % 2:
        d.append(15)
    return [d[i] | d[i + 1] << 4 for i in range(0, len(d), 2)]


def unsemi(octets, n=None):
    nib = []
    for o in octets:
        nib.append(o & 15)
        nib.append(o >> 4)
    if n is None:
        n = len(nib)
        if nib and nib[-1] == 15:
            n -= 1
    elif n % 2:
        if nib[n] != 15:
            raise Bad('odd address not padded with F')
    for x in nib[:n]:
        if x > 9:
            raise Bad('non decimal digit in address')
    return ''.join([HEXU[x] for x in nib[:n]])


def bcd(v):
    return (v % 10) << 4 | v // 10


def scts(y, mo, d, h, mi, s, quarters=0):
    z = bcd(abs(quarters))
    if quarters < 0:
        z |= 0x08
    return [bcd(y % 100), bcd(mo), bcd(d), bcd(h), bcd(mi), bcd(s), z]


def unbcd(o):
    if (o & 15) > 9 or (o >> 4) > 9:
        raise Bad('bad BCD octet %02x' % o)
    return (o & 15) * 10 + (o >> 4)


def unscts(o):
    """-> (y, mo, d, h, mi, s, quarters)"""
    neg = o[6] & 0x08
    q = (o[6] & 7) * 10 + (o[6] >> 4)
    r = tuple(unbcd(x) for x in o[:6])
    return r + (-q if neg else q,)


def alphabet(dcs):
    """TS 23.038 section 4; uncompressed text only.  0, 4 or 8"""
    g = dcs >> 4
    if g <= 7:                       # 00xx general, 01xx auto-delete
        return {0: 0, 1: 4, 2: 8, 3: 0}[dcs >> 2 & 3]
    if g <= 0xb:                     # reserved coding groups
        return 0
    if g in (0xc, 0xd):              # message waiting, GSM 7 bit
        return 0
    if g == 0xe:                     # message waiting, UCS2
        return 8
    return 4 if dcs & 4 else 0       # 1111: data coding / message class


def compressed(dcs):
    return dcs >> 4 <= 7 and bool(dcs & 0x20)


# -------------------------------------------------------------------- SUBMIT
def parse_ies(octets):
    out = []
    i = 0
    while i < len(octets):
        if i + 2 > len(octets):
            raise Bad('truncated information element')
        l = octets[i + 1]
        if i + 2 + l > len(octets):
            raise Bad('information element overruns the header')
        out.append((octets[i], octets[i + 2:i + 2 + l]))
        i += 2 + l
    return out


def parse_ud(fmt, udhi, udl, ud):
    """-> (ies, payload) ; payload septets for fmt 0, octets otherwise"""
    hl = 0
    ies = []
    if fmt == 0:
        need = (udl * 7 + 7) // 8
    else:
        need = udl
    if len(ud) != need:
        raise Bad('%d octets of user data for a length of %d' % (len(ud), udl))
    if len(ud) > 140:
        raise Bad('more than 140 octets of user data')
    if udhi:
        hl = ud[0] + 1
        if hl > len(ud):
            raise Bad('user data header overruns the user data')
        ies = parse_ies(ud[1:hl])
    if fmt == 0:
        hs = (hl * 8 + 6) // 7
        fill = hs * 7 - hl * 8
        return ies, unpack7(ud[hl:], udl - hs, fill)
    return ies, ud[hl:]


def payload_text(fmt, payload):
    if fmt == 0:
        return ref_gsm.text(payload)
    if fmt == 4:
        return ''.join([chr(o) for o in payload])
    if len(payload) % 2:
        raise Bad('odd UCS2 payload')
    out = []
    for i in range(0, len(payload), 2):
        c = payload[i] << 8 | payload[i + 1]
        if 0xd800 <= c < 0xe000:
            raise Bad('surrogate %04x in UCS2 payload' % c)
        out.append(unichr(c))
    return u''.join(out)


def parse_submit(hexpdu):
    o = unhex(hexpdu)
    n = len(o)
    r = {}
    try:
        sl = o[0]
        if sl == 0:
            r['csca'] = None
        else:
            if sl < 2:
                raise Bad('service centre without digits')
            num = unsemi(o[2:1 + sl])
            if len(o[2:1 + sl]) != sl - 1:
                raise Bad('truncated service centre')
            if o[1] == 0x91:
                num = '+' + num
            elif o[1] != 0x81:
                raise Bad('service centre type %02x' % o[1])
            r['csca'] = num
        r['smsc_octets'] = sl + 1
        i = sl + 1
        fo = o[i]
        if fo & 3 != 1:
            raise Bad('not a SUBMIT: %02x' % fo)
        r['rd'] = bool(fo & 4)
        r['vpf'] = fo >> 3 & 3
        r['srr'] = bool(fo & 0x20)
        r['udhi'] = bool(fo & 0x40)
        r['rp'] = bool(fo & 0x80)
        r['mr'] = o[i + 1]
        dl = o[i + 2]
        ton = o[i + 3]
        i += 4
        nb = (dl + 1) // 2
        num = unsemi(o[i:i + nb], dl)
        if ton == 0x91:
            num = '+' + num
        elif ton != 0x81:
            raise Bad('address type %02x' % ton)
        r['number'] = num
        i += nb
        r['pid'] = o[i]
        r['dcs'] = o[i + 1]
        i += 2
        if r['vpf'] == 0:
            r['vp'] = None
        elif r['vpf'] == 2:
            r['vp'] = ('rel', o[i])
            i += 1
        elif r['vpf'] == 3:
            v = o[i:i + 7]
            if len(v) < 7:
                raise Bad('truncated validity')
            r['vp'] = ('abs',) + unscts(v)
            i += 7
        else:
            raise Bad('enhanced validity format')
        udl = o[i]
        i += 1
        if compressed(r['dcs']):
            raise Bad('compressed coding %02x' % r['dcs'])
        fmt = alphabet(r['dcs'])
        r['fmt'] = fmt
        r['udl'] = udl
        r['ies'], r['payload'] = parse_ud(fmt, r['udhi'], udl, o[i:])
        r['ud'] = o[i:]
        r['text'] = payload_text(fmt, r['payload'])
        g = r['dcs'] >> 4
        if g not in (0, 1, 0xf):
            raise Bad('unexpected coding group %02x' % r['dcs'])
        r['klass'] = (r['dcs'] & 3) if g else None
        r['tpdu_octets'] = n - r['smsc_octets']
    except IndexError:
        raise Bad('truncated PDU')
    return r


def relative_minutes(vp):
    """TS 23.040 9.2.3.12.1, in minutes"""
    if vp <= 143:
        return (vp + 1) * 5
    if vp <= 167:
        return 12 * 60 + (vp - 143) * 30
    if vp <= 196:
        return (vp - 166) * 24 * 60
    return (vp - 192) * 7 * 24 * 60


def relative_octet(td):
    """largest representable period <= td; None outside 5 min .. 63 weeks"""
    if td < timedelta(minutes=5) or td > timedelta(weeks=63):
        return None
    best = 0
    for vp in range(256):
        if timedelta(minutes=relative_minutes(vp)) <= td:
            best = vp
    return best


# ------------------------------------------------------------------- DELIVER
def smsc_prefix(csca, ton=None):
    if csca is None:
        return [0]
    if csca.startswith('+'):
        t, d = 0x91, csca[1:]
    else:
        t, d = 0x81, csca
    if ton is not None:
        t = ton
    b = semi(d)
    return [len(b) + 1, t] + b


def address(number, ton=None):
    """number: digit string with optional '+'"""
    if number.startswith('+'):
        t, d = 0x91, number[1:]
    else:
        t, d = 0x81, number
    if ton is not None:
        t = ton
    return [len(d), t] + semi(d)


def alnum_address(septs):
    b = pack7(septs)
    return [(len(septs) * 7 + 3) // 4, 0xd0] + b


def user_data(fmt, payload, udh=None):
    """payload: septets (fmt 0) or octets; udh: octets after UDHL or None"""
    if udh is None:
        if fmt == 0:
            return [len(payload)] + pack7(payload)
        return [len(payload)] + list(payload)
    h = [len(udh)] + list(udh)
    if fmt == 0:
        hs = (len(h) * 8 + 6) // 7
        fill = hs * 7 - len(h) * 8
        return [hs + len(payload)] + h + pack7(payload, fill)
    return [len(h) + len(payload)] + h + list(payload)


def build_deliver(addr, fmt, payload, csca=None, pid=0, dcs=None, udh=None,
                  ts=None, fo=0x04):
    """addr: octets of the TP-OA field; ts: 7 octets; -> octets"""
    o = list(csca) if isinstance(csca, list) else smsc_prefix(csca)
    f = (fo & ~0x40) | (0x40 if udh is not None else 0)
    o.append(f)
    o.extend(addr)
    o.append(pid)
    o.append(fmt if dcs is None else dcs)
    o.extend(ts if ts is not None else scts(2012, 3, 4, 5, 6, 7, 0))
    o.extend(user_data(fmt, payload, udh))
    return o


def text_payload(fmt, text):
    if fmt == 0:
        return ref_gsm.septets(text)
    if fmt == 4:
        return [ord(c) for c in text]
    out = []
    for c in text:
        out.append(ord(c) >> 8)
        out.append(ord(c) & 0xff)
    return out


def build_status(mr, addr, ts, dt, status, csca=None, fo=0x06, tail=()):
    o = smsc_prefix(csca)
    o.append((fo & ~0x03) | 0x02)
    o.append(mr)
    o.extend(addr)
    o.extend(ts)
    o.extend(dt)
    if status is not None:
        o.append(status)
    o.extend(tail)
    return o


# --------------------------------------------------------------------- relay
def relay(submit, ts, sender_as=None, smsc='+34607003110'):
    """a conforming service centre: parsed SUBMIT -> DELIVER octets

    The address of the DELIVER is the originator; the test gives the same
    number the message was sent to so that the comparison covers it.
    """
    o = smsc_prefix(smsc)
    o.append(0x04 | (0x40 if submit['udhi'] else 0))
    o.extend(address(sender_as or submit['number']))
    o.append(submit['pid'])
    o.append(submit['dcs'])
    o.extend(ts)
    o.append(submit['udl'])
    o.extend(submit['ud'])
    return o

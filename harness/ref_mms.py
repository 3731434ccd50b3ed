# -*- coding: utf-8 -*-
"""Independent MMS PDU (WAP-209 / WAP-230) builder and strict parser.  Built on
ref_wsp only; shares no code or tables with the library."""
from datetime import datetime, timedelta
import ref_wsp as W
from ref_wsp import Bad, Reader

MTYPES = ['m-send-req', 'm-send-conf', 'm-notification-ind', 'm-notifyresp-ind', 'm-retrieve-conf',
          'm-acknowledge-ind', 'm-delivery-ind']
RSTATUS = ['Ok', 'Error-unspecified', 'Error-service-denied', 'Error-message-format-corrupt',
           'Error-sending-address-unresolved', 'Error-message-not-found', 'Error-network-problem',
           'Error-content-not-accepted', 'Error-unsupported-message']
STATUS = ['Expired', 'Retrieved', 'Rejected', 'Deferred', 'Unrecognised']
CLASSES = ['Personal', 'Advertisement', 'Informational', 'Auto']
PRIORITIES = ['Low', 'Normal', 'High']
NUMBER = {}
for _i, _n in enumerate(
        'Bcc Cc Content-Location Content-Type Date Delivery-Report Delivery-Time Expiry From Message-Class Message-ID '
        'Message-Type MMS-Version Message-Size Priority Read-Reply Report-Allowed Response-Status Response-Text '
        'Sender-Visibility Status Subject To Transaction-Id'.split()):
    NUMBER[_n] = _i + 1
assert NUMBER['Transaction-Id'] == 0x18 and NUMBER['Message-Type'] == 0x0c and NUMBER['Status'] == 0x15

EPOCH = datetime(1970, 1, 1)
# what a message object holds before anything was decoded into it
DEFAULTS = {'Message-Type': 'm-send-req', 'Transaction-Id': '1234', 'MMS-Version': '1.0',
            'Content-Type': ('application/vnd.wap.multipart.mixed', {})}


def field(name, value):
    """value: octets"""
    return [128 + NUMBER[name]] + value


def app_field(name, value):
    return W.raw(name) + [0] + W.text(value)


def date(secs, octets=None):
    return W.long_(secs, octets)


def when(secs):
    return EPOCH + timedelta(seconds=secs)


def expiry(kind, n, octets=None, quote=False):
    if kind == 'absolute':
        b = [128] + W.long_(n, octets)
    else:
        b = [129] + (W.long_(n, octets) if octets else W.integer(n))
    return W.vlen(len(b), quote) + b


def from_(address, charset=None, quote=False):
    """address None: to be inserted by the MMSC"""
    b = [129] if address is None else [128] + W.encoded_string(address, charset)
    return W.vlen(len(b), quote) + b


def part(ctype_octets, header_octets, data, lens=(None, None)):
    h = ctype_octets + header_octets
    return W.uintvar(len(h), lens[0]) + W.uintvar(len(data), lens[1]) + h + list(data)


def body(parts, count_octets=None):
    out = W.uintvar(len(parts), count_octets)
    for p in parts:
        out = out + p
    return out


def parse_value(r, name):
    if name in ('Bcc', 'Cc', 'To', 'Subject', 'Response-Text'):
        return r.text()
    if name in ('Message-ID', 'Transaction-Id', 'Content-Location'):
        return r.text()
    if name == 'From':
        r = r.sub(r.vlen())
        t = r.octet()
        if t == 129:
            v = None
        elif t == 128:
            v = r.text()
        else:
            raise Bad('From token %d' % t)
        if r.more():
            raise Bad('From is longer than its address')
        return v
    if name == 'Message-Type':
        return MTYPES[table(r, len(MTYPES))]
    if name == 'Status':
        return STATUS[table(r, len(STATUS))]
    if name == 'Response-Status':
        return RSTATUS[table(r, len(RSTATUS))]
    if name == 'MMS-Version':
        return r.version()
    if name == 'Message-Size':
        return r.long_()
    if name == 'Content-Type':
        return r.content_type()
    raise Bad('header %s not expected' % name)


def table(r, n):
    b = r.octet()
    if not 128 <= b < 128 + n:
        raise Bad('value 0x%02x' % b)
    return b - 128


NAMES = dict((n, k) for k, n in NUMBER.items())


def parse(data):
    """(headers as a list in order, parts) of a PDU the library encoded"""
    r = Reader(data)
    headers = []
    while True:
        if r.peek() >= 128:
            n = r.short()
            if n not in NAMES:
                raise Bad('header number %d' % n)
            name = NAMES[n]
            headers.append((name, parse_value(r, name)))
            if name == 'Content-Type':
                break
        else:
            headers.append((r.token(), r.text()))
    if [h[0] for h in headers[:3]] != ['Message-Type', 'Transaction-Id', 'MMS-Version']:
        raise Bad('starts with %s' % [h[0] for h in headers[:3]])
    parts = []
    for i in range(r.uintvar()):
        hl, dl = r.uintvar(), r.uintvar()
        h = r.sub(hl)
        ctype, params = h.content_type()
        hs = {}
        while h.more():
            k, v = h.wsp_header()
            if k in hs:
                raise Bad('part header %s twice' % k)
            hs[k] = v
        parts.append((ctype, params, hs, ''.join([chr(b) for b in r.octets(dl)])))
    if r.more():
        raise Bad('%d octets after the last part' % (r.end - r.pos))
    return headers, parts


def as_dict(headers):
    d = {}
    for k, v in headers:
        if k in d:
            raise Bad('header %s twice' % k)
        d[k] = v
    return d

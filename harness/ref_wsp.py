# -*- coding: utf-8 -*-
"""Independent WSP (WAP-230 section 8.4) and MMS encapsulation (WAP-209)
encoder and strict parser.  Written from the specifications, shares no code
or tables with the library."""
from datetime import datetime, timedelta


class Bad(Exception):
    pass


MEDIA = ('*/* text/* text/html text/plain text/x-hdml text/x-ttml text/x-vCalendar text/x-vCard text/vnd.wap.wml '
         'text/vnd.wap.wmlscript text/vnd.wap.wta-event multipart/* multipart/mixed multipart/form-data '
         'multipart/byterantes multipart/alternative application/* application/java-vm '
         'application/x-www-form-urlencoded application/x-hdmlc application/vnd.wap.wmlc '
         'application/vnd.wap.wmlscriptc application/vnd.wap.wta-eventc application/vnd.wap.uaprof '
         'application/vnd.wap.wtls-ca-certificate application/vnd.wap.wtls-user-certificate '
         'application/x-x509-ca-cert application/x-x509-user-cert image/* image/gif image/jpeg image/tiff image/png '
         'image/vnd.wap.wbmp application/vnd.wap.multipart.* application/vnd.wap.multipart.mixed '
         'application/vnd.wap.multipart.form-data application/vnd.wap.multipart.byteranges '
         'application/vnd.wap.multipart.alternative application/xml text/xml application/vnd.wap.wbxml '
         'application/x-x968-cross-cert application/x-x968-ca-cert application/x-x968-user-cert text/vnd.wap.si '
         'application/vnd.wap.sic text/vnd.wap.sl application/vnd.wap.slc text/vnd.wap.co application/vnd.wap.coc '
         'application/vnd.wap.multipart.related application/vnd.wap.sia text/vnd.wap.connectivity-xml '
         'application/vnd.wap.connectivity-wbxml application/pkcs7-mime application/vnd.wap.hashed-certificate '
         'application/vnd.wap.signed-certificate application/vnd.wap.cert-response application/xhtml+xml '
         'application/wml+xml text/css application/vnd.wap.mms-message application/vnd.wap.rollover-certificate '
         'application/vnd.wap.locc+wbxml application/vnd.wap.loc+xml application/vnd.syncml.dm+wbxml '
         'application/vnd.syncml.dm+xml application/vnd.syncml.notification application/vnd.wap.xhtml+xml '
         'application/vnd.wv.csp.cir application/vnd.oma.dd+xml application/vnd.oma.drm.message '
         'application/vnd.oma.drm.content application/vnd.oma.drm.rights+xml '
         'application/vnd.oma.drm.rights+wbxml').split()
MEDIA_NO = dict((m, i) for i, m in enumerate(MEDIA))
assert MEDIA_NO['application/vnd.wap.multipart.related'] == 0x33
assert MEDIA_NO['application/vnd.wap.multipart.mixed'] == 0x23
assert MEDIA_NO['image/jpeg'] == 0x1e and MEDIA_NO['application/vnd.wap.mms-message'] == 0x3e
assert len(MEDIA) == 0x4c

# field names of encoding versions 1.1 and 1.2
FIELDS = ('Accept Accept-Charset Accept-Encoding Accept-Language Accept-Ranges Age Allow Authorization Cache-Control '
          'Connection Content-Base Content-Encoding Content-Language Content-Length Content-Location Content-MD5 '
          'Content-Range Content-Type Date Etag Expires From Host If-Modified-Since If-Match If-None-Match If-Range '
          'If-Unmodified-Since Location Last-Modified Max-Forwards Pragma Proxy-Authenticate Proxy-Authorization '
          'Public Range Referer Retry-After Server Transfer-Encoding Upgrade User-Agent Vary Via Warning '
          'WWW-Authenticate Content-Disposition X-Wap-Application-Id X-Wap-Content-URI X-Wap-Initiator-URI '
          'Accept-Application Bearer-Indication Push-Flag Profile Profile-Diff Profile-Warning').split()
FIELD_NO = dict((m, i) for i, m in enumerate(FIELDS))
assert FIELD_NO['Content-Location'] == 0x0e and FIELD_NO['Content-Disposition'] == 0x2e
assert FIELD_NO['X-Wap-Application-Id'] == 0x2f and len(FIELDS) == 0x38
FIELD13_NO = dict(zip('Expect TE Trailer'.split(), range(0x38, 0x3b)))
FIELD13_NO.update({'X-Wap-Tod': 0x3f, 'Content-ID': 0x40, 'Set-Cookie': 0x41, 'Cookie': 0x42,
                   'Encoding-Version': 0x43, 'X-WAP-Security': 0x46})

CHARSETS = {0x07ea: 'big5', 0x03e8: 'iso-10646-ucs-2', 4: 'iso-8859-1', 5: 'iso-8859-2', 6: 'iso-8859-3',
            7: 'iso-8859-4', 8: 'iso-8859-5', 9: 'iso-8859-6', 10: 'iso-8859-7', 11: 'iso-8859-8', 12: 'iso-8859-9',
            0x11: 'shift_JIS', 3: 'us-ascii', 0x6a: 'utf-8'}

# parameters of encoding versions 1.1 and 1.2: number -> name, type
PARAMS = {0: ('Q', 'q'), 1: ('Charset', 'charset'), 2: ('Level', 'version'), 3: ('Type', 'integer'),
          5: ('Name', 'text'), 6: ('Filename', 'text'), 8: ('Padding', 'short'), 9: ('Type', 'constrained'),
          0x0a: ('Start', 'text'), 0x0b: ('Start-info', 'text')}

TSEP = '()<>@,;:\\"/[]?={} \t'


def is_token(s):
    for c in s:
        if not 32 < ord(c) < 127 or c in TSEP:
            return False
    return len(s) > 0


# -- encoder ---------------------------------------------------------------

def uintvar(n, octets=None):
    out = [n % 128]
    n //= 128
    while n:
        out.insert(0, 128 + n % 128)
        n //= 128
    while octets is not None and len(out) < octets:
        out.insert(0, 128)
    return out


def short(n):
    assert 0 <= n < 128
    return [128 + n]


def multi(n, octets=None):
    out = []
    while n or not out:
        out.insert(0, n % 256)
        n //= 256
    while octets is not None and len(out) < octets:
        out.insert(0, 0)
    return out


def long_(n, octets=None):
    m = multi(n, octets)
    assert len(m) <= 30
    return [len(m)] + m


def integer(n):
    return short(n) if n < 128 else long_(n)


def vlen(n, quote=False):
    if n <= 30 and not quote:
        return [n]
    return [31] + uintvar(n)


def raw(s):
    return [ord(c) for c in s]


def text(s, quote=None):
    """Text-string; quote None: only where the specification asks for it"""
    assert '\x00' not in s
    q = [127] if (quote or (quote is None and s and ord(s[0]) >= 128)) else []
    return q + raw(s) + [0]


def quoted(s):
    return [34] + raw(s) + [0]


def version(v):
    p = v.split('.')
    try:
        n = [int(x) for x in p]
    except ValueError:
        return text(v)
    if [str(x) for x in n] != p or not 1 <= n[0] <= 7:
        return text(v)
    if len(n) == 1:
        return short(n[0] * 16 + 15)
    if len(n) == 2 and 0 <= n[1] <= 14:
        return short(n[0] * 16 + n[1])
    return text(v)


def media(m, constrained=True):
    if m in MEDIA_NO:
        return short(MEDIA_NO[m])
    return text(m)


def param(no, value):
    """value is the octets of the value"""
    if isinstance(no, str):
        return text(no) + value
    return integer(no) + value


def content_type(m, params=(), general=False, quote=False):
    """params: octet lists"""
    if not params and not general:
        return media(m)
    body = media(m)
    for p in params:
        body = body + p
    return vlen(len(body), quote) + body


def encoded_string(s, charset=None):
    if charset is None:
        return text(s)
    body = integer(charset) + text(s)
    return vlen(len(body)) + body


# -- strict parser ---------------------------------------------------------

class Reader(object):
    def __init__(self, data, pos=0, end=None):
        self.data = data
        self.pos = pos
        self.end = len(data) if end is None else end

    def more(self):
        return self.pos < self.end

    def peek(self):
        if self.pos >= self.end:
            raise Bad('unexpected end')
        return self.data[self.pos]

    def octet(self):
        b = self.peek()
        self.pos += 1
        return b

    def octets(self, n):
        if self.pos + n > self.end:
            raise Bad('%d octets announced, %d left' % (n, self.end - self.pos))
        self.pos += n
        return list(self.data[self.pos - n:self.pos])

    def sub(self, n):
        if self.pos + n > self.end:
            raise Bad('%d octets announced, %d left' % (n, self.end - self.pos))
        r = Reader(self.data, self.pos, self.pos + n)
        self.pos += n
        return r

    def uintvar(self):
        n = 0
        b = self.octet()
        while b >= 128:
            n = n * 128 + b - 128
            b = self.octet()
        return n * 128 + b

    def short(self):
        b = self.octet()
        if b < 128:
            raise Bad('0x%02x is no short integer' % b)
        return b - 128

    def long_(self):
        n = self.octet()
        if not 1 <= n <= 30:
            raise Bad('0x%02x starts no long integer' % n)
        v = 0
        for b in self.octets(n):
            v = v * 256 + b
        return v

    def integer(self):
        return self.short() if self.peek() >= 128 else self.long_()

    def vlen(self):
        b = self.octet()
        if b <= 30:
            return b
        if b != 31:
            raise Bad('0x%02x starts no value length' % b)
        return self.uintvar()

    def zstr(self):
        out = []
        b = self.octet()
        while b:
            out.append(chr(b))
            b = self.octet()
        return ''.join(out)

    def text(self):
        if self.peek() == 127:
            self.octet()
        elif self.peek() >= 128:
            raise Bad('text starts with 0x%02x and is not quoted' % self.peek())
        return self.zstr()

    def token(self):
        s = self.zstr()
        if not is_token(s):
            raise Bad('%r is no token' % s)
        return s

    def text_value(self):
        if self.peek() == 0:
            self.octet()
            return ''
        if self.peek() == 34:
            self.octet()
            return self.zstr()
        return self.token()

    def extension(self):
        b = self.peek()
        if b < 32 or b >= 127:
            raise Bad('0x%02x starts no extension media' % b)
        return self.zstr()

    def version(self):
        if self.peek() < 128:
            return self.text()
        n = self.short()
        return '%d' % (n // 16) if n % 16 == 15 else '%d.%d' % (n // 16, n % 16)

    def media(self):
        b = self.peek()
        if b >= 128 or 1 <= b <= 30:
            n = self.integer()
            if n >= len(MEDIA):
                raise Bad('media %d' % n)
            return MEDIA[n]
        return self.extension()

    def param(self):
        b = self.peek()
        if b >= 128 or 1 <= b <= 30:
            n = self.integer()
            if n not in PARAMS:
                raise Bad('parameter %d' % n)
            name, t = PARAMS[n]
            if t == 'text':
                return name, self.text()
            if t == 'version':
                return name, self.version()
            if t == 'integer':
                return name, self.integer()
            if t == 'short':
                return name, self.short()
            if t == 'constrained':
                return name, (self.short() if self.peek() >= 128 else self.extension())
            if t == 'charset':
                if self.peek() == 128:
                    self.octet()
                    return name, '*'
                n = self.integer()
                return name, CHARSETS.get(n, str(n))
            raise Bad('parameter %s not expected' % name)
        name = self.token()
        b = self.peek()
        if b >= 128 or 1 <= b <= 30:
            return name, self.integer()
        return name, self.text_value()

    def content_type(self):
        b = self.peek()
        if b >= 128:
            n = self.short()
            if n >= len(MEDIA):
                raise Bad('media %d' % n)
            return MEDIA[n], {}
        if b > 31:
            return self.extension(), {}
        r = self.sub(self.vlen())
        m = r.media()
        params = {}
        while r.more():
            k, v = r.param()
            if k in params:
                raise Bad('parameter %s twice' % k)
            params[k] = v
        return m, params

    def wsp_header(self):
        """the encodings the library produces: texts (and Accept)"""
        if self.peek() >= 128:
            n = self.short()
            if n < len(FIELDS):
                name = FIELDS[n]
            else:
                raise Bad('header number %d' % n)
            if name == 'Accept':
                if self.peek() >= 128:
                    return name, MEDIA[self.short()]
                return name, self.extension()
            return name, self.text()
        name = self.token()
        return name, self.text()

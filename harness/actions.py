# -*- coding: utf-8 -*-
"""Deterministic uses of the library, one message each

Every action returns what a caller keeps; show() renders everything the caller
can see of it.  The module is loaded anew against every fresh copy of the
library (see isolate.py); inputs come from the independent builders.
"""
import array
import os
import re
from datetime import datetime, timedelta
import ref_gsm
import ref_mms as M
import ref_sms
import ref_wsp as W
from messaging.sms import SmsSubmit, SmsDeliver, is_gsm_text
from messaging.sms.udh import UserDataHeader
from messaging.sms.pdu import Pdu
from messaging.sms.wap import is_a_wap_push_notification, is_mms_notification, extract_push_notification
from messaging.mms.iterator import PreviewIterator
from messaging.mms.message import MMSMessage, MMSMessagePage, DataPart
from messaging.mms import mms_pdu, wsp_pdu
from messaging.utils import FixedOffset

ADDRESS = re.compile(r' at (0x)?[0-9a-f]+')
SCRATCH = None                                      # set by the driver
GSM = u'h\xf6la {[~]} \u20ac\u0394 @'
LONG = u'0123456789{}\u20ac' * 20                   # escapes across part limits
TS = ref_sms.scts(2012, 3, 4, 5, 6, 7, 8)
DT = ref_sms.scts(2012, 3, 4, 5, 16, 17, -12)
T = W.text


def show(x):
    """everything a caller can see, as text"""
    if isinstance(x, (list, tuple)):
        return '(%s)' % ', '.join([show(y) for y in x])
    if isinstance(x, dict):
        return '{%s}' % ', '.join(['%s: %s' % (show(k), show(x[k])) for k in sorted(x, key=repr)])
    if isinstance(x, array.array):
        return 'array %r' % x.tostring()
    if isinstance(x, Pdu):
        return 'Pdu' + show((x.pdu, x.length, x.cnt, x.seq))
    if isinstance(x, SmsSubmit):
        return 'Submit' + show((x.number, x.text, x.csca, x.klass, x.validity, x.request_status, x.pid, x.fmt, x.dcs, x.ref, x.rand_id))
    if isinstance(x, SmsDeliver):
        return 'Deliver' + show((x.pdu, x.number, x.text, x.csca, x.date, x.pid, x.dcs, x.fmt, x.type, x.mtype, x.sr, x.udh, x.data))
    if isinstance(x, UserDataHeader):
        c, p = x.concat, x.ports
        return 'UDH' + show((x.headers, c and (c.ref, c.cnt, c.seq, c.eight_bits), p and (p.dest_port, p.orig_port, p.eight_bits)))
    if isinstance(x, DataPart):
        return 'Part' + show((x.headers, x.content_type, x.content_type_parameters, x.data, len(x)))
    if isinstance(x, MMSMessagePage):
        return 'Page' + show((x.duration, x.image, x.audio, x.text, x.number_of_parts()))
    if isinstance(x, MMSMessage):
        return 'MMS' + show((x.headers, x.content_type, x.pages, x.data_parts, x.smil() if x.pages else None))
    if isinstance(x, Exception):
        return 'raised %s(%s)' % (x.__class__.__name__, ', '.join([ADDRESS.sub('', repr(a)) for a in x.args]))
    if isinstance(x, datetime):
        return repr(x.timetuple()[:6])
    return ADDRESS.sub('', repr(x))


def attempt(fn, *a, **kw):
    try:
        return fn(*a, **kw)
    except Exception, e:
        return e


ACTIONS = {}


def action(fn):
    ACTIONS[fn.__name__] = fn
    return fn


def submit(number, text, **kw):
    s = SmsSubmit(number, text)
    for k, v in kw.items():
        setattr(s, k, v)
    return s, attempt(s.to_pdu)


# -- sending SMS ----------------------------------------------------------
@action
def submit_gsm():
    return submit('+34616585119', GSM)


@action
def submit_long():
    return submit('616585119', LONG, csca='+34607003110', validity=timedelta(hours=13))


@action
def submit_ucs2():
    return submit('+123456', u'\u4f60\u597d ' * 50, ref=7, rand_id=0x142, klass=1)


@action
def submit_8bit():
    return submit('22334455', ''.join([chr(i) for i in range(200)]), fmt=4, request_status=True, ref=300, pid=0x3f)


@action
def submit_absolute():
    v = datetime(2012, 12, 31, 23, 45, 6, tzinfo=FixedOffset(-210, 'x'))
    return submit('12345', u'abc', validity=v, klass=0, csca='123')


@action
def submit_twice():
    s = SmsSubmit('+34616585119', u'first')
    a = s.to_pdu()
    s.text, s.validity, s.klass = u'\u0416' * 80, timedelta(days=3), 2
    b = s.to_pdu()
    s.text, s.number = LONG, '999'
    return s, a, b, s.to_pdu(), s.to_pdu()


@action
def submit_refused():
    out = [attempt(SmsSubmit, '12', u'a'), attempt(SmsSubmit, 'abc123', u'a'), submit('1234', u'\u0416', fmt=0),
           submit('1234', u'a\u0416', fmt=4), submit('1234', u'a', fmt=3), submit('1234', u'a', validity=timedelta(minutes=1))]
    s = SmsSubmit('1234', u'text')
    for k, v in (('klass', 4), ('klass', '1'), ('validity', 5), ('csca', 'x'), ('number', '1')):
        out.append(attempt(setattr, s, k, v))
    return out, s, attempt(s.to_pdu)


# -- receiving SMS --------------------------------------------------------
def D(fmt, text, addr='+34616585119', alnum=None, **kw):
    octets = ref_sms.address(addr) if alnum is None else ref_sms.alnum_address(ref_gsm.septets(alnum))
    return ref_sms.hexl(ref_sms.build_deliver(octets, fmt, ref_sms.text_payload(fmt, text), ts=TS, **kw))


D_GSM = D(0, GSM, csca='+34607003110')
D_CONCAT = D(0, u'part {1} of it', udh=[0, 3, 0x42, 2, 1])
D_UCS2 = D(8, u'\u4f60\u597d', '12345', udh=[8, 4, 1, 2, 3, 1, 5, 4, 0x0b, 0x84, 0x23, 0xf0], pid=5)
D_8BIT = D(4, '\x00\xff\x80abc', csca='123', udh=[0x70, 3, 1, 2, 3])
D_ALNUM = D(0, u'from a name', alnum=u'Movist\xe5r')
D_REPORT = ref_sms.hexl(ref_sms.build_status(7, ref_sms.address('+34616585119'), TS, DT, 0, csca='+34607003110'))
D_PENDING = ref_sms.hexl(ref_sms.build_status(9, ref_sms.address('12345'), TS, DT, 0x30))


@action
def deliver_gsm():
    return SmsDeliver(D_GSM)


@action
def deliver_concat():
    return SmsDeliver(D_CONCAT)


@action
def deliver_ucs2():
    return SmsDeliver(D_UCS2)


@action
def deliver_8bit():
    return SmsDeliver(D_8BIT)


@action
def deliver_alnum():
    return SmsDeliver(D_ALNUM)


@action
def deliver_report():
    return SmsDeliver(D_REPORT), SmsDeliver(D_PENDING)


@action
def deliver_refused():
    out = []
    for p in (D_CONCAT[:-9], D_UCS2[:40], D_UCS2[:-2], D_GSM[:20], D_REPORT[:24], D_8BIT[:38], 'zz', '', D_GSM + '0', '0001000B91'):
        for strict in (True, False):
            out.append(attempt(SmsDeliver, p, strict))
    return out


@action
def deliver_reassigned():
    m = SmsDeliver(D_UCS2)
    out = [show(m)]
    for p in (D_GSM, D_REPORT, D_CONCAT[:-21], D_8BIT):
        out.append((show(attempt(setattr, m, 'pdu', p)), show(m)))
    return m, out


@action
def deliver_changed():
    """the caller changes what it got"""
    m = SmsDeliver(D_UCS2)
    m.text += u'!'
    m.udh.headers.clear()
    m.udh.concat.seq = 99
    m.udh.ports.dest_port = 1
    n = SmsDeliver(D_REPORT)
    n.sr['status'] = 'changed'
    n.sr.clear()
    n.data['text'] = None
    o = SmsDeliver(D_8BIT)
    for v in o.udh.headers.values():
        v.pop()
    o.udh.headers[1] = 2
    return m, n, o


# -- alphabets ------------------------------------------------------------
@action
def alphabet():
    out = [is_gsm_text(GSM), is_gsm_text(u'\u0416'), is_gsm_text(u'')]
    for e in ('strict', 'replace', 'ignore', 'unknown'):
        for s in (GSM, u'a\u0416\u0152z', u'\xe0\xc1'):
            out.append(attempt(s.encode, 'gsm0338', e))
        for s in ('a\x1b\x65\x00\x10', 'a\x80\xffz', 'a\x1b\x01\x1b'):
            out.append(attempt(s.decode, 'gsm0338', e))
    return out


# -- MMS ------------------------------------------------------------------
def path(name, data=None):
    p = os.path.join(SCRATCH, name)
    if data is not None and not os.path.exists(p):
        f = open(p + '.tmp', 'wb')
        f.write(data)
        f.close()
        os.rename(p + '.tmp', p)
    return p


def mms(**kw):
    m = MMSMessage()
    for k, v in kw.items():
        m.headers[k.replace('_', '-')] = v
    return m


def encoded(m):
    e = attempt(m.encode)
    return e if isinstance(e, Exception) else e.tostring()


@action
def encode_text():
    m = mms(To='+1/TYPE=PLMN', Subject='only text')
    p = DataPart()
    p.set_text('some text')
    m.add_data_part(p)
    return m, encoded(m), len(p)


@action
def encode_pages():
    m = mms(To='+34/TYPE=PLMN', From='', Bcc='x@y')
    for i in range(2):
        pg = MMSMessagePage()
        pg.add_image(path('i.jpg', '\xff\xd8\x00image'), 10, 200)
        if i:
            pg.add_audio(path('a.wav', 'RIFFaudio'))
            pg.set_duration(1000)
        pg.add_text('page %d' % i, 0, 2000)
        m.add_page(pg)
    return m, m.smil(), encoded(m), encoded(m)


@action
def encode_params():
    m = mms(Cc='cc', Message_Type='m-retrieve-conf', MMS_Version='1.1', Transaction_Id='Tr', X_App='value', Status='Rejected')
    m.headers['Content-Type'] = 'application/vnd.wap.multipart.related', {'Start': '<0>', 'Type': 'application/smil'}
    a, b = DataPart(), DataPart()
    a.set_data('<smil/>', 'application/smil', {'Name': 'n'})
    a.headers['Content-ID'] = '<0>'
    b.set_data(array.array('B', range(256)), 'x-own/type')
    b.headers['Content-Location'] = 'loc'
    b.headers['X-Part'] = '1'
    m.add_data_part(a)
    m.add_data_part(b)
    return m, encoded(m)


@action
def encode_changed():
    """changes of what a message and its parts show, in place"""
    m = mms(To='1')
    m.headers['Content-Type'][1]['Name'] = 'changed'
    p = DataPart()
    p.headers['Content-Type'][1]['Charset'] = 'changed'
    p.content_type_parameters['x'] = 'y'
    q = DataPart()
    q.set_data('q', 'text/plain')
    q.headers['Content-Type'][1]['Name'] = 'n.txt'
    m.data_parts.append(q)
    m.add_data_part(q)
    m.pages.append(MMSMessagePage())
    n = MMSMessage()
    del n.headers['Transaction-Id']
    n.headers['Message-Type'] = 'm-acknowledge-ind'
    n.width = 1
    return m, p, encoded(m), n.headers


@action
def encode_refused():
    out = []
    for k, v in (('Date', datetime(2012, 1, 1)), ('Subject', u'\U0001f600'), ('Message-Type', 5), ('To', 5), ('X a', 'b'),
                 ('MMS-Version', 1.0), ('Status', 'nonsense')):
        m = MMSMessage()
        m.headers[k] = v
        p = DataPart()
        p.set_text('t')
        m.add_data_part(p)
        out.append(show(encoded(m)))
    m = mms(To='1')
    p = DataPart()
    p.set_data('x', 'text/plain', {'Charset': 5, 'Nonsense': object})
    m.add_data_part(p)
    out.append(encoded(m).__class__.__name__)
    pg = MMSMessagePage()
    for fn, a in ((pg.add_image, ('/nonexistent/file',)), (pg.add_image, (5,)), (pg.add_text, (5,)), (pg.add_text, ('a', 9, 1)),
                  (pg.set_duration, (0,)), (pg.set_duration, ('1',)), (DataPart, ('/nonexistent/file',))):
        out.append(show(attempt(fn, *a)))
    return out, pg


@action
def to_file_and_back():
    m = mms(To='file', Subject='f' * 40)
    m.add_data_part(DataPart(path('p.gif', 'GIF' * 60)))
    out = path('out.mms')
    m.to_file(out)
    f = open(out, 'rb')
    data = f.read()
    f.close()
    return m, data, MMSMessage.from_file(out)


def F(n, o):
    return M.field(n, o)


RET = F('Message-Type', [0x84]) + F('Transaction-Id', T('Tr')) + F('MMS-Version', [0x91])
RELATED = [0x84] + W.content_type('application/vnd.wap.multipart.related', [W.param(10, T('<0>')), W.param(9, W.media('application/smil'))])
CONF = (RET + F('Date', W.long_(10 ** 9)) + F('From', M.from_('+1/TYPE=PLMN')) + F('Subject', W.encoded_string('s', 4))
        + M.app_field('X-a', 'v') + RELATED + M.body([
            M.part(W.media('application/smil'), [0xc0] + W.quoted('<0>') + [0x8e] + T('s.smil'), [ord(c) for c in '<smil/>']),
            M.part(W.content_type('text/plain', [W.param(1, W.short(106)), W.param(5, T('t.txt'))]), W.raw('X-p') + [0] + T('q'),
                   [ord(c) for c in 'text']),
            M.part(W.media('image/jpeg'), [0x8e] + T('i.jpg'), range(256))]))
NOTE = (F('Message-Type', [0x82]) + F('Transaction-Id', T('T9')) + F('MMS-Version', [0x92]) + F('From', M.from_('+1/TYPE=PLMN'))
        + F('Message-Class', [0x81]) + F('Message-Size', W.long_(29696)) + F('Expiry', M.expiry('relative', 72000))
        + F('Delivery-Report', [128]) + F('Content-Location', T('http://m/1')))
ALL = RET + F('Date', W.long_(10 ** 9)) + F('Cc', T('cc')) + F('Read-Reply', [129]) + F('Delivery-Time', M.expiry('absolute', 10 ** 9)) \
    + F('Message-ID', T('id')) + F('Priority', [130]) + F('Response-Status', [130]) + F('Response-Text', T('rt')) \
    + F('Sender-Visibility', [129]) + F('Status', [131]) + F('Report-Allowed', [129]) + F('Message-Class', W.raw('own') + [0])


def string(o):
    return ''.join([chr(b) for b in o])


@action
def decode_conf():
    return MMSMessage.from_data(array.array('B', CONF))


@action
def decode_all():
    return MMSMessage.from_data(array.array('B', ALL))


@action
def decode_bare():
    """nothing but a message type: everything else is the default"""
    return MMSMessage.from_data(array.array('B', F('Message-Type', [0x86])))


@action
def decode_refused():
    out = []
    for n in (0, 1, 2, 5, 12, 20, 40, 60, 90, 120, len(CONF) - 200, len(CONF) - 1):
        out.append(show(attempt(MMSMessage.from_data, array.array('B', CONF[:n]))))
    for o in (RET + F('Priority', [1]), RET + [0x84, 0x03, 0xfe, 0x81, 0xea, 0], RET + [0xff, 1], RET + F('Date', [3, 1]), [0x8c, 0xff]):
        out.append(show(attempt(MMSMessage.from_data, array.array('B', o))))
    return out


@action
def decode_changed():
    """the caller changes what it got"""
    m = MMSMessage.from_data(array.array('B', CONF))
    m.headers['Content-Type'][1]['Type'] = 'changed'
    m.headers['Content-Type'][1].pop('Start')
    for p in m.data_parts:
        p.headers['Content-Type'][1]['New'] = '1'
        p.content_type_parameters['New'] = '2'
        p.headers['X-New'] = 'n'
    m.data_parts[0].set_text('replaced')
    m.add_data_part(DataPart())
    n = MMSMessage.from_data(array.array('B', F('Message-Type', [0x86])))
    n.headers['Content-Type'][1]['x'] = 1
    n.headers.clear()
    n.headers['Content-Type'] = 'a', {}
    return m, n


@action
def decode_and_encode():
    m = MMSMessage.from_data(array.array('B', RET + F('To', T('a')) + F('Subject', T('b')) + [0x84, 0xa3] + M.body([
        M.part(W.content_type('text/plain', [W.param(5, T('t.txt'))]), [0x8e] + T('loc'), [1, 2, 3])])))
    e = encoded(m)
    return m, e, MMSMessage.from_data(array.array('B', e)) if isinstance(e, str) else None


@action
def push():
    s = string([5, 6] + W.uintvar(3) + [0xbe, 0xaf, 0x84] + NOTE)
    t = string([5, 6] + W.uintvar(200, 3) + [0xff] * 200 + RET)
    out = []
    for x in (s, t, 'ab', ''):
        out.append(is_a_wap_push_notification(x))
        m = attempt(extract_push_notification, x)
        out += [m, is_mms_notification(m) if isinstance(m, MMSMessage) else None]
    out.append(attempt(is_a_wap_push_notification, u'x'))
    return out


@action
def primitives():
    """decoders and encoders of other encoding versions, and refusals"""
    out = []
    for v in ('1.1', '1.2', '1.3', '1.4', '9'):
        for o in ([0x89, 0xb3], [0x8c] + T('c'), [0x91, 0x80], [0x85] + T('n')):
            it = PreviewIterator(o)
            out.append((attempt(wsp_pdu.Decoder.decode_well_known_parameter, it, v), list(it)))
        out.append(show(attempt(wsp_pdu.get_header_field_names, v)))
        out.append(show(attempt(wsp_pdu.get_well_known_parameters, v)))
    for fn, o in ((wsp_pdu.Decoder.decode_uint_var, [0x81, 0x80, 5, 7]), (wsp_pdu.Decoder.decode_long_integer, [2, 1, 2, 3]),
                  (wsp_pdu.Decoder.decode_quoted_string, T('no')), (wsp_pdu.Decoder.decode_media_type, [0xff, 1]),
                  (wsp_pdu.Decoder.decode_accept_value, [0x80 | 3]), (wsp_pdu.Decoder.decode_value_length, [31, 0x81, 1, 2])):
        it = PreviewIterator(o)
        out.append((attempt(fn, it), list(it)))
    for fn, a in ((wsp_pdu.Encoder.encode_uint_var, 2 ** 21), (wsp_pdu.Encoder.encode_long_integer, 2 ** 24), (wsp_pdu.Encoder.encode_short_integer, 200),
                  (wsp_pdu.Encoder.encode_version_value, '1.3'), (wsp_pdu.Encoder.encode_version_value, '9.9'),
                  (wsp_pdu.Encoder.encode_text_string, 'q'), (wsp_pdu.Encoder.encode_uint_var, -1),
                  (wsp_pdu.Encoder.encode_accept_value, 'image/gif')):
        out.append(attempt(fn, a))
    it = PreviewIterator([1, 2, 3])
    out += [it.preview(), it.preview(), it.next(), it.preview(), list(it)]
    return out


@action
def submit_variety():
    out = [submit('+34616585119', u'a', klass=3, validity=timedelta(minutes=35)),
           submit('123', u'\u0416', klass=0, validity=timedelta(days=45), pid=0x20),
           submit('123456', 'bytes', fmt=4, klass=2, validity=timedelta(weeks=63)),
           submit('123456', u'a', validity=timedelta(weeks=64)),
           submit('123456', u'a', validity=datetime(2013, 1, 2, 3, 4, 5)),
           submit('123456', u'\u20ac{' * 77, fmt=0, ref=0x1ff), submit('123456', u'{' * 76 + u'a' * 160)]
    z = FixedOffset.from_timezone('-1115', 'zone')
    d = datetime(2012, 2, 29, 1, 2, 3, tzinfo=z)
    out += [d.utcoffset(), d.dst(), d.tzname(), d.strftime('%z'), submit('123', u'x', validity=d)]
    return out


@action
def deliver_variety():
    out = []
    for dcs, fmt in ((0xc1, 0), (0xd8, 0), (0xe0, 8), (0xf0, 0), (0xf6, 4), (0x15, 4), (0x18, 8), (0x34, 4), (0x80, 0), (0xaa, 0)):
        out.append(SmsDeliver(D(fmt, u'dcs', dcs=dcs, pid=dcs)))
    west = ref_sms.scts(2015, 12, 31, 23, 59, 58, -39)
    for p in (ref_sms.build_deliver(ref_sms.address('*1#'), 0, ref_sms.text_payload(0, u'w'), ts=west, udh=[4, 2, 7, 8]),
              ref_sms.build_status(9, ref_sms.address('+1'), TS, [0x99] * 7, 0x46), ref_sms.build_status(9, ref_sms.address('+1'), [0xff] * 7, DT, 1),
              ref_sms.build_status(9, ref_sms.address('+12345'), TS, DT, None), ref_sms.build_status(9, ref_sms.address('1'), TS, [0] * 7, None)):
        m = attempt(SmsDeliver, ref_sms.hexl(p))
        out.append(m)
        if isinstance(m, SmsDeliver):
            out.append(m.data)
    return out


@action
def encode_addresses():
    out = []
    for k in ({'From': '+34/TYPE=PLMN', 'To': 'a'}, {'X-Mms-Transaction-Id': 'xt', 'X-Mms-Version': '1.2', 'X-Mms-Message-Type': 'm-send-req', 'Cc': 'c'},
              {'Bcc': 'b', 'Subject': 's\xe9' * 9}, {}, {'Message-Type': 'm-notifyresp-ind', 'Status': 'Retrieved'}, {'To': '\xe9'}, {'Bcc': 7}):
        m = MMSMessage()
        if 'X-Mms-Version' in k:
            for h in ('Message-Type', 'Transaction-Id', 'MMS-Version'):
                del m.headers[h]
        m.headers.update(k)
        e = encoded(m)
        out += [m, e, attempt(MMSMessage.from_data, array.array('B', e)) if isinstance(e, str) else None]
    return out


@action
def smil_sources():
    m = mms(To='1')
    for how in range(4):
        pg = MMSMessagePage()
        pg.add_image(path('s.gif', 'GIF'), 5, 9000)
        pg.add_audio(path('s.wav', 'RIFF s'), 0, 7)
        for x in (pg.image, pg.audio):
            if how & 1:
                del x[0].headers['Content-Location']
            if how & 2:
                x[0].headers['Content-ID'] = '<%d>' % how
        pg.set_duration(1000 + how)
        m.add_page(pg)
    m.width, m.height = 320, 240
    p = DataPart(path('s.txt', 'text'))
    p.content_type = 'text/x-own'
    m.add_data_part(p)
    return m, m.smil(), encoded(m), m.data_parts


MORE = (F('Message-Type', [0x86]) + F('Transaction-Id', T('m')) + F('MMS-Version', [0x90]) + F('From', M.from_(None))
        + F('Delivery-Time', M.expiry('relative', 3600)) + F('To', W.encoded_string('\xc3\xa9', 106)) + F('Sender-Visibility', [128])
        + F('Expiry', M.expiry('absolute', 5)))


@action
def decode_more():
    out = [MMSMessage.from_data(array.array('B', MORE))]
    for ct in (W.content_type('text/plain', [W.param(1, [0x80])]), W.content_type('image/gif', [W.raw('own') + [0] + T('v')]),
               W.content_type('image/gif', [W.raw('num') + [0] + [0x85], W.param(0, [0x84 - 0x80])]), W.content_type('x/y', [W.param(8, [0x87])]),
               W.content_type('text/plain', [W.param(1, [1, 106])]), W.content_type('text/plain', [W.param(7, T('n'))]), [0x83], T('own/type'), [31, 5]):
        out.append(attempt(MMSMessage.from_data, array.array('B', RET + [0x84, 0xa3] + M.body([M.part(ct, T('X-q')[:-1] + [0] + T('w'), [1, 2])]))))
    return out


ALL_OCTETS = ([0x81, 0x83, 0x80, 5, 0], [0x22] + T('quoted') + [0x8e] + T('x'), T('text') + [9, 9], [2, 0x81, 0x80, 3], [0, 1], [4, 0x83, 0x81, 0xea, 0x80] + T('z'),
              [31, 3, 0x81, 0x8a, 0x8b], [9, 0xa3] + [0x89] + T('a/b') + [0x80, 0x80], [], [0xbe, 1, 0x8c] + T('q'))


@action
def every_decoder():
    """whatever each decoder makes of a few octets"""
    out = []
    for c in (wsp_pdu.Decoder, mms_pdu.MMSDecoder):
        for n in sorted(dir(c)):
            if n.startswith('decode_') and n not in ('decode_file', 'decode_data', 'decode_message_header', 'decode_message_body'):
                for o in ALL_OCTETS:
                    it = PreviewIterator(list(o))
                    out.append((n, show(attempt(getattr(c, n), it)), show(attempt(list, it))))
    return out


VALUES = (0, 5, 127, 128, 70000, -1, 2.5, '', 'text', 'two words', '\xe9', '"q', u'uni', '1.0', 'image/gif', 'm-send-req', 'Yes', None, ['x'])


@action
def every_encoder():
    """whatever each encoder makes of a few values"""
    out = []
    for c in (wsp_pdu.Encoder, mms_pdu.MMSEncoder):
        for n in sorted(dir(c)):
            if n.startswith('encode_') and n not in ('encode_message_header', 'encode_message_body'):
                for v in VALUES:
                    out.append((n, show(attempt(getattr(c, n), v))))
                for a, b in (('Name', 'n'), ('image/gif', {'Name': 'x', 'Own': 'y', 'Num': 300}), ('Content-Location', 'loc'), ('Accept', 'text/plain'),
                             ('X-own', 'v'), ('own/type', {'Type': 'a/b', 'Start': '<s>'}), ('Charset', 'utf-8'), ('text/plain', {'Level': '1.1', 'Padding': 4})):
                    out.append((n, show(attempt(getattr(c, n), a, b))))
    return out


# -- the same calls with values of their own --------------------------------
def twin(fn):
    """two actions: what fn makes of the first and of the second of all values"""
    def act(k):
        name = '%s_%s' % (fn.__name__, 'ab'[k])

        def run_twin():
            return fn(lambda *v: v[k])
        run_twin.__name__ = name
        ACTIONS[name] = run_twin
        TWINS.setdefault(fn.__name__, []).append(name)
    act(0)
    act(1)
    return fn


TWINS = {}


def each(calls):
    out = []
    for fn, o in calls:
        it = PreviewIterator(list(o))
        out.append((attempt(fn, it), list(it)))
    return out


@twin
def twin_sms(v):
    m = SmsDeliver(D(0, v(u'one', u'two and'), alnum=v(u'Alice', u'Bob\xe5rd')))
    c = SmsDeliver(D(0, v(u'part', u'another'), v('123', '+9876'), udh=v([0, 3, 7, 3, 2], [0, 3, 8, 4, 1])))
    s = submit(v('+3461', '123456'), v(u'aaa', u'bbbb'), csca=v('+34607', '12345'))
    return m, c, repr(m.udh), ADDRESS.sub('', repr(c.udh)), s, repr(s[0])


@twin
def twin_submit(v):
    return submit(v('+3461', '123456'), v(u'\u0416\u0416', u'aaa{'), validity=v(timedelta(hours=3), timedelta(days=9)), csca=v('+34607', '12345'))


@twin
def twin_push(v):
    n = F('Message-Type', [v(0x82, 0x84)]) + F('Transaction-Id', T(v('one', 'second')))
    x = string([v(5, 9), 6] + W.uintvar(v(3, 5)) + v([0xbe, 0xaf, 0x84], [0xbe, 0xaf, 0x84, 0x80, 0x80]) + n)
    m = attempt(extract_push_notification, x)
    return is_a_wap_push_notification(x), m, attempt(is_mms_notification, m), is_a_wap_push_notification(v('ab', x[:1]))


@twin
def twin_file(v):
    m = mms(To=v('one', 'second'))
    m.add_data_part(DataPart(path(v('p1.gif', 'p2.txt'), v('GIF' * 3, 'some text'))))
    out = path(v('out1.mms', 'out2.mms'))
    m.to_file(out)
    f = open(out, 'rb')
    data = f.read()
    f.close()
    return m, data, MMSMessage.from_file(out)


@twin
def twin_pages(v):
    m = mms(To=v('one', 'second'))
    pg = MMSMessagePage()
    pg.add_text(v('text', 'another'), v(1, 2), v(7, 80))
    m.add_page(pg)
    pg = MMSMessagePage()
    pg.add_image(path(v('p3.gif', 'p4.jpg'), v('GIF' * 3, 'JPEG')), v(0, 3), v(5, 0))
    m.add_page(pg)
    return m, m.smil(), encoded(m), attempt(pg.add_text, 'late', v(5, 9), 1)


@twin
def twin_decode(v):
    d, e = wsp_pdu.Decoder, mms_pdu.MMSDecoder
    return each([
        (d.decode_untyped_parameter, v(W.raw('own') + [0] + T('v'), W.raw('num') + [0, 0x85])), (d.decode_untyped_value, v(T('a'), [2, 1, 5])),
        (d.decode_q_value, v([5], [0x81, 9])), (d.decode_accept_value, v([0x83], T('x/own'))), (d.decode_accept_value, v([5, 0x84, 0x81, 0xea, 0x80, 5], [1, 0x9d])),
        (d.decode_well_known_charset, v([0x83], [0xea])), (d.decode_well_known_charset, v([2, 3, 0xe8], [0x84])),
        (d.decode_no_value, v([0], [1])), (d.decode_pragma_value, v([0x80], [4, 0x83] + T('a'))), (d.decode_compact_value, v([0x87], [2, 1, 9])),
        (d.decode_typed_value, v([0x85], T('t'))), (d.decode_text_value, v(T('t'), [0x22] + T('q'))), (d.decode_content_id_value, v([0x22] + T('<1>'), [0x22] + T('<22>'))),
        (d.decode_uri_value, v(T('a:b'), T('http://c'))), (d.decode_version_value, v([0x91], T('own'))), (d.decode_date_value, v([1, 77], [4, 1, 2, 3, 4])),
        (d.decode_delta_seconds_value, v([0x85], [2, 3, 4])), (d.decode_parameter, v([0x81, 0xea], W.raw('own') + [0] + T('z'))),
        (d.decode_application_header, v(W.raw('X-a') + [0] + T('b'), W.raw('Y-c') + [0] + T('dd'))), (d.decode_header, v([0x8e] + T('l'), [0xc0, 0x22] + T('<q>'))),
        (d.decode_integer_value, v([0x85], [2, 3, 4])), (d.decode_constrained_encoding, v([0x85], T('enc'))), (d.decode_media_type, v([0xa3], T('a/b'))),
        (e.decode_encoded_string_value, v(T('plain'), [3, 0xea] + T('u'))), (e.decode_response_status_value, v([0x81], [0x85])), (e.decode_boolean_value, v([128], [129])),
        (e.decode_priority_value, v([128], [130])), (e.decode_sender_visibility_value, v([128], [129])), (e.decode_status_value, v([129], [131])),
        (e.decode_message_type_value, v([0x80], [0x86])), (e.decode_message_class_value, v([0x81], T('own'))),
        (e.decode_from_value, v([1, 0x81], M.from_('+1'))), (e.decode_expiry_value, v(M.expiry('relative', 5), M.expiry('absolute', 10 ** 9))),
        (e.decode_delivery_time_value, v(M.expiry('relative', 50), M.expiry('absolute', 10 ** 9)))])


@twin
def twin_encode(v):
    d, e = wsp_pdu.Encoder, mms_pdu.MMSEncoder
    out = []
    for fn, a in ((d.encode_uint_8, v(1, 200)), (d.encode_uint_var, v(5, 2 ** 20)), (d.encode_text_string, v('a', '\xe9')), (d.encode_short_integer, v(1, 100)),
                  (d.encode_long_integer, v(300, 2 ** 30)), (d.encode_version_value, v('1.1', '1.2')), (d.encode_media_type, v('image/gif', 'x/own')),
                  (d.encode_token_text, v('a', 'bb')), (d.encode_integer_value, v(5, 5000)), (d.encode_text_value, v('a', 'b c')), (d.encode_no_value, v('', None)),
                  (d.encode_constrained_media, v('image/gif', 'x/own')), (d.encode_constrained_encoding, v(5, 'x')), (d.encode_extension_media, v('a/b', 'c/d')),
                  (d.encode_value_length, v(5, 500)), (d.encode_short_length, v(5, 9)), (d.encode_accept_value, v('image/gif', 'image/jpeg')),
                  (e.encode_from_value, v('', '+1')), (e.encode_encoded_string_value, v('a', 'bcd')), (e.encode_message_type_value, v('m-send-req', 'm-send-conf')),
                  (e.encode_status_value, v('Expired', 'Rejected'))):
        out.append(attempt(fn, a))
    for fn, a, b in ((d.encode_parameter, v('Name', 'Own'), v('n', 'o')), (d.encode_parameter, v('Type', 'Charset'), v('a/b', 'utf-8')),
                     (d.encode_header, v('Content-Location', 'X-own'), v('a', 'b')), (e.encode_header, v('To', 'Subject'), v('1', 'two')),
                     (d.encode_content_type_value, v('image/gif', 'x/own'), v({'Name': 'n'}, {'Own': 'o'}))):
        out.append(attempt(fn, a, b))
    return out


def run(name):
    try:
        return ACTIONS[name]()
    except Exception, e:
        return e

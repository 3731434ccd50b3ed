# -*- coding: utf-8 -*-
"""WSP primitives: encoders against the specification, decoders against the
encoders, and exact consumption"""
import array
import itertools
from datetime import datetime, timedelta
from engine import Space, free, dev
import ref_wsp as W
from messaging.mms.iterator import PreviewIterator
from messaging.mms.wsp_pdu import Decoder, Encoder, EncodeError, DecodeError
from messaging.mms.mms_pdu import MMSDecoder
from messaging.mms import wsp_pdu

SUFFIXES = [[], [0x00], [0x41, 0x00], [0x80, 0x7f], [0xff, 0xff, 0x01], [0x1f], [0x22, 0x03]]


def at(ctx, fn, octets, want, what, suffixes=SUFFIXES, same=None):
    """decode octets + suffix: the value, and the iterator right after it"""
    for s in suffixes:
        for kind in (list, lambda x: array.array('B', x)):
            it = PreviewIterator(kind(octets + s))
            got = ctx.must('decoding %s %r + %r' % (what, octets, s), fn, it)
            if same is not None:
                if not same(got, want):
                    ctx.fail('%s from %r: got %r, expected %r' % (what, octets, got, want))
            elif got != want or isinstance(got, basestring) != isinstance(want, basestring):
                ctx.fail('%s from %r: got %r, expected %r' % (what, octets, got, want))
            rest = []
            if s:
                try:
                    p = it.preview()
                except StopIteration:
                    ctx.fail('%s from %r consumed what follows (%r)' % (what, octets, s))
                ctx.eq(p, s[0], '%s %r: look-ahead after the value' % (what, octets))
            try:
                while True:
                    rest.append(it.next())
            except StopIteration:
                pass
            ctx.eq(rest, s, '%s %r: what is left' % (what, octets))


def encoded(ctx, what, fn, *a):
    """octets of a library encoding"""
    e = ctx.must('encoding ' + what, fn, *a)
    if not isinstance(e, list):
        ctx.fail('%s: encoded to %r' % (what, e))
    for b in e:
        if not isinstance(b, (int, long)) or not 0 <= b <= 255:
            ctx.fail('%s: not octets: %r' % (what, e))
    return e


def numbers(cfg, ctx):
    kind = cfg['kind']
    for n in cfg['block']:
        if n < 2 ** 31:
            n = int(n)
        what = '%s %d' % (kind, n)
        if kind == 'uintvar':
            e = encoded(ctx, what, Encoder.encode_uint_var, n)
            ctx.eq(e, W.uintvar(n), what)
            d = Decoder.decode_uint_var
        elif kind == 'long integer':
            st, e = ctx.call(Encoder.encode_long_integer, n)
            if st != 'ok':
                if not isinstance(e, EncodeError) or n < 2 ** 31:
                    ctx.fail('%s: %r' % (what, e))
            else:
                ctx.eq(e, W.long_(n), what)
            e = W.long_(n)
            d = Decoder.decode_long_integer
        elif kind in ('integer value', 'delta seconds'):
            if kind == 'integer value':
                st, e = ctx.call(Encoder.encode_integer_value, n)
                if st != 'ok':
                    if not isinstance(e, EncodeError) or n < 2 ** 31:
                        ctx.fail('%s: %r' % (what, e))
                else:
                    ctx.eq(e, W.integer(n), what)
            e = W.integer(n)
            d = Decoder.decode_integer_value if kind == 'integer value' else Decoder.decode_delta_seconds_value
        elif kind == 'value length':
            e = encoded(ctx, what, Encoder.encode_value_length, n)
            ctx.eq(e, W.vlen(n), what)
            d = Decoder.decode_value_length
        elif kind == 'short integer':
            e = encoded(ctx, what, Encoder.encode_short_integer, n)
            ctx.eq(e, W.short(n), what)
            d = Decoder.decode_short_integer
            ctx.eq(ctx.must(what, Decoder.decode_short_integer_from_byte, e[0]), n, 'from the octet')
        elif kind == 'short length':
            e = encoded(ctx, what, Encoder.encode_short_length, n)
            ctx.eq(e, [n], what)
            d = Decoder.decode_short_length
        elif kind == 'uint8':
            e = encoded(ctx, what, Encoder.encode_uint_8, n)
            ctx.eq(e, [n], what)
            d = Decoder.decode_uint_8
        at(ctx, d, e, n, what, SUFFIXES if cfg['all'] else SUFFIXES[3:5])
        if kind == 'integer value':
            at(ctx, Decoder.decode_compact_value, e, n, 'compact ' + what, SUFFIXES[3:5])
            at(ctx, Decoder.decode_typed_value, e, n, 'typed ' + what, SUFFIXES[3:5])
    return kind


def out_of_range(cfg, ctx):
    name, v = cfg['case']
    ctx.refuses('%s(%r)' % (name, v), EncodeError, getattr(Encoder, name), v)
    return name


def padded(cfg, ctx):
    """encodings with leading zero octets are valid, too"""
    n, o = cfg['n'], cfg['octets']
    if len(W.multi(n)) > o:
        return 'too long'
    at(ctx, Decoder.decode_long_integer, W.long_(n, o), n, 'long integer')
    at(ctx, Decoder.decode_integer_value, W.long_(n, o), n, 'integer value')
    if len(W.uintvar(n)) <= o:
        at(ctx, Decoder.decode_uint_var, W.uintvar(n, o), n, 'uintvar')
        at(ctx, Decoder.decode_value_length, [31] + W.uintvar(n, o), n, 'value length')
    return 'ok'


CH = ['a', 'Z', '"', '\x7f', '\x00', '\x80', '\xff', '\x1f', '\n', ' ', '0', '\x05', '/', '\xe9', '(', '\t']


def texts(cfg, ctx):
    s = ''.join(cfg['head']) + ''.join([CH[i] for i in cfg['tail']])
    what = 'text %r' % s
    # Text-string
    if '\x00' in s:
        ctx.refuses(what, EncodeError, Encoder.encode_text_string, s)
        ctx.refuses('token ' + what, EncodeError, Encoder.encode_token_text, s)
        ctx.refuses('value ' + what, EncodeError, Encoder.encode_text_value, s)
        ctx.refuses('media ' + what, EncodeError, Encoder.encode_extension_media, s)
        ctx.refuses('constrained ' + what, EncodeError, Encoder.encode_constrained_encoding, s)
        return 'refused'
    e = encoded(ctx, what, Encoder.encode_text_string, s)
    r = W.Reader(e)
    ctx.eq((r.text(), r.more()), (s, False), what + ' read by the specification')
    at(ctx, Decoder.decode_text_string, e, s, what)
    at(ctx, Decoder.decode_uri_value, e, s, what)
    if not s or ord(s[0]) < 128:
        if s[:1] != '\x7f':
            at(ctx, Decoder.decode_text_string, W.raw(s) + [0], s, what + ' without quote', SUFFIXES[:2])
    at(ctx, Decoder.decode_text_string, [127] + W.raw(s) + [0], s, what + ' with quote', SUFFIXES[:2])
    # encoded strings: also with a charset
    at(ctx, MMSDecoder.decode_encoded_string_value, e, s, 'encoded string', SUFFIXES[:4])
    for cs in (0x6a, 4, 3, 0x7ea):
        at(ctx, MMSDecoder.decode_encoded_string_value, W.encoded_string(s, cs), s, 'encoded string with charset',
           SUFFIXES[:4] if s[:1] != '\x7f' else [])
    # quoted string
    at(ctx, Decoder.decode_quoted_string, W.quoted(s), s, 'quoted ' + what)
    # tokens
    tok = W.is_token(s)
    st, e = ctx.call(Encoder.encode_token_text, s)
    if tok:
        ctx.eq((st, e), ('ok', W.raw(s) + [0]), 'token ' + what)
        at(ctx, Decoder.decode_token_text, e, s, 'token ' + what)
        at(ctx, Decoder.decode_compact_value, e, s, 'compact ' + what, SUFFIXES[:3])
        at(ctx, Decoder.decode_typed_value, e, s, 'typed ' + what, SUFFIXES[:3])
    elif st == 'ok' or not isinstance(e, EncodeError):
        ctx.fail('token %s gives %r' % (what, e))
    # parameter values
    e = encoded(ctx, 'value ' + what, Encoder.encode_text_value, s)
    r = W.Reader(e)
    ctx.eq((r.text_value(), r.more()), (s, False), 'value %s read by the specification' % what)
    at(ctx, Decoder.decode_text_value, e, s, 'value ' + what)
    at(ctx, Decoder.decode_untyped_value, e, s, 'untyped value ' + what)
    # media
    st, e = ctx.call(Encoder.encode_extension_media, s)
    st2, e2 = ctx.call(Encoder.encode_constrained_encoding, s)
    if s and 32 <= ord(s[0]) < 127:
        ctx.eq((st, e), ('ok', W.raw(s) + [0]), 'media ' + what)
        ctx.eq((st2, e2), ('ok', W.raw(s) + [0]), 'constrained ' + what)
        at(ctx, Decoder.decode_extension_media, e, s, 'media ' + what)
        at(ctx, Decoder.decode_constrained_encoding, e, s, 'constrained ' + what)
        at(ctx, Decoder.decode_media_type, e, s, 'media type ' + what)
    elif st == 'ok' or st2 == 'ok' or not isinstance(e, EncodeError) or not isinstance(e2, EncodeError):
        ctx.fail('media %s gives %r, %r' % (what, e, e2))
    return 'token' if tok else 'text'


def versions(cfg, ctx):
    for t in cfg['tails']:
        v = cfg['head'] + t
        e = encoded(ctx, 'version %r' % v, Encoder.encode_version_value, v)
        r = W.Reader(e)
        ctx.eq((r.version(), r.more()), (v, False), 'version %r read by the specification' % v)
        if len(W.version(v)) == 1:
            ctx.eq(e, W.version(v), 'version %r' % v)
        elif e[0] >= 128:
            ctx.fail('version %r, which is no short integer, is written as %r' % (v, e))
        at(ctx, Decoder.decode_version_value, e, v, 'version', SUFFIXES[:4])
        ctx.op()
    return 'ok'


def charset(cfg, ctx):
    n = cfg['n']
    for e in (W.integer(n), W.long_(n)):
        if e == [128]:
            continue                                  # Any-charset
        at(ctx, Decoder.decode_well_known_charset, e, W.CHARSETS.get(n, str(n)), 'charset %d' % n)
    at(ctx, Decoder.decode_well_known_charset, [128], '*', 'any charset')
    at(ctx, Decoder.decode_no_value, [0], 0, 'no value')
    return 'known' if n in W.CHARSETS else 'number'


def q(cfg, ctx):
    for n in cfg['block']:
        # n is the value in thousandths
        same = lambda a, b: abs(a - b) < 1e-9
        if n % 10 == 0:
            at(ctx, Decoder.decode_q_value, W.uintvar(n // 10 + 1), n / 1000.0, 'q', SUFFIXES[:4], same)
        else:
            at(ctx, Decoder.decode_q_value, W.uintvar(n + 100), n / 1000.0, 'q', SUFFIXES[:4], same)
    return 'ok'


def dates(cfg, ctx):
    t = cfg['t']
    at(ctx, Decoder.decode_date_value, W.long_(t, cfg['octets']), datetime(1970, 1, 1) + timedelta(seconds=t), 'date')
    return 'ok'


def medias(cfg, ctx):
    m = cfg['m']
    e = encoded(ctx, m, Encoder.encode_media_type, m)
    ctx.eq(e, W.media(m), 'media type ' + m)
    at(ctx, Decoder.decode_media_type, e, m, 'media type')
    e = encoded(ctx, m, Encoder.encode_constrained_media, m)
    ctx.eq(e, W.media(m), 'constrained media ' + m)
    at(ctx, Decoder.decode_constrained_media, e, m, 'constrained media')
    e = encoded(ctx, m, Encoder.encode_accept_value, m)
    ctx.eq(e, W.media(m), 'accept ' + m)
    at(ctx, Decoder.decode_accept_value, e, m, 'accept')
    for q_ in (False, True):
        for extra in ([], [0x80] + W.uintvar(11), W.param(1, W.short(3)) + [0x80] + W.uintvar(433) +
                      W.param('x', W.text('y'))):
            e = W.media(m) + extra
            at(ctx, Decoder.decode_accept_value, W.vlen(len(e), q_) + e, m, 'general accept', SUFFIXES[:5])
    if m in W.MEDIA_NO:
        at(ctx, Decoder.decode_well_known_media, W.media(m), m, 'well-known media')
        at(ctx, Decoder.decode_well_known_media, W.long_(W.MEDIA_NO[m]), m, 'well-known media')
        at(ctx, Decoder.decode_well_known_media, W.long_(W.MEDIA_NO[m], 4), m, 'well-known media')
    for general in (False, True):
        for qq in (False, True):
            at(ctx, Decoder.decode_content_type_value, W.content_type(m, (), general, qq), (m, {}), 'content type')
    e = encoded(ctx, m, Encoder.encode_content_general_form, m, {})
    at(ctx, Decoder.decode_content_general_form, e, (m, {}), 'general form')
    e = encoded(ctx, m, Encoder.encode_content_type_value, m, {})
    ctx.eq(e, W.media(m), 'content type ' + m)
    return 'well-known' if m in W.MEDIA_NO else 'text'


TXT = ['x', '', 'a b', 'utf-8', '<0000>', 'na me.jpg', '"', '\x7f', '\xe9', '1', '1.0', 'a' * 40, '\x05y', 'a;b=c']
INT = [0, 1, 3, 9, 127, 128, 255, 256, 65535, 65536, 2 ** 24, int(2 ** 31 - 1)]
EXT = [t for t in TXT if t and 32 <= ord(t[0]) < 127]
PARAMS = [('Name', t) for t in TXT] + [('Filename', t) for t in TXT] + [('Start', t) for t in TXT] + \
    [('Start-info', t) for t in TXT] + [('Type', t) for t in EXT] + [('Type', i) for i in INT if i < 128] + \
    [('Padding', i) for i in INT if i < 128] + [('Level', t) for t in ('1.0', '7.14', '1', '1.2.3', '0.1', 'x')] + \
    [('X-foo', t) for t in TXT] + [('X-foo', i) for i in INT] + [('a', i) for i in INT] + [('charset', 'utf-8')] + \
    [('name', t) for t in TXT]
BADP = [('Type', 128), ('Type', -1), ('Type', ''), ('Type', '\x05'), ('Padding', 128), ('Padding', -1), ('Name', 'a\x00'),
        ('Filename', '\x00'), ('a b', 'x'), ('', 'x'), ('\xe9', 'x'), ('x', 'a\x00b'), ('x', -1), ('x;', 1), ('"x"', '')]


def params(cfg, ctx):
    name, v = cfg['p']
    e = encoded(ctx, 'parameter %s=%r' % (name, v), Encoder.encode_parameter, name, v)
    r = W.Reader(e)
    ctx.eq((r.param(), r.more()), ((name, v), False), 'parameter read by the specification')
    at(ctx, Decoder.decode_parameter, e, (name, v), 'parameter')
    d = {name: v}
    for m in ('image/jpeg', 'application/vnd.wap.multipart.related', 'application/x-foo', 'text/*'):
        e = encoded(ctx, 'content type', Encoder.encode_content_type_value, m, d)
        r = W.Reader(e)
        ctx.eq((r.content_type(), r.more()), ((m, d), False), 'content type read by the specification')
        at(ctx, Decoder.decode_content_type_value, e, (m, d), 'content type', SUFFIXES[:5])
    return name


def bad_params(cfg, ctx):
    name, v = cfg['p']
    ctx.refuses('parameter %s=%r' % (name, v), None, Encoder.encode_parameter, name, v)
    ctx.refuses('content type with %s=%r' % (name, v), None, Encoder.encode_content_type_value, 'image/gif', {name: v})
    return name


SOME = [('Name', 'x'), ('Name', ''), ('Filename', '\xe9'), ('Start', '<0>'), ('Start-info', 'a b'), ('Type', 'application/smil'),
        ('Type', 5), ('Padding', 0), ('Level', '1.1'), ('X-foo', 'a b'), ('X-foo', 300), ('a', ''), ('b', 0),
        ('c', 'z' * 100)]


def many_params(cfg, ctx):
    d = dict([p for p in (cfg['p1'], cfg['p2'], cfg['p3']) if p is not None])
    e = encoded(ctx, 'content type with %r' % d, Encoder.encode_content_type_value, cfg['m'], d)
    r = W.Reader(e)
    ctx.eq((r.content_type(), r.more()), ((cfg['m'], d), False), 'content type read by the specification')
    at(ctx, Decoder.decode_content_type_value, e, (cfg['m'], d), 'content type', SUFFIXES[:5])
    return '%d parameters' % len(d)


def typed(cfg, ctx):
    """parameters only other encoders write"""
    no, octets, want = cfg['p']
    at(ctx, Decoder.decode_parameter, W.param(no, octets), want, 'parameter')
    if not isinstance(no, str):
        at(ctx, Decoder.decode_parameter, W.long_(no, 2) + octets, want, 'parameter')
    return want[0]


TYPED = [(0, W.uintvar(11), ('Q', 0.1)), (0, W.uintvar(433), ('Q', 0.333)), (1, W.short(0x6a), ('Charset', 'utf-8')),
         (1, [0x80], ('Charset', '*')), (1, W.long_(0x3e8), ('Charset', 'iso-10646-ucs-2')),
         (1, W.long_(4711), ('Charset', '4711')), (1, W.text('x-mine'), ('Charset', 'x-mine')),
         (1, W.quoted('my set'), ('Charset', 'my set')), (2, W.short(0x12), ('Level', '1.2')), (2, W.text('2.0.1'), ('Level', '2.0.1')),
         (3, W.short(5), ('Type', 5)), (3, W.long_(500), ('Type', 500)), (3, W.text('five'), ('Type', 'five')),
         (8, W.short(7), ('Padding', 7)), (8, W.text('pad'), ('Padding', 'pad')), (9, W.short(0x33), ('Type', 0x33)),
         (9, W.text('application/smil'), ('Type', 'application/smil')),
         ('x-token', W.text('tok'), ('x-token', 'tok')), ('x', W.quoted('q s'), ('x', 'q s')), ('x', [0], ('x', '')),
         ('x', W.long_(3), ('x', 3)), ('x', W.long_(0), ('x', 0))] + \
    [(n, W.text(t), (nm, t)) for n, nm in ((5, 'Name'), (6, 'Filename'), (10, 'Start'), (11, 'Start-info'))
     for t in ('a', '', 'a b', '\xff', 'x' * 200)]


def headers(cfg, ctx):
    name, v = cfg['name'], cfg['v']
    e = encoded(ctx, 'header %s: %r' % (name, v), Encoder.encode_header, name, v)
    r = W.Reader(e)
    ctx.eq((r.wsp_header(), r.more()), ((name, v), False), 'header read by the specification')
    at(ctx, Decoder.decode_header, e, (name, v), 'header', SUFFIXES[:5])
    if name in W.FIELD_NO:
        ctx.eq(e[0], 128 + W.FIELD_NO[name], 'field number of ' + name)
        at(ctx, Decoder.decode_well_known_header, e, (name, v), 'header', SUFFIXES[:2])
    else:
        at(ctx, Decoder.decode_application_header, e, (name, v), 'header', SUFFIXES[:2])
    return 'well-known' if name in W.FIELD_NO else 'application'


def accepts(cfg, ctx):
    cfg = dict(name='Accept', v=cfg['m'])
    return headers(cfg, ctx)


def bad_headers(cfg, ctx):
    ctx.refuses('header %r: %r' % cfg['h'], None, Encoder.encode_header, *cfg['h'])
    return 'refused'


def pragma(cfg, ctx):
    e = W.param(cfg['p'][0], cfg['p'][1])
    at(ctx, Decoder.decode_pragma_value, W.vlen(len(e), cfg['quote']) + e, cfg['p'][2], 'pragma', SUFFIXES[:5])
    at(ctx, Decoder.decode_pragma_value, [0x80], ('Cache-control', 'No-cache'), 'pragma', SUFFIXES[:5])
    e = [0x80 + W.FIELD_NO['Pragma']] + W.vlen(len(e), cfg['quote']) + e
    at(ctx, Decoder.decode_header, e, ('Pragma', cfg['p'][2]), 'pragma header', SUFFIXES[:5])
    return 'ok'


def later(cfg, ctx):
    """header numbers of later encoding versions"""
    name, no = cfg['h']
    want = (name, cfg['v'])
    at(ctx, Decoder.decode_header, [128 + no] + W.text(cfg['v']), want, 'header', SUFFIXES[:5])
    if name == 'Content-ID':
        at(ctx, Decoder.decode_header, [128 + no] + W.quoted(cfg['v']), want, 'header', SUFFIXES[:5])
    return 'ok'


UNMOVED = [(Decoder, n) for n in (
    'short_integer', 'long_integer', 'integer_value', 'short_length', 'value_length', 'well_known_media',
    'well_known_parameter', 'token_text', 'quoted_string', 'extension_media', 'constrained_encoding', 'no_value',
    'delta_seconds_value', 'date_value', 'compact_value')] + [(MMSDecoder, n) for n in (
        'boolean_value', 'priority_value', 'sender_visibility_value')]


def unmoved(cfg, ctx):
    cls, name = cfg['d']
    fn = getattr(cls, 'decode_' + name)
    errors = 0
    for b in range(256):
        for tail in cfg['tails']:
            o = [cfg['a'], b] + tail
            it = PreviewIterator(o)
            st, v = ctx.call(fn, it)
            if st == 'ok' or not isinstance(v, DecodeError):
                continue
            errors += 1
            if it.preview() != o[0]:
                ctx.fail('decode_%s of %r raised DecodeError and left the look-ahead moved' % (name, o))
            left = list(it)
            if left != o:
                ctx.fail('decode_%s of %r raised DecodeError and consumed %d octets' % (
                    name, o, len(o) - len(left)))
    return '%s: %s' % (name, 'fails' if errors else 'reads')


def octets(*ranges):
    return frozenset(itertools.chain(*ranges))


SHORT = octets(range(128, 256))
LONG = octets(range(1, 31))
TOKEN_FIRST = frozenset(c for c in range(33, 127) if chr(c) not in '()<>@,;:\\"/[]?={} \t')
# first octets a decoder must accept / must refuse; what is in neither is left open
FIRST = [(Decoder, n, frozenset(good), octets(range(256)) - frozenset(good) - frozenset(open_)) for n, good, open_ in (
    ('short_integer', SHORT, ()), ('long_integer', LONG, ()), ('integer_value', SHORT | LONG, ()),
    ('delta_seconds_value', SHORT | LONG, ()), ('short_length', range(31), ()), ('value_length', range(32), ()),
    ('quoted_string', [34], ()), ('token_text', TOKEN_FIRST, range(127, 256)),
    ('extension_media', octets(range(32, 127)), range(128, 256)),
    ('constrained_encoding', octets(range(32, 127), SHORT), ()), ('no_value', [0], ()),
    ('version_value', octets(range(1, 256)), [0]), ('text_string', octets(range(1, 256)), [0]),
    ('well_known_charset', SHORT | LONG, ()), ('uint_8', range(256), ()), ('uint_var', range(256), ()),
    ('date_value', (), octets(LONG)), ('well_known_media', range(128, 128 + len(W.MEDIA)), range(1, 31)),
    ('constrained_media', range(32, 127) + range(128, 128 + len(W.MEDIA)), ()),
    ('accept_value', range(32, 127) + range(128, 128 + len(W.MEDIA)), range(0, 32)),
    ('well_known_parameter', [128 + n for n in sorted(W.PARAMS)], [128 + 7] + range(1, 31)),
    ('well_known_header', [128 + n for n in sorted(W.FIELD_NO.values() + W.FIELD13_NO.values()) if n not in (0, 31)],
     range(128, 128 + 0x48)))] + [(MMSDecoder, n, frozenset(good), octets(range(256)) - frozenset(good) - frozenset(open_))
                                  for n, good, open_ in (
        ('boolean_value', [128, 129], ()), ('sender_visibility_value', [128, 129], ()),
        ('priority_value', [128, 129, 130], ()))]


def first_octet(cfg, ctx):
    """which values a decoder takes is decided by their first octet"""
    cls, name, good, bad = cfg['d']
    fn = getattr(cls, 'decode_' + name)
    for b in cfg['block']:
        for tail in ([65] * 40 + [0], [0] * 41, [1] * 40 + [0], [0x81] + [0] * 40):
            o = [b] + tail
            for kind in (list, lambda x: array.array('B', x)):
                it = PreviewIterator(kind(o))
                st, v = ctx.call(fn, it)
                if b in good and st != 'ok':
                    ctx.fail('decode_%s refuses %r...: %r' % (name, o[:3], v))
                if b in bad:
                    if st == 'ok' or not isinstance(v, DecodeError):
                        ctx.fail('decode_%s of %r... gives %r, not a DecodeError' % (name, o[:3], v))
                    ctx.eq(list(it), o, 'decode_%s: what is left of %r...' % (name, o[:3]))
    return name


VERSIONS = ['1.1', '1.2', '1.3', '1.4']
# parameters of all encoding versions ([WSP] table 38): number -> name, and the version that brought it
ALLP = {0: ('Q', 1), 1: ('Charset', 1), 2: ('Level', 1), 3: ('Type', 1), 5: ('Name', 1), 6: ('Filename', 1),
        7: ('Differences', 1), 8: ('Padding', 1), 9: ('Type', 2), 10: ('Start', 2), 11: ('Start-info', 2),
        12: ('Comment', 3), 13: ('Domain', 3), 14: ('Max-Age', 3), 15: ('Path', 3), 16: ('Secure', 3),
        17: ('SEC', 4), 18: ('MAC', 4), 19: ('Creation-date', 4), 20: ('Modification-date', 4), 21: ('Read-date', 4),
        22: ('Size', 4), 23: ('Name', 4), 24: ('Filename', 4), 25: ('Start', 4), 26: ('Start-info', 4),
        27: ('Comment', 4), 28: ('Domain', 4), 29: ('Path', 4)}
VALUES = {'Padding': 5, 'Type': 5, 'Level': '1.2'}
ENCODED = ['Name', 'Filename', 'Start', 'Start-info', 'Comment', 'Domain', 'Path', 'Type', 'Padding', 'Level', 'X-own']


def wsp_versions(cfg, ctx):
    """each encoding version has the assigned numbers of its own and of earlier versions"""
    ctx.eq(ctx.must('field names', wsp_pdu.get_header_field_names), wsp_pdu.get_header_field_names('1.2'), 'default version')
    ctx.eq(ctx.must('parameters', wsp_pdu.get_well_known_parameters), wsp_pdu.get_well_known_parameters('1.2'), 'default version')
    for v in cfg['versions']:
        n = VERSIONS.index(v) + 1
        names = ctx.must('field names of %s' % v, wsp_pdu.get_header_field_names, v)
        ctx.eq(len(names), {1: 0x2f, 2: 0x38, 3: 0x44, 4: 0x48}[n], 'number of field names of %s' % v)
        for f, no in W.FIELD_NO.items() + W.FIELD13_NO.items():
            if no < len(names):
                ctx.eq(names[no], f, 'field name 0x%02x of %s' % (no, v))
        mine = dict((k, p[0]) for k, p in ALLP.items() if p[1] <= n)
        got = ctx.must('parameters of %s' % v, wsp_pdu.get_well_known_parameters, v)
        ctx.eq(dict((k, p[0]) for k, p in got.items()), mine, 'parameters of %s' % v)
        for no in range(128) + [128, 200, 255, 256, 65536 + 5]:
            for e in ([W.short(no)] if no < 128 else []) + [W.long_(no)] + [W.long_(no, o) for o in (4, 29, 30)]:
                if no in mine:
                    for s in SUFFIXES:
                        it = PreviewIterator(e + s)
                        t = ctx.must('parameter 0x%02x of %s' % (no, v), Decoder.decode_well_known_parameter, it, v)
                        ctx.eq(t[0], mine[no], 'name of parameter 0x%02x of %s' % (no, v))
                        ctx.eq(list(it), s, 'parameter 0x%02x of %s: what is left' % (no, v))
                else:
                    it = PreviewIterator(e + [65, 0])
                    st, r = ctx.call(Decoder.decode_well_known_parameter, it, v)
                    if st == 'ok' or not isinstance(r, DecodeError):
                        ctx.fail('parameter 0x%02x of %s gives %r' % (no, v, r))
                    ctx.eq(list(it), e + [65, 0], 'parameter 0x%02x of %s: what is left' % (no, v))
        for name in ENCODED:
            val = VALUES.get(name, 'a text')
            nos = [k for k, p in mine.items() if p == name]
            e = encoded(ctx, '%s in %s' % (name, v), Encoder.encode_parameter, name, val, v)
            ctx.op()
            if nos:
                if e[0] - 128 not in nos:
                    ctx.fail('%s in %s is written as %r' % (name, v, e))
                it = PreviewIterator(e)
                ctx.eq(ctx.must(name, Decoder.decode_well_known_parameter, it, v)[0], name, 'name in %s' % v)
            else:
                ctx.eq(W.Reader(e).param(), (name, val), '%s in %s, which has no number' % (name, v))
                if e[0] >= 128:
                    ctx.fail('%s in %s is written as %r' % (name, v, e))
    return '%d versions' % len(cfg['versions'])


def bad_versions(cfg, ctx):
    v = cfg['v']
    for fn in (wsp_pdu.get_header_field_names, wsp_pdu.get_well_known_parameters,
               lambda v: Decoder.decode_well_known_parameter(PreviewIterator([0x85, 65, 0]), v),
               lambda v: Encoder.encode_parameter('Name', 'x', v)):
        ctx.refuses('version %r' % (v,), ValueError, fn, v)
    return 'refused'


class Block(list):
    def __repr__(self):
        return '<%d..%d>' % (self[0], self[-1])


def blocks(lo, hi, n=128):
    return [Block(range(i, min(i + n, hi))) for i in range(lo, hi, n)]


def spaces(tier):
    q_ = tier != 'thorough'
    edge = [Block(sorted(set([max(0, (1 << b) + d) for d in range(-3, 4)]))) for b in range(7, 64)]
    big = [Block([256 ** k - 1, 256 ** k]) for k in range(1, 30)] + [Block([256 ** 30 - 1])]
    top = 17000 if q_ else 300000
    chars = range(len(CH))
    tails = [()] + [(i,) for i in chars]
    heads = [()] + [(CH[i], CH[j]) for i in chars for j in chars]
    tails2 = tails + ([] if q_ else [(i, j) for i in chars for j in chars])
    vch = '0179.5 a'
    vt = [''.join(t) for n in range(3) for t in itertools.product(vch, repeat=n)]
    vh = [''.join(t) for n in range(3) for t in itertools.product(vch, repeat=n)]
    tv = ['%d.%d' % (a, b) for a in range(0, 130) for b in range(0, 20)] + [str(a) for a in range(0, 20)] + \
        ['1.2.4', '1.0.0', '7.14.', '01.0', '1.00', '-1.0', '1.-1', '+1.0', '1. 0', '1.0 ', '1_0', 'v1.0', '\xe9', '\x7f']
    names = W.FIELDS + ['X-Mms-Foo', 'a', 'Content-ID', 'X' * 60, 'x-y!#$%&\'*+.^_`|~']
    values = [t for t in TXT] + ['image/jpeg', 'a' * 300]
    F = free
    return [
        Space('first octets', [F('d', FIRST), F('block', blocks(0, 256, 32))], first_octet,
              note='every decoder, every first octet: taken or refused with nothing read'),
        Space('encoding versions', [F('versions', [list(p) for n in range(1, 5)
                                                   for p in itertools.permutations(VERSIONS, n)])], wsp_versions,
              note='all sequences of encoding versions: tables, parameters read and written'),
        Space('other encoding versions', [F('v', ['1.0', '1.5', '2.1', '1', '', '1.11', '1.2 ', '01.2', 'x'])],
              bad_versions),
        Space('small numbers', [F('kind', ['uintvar', 'long integer', 'integer value', 'value length', 'delta seconds']),
                                F('block', blocks(0, top)), F('all', [False])], numbers),
        Space('numbers at the boundaries', [F('kind', ['uintvar', 'long integer', 'integer value', 'value length',
                                                       'delta seconds']),
                                            F('block', edge + blocks(0, 300)), F('all', [True])], numbers),
        Space('long integers of 1 to 30 octets', [F('kind', ['long integer']), F('block', big), F('all', [True])],
              numbers),
        Space('one octet numbers', [F('kind', ['short integer']), F('block', blocks(0, 128, 8)), F('all', [True])],
              numbers),
        Space('short lengths', [F('kind', ['short length']), F('block', blocks(0, 31, 4)), F('all', [True])], numbers),
        Space('uint8', [F('kind', ['uint8']), F('block', blocks(0, 256, 16)), F('all', [True])], numbers),
        Space('out of range', [F('case', [(n, v) for n, vs in (
            ('encode_short_integer', range(128, 400) + range(-5, 0) + [2 ** 31 - 1, -128, -255, 2 ** 16]),
            ('encode_short_length', range(31, 300) + range(-5, 0)),
            ('encode_long_integer', [-1, -2, -128, -256, -65536, 256 ** 30, 256 ** 31, '5', 5.0, None]),
            ('encode_integer_value', [-1, -2, -127, -128, -129, -65536, 256 ** 30, '5', 5.0, None]),
            ('encode_uint_var', [-1, -2, -127, -128, -129, -65536]),
            ('encode_value_length', [-1, -2, -31, -128])) for v in vs])], out_of_range),
        Space('leading zero octets', [F('n', [0, 1, 127, 128, 129, 255, 256, 16383, 16384, 2 ** 21, 2 ** 28, 2 ** 31, 2 ** 32]),
                                      F('octets', range(1, 10 if q_ else 31))], padded),
        Space('texts', [F('head', [()] + [(c,) for c in CH] + heads[1:]), F('tail', tails2)], texts,
              note='all strings of up to 3 (4) characters over 16 character classes'),
        Space('text of every first octet', [F('head', [(chr(c),) for c in range(256)]), F('tail', tails[:3])], texts),
        Space('versions from characters', [F('head', vh), F('tails', [vt])], versions),
        Space('versions from numbers', [F('head', tv), F('tails', [['']])], versions),
        Space('charsets', [F('n', range(0, 300) + sorted(W.CHARSETS) + [1000, 2026, 65535])], charset),
        Space('quality factors', [F('block', blocks(0, 1000, 50))], q),
        Space('dates', [F('t', [0, 1, 255, 256, 86399, 951782400, 951868799, 1709164800, 2 ** 31 - 1] +
                           range(0, 2 ** 31 - 1, 86400 * (1999 if q_ else 97) + 3601)), F('octets', [None, 4, 8])], dates),
        Space('media types', [F('m', W.MEDIA + ['application/smil', 'audio/amr', 'x', 'image/x-' + 'y' * 40])], medias),
        Space('parameters', [F('p', PARAMS)], params),
        Space('unencodable parameters', [F('p', BADP)], bad_params),
        Space('several parameters', [F('m', ['application/vnd.wap.multipart.related', 'application/x']),
                                     F('p1', SOME), F('p2', [None] + SOME), F('p3', [None] + SOME)], many_params,
              skip=lambda c: len(set(p[0] for p in (c['p1'], c['p2'], c['p3']) if p)) <
              len([p for p in (c['p1'], c['p2'], c['p3']) if p])),
        Space('parameters of other encoders', [F('p', TYPED)], typed),
        Space('headers', [F('name', [n for n in names if n not in ('Accept', 'Pragma')]), F('v', values)], headers),
        Space('accept headers', [F('m', W.MEDIA + ['application/smil', 'x'])], accepts),
        Space('unencodable headers', [F('h', [('a b', 'x'), ('\xe9', 'x'), ('a:', 'x'), ('Age', 'a\x00'), ('x', '\x00'),
                                              ('Accept', ''), ('Accept', '\x05'), ('Age', 5), ('x', None)])], bad_headers),
        Space('pragma', [F('p', TYPED), F('quote', [False, True])], pragma),
        Space('later header numbers', [F('h', sorted(W.FIELD13_NO.items())), F('v', ['a', '<0>', 'a b', '', '\xe9'])],
              later),
        Space('iterator unmoved on errors', [F('d', UNMOVED), F('a', range(256)),
                                             F('tails', [[[], [0x41, 0x00, 0x80], [0xff] * 31]])], unmoved),
    ]

# -*- coding: utf-8 -*-
"""Independent statement of the 3GPP TS 23.038 default alphabet."""
import string

_U = string.ascii_uppercase.decode('ascii')
_L = string.ascii_lowercase.decode('ascii')
BASIC = (u'@\u00a3$\u00a5\u00e8\u00e9\u00f9\u00ec\u00f2\u00c7\n\u00d8\u00f8\r'
         u'\u00c5\u00e5'
         u'\u0394_\u03a6\u0393\u039b\u03a9\u03a0\u03a8\u03a3\u0398\u039e'
         u'\x1b'
         u'\u00c6\u00e6\u00df\u00c9'
         u' !"#\u00a4%&\'()*+,-./0123456789:;<=>?'
         u'\u00a1' + _U + u'\u00c4\u00d6\u00d1\u00dc\u00a7'
         u'\u00bf' + _L + u'\u00e4\u00f6\u00f1\u00fc\u00e0')
assert len(BASIC) == 128
ESC = 0x1b
EXT = {0x0a: u'\x0c', 0x14: u'^', 0x28: u'{', 0x29: u'}', 0x2f: u'\\',
       0x3c: u'[', 0x3d: u'~', 0x3e: u']', 0x40: u'|', 0x65: u'\u20ac'}
ENC = dict((c, (i,)) for i, c in enumerate(BASIC) if i != ESC)
for _c, _u in EXT.items():
    ENC[_u] = (ESC, _c)
ALPHABET = u''.join(sorted(ENC))
BASIC_CHARS = u''.join(c for i, c in enumerate(BASIC) if i != ESC)
EXT_CHARS = u''.join(EXT[k] for k in sorted(EXT))

# documented look-alikes of the replace error mode
REPLACE = {u'\u00e7': 0x09}
for _g, _r in zip(u'\u0391\u0392\u0395\u0397\u0399\u039a\u039c\u039d\u039f'
                  u'\u03a1\u03a4\u03a7\u03a5\u0396', 'ABEHIKMNOPTXYZ'):
    REPLACE[_g] = ord(_r)


def septets(text):
    """septet values of ``text``; None when it is not representable"""
    out = []
    for c in text:
        e = ENC.get(c)
        if e is None:
            return None
        out.extend(e)
    return out


def text(septs):
    """decode septets (TS 23.038: unknown escape -> NBSP as documented)"""
    out = []
    i = 0
    n = len(septs)
    while i < n:
        s = septs[i]
        i += 1
        if s == ESC:
            if i < n:
                out.append(EXT.get(septs[i], u'\xa0'))
                i += 1
            else:
                out.append(u'\xa0')
        else:
            out.append(BASIC[s])
    return u''.join(out)

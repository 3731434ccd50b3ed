# -*- coding: utf-8 -*-
"""Building MMS messages through the public API, and what they must contain"""
import array
import atexit
import os
import shutil
import tempfile
import ref_mms as M
import ref_wsp as W
from messaging.mms.message import MMSMessage, MMSMessagePage, DataPart

SCRATCH = tempfile.mkdtemp(prefix='verif-mms-')
atexit.register(shutil.rmtree, SCRATCH, True)
TYPES = {'.jpg': 'image/jpeg', '.gif': 'image/gif', '.png': 'image/png', '.txt': 'text/plain', '.wav': 'audio/x-wav',
         '.xyzzy': 'application/octet-stream', '': 'application/octet-stream'}


def cleanup():
    shutil.rmtree(SCRATCH, True)


def write(name, data):
    path = os.path.join(SCRATCH, name)
    f = open(path, 'wb')
    f.write(data)
    f.close()
    return path


class Named(object):
    """a value with a short name in reports"""
    def __init__(self, name, value):
        self.name, self.value = name, value

    def __repr__(self):
        return self.name


def pattern(kind, n):
    if kind == 'zero':
        return '\x00' * n
    if kind == 'ff':
        return '\xff' * n
    return ''.join([chr((i * 7 + 3) % 256) for i in range(n)])


def arr(s):
    return array.array('B', [ord(c) for c in s])


class P(object):
    """a data part; expected: (content type, parameters, headers, data)"""
    def __init__(self, data, ctype='image/jpeg', params=None, headers=(), form='str'):
        self.data, self.ctype, self.params = data, ctype, dict(params or {})
        self.headers, self.form = list(headers), form

    def __repr__(self):
        return 'P(%s %d %s %r %r)' % (self.form, len(self.data), self.ctype[:40], self.params, [
            (k, v if len(v) < 30 else len(v)) for k, v in self.headers])

    def build(self):
        p = DataPart()
        if self.form == 'file':
            p = DataPart(write('part.bin', self.data))
            p.data                                      # read it while it is there
            p.headers.clear()
            p.headers['Content-Type'] = self.ctype, dict(self.params)
        elif self.form == 'text':
            p.set_text(self.data)
            if self.ctype != 'text/plain':
                p.content_type = self.ctype
        else:
            d = self.data
            if self.form == 'array':
                d = arr(d)
            elif self.form == 'unicode':
                d = unicode(d)
            if self.params:
                p.set_data(d, self.ctype, dict(self.params))
            else:
                p.set_data(d, self.ctype)
        for k, v in self.headers:
            p.headers[k] = v
        return p

    def expected(self):
        return self.ctype, self.params, dict(self.headers), self.data


def page(image=None, audio=None, text=None, duration=None, times=((0, 0), (0, 0), (0, 0))):
    """image, audio: (file name, data); returns the page and its parts"""
    pg = MMSMessagePage()
    want = []
    if duration is not None:
        pg.set_duration(duration)
    if image is not None:
        pg.add_image(write(*image), *times[0])
        want.append(file_part(*image))
    if audio is not None:
        pg.add_audio(write(*audio), *times[1])
        want.append(file_part(*audio))
    if text is not None:
        pg.add_text(text, *times[2])
        want.append(('text/plain', {}, {}, text))
    return pg, want


def file_part(name, data):
    return TYPES[os.path.splitext(name)[1]], {}, {'Content-Location': name}, data


def bytes_of(text):
    return ''.join([chr(ord(c)) for c in text])


def view(p):
    """a part as the library shows it"""
    h = dict(p.headers)
    ct = h.pop('Content-Type', None)
    return ct, p.content_type, p.content_type_parameters, h, p.data, len(p)

# -*- coding: utf-8 -*-
"""Fresh copies of the library inside one JVM

``fresh()`` forgets every module of the library (and what it registered with
the interpreter: codecs, MIME types) and loads it again from the sources under
the repository, so that the next operation is the first one the library ever
performs.  The sources are compiled once per process.
"""
import copy
import imp
import os
import sys
from java.lang import Class
from org.python.core import Py, PySystemState

SRC = {}
LIBRARY = 'messaging'


class Loader(object):
    def find_module(self, name, path=None):
        return self if name in SRC else None

    def load_module(self, name):
        if name in sys.modules:
            return sys.modules[name]
        code, fn, pkg = SRC[name]
        m = imp.new_module(name)
        m.__file__ = fn
        m.__loader__ = self
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(fn)]
        sys.modules[name] = m
        try:
            exec code in m.__dict__
        except:
            sys.modules.pop(name, None)
            raise
        return m


def sources(root):
    for d, dirs, files in os.walk(os.path.join(root, LIBRARY)):
        dirs[:] = [x for x in dirs if x not in ('test', '__pycache__')]
        for f in files:
            if not f.endswith('.py'):
                continue
            path = os.path.join(d, f)
            name = os.path.relpath(path, root)[:-3].replace(os.sep, '.')
            pkg = name.endswith('.__init__')
            fh = open(path, 'rb')
            text = fh.read()
            fh.close()
            SRC[name[:-9] if pkg else name] = (compile(text, path, 'exec', 0, 1), path, pkg)


_state = Class.getDeclaredField(PySystemState, 'codecState')
_state.setAccessible(True)
MIMETYPES = []


def prepare(root):
    import mimetypes
    import codecs, re, array, datetime, random, StringIO, encodings, itertools, xml.dom.minidom
    sources(os.path.realpath(root))
    sys.meta_path.insert(0, Loader())
    mimetypes.init()
    db = mimetypes._db
    MIMETYPES.append((mimetypes, dict(mimetypes.__dict__), db))


def mime_reset():
    """the MIME tables as after their first initialisation"""
    m, d, db = MIMETYPES[0]
    new = copy.copy(db)
    for k, v in db.__dict__.items():
        if isinstance(v, dict):
            v = dict(v)
        elif isinstance(v, tuple):
            v = tuple([dict(x) for x in v])
        new.__dict__[k] = v
    m.__dict__.update(d)
    m._db = new
    m.encodings_map = new.encodings_map
    m.suffix_map = new.suffix_map
    m.types_map = new.types_map[True]
    m.common_types = new.types_map[False]


def fresh(name='actions'):
    """the module ``name`` loaded against a new copy of the library"""
    for k in list(sys.modules):
        if k == LIBRARY or k.startswith(LIBRARY + '.') or k in ('encodings', name):
            del sys.modules[k]
    _state.set(Py.getSystemState(), None)
    mime_reset()
    return __import__(name)

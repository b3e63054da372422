"""In-memory files for symbolic runs.  Text written to a file becomes visible when the file is closed (or flushed)."""
import io
import json as _json
import os as _os
import types
import weakref
import numpy as np
from .terms import Node, SymBool, SymError


class VText:
    """file contents: list of chunks (str | ('json', obj) | ('row', [..]) )"""
    def __init__(self, chunks=()):
        self.chunks = list(chunks)

    def __repr__(self):
        return 'VText(%d chunks)' % len(self.chunks)

    def split(self, *a): return [self]
    def replace(self, *a): return self
    def strip(self, *a): return self
    def splitlines(self, *a): return [self]


class VFile:
    def __init__(self, fs, name, mode):
        self.fs, self.name, self.mode, self.closed = fs, name, mode, False
        self.buf = []
        if 'w' in mode:
            fs.files[name] = []
        elif 'a' in mode:
            fs.files.setdefault(name, [])
        elif name not in fs.files:
            raise FileNotFoundError(name)

    def write(self, s):
        if isinstance(s, bytes):
            s = s.decode()
        self.buf.append(s)
        return 0

    def flush(self):
        self.fs.files[self.name].extend(self.buf)
        self.buf = []

    def close(self):
        if not self.closed:
            self.flush()
            self.closed = True
            self.fs.open_files.discard(self)

    def read(self, *a):
        return VText(self.fs.files[self.name])

    def readlines(self): return [self.read()]
    def __enter__(self): return self

    def __del__(self):
        try:
            self.close()
        except Exception:
            pass

    def __exit__(self, *a): self.close()


class VFS:
    def __init__(self):
        self.files = {}
        self.open_files = weakref.WeakSet()
        self.json_in = {}

    def open(self, name, mode='r', *a, **k):
        f = VFile(self, str(name), mode)
        self.open_files.add(f)
        return f

    def savetxt(self, fname, X, fmt, header, comments, newline):
        chunks = [comments + header.replace('\n', '\n' + comments) + newline] if header else []
        X = np.asarray(X)
        for row in X:
            vals = list(row) if X.dtype.names is None else [row[n] for n in X.dtype.names]
            chunks.append(('row', vals))
        if isinstance(fname, VFile):
            fname.buf.extend(chunks)
        else:
            self.files[str(fname)] = chunks

    def loadtxt(self, fname, **kw):
        c = self.files.get(str(fname))
        if c is None:
            raise OSError('%s not found.' % fname)
        rows = [x[1] for x in c if isinstance(x, tuple) and x[0] == 'row']
        from . import facade
        return facade.conv(facade.obj(rows))

    def put_json(self, name, data):
        self.files[name] = [('json', data)]

    def stub(self, name):
        if name == 'json':
            def dump(o, f, **kw):
                chk(o)
                f.buf.append(('json', snapshot(o)))

            def load(f, object_pairs_hook=None, **kw):
                c = self.files[f.name]
                js = [x for x in c if isinstance(x, tuple) and x[0] == 'json']
                if len(js) != 1:
                    raise ValueError('not one JSON document')
                return rebuild(js[0][1], object_pairs_hook)

            def dumps(o, **kw):
                chk(o)
                return VText([('json', snapshot(o))])

            return types.SimpleNamespace(dump=dump, load=load, dumps=dumps, loads=lambda t, **k: t.chunks[0][1])
        if name == 'os.path':
            return self.stub('os').path
        if name == 'os':
            p = types.SimpleNamespace(isfile=lambda f: f in self.files, exists=lambda f: f in self.files, join=_os.path.join,
                                      basename=_os.path.basename, dirname=_os.path.dirname, splitext=_os.path.splitext, abspath=lambda f: f)
            return types.SimpleNamespace(path=p, access=lambda f, m: f in self.files, R_OK=4, W_OK=2, sep='/', remove=lambda f: self.files.pop(f),
                                         linesep='\n', fspath=lambda f: f)
        return None


def chk(o):
    """what json.dump accepts"""
    if isinstance(o, dict):
        for v in o.values():
            chk(v)
    elif isinstance(o, (list, tuple)):
        for v in o:
            chk(v)
    elif isinstance(o, np.ndarray):
        raise TypeError('Object of type ndarray is not JSON serializable')


def snapshot(o):
    if isinstance(o, dict):
        return {k: snapshot(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [snapshot(v) for v in o]
    return o


def rebuild(o, hook):
    if isinstance(o, dict):
        pairs = [(k, rebuild(v, hook)) for k, v in o.items()]
        return hook(pairs) if hook else dict(pairs)
    if isinstance(o, (list, tuple)):
        return [rebuild(v, hook) for v in o]
    return o

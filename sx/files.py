"""Files for the code under test, in scratch directories.

In a symbolic run the contents of a file may be symbolic. The real file then holds a token that stands for the contents, so
that files can be renamed, copied, truncated and removed as usual; opening a file of a scratch directory (open, pathlib.Path
methods, the CSV reader of rowgenerators, which is not part of the code under test) gives or takes the symbolic contents. Files
that a harness makes may also be given as rows. In a replay, real files are written and really read."""
import builtins
import csv
import io
import os
import pathlib
import shutil
import tempfile

__sx_internal__ = True

_rows = {}
_dirs = []
_contents = {}
_installed = False
_TOKEN = b'\0SX-CONTENTS:'

_open = builtins.open
_path_open = pathlib.Path.open


def _install(symbolic):
    global _installed
    if _installed:
        return
    _installed = True
    # Checking the requirements of installed packages at each URL is slow, and has no influence on results
    import pkg_resources
    pkg_resources.EntryPoint.require = lambda self, env=None, installer=None: None

    if not symbolic:
        return

    from rowgenerators.generator.csv import CsvSource
    from . import models
    orig = CsvSource.__iter__

    def it(self):
        p = os.path.realpath(str(self.url.fspath))
        if p in _rows and os.path.getsize(p) == 0:
            for r in list(_rows[p]):
                yield list(r)
            return
        c = _symbolic(p)
        if c is None or (self.url.encoding or 'utf8').lower().replace('-', '') != 'utf8':
            yield from orig(self)
            return
        self.start()
        f = models.SymStringIO(newline='')
        f.parts.extend(models._universal(c))
        yield from models.SymCsvReader(f, delimiter=self.delimiter)
        self.finish()

    CsvSource.__iter__ = it
    pathlib.Path.open = path_open
    pathlib.Path.read_text = read_text
    pathlib.Path.write_text = write_text
    pathlib.Path.write_bytes = write_bytes
    models.OPEN_HOOK.append(sym_open)


def _inside(p):
    try:
        p = os.path.realpath(os.fspath(p))
    except TypeError:
        return False
    return any(p.startswith(d + os.sep) for d in _dirs)


def _symbolic(p):
    """Characters of a file with symbolic contents, or None"""
    try:
        with _open(p, 'rb') as f:
            b = f.read()
    except OSError:
        return None
    if b.startswith(_TOKEN):
        return _contents[b]
    return None


def sym_open(f, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    """A stand-in for open(), or None if the real one should be used"""
    if isinstance(f, int) or not _inside(f):
        return None
    p = os.path.realpath(os.fspath(f))
    if encoding is not None and encoding.lower().replace('-', '').replace('_', '') != 'utf8':
        return None
    if mode in ('r', 'rt', 'rb'):
        c = _symbolic(p)
        return None if c is None else SymFile(p, mode, newline, c)
    if mode in ('w', 'wt', 'wb', 'a', 'at', 'ab', 'x', 'xt', 'xb'):
        return SymFile(p, mode, newline, None)
    return None


def path_open(self, mode='r', buffering=-1, encoding=None, errors=None, newline=None):
    f = sym_open(self, mode, buffering, encoding, errors, newline)
    return _path_open(self, mode, buffering, encoding, errors, newline) if f is None else f


def read_text(self, encoding=None, errors=None, newline=None):
    with self.open('r', encoding=encoding, errors=errors, newline=newline) as f:
        return f.read()


def write_text(self, data, encoding=None, errors=None, newline=None):
    with self.open('w', encoding=encoding, errors=errors, newline=newline) as f:
        return f.write(data)


def write_bytes(self, data):
    with self.open('wb') as f:
        return f.write(data)


class SymFile(object):
    """A file whose contents may be symbolic"""

    def __init__(self, path, mode, newline, chars):
        from .models import _universal
        self.name = path
        self.mode = mode
        self.newline = newline
        self.closed = False
        self.real = None
        self.pos = 0
        if chars is not None:
            self.chars = _universal(chars) if newline is None and 'b' not in mode else list(chars)
        else:
            old = _symbolic(path) if 'a' in mode else None
            if 'a' in mode and old is None and os.path.exists(path):
                with _open(path, 'r', newline='', encoding='utf8') as f:
                    old = list(f.read())
            self.chars = list(old or [])
            self.real = _open(path, 'xb' if 'x' in mode else 'wb')

    def readable(self):
        return self.real is None

    def writable(self):
        return self.real is not None

    def fileno(self):
        return self.real.fileno()

    def flush(self):
        pass

    def read(self, n=-1):
        from .symstr import mk, SymBytes
        if self.real is not None:
            raise io.UnsupportedOperation('not readable')
        e = len(self.chars) if n is None or n < 0 else min(len(self.chars), self.pos + n)
        s = mk(self.chars[self.pos:e])
        self.pos = e
        if 'b' not in self.mode:
            return s
        return s.encode('utf8') if type(s) is str else SymBytes(s, 'utf8')

    def readlines(self):
        return list(self)

    def __iter__(self):
        from .models import SymStringIO
        f = SymStringIO(newline='')
        f.parts.extend(self.chars[self.pos:])
        for line in f:
            yield line

    def write(self, x):
        from .symstr import SymStr, SymBytes, chars_of, mk
        if self.real is None:
            raise io.UnsupportedOperation('not writable')
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        if 'b' in self.mode:
            if isinstance(x, SymBytes):
                self.chars.extend(chars_of(x.s))
                return None  # the number of bytes is not modelled
            if not isinstance(x, (bytes, bytearray)):
                raise TypeError("a bytes-like object is required, not '{}'".format(type(x).__name__))
            self.chars.extend(x.decode('utf8'))
            return len(x)
        if not isinstance(x, str):
            raise TypeError('write() argument must be str, not {}'.format(type(x).__name__))
        if type(x) is not SymStr:
            x.encode('utf8')
        f = __import__('sx.models', fromlist=['x']).SymStringIO(newline='' if self.newline is None else self.newline)
        f.write(x)
        self.chars.extend(f.parts)
        return len(x)

    def writelines(self, lines):
        for e in lines:
            self.write(e)

    def close(self):
        from .symstr import mk
        if self.closed:
            return
        self.closed = True
        if self.real is None:
            return
        s = mk(self.chars)
        if type(s) is str:
            self.real.write(s.encode('utf8'))
        else:
            t = _TOKEN + str(len(_contents)).encode()
            _contents[t] = list(self.chars)
            self.real.write(t)
        self.real.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class Scratch(object):
    """A directory with files {name: rows or bytes or text}, removed at the end"""

    def __init__(self, h, files=None):
        self.h = h
        self.files = files or {}

    def __enter__(self):
        _install(self.h.symbolic)
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix='metatab-verif-'))
        _dirs.append(self.dir)
        for n, rows in self.files.items():
            self.put(n, rows)
        return self

    def put(self, name, rows):
        p = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(rows, bytes):
            with _open(p, 'wb') as f:
                f.write(rows)
        elif isinstance(rows, str):
            f = (sym_open(p, 'wb') if self.h.symbolic else None) or _open(p, 'wb')
            with f:
                f.write(rows.encode('utf8'))
        elif self.h.symbolic:
            with _open(p, 'wb'):
                pass
            _rows[p] = rows
        else:
            with _open(p, 'w', newline='', encoding='utf8') as f:
                w = csv.writer(f)
                for r in rows:
                    w.writerow(['' if e is None else e for e in r])
        return p

    def path(self, name):
        return os.path.join(self.dir, name)

    def read(self, name):
        """The text of a file, without translation of line breaks; None if there is no such file"""
        p = self.path(name)
        if not os.path.exists(p):
            return None
        f = (sym_open(p, 'r', newline='') if self.h.symbolic else None) or _open(p, 'r', newline='', encoding='utf8')
        with f:
            return f.read()

    def names(self):
        """All files, sorted"""
        out = []
        for d, _, fs in os.walk(self.dir):
            out += [os.path.relpath(os.path.join(d, f), self.dir) for f in fs]
        return sorted(out)

    def __exit__(self, *a):
        for k in [k for k in _rows if k.startswith(self.dir + os.sep)]:
            del _rows[k]
        _dirs.remove(self.dir)
        if not _dirs:
            _contents.clear()
        shutil.rmtree(self.dir, ignore_errors=True)
        return False

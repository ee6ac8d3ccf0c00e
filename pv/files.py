"""Ghost files: the content of an open text file is the list of the pieces written to it."""
import io
import os
from .core import *
from .arrays import IList, SStr


class Method:
    def __init__(self, fn):
        self.fn = fn

    def _pv_call(self, I, args, kw):
        return self.fn(I, *args, **kw)


class File:
    def __init__(self, disk, path, mode):
        self.disk, self.path, self.mode = disk, path, mode
        self.closed = False
        self.write = Method(self._write)
        self.writelines = Method(self._writelines)
        self.close = Method(self._close)
        self.flush = Method(lambda I: None)

    def _pv_enter(self, I):
        return self

    def _pv_exit(self, I):
        self.closed = True

    def _close(self, I):
        self.closed = True

    def _write(self, I, text):
        if self.mode[0] not in 'wax' or 'b' in self.mode:
            raise IExc(io.UnsupportedOperation('not writable'))
        self.disk.content[key(self.path)].append(text)
        return None

    def _writelines(self, I, texts):
        for x in I.iterate(texts):
            self._write(I, x)


def key(p):
    return p.parts if isinstance(p, SStr) else p


class Disk:
    """The files written during an execution: path -> pieces of text in order."""

    def __init__(self, v, before=()):
        self.v = v
        self.content = {}
        self.opened = []
        for p in before:
            self.content[key(p)] = IList(['(old)'])
        v.contract_of(open, self.open)
        v.contract_of(io.open, self.open)

    def open(self, I, args, kw):
        path = args[0] if args else kw['file']
        mode = args[1] if len(args) > 1 else kw.get('mode', 'r')
        if not isinstance(mode, str) or mode[0] not in 'wa' or '+' in mode:
            raise Unsupported('reading a ghost file')
        k = key(path)
        old = self.content.get(k)

        def undo():
            if old is None:
                self.content.pop(k, None)
            else:
                self.content[k] = old
        if mode[0] == 'w' or old is None:
            self.v.c.log(undo, ('ghost', 'file'))
            self.content[k] = IList()
        self.opened.append((path, mode))
        self.v.c.log(self.opened.pop, ('ghost', 'open'))
        return File(self, path, mode)

    def text(self, path):
        """The text of a file as literal and formatted pieces."""
        l = self.content[key(path)]
        if l.seq is not None:
            raise Unsupported('file of unknown length')
        out = []
        for x in l.items:
            for p in (x.parts if isinstance(x, SStr) else (x,)):
                if isinstance(p, str) and out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
        return out


class Ghost:
    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise Unsupported('%s of a ghost file' % name)


class Head(Ghost):
    """The first bytes of a file of which only the leading ones (known) are known; never one of the prefixes in excluded."""
    _pv_symbolic = True

    def __init__(self, known, excluded=(), some=None):
        self.known, self.excluded, self.some = known, excluded, some
        self.startswith = Method(self._startswith)
        self.__hash__ = None

    def _startswith(self, I, p):
        ps = p if isinstance(p, tuple) else (p,)
        if not all(isinstance(q, bytes) for q in ps):
            raise Unsupported('prefix that is not literal')
        return any([self.one(I, q) for q in ps])

    def one(self, I, p):
        m = min(len(p), len(self.known))
        if p[:m] != self.known[:m]:
            return False
        if len(p) <= len(self.known):
            return True
        if any(p.startswith(q) for q in self.excluded):
            return False
        raise Unsupported('bytes behind the known ones')

    def _pv_getitem(self, k):
        if isinstance(k, slice) and k.step in (None, 1) and isinstance(k.stop, int) and (k.start is None or isinstance(k.start, int)):
            if 0 <= (k.start or 0) <= k.stop <= len(self.known):
                return self.known[k.start or 0:k.stop]
            if not k.start and k.stop > len(self.known):
                return Head(self.known, self.excluded)
        raise Unsupported('bytes behind the known ones')

    def _pv_binop(self, I, op, a, b):
        raise Unsupported('arithmetic of unknown bytes')


class Reading(Ghost):
    """A file opened for reading its first bytes."""

    def __init__(self, head):
        self.head = head
        self.read = Method(self._read)
        self.close = Method(lambda I: None)
        self.peek = self.read

    def _pv_enter(self, I):
        return self

    def _pv_exit(self, I):
        return None

    def _read(self, I, n=-1):
        if isinstance(n, int) and 0 <= n <= len(self.head.known):
            return self.head.known[:n]
        return self.head


class BinDisk:
    """Binary files as sequences of pieces: bytes, text with symbolic numbers, arrays of numbers."""

    def __init__(self, v):
        self.v = v
        self.content = {}
        v.contract_of(open, self.open)
        v.contract_of(io.open, self.open)

    def open(self, I, args, kw):
        a = dict(zip(('file', 'mode'), args), **kw)
        path, mode = a['file'], a.get('mode', 'r')
        if not isinstance(path, str) or mode not in ('wb', 'rb', 'bw', 'br'):
            raise Unsupported('mode of a ghost file')
        if 'w' in mode:
            self.content[path] = []
        elif path not in self.content:
            raise IExc(FileNotFoundError(path))
        return BinFile(self.v, self.content[path], 'w' in mode)


class BinFile(Ghost):
    def __init__(self, v, pieces, writing):
        self.v, self.pieces, self.writing, self.at = v, pieces, writing, 0
        self.write = Method(self._write)
        self.close = Method(lambda I: None)
        self.flush = self.close

    def _pv_enter(self, I):
        return self

    def _pv_exit(self, I):
        return None

    def _write(self, I, b):
        if not self.writing:
            raise IExc(io.UnsupportedOperation('write'))
        if not isinstance(b, (bytes, SStr)):
            raise IExc(TypeError('a bytes-like object is required'))
        self.pieces.append(b)

    def _pv_tofile(self, arr, width):
        if width is None:
            raise Unsupported('array of numbers of unknown width')
        self.pieces.append((arr, width))

    def text(self):
        """The text in front of the first NUL; the position moves behind it."""
        out, k = [], self.at
        while True:
            if k >= len(self.pieces) or isinstance(self.pieces[k], tuple):
                raise Unsupported('no NUL in the text of a ghost file')
            p = self.pieces[k]
            if isinstance(p, bytes) and b'\0' in p:
                if p.index(b'\0') != len(p) - 1:
                    raise Unsupported('text behind the NUL of a ghost file')
                out.append(p[:-1].decode('ascii'))
                self.at = k + 1
                return SStr(out)
            out.append(p.decode('ascii') if isinstance(p, bytes) else p)
            k += 1

    def numbers(self):
        """The next array (None at the end of the file)."""
        if self.at >= len(self.pieces):
            return None
        p = self.pieces[self.at]
        if not isinstance(p, tuple):
            raise Unsupported('text where numbers are read')
        self.at += 1
        return p

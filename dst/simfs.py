"""Simulated disk: a scratch directory whose files are opened through a fault-injecting raw layer.

`open`, `io.open`, `os.open`, `os.write`, `os.read`, `os.fsync`, `os.close`, `os.replace`,
`os.rename` and `os.fdopen` are intercepted for paths below the scratch root; everything else
passes through.  The real BufferedReader/BufferedWriter/TextIOWrapper sit on top of the simulated
raw file, so buffering and flush-on-close behave as in production.

A fault script is a list of dictionaries:
  {'op': 'open',  'nth': k, 'err': 'EACCES'}         k-th open of this call fails
  {'op': 'write', 'at': n,  'err': 'ENOSPC'}          bytes up to offset n are stored, then error
  {'op': 'write', 'at': n,  'err': 'CRASH'}           bytes up to n are stored, then SimCrash
  {'op': 'short_write', 'size': n}                    every raw write stores at most n bytes
  {'op': 'read',  'at': n,  'err': 'EIO'}             reads beyond n fail
  {'op': 'short_read', 'sizes': [..]}                 raw reads return these sizes, cyclically
  {'op': 'close', 'nth': k, 'err': 'EIO'}             k-th close fails (after releasing the file)
  {'op': 'fsync'|'rename', 'err': 'EIO'}
An entry with 'times': n fires n times (default 1; 0 = for ever); with 'path': p it concerns only
files whose name (relative to the root) starts with p.
"""
import builtins
import contextlib
import errno
import io
import os

from dst.core import SimCrash

_real = {k: getattr(os, k) for k in ('open', 'write', 'read', 'fsync', 'close', 'replace',
                                     'rename', 'fdopen')}
_real_open = builtins.open
_real_io_open = io.open


class SimRaw(io.RawIOBase):
    """Raw file over a real descriptor, with faults."""

    def __init__(self, fs, path, flags, mode):
        super().__init__()
        self.fs = fs
        self.path = path
        self.name = path
        self._r, self._w = flags
        self.mode = mode
        self._f = None
        fs.on_open(path, self._w)
        self._f = io.FileIO(path, mode)
        fs.handles.append(self)
        self.short_i = 0
        self.short_w = 0

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def fileno(self):
        return self._f.fileno()

    def seek(self, pos, whence=0):
        return self._f.seek(pos, whence)

    def tell(self):
        return self._f.tell()

    def truncate(self, size=None):
        return self._f.truncate(size)

    def readinto(self, b):
        n = self.fs.on_read(self, len(b))
        mv = memoryview(b)[:n].cast('B')
        return self._f.readinto(mv)

    def write(self, b):
        data = bytes(b)
        return self.fs.on_write(self, data)

    def close(self):
        if self.closed or self._f is None:
            super().close()
            return
        try:
            super().close()
        finally:
            if not self._f.closed:
                self._f.close()
                self.fs.on_close(self)


class SimFS:
    """The simulated disk."""

    def __init__(self, root, ctx):
        self.root = os.path.realpath(root)
        self.ctx = ctx
        self.handles = []
        self.faults = []
        self.fired = []
        self.opens = 0
        self.closes = 0
        self.write_opens = 0
        self.active = False
        self.crashed = False
        self.blksize = 8192         # preferred block size: what `open` takes as buffer size

    # ---- fault script ---------------------------------------------------------------------
    def arm(self, faults):
        """Install the fault script for the next call."""
        self.faults = [dict(f, left=f.get('times', 1)) for f in faults]
        self.fired = []
        self.opens = self.closes = self.write_opens = 0

    def add_faults(self, faults):
        """Add entries to the script; returns them for `drop_faults`."""
        new = [dict(f, left=f.get('times', 1)) for f in faults]
        self.faults = self.faults + new
        return new

    def drop_faults(self, entries):
        self.faults = [f for f in self.faults if not any(f is e for e in entries)]

    def disarm(self):
        fired, self.faults = self.fired, []
        return fired

    def _take(self, op, **match):
        for f in self.faults:
            if f['op'] != op or ('nth' in f and f['nth'] != match.get('nth')):
                continue
            if f.get('times', 1) != 0 and f['left'] <= 0:
                continue
            if 'path' in f and not match['rel'].startswith(f['path']):
                continue
            return f
        return None

    def _fire(self, f, what):
        f['left'] -= 1
        self.fired.append(f)
        self.ctx.fault(f"{f['op']}:{f.get('err', 'short')}")
        self.ctx.log('io', what)
        if f['err'] == 'CRASH':
            self.crashed = True
            raise SimCrash(what)
        if f['err'] == 'KBD':
            raise KeyboardInterrupt
        code = getattr(errno, f['err'])
        raise OSError(code, os.strerror(code))

    def rel(self, path):
        return os.path.relpath(path, self.root)

    def check_alive(self):
        """After a simulated crash nothing reaches the disk any more."""
        if self.crashed:
            raise SimCrash('the process is dead')

    def reboot(self):
        """Forget everything volatile after a crash."""
        for h in list(self.handles):
            if h._f is not None and not h._f.closed:
                h._f.close()
        self.handles.clear()
        self.crashed = False
        self.faults = []

    def on_open(self, path, writing):
        self.check_alive()
        self.opens += 1
        if writing:
            self.write_opens += 1
        f = self._take('open', nth=self.opens, rel=self.rel(path))
        self.ctx.log('open', self.rel(path), 'w' if writing else 'r')
        if f:
            self._fire(f, f'open {self.rel(path)}')

    def on_read(self, raw, want):
        pos = raw.tell()
        f = self._take('read', rel=self.rel(raw.path))
        n = want
        if f:
            if pos >= f['at']:
                self._fire(f, f'read at {pos}')
            n = min(n, f['at'] - pos)
        s = self._take('short_read', rel=self.rel(raw.path))
        if s and s['sizes']:
            k = s['sizes'][raw.short_i % len(s['sizes'])]
            raw.short_i += 1
            if raw.short_i > 30000:
                k = max(k, 8192)
            if k < n:
                n = max(1, k)
                if s not in self.fired:
                    self.fired.append(s)
                self.ctx.faults['short_read'] = self.ctx.faults.get('short_read', 0) + 1
        return n

    def on_write(self, raw, data):
        self.check_alive()
        pos = raw.tell()
        f = self._take('write', rel=self.rel(raw.path))
        s = self._take('short_write', rel=self.rel(raw.path))
        n = len(data)
        if s and n > s['size']:
            # A file of megabytes is not written byte by byte to its end
            raw.short_w += 1
            n = max(1, s['size'], min(n, 8192) if raw.short_w > 30000 else 1)
            self.ctx.faults['short_write'] = self.ctx.faults.get('short_write', 0) + 1
            if s not in self.fired:
                self.fired.append(s)
        if f:
            if pos >= f['at']:
                self._fire(f, f'write at {pos}')
            if pos + n > f['at']:
                n = f['at'] - pos
                if f['err'] in ('CRASH', 'KBD'):
                    raw._f.write(data[:n])
                    self._fire(f, f'write at {pos + n}')
        return raw._f.write(data[:n])

    def on_close(self, raw):
        if raw in self.handles:
            self.handles.remove(raw)
        if self.crashed:
            return
        self.closes += 1
        f = self._take('close', nth=self.closes, rel=self.rel(raw.path))
        self.ctx.log('close', self.rel(raw.path))
        if f:
            self._fire(f, 'close')

    def open_handles(self):
        return [self.rel(h.path) for h in self.handles]

    # ---- interception ---------------------------------------------------------------------
    def inside(self, path):
        if isinstance(path, int):
            return None
        try:
            p = os.path.abspath(os.fsdecode(path))
        except TypeError:
            return None
        rp = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
        return rp if rp == self.root or rp.startswith(self.root + os.sep) else None

    def _open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None,
              closefd=True, opener=None):
        p = self.inside(file) if self.active else None
        if p is None or opener is not None:
            return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        m = mode.replace('t', '').replace('b', '').replace('U', '')
        binary = 'b' in mode
        if binary and (encoding or errors or newline):
            raise ValueError('binary mode with text arguments')
        upd = '+' in m
        rd = 'r' in m or upd
        wr = any(c in m for c in 'wax') or upd
        raw = SimRaw(self, p, (rd, wr), m)
        try:
            if buffering == 0:
                if not binary:
                    raise ValueError('unbuffered text')
                return raw
            size = buffering if buffering > 1 else self.blksize
            if upd:
                buf = io.BufferedRandom(raw, size)
            elif wr:
                buf = io.BufferedWriter(raw, size)
            else:
                buf = io.BufferedReader(raw, size)
            if binary:
                return buf
            return io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        except BaseException:
            raw.close()
            raise

    def _rename(self, real, src, dst, *a, **k):
        if self.active and (self.inside(src) or self.inside(dst)):
            self.check_alive()
            f = self._take('rename', rel=self.rel(src))
            self.ctx.log('rename', os.path.basename(str(src)), os.path.basename(str(dst)))
            if f:
                self._fire(f, 'rename')
        return real(src, dst, *a, **k)

    def _fd_raw(self, fd):
        for h in self.handles:
            with contextlib.suppress(ValueError, OSError):
                if h._f is not None and h.fileno() == fd:
                    return h
        return None

    def _os_write(self, fd, data):
        h = self._fd_raw(fd) if self.active else None
        if h is not None:
            return self.on_write(h, bytes(data))
        return _real['write'](fd, data)

    def _os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        p = self.inside(path) if self.active and dir_fd is None else None
        if p is None:
            return _real['open'](path, flags, mode, dir_fd=dir_fd)
        wr = flags & (os.O_WRONLY | os.O_RDWR)
        self.on_open(p, bool(wr))
        fd = _real['open'](p, flags, mode)
        raw = SimRaw.__new__(SimRaw)
        io.RawIOBase.__init__(raw)
        raw.fs, raw.path, raw.name, raw.short_i, raw.short_w = self, p, p, 0, 0
        raw._r, raw._w = not (flags & os.O_WRONLY), bool(wr)
        raw.mode = 'r+' if wr else 'r'
        raw._f = io.FileIO(fd, 'r+' if flags & os.O_RDWR else 'w' if wr else 'r', closefd=False)
        raw.bare_fd = fd
        self.handles.append(raw)
        return fd

    def _os_read(self, fd, n):
        h = self._fd_raw(fd) if self.active else None
        if h is not None:
            n = self.on_read(h, n)
        return _real['read'](fd, n)

    def _os_close(self, fd):
        h = self._fd_raw(fd) if self.active else None
        _real['close'](fd)
        if h is not None:
            self.on_close(h)

    def _os_fsync(self, fd):
        if self.active:
            f = self._take('fsync', rel='')
            if f:
                self._fire(f, 'fsync')
        return None

    def _os_fdopen(self, fd, mode='r', buffering=-1, *a, **k):
        h = self._fd_raw(fd) if self.active else None
        if h is None:
            return _real['fdopen'](fd, mode, buffering, *a, **k)
        h._f = io.FileIO(fd, mode.replace('b', ''))
        h._r, h._w = h._f.readable(), h._f.writable()
        return io.BufferedWriter(h) if h._w else io.BufferedReader(h)

    @contextlib.contextmanager
    def mounted(self):
        """Intercept file access for the duration."""
        builtins.open = self._open
        io.open = self._open
        os.open = self._os_open
        os.write = self._os_write
        os.read = self._os_read
        os.close = self._os_close
        os.fsync = self._os_fsync
        os.fdopen = self._os_fdopen
        os.replace = lambda s, d, *a, **k: self._rename(_real['replace'], s, d, *a, **k)
        os.rename = lambda s, d, *a, **k: self._rename(_real['rename'], s, d, *a, **k)
        self.active = True
        try:
            yield self
        finally:
            self.active = False
            builtins.open = _real_open
            io.open = _real_io_open
            for k, v in _real.items():
                setattr(os, k, v)

    # ---- direct access for the harness ------------------------------------------------------
    def path(self, name):
        return os.path.join(self.root, name)

    def get(self, name):
        """Bytes of the file, or None."""
        try:
            with _real_io_open(self.path(name), 'rb') as f:
                return f.read()
        except (FileNotFoundError, IsADirectoryError):
            return None

    def put(self, name, data):
        with _real_io_open(self.path(name), 'wb') as f:
            f.write(data)

"""Simulated storage for code that reads files with Python: contents in memory, chosen sizes of reads, chosen faults."""
import builtins
import errno
import io
import os

ERRORS = {'EIO': lambda: OSError(errno.EIO, 'Input/output error'), 'ENOENT': lambda: FileNotFoundError(errno.ENOENT, 'No such file or directory'), 'EACCES': lambda: PermissionError(errno.EACCES, 'Permission denied'),
          'EMFILE': lambda: OSError(errno.EMFILE, 'Too many open files'), 'ENOMEM': lambda: OSError(errno.ENOMEM, 'Cannot allocate memory'), 'ESTALE': lambda: OSError(errno.ESTALE, 'Stale file handle'),
          'EINTR': lambda: InterruptedError(errno.EINTR, 'Interrupted system call'), 'memory': MemoryError, 'keyboard': KeyboardInterrupt}
READ = ['EIO', 'ESTALE', 'ENOMEM', 'memory', 'keyboard']
OPEN = ['ENOENT', 'EACCES', 'EMFILE', 'memory', 'keyboard', 'ENOMEM']


class Raw(io.RawIOBase):
    def __init__(self, disk, name):
        self.disk, self.name, self.at, self.mode = disk, name, 0, 'rb'

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, offset, whence=0):
        self.at = max(0, offset + (0, self.at, len(self.disk.files[self.name]))[whence])
        return self.at

    def tell(self):
        return self.at

    def readinto(self, b):
        d = self.disk
        d.reads += 1
        d.trip('read', d.reads)
        n = min(len(b), d.piece(), len(d.files[self.name]) - self.at)
        if n < 0:
            n = 0
        if n < len(b) and self.at + n < len(d.files[self.name]):
            d.short += 1
        b[:n] = d.files[self.name][self.at:self.at + n]
        self.at += n
        return n

    def close(self):
        if self.closed:
            return
        super().close()
        self.disk.held.remove(self)
        self.disk.closes += 1
        self.disk.trip('close', self.disk.closes)


class Disk:
    """faults: [[operation, number of the operation, error], ...]; pieces: sizes of successive reads, repeated."""

    def __init__(self, files, pieces, faults, buffer=None):
        self.files, self.pieces, self.buffer = files, pieces, buffer
        self.faults = {(o, n): e for o, n, e in faults}
        self.opens = self.reads = self.closes = self.short = self.pieces_done = 0
        self.held, self.fired, self.healed = [], [], False

    def piece(self):
        self.pieces_done += 1
        return self.pieces[self.pieces_done % len(self.pieces)]

    def trip(self, operation, n):
        e = None if self.healed else self.faults.get((operation, n))
        if e:
            self.fired.append([operation, n, e])
            raise ERRORS[e]()

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        try:
            name = os.path.abspath(os.fsdecode(os.fspath(file)))
        except TypeError:
            name = None
        if name not in self.files or set(mode) & set('wax+'):
            return self.real(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.opens += 1
        self.trip('open', self.opens)
        raw = Raw(self, name)
        self.held.append(raw)
        if buffering == 0:
            return raw
        buf = io.BufferedReader(raw, buffering if buffering > 1 else self.buffer or io.DEFAULT_BUFFER_SIZE)
        if 'b' in mode:
            return buf
        return io.TextIOWrapper(buf, encoding if encoding and encoding != 'locale' else 'utf-8', errors, newline)

    def __enter__(self):
        self.real = builtins.open
        builtins.open = io.open = self.open
        return self

    def __exit__(self, *_):
        builtins.open = io.open = self.real

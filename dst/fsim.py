"""
File-system seam.

While ``Disk.installed()`` is active, every Python-level file operation on a
path below the simulated root goes through this module at system-call
granularity: open, read, write, close, rename, unlink, mkdir, rmdir.  The
bytes live in a real scratch directory; the simulator decides what each call
does.  A fault is addressed by the sequence number of the mutating call inside
the current operation ("write number 7 hits a full disk"), so a plan replays
exactly.

Crash model: the process dies at a call.  The call may have taken effect, not
at all or (writes) in part.  Everything after it, including the clean-up code
that runs while the exception unwinds, has no effect; data still in Python's
buffers is lost.  What earlier calls put in the files survives.
"""

from __future__ import annotations

import builtins
import contextlib
import errno
import io
import os
import shutil
import tempfile
from collections import Counter

from dst.core import SimCrash, SimRunaway

_REAL = {
    'open': io.open,
    'os.open': os.open,
    'os.replace': os.replace,
    'os.rename': os.rename,
    'os.unlink': os.unlink,
    'os.remove': os.remove,
    'os.mkdir': os.mkdir,
    'os.rmdir': os.rmdir,
    'os.listdir': os.listdir,
    'os.scandir': os.scandir,
    'os.truncate': os.truncate,
    'os.link': os.link,
    'os.symlink': os.symlink,
    'os.utime': os.utime,
    'os.chmod': os.chmod,
}

ERRORS = {
    'enospc': errno.ENOSPC,
    'eio': errno.EIO,
    'eacces': errno.EACCES,
    'erofs': errno.EROFS,
    'emfile': errno.EMFILE,
    'edquot': errno.EDQUOT,
}


class _Raw(io.FileIO):
    """Raw file whose writes are decided by the simulator."""

    def __init__(self, disk, path, mode, opener_rel) -> None:
        self._disk = disk
        self._rel = opener_rel
        super().__init__(path, mode)

    def write(self, data):
        disk = self._disk
        if disk.dead or not disk.active:
            return len(data) if disk.dead else super().write(data)
        fate = disk.mutation('write', self._rel, len(data))
        if fate is None:
            return super().write(data)
        kind = fate['kind']
        if kind == 'short':
            n = max(1, min(len(data), int(len(data) * fate.get('frac', 0.5))))
            return super().write(bytes(data)[:n])
        if kind == 'crash':
            n = int(len(data) * fate.get('frac', 0.0))
            if n:
                super().write(bytes(data)[:n])
            disk.die()
        if kind in ERRORS:
            # a full disk takes what still fits
            n = int(len(data) * fate.get('frac', 0.0))
            if n and kind in {'enospc', 'edquot'}:
                super().write(bytes(data)[:n])
            disk.fail(kind, self._rel)
        return super().write(data)

    def truncate(self, size=None):
        if self._disk.dead:
            return size or 0
        return super().truncate(size)

    def close(self):
        super().close()


class Disk:
    """One simulated disk below ``root``."""

    def __init__(self, root: str | None = None, max_events: int = 200_000) -> None:
        base = os.environ.get('DST_SCRATCH') or None
        self.own = root is None
        self.root = os.path.realpath(root or tempfile.mkdtemp(prefix='dst-', dir=base))
        self.scratch = base or tempfile.gettempdir()
        self.max_events = max_events
        self.active = False
        self.reset_op()
        self.events = 0
        self.dead = False
        self.readonly = False
        self.full = False
        self.fired: Counter = Counter()
        self.seen: Counter = Counter()
        self.list_order = None
        self.writes_outside: list[str] = []
        self.touched: list[tuple] = []
        self.watch_outside = False
        self.allowed_outside: tuple[str, ...] = ()
        #: names the class of a path; faults with 'cls' count calls of that class only
        self.classify = None
        #: in a simulated worker process: asks the parent for the fate of a call
        self.remote = None

    # --- decisions ---------------------------------------------------------

    def reset_op(self, faults: list | None = None) -> None:
        """Start an operation with its list of faults."""
        self.n = 0
        self.reads = 0
        self.cls_n: Counter = Counter()
        self.faults = {
            (f.get('cls'), f['n']): f for f in (faults or []) if f.get('at', 'fs') == 'fs'
        }
        self.read_faults = {
            (f.get('cls'), f['n']): f for f in (faults or []) if f.get('at') == 'fsread'
        }
        self.op_fired: list = []
        #: how many mutating calls had been made when each fault fired
        self.fired_at: list = []
        self.touched = []
        self.dead = False

    def rel(self, path) -> str | None:
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        if p == self.root:
            return '.'
        if p.startswith(self.root + os.sep):
            return p[len(self.root) + 1 :]
        real = os.path.realpath(os.path.dirname(p))
        if real == self.root or real.startswith(self.root + os.sep):
            return os.path.relpath(os.path.join(real, os.path.basename(p)), self.root)
        return None

    def tick(self) -> None:
        self.events += 1
        if self.events > self.max_events:
            raise SimRunaway(f'more than {self.max_events} file operations')

    def mutation(self, op: str, rel: str, size: int = 0):
        """Number a mutating call and return its fate (a fault or None)."""
        if self.remote is not None:
            return self.remote('mutation', op, rel, size)
        if self.dead:
            raise SimCrash
        self.tick()
        n = self.n
        self.n += 1
        self.seen[op] += 1
        self.touched.append((op, rel, size))
        fate = self.faults.get((None, n))
        if self.classify is not None:
            cls = self.classify(rel)
            fate = fate or self.faults.get((cls, self.cls_n[cls]))
            self.cls_n[cls] += 1
        if fate is not None and fate['kind'] == 'short' and op != 'write':
            fate = None
        if fate is None and self.readonly:
            fate = {'kind': 'eacces', 'standing': True}
        if fate is None and self.full and op in {'write', 'mkdir', 'create'}:
            fate = {'kind': 'enospc', 'standing': True}
        if fate is not None:
            self.op_fired.append((op, rel, fate['kind']))
            self.fired_at.append(len(self.touched) - 1)
            self.fired[f"fs.{op}.{fate['kind']}"] += 1
        return fate

    def reading(self, rel: str):
        """Number a read of an existing file and return its fate."""
        if self.remote is not None:
            return self.remote('reading', rel)
        if self.dead:
            raise SimCrash
        self.tick()
        n = self.reads
        self.reads += 1
        self.seen['read-open'] += 1
        fate = self.read_faults.get((None, n))
        if self.classify is not None:
            cls = 'read:' + self.classify(rel)
            fate = fate or self.read_faults.get((cls[5:], self.cls_n[cls]))
            self.cls_n[cls] += 1
        if fate is not None:
            self.fired[f"fs.read.{fate['kind']}"] += 1
            self.op_fired.append(('read', rel, fate['kind']))
            self.fired_at.append(len(self.touched))
        return fate

    def die(self) -> None:
        if self.remote is not None:
            os._exit(137)
        self.dead = True
        raise SimCrash

    def fail(self, kind: str, rel: str) -> None:
        raise OSError(ERRORS[kind], os.strerror(ERRORS[kind]), rel)

    def apply(self, op, rel, real, *args, **kw):
        """Run a mutating call under its fate."""
        fate = self.mutation(op, rel)
        if fate is None:
            return real(*args, **kw)
        kind = fate['kind']
        if kind == 'crash':
            if fate.get('frac', 0.0) >= 0.5:  # the call took effect, then the kill
                real(*args, **kw)
            self.die()
        if kind in ERRORS:
            self.fail(kind, rel)
        return real(*args, **kw)

    # --- the seam ----------------------------------------------------------

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):  # noqa: C901
        if not self.active or isinstance(file, int) or opener is not None:
            return _REAL['open'](file, mode, buffering, encoding, errors, newline,
                                 closefd, opener)
        rel = self.rel(file)
        writing = any(c in mode for c in 'wax+')
        if rel is None:
            if writing and self.watch_outside:
                p = os.path.abspath(os.fspath(file))
                if not p.startswith(self.allowed_outside):
                    self.writes_outside.append(p)
            return _REAL['open'](file, mode, buffering, encoding, errors, newline,
                                 closefd, opener)
        if self.dead:
            raise SimCrash
        if not writing:
            fate = self.reading(rel) if os.path.exists(file) else None
            if fate is not None:
                if fate['kind'] == 'crash':
                    self.die()
                self.fail(fate['kind'], rel)
            return _REAL['open'](file, mode, buffering, encoding, errors, newline)
        existed = os.path.exists(file)
        fate = self.mutation('create' if not existed else 'open-write', rel)
        if fate is not None:
            kind = fate['kind']
            if kind == 'crash':
                if fate.get('frac', 0.0) >= 0.5:
                    _REAL['open'](file, mode if 'b' in mode else mode + 'b').close()
                self.die()
            if kind in ERRORS and not (kind == 'enospc' and existed):
                self.fail(kind, rel)
        binary = 'b' in mode
        raw_mode = ''.join(c for c in mode if c in 'rwax+')
        raw = _Raw(self, os.fspath(file), raw_mode, rel)
        try:
            size = io.DEFAULT_BUFFER_SIZE if buffering in {-1, 1} else buffering
            if buffering == 0:
                if not binary:
                    msg = "can't have unbuffered text I/O"
                    raise ValueError(msg)
                return raw
            if '+' in mode:
                buf = io.BufferedRandom(raw, size)
            elif 'r' in mode:
                buf = io.BufferedReader(raw, size)
            else:
                buf = io.BufferedWriter(raw, size)
            if binary:
                return buf
            text = io.TextIOWrapper(
                buf,
                encoding or 'utf-8',
                errors,
                newline,
                line_buffering=(buffering == 1),
            )
            text.mode = mode
            return text
        except BaseException:
            raw.close()
            raise

    def _wrap2(self, name, op):
        real = _REAL[name]

        def call(src, dst, **kw):
            if not self.active:
                return real(src, dst, **kw)
            rel = self.rel(dst)
            if rel is None:
                rel = self.rel(src)
            if rel is None or kw.get('src_dir_fd') is not None:
                return real(src, dst, **kw)
            return self.apply(op, rel, real, src, dst, **kw)

        return call

    def _wrap1(self, name, op):
        real = _REAL[name]

        def call(path, *args, **kw):
            if not self.active:
                return real(path, *args, **kw)
            dir_fd = kw.get('dir_fd')
            if dir_fd is not None:
                try:
                    full = os.path.join(os.readlink(f'/proc/self/fd/{dir_fd}'), os.fspath(path))
                except OSError:
                    full = path
                rel = self.rel(full)
            else:
                rel = self.rel(path)
            if rel is None:
                return real(path, *args, **kw)
            if op == 'mkdir' and os.path.isdir(path):
                return real(path, *args, **kw)  # raises FileExistsError itself
            return self.apply(op, rel, real, path, *args, **kw)

        return call

    def _os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        real = _REAL['os.open']
        if not self.active or not flags & (os.O_WRONLY | os.O_RDWR):
            return real(path, flags, mode, dir_fd=dir_fd)
        rel = self.rel(path)
        if rel is None:
            return real(path, flags, mode, dir_fd=dir_fd)
        return self.apply('create', rel, real, path, flags, mode, dir_fd=dir_fd)

    def _listdir(self, path='.'):
        names = _REAL['os.listdir'](path)
        if not self.active or self.list_order is None or isinstance(path, int):
            return names
        if self.rel(path) is None:
            return names
        return self.list_order(sorted(names))

    def _scandir(self, path='.'):
        if (
            not self.active
            or self.list_order is None
            or isinstance(path, int)
            or self.rel(path) is None
        ):
            return _REAL['os.scandir'](path)
        with _REAL['os.scandir'](path) as it:
            entries = {e.name: e for e in it}
        ordered = [entries[n] for n in self.list_order(sorted(entries))]

        class _Scan:
            def __init__(s) -> None:  # noqa: N805
                s.it = iter(ordered)

            def __iter__(s):  # noqa: N805
                return s

            def __next__(s):  # noqa: N805
                return next(s.it)

            def __enter__(s):  # noqa: N805
                return s

            def __exit__(s, *a) -> None:  # noqa: N805
                pass

            def close(s) -> None:  # noqa: N805
                pass

        return _Scan()

    @contextlib.contextmanager
    def installed(self):
        names = {
            (io, 'open'): self.open,
            (builtins, 'open'): self.open,
            (os, 'open'): self._os_open,
            (os, 'replace'): self._wrap2('os.replace', 'rename'),
            (os, 'rename'): self._wrap2('os.rename', 'rename'),
            (os, 'unlink'): self._wrap1('os.unlink', 'unlink'),
            (os, 'remove'): self._wrap1('os.remove', 'unlink'),
            (os, 'mkdir'): self._wrap1('os.mkdir', 'mkdir'),
            (os, 'rmdir'): self._wrap1('os.rmdir', 'rmdir'),
            (os, 'listdir'): self._listdir,
            (os, 'scandir'): self._scandir,
        }
        saved = {k: getattr(*k) for k in names}
        for (mod, attr), fn in names.items():
            setattr(mod, attr, fn)
        self.active = True
        try:
            yield self
        finally:
            self.active = False
            for (mod, attr), fn in saved.items():
                setattr(mod, attr, fn)

    # --- harness-side access (never faulted) -------------------------------

    def path(self, *parts) -> str:
        return os.path.join(self.root, *parts)

    @contextlib.contextmanager
    def quiet(self):
        """Suspend the seam while the harness itself touches files."""
        was, self.active = self.active, False
        try:
            yield
        finally:
            self.active = was

    def tree(self, sub: str = '') -> dict[str, bytes]:
        """All files below a directory with their bytes."""
        out = {}
        with self.quiet():
            top = self.path(sub) if sub else self.root
            for base, _dirs, files in os.walk(top):
                for f in files:
                    p = os.path.join(base, f)
                    with _REAL['open'](p, 'rb') as fh:
                        out[os.path.relpath(p, top)] = fh.read()
        return out

    def put(self, rel: str, data: bytes) -> None:
        with self.quiet():
            p = self.path(rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with _REAL['open'](p, 'wb') as fh:
                fh.write(data)

    def remove(self, rel: str) -> None:
        with self.quiet(), contextlib.suppress(FileNotFoundError):
            os.unlink(self.path(rel))

    def wipe(self) -> None:
        """Remove everything below the root."""
        with self.quiet():
            for name in _REAL['os.listdir'](self.root):
                p = os.path.join(self.root, name)
                if os.path.isdir(p) and not os.path.islink(p):
                    shutil.rmtree(p)
                else:
                    os.unlink(p)

    def close(self) -> None:
        if self.own and self.root.startswith(os.path.realpath(self.scratch) + '/dst-'):
            with self.quiet():
                shutil.rmtree(self.root, ignore_errors=True)

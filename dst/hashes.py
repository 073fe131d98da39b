"""
Processes that order their sets differently.

``PYTHONHASHSEED`` is fixed when an interpreter starts, so each other value
needs an interpreter of its own.  Every server here is such an interpreter: it
imports the worlds once and forks a child for each request, so that nothing
one request does is seen by the next.
"""

from __future__ import annotations

import atexit
import os
import pickle
import signal
import socket
import struct
import subprocess
import sys
import threading
import time
from pathlib import Path

from dst.core import HarnessError

HERE = Path(__file__).resolve().parent
SEEDS = (1, 2, 3, 11)
BOOT = 'import sys; sys.path.insert(0, sys.argv[1]); from dst import hashes; hashes.serve(sys.argv[2])'
_paths: dict[int, str] = {}


def start() -> None:
    """Start a server for every value; they end with this process."""
    if _paths:
        return
    procs = []
    base = os.environ['DST_SCRATCH']
    for seed in SEEDS:
        path = os.path.join(base, f'hash{seed}')
        env = {**os.environ, 'PYTHONHASHSEED': str(seed)}
        env.pop('DST_SCRATCH', None)
        procs.append(subprocess.Popen(  # noqa: S603
            [sys.executable, '-c', BOOT, str(HERE.parent), path], env=env,
            stdin=subprocess.PIPE, stdout=subprocess.DEVNULL))
        _paths[seed] = path
    pid = os.getpid()

    def stop() -> None:
        if os.getpid() == pid:
            for p in procs:
                p.stdin.close()
            for p in procs:
                try:
                    p.wait(10)
                except subprocess.TimeoutExpired:
                    p.kill()

    atexit.register(stop)
    limit = time.monotonic() + 120
    for seed, p in zip(SEEDS, procs):
        while not os.path.exists(_paths[seed] + '.ready'):
            if p.poll() is not None or time.monotonic() > limit:
                raise HarnessError(f'no interpreter with hash seed {seed}')
            time.sleep(0.05)


def _send(sock, data) -> None:
    sock.sendall(struct.pack('>Q', len(data)) + data)


def _receive(sock) -> bytes:
    def exactly(n) -> bytes:
        out = b''
        while len(out) < n:
            part = sock.recv(min(1 << 20, n - len(out)))
            if not part:
                raise HarnessError('an interpreter with another hash seed died')
            out += part
        return out

    return exactly(struct.unpack('>Q', exactly(8))[0])


def call(seed, world, method, *args, env=None):
    """The value of a world's method in an interpreter with that hash seed."""
    sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    try:
        sock.connect(_paths[seed])
        _send(sock, pickle.dumps((world, method, args, env or {})))
        kind, value = pickle.loads(_receive(sock))
    finally:
        sock.close()
    if kind == 'err':
        raise HarnessError(value)
    return value


def with_environment(env) -> None:
    """Settings of a process that must not matter to results."""
    for k, v in env.items():
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v
    if 'TZ' in env:
        time.tzset()


def _handle(conn) -> None:
    from dst import registry  # noqa: PLC0415

    try:
        world, method, args, env = pickle.loads(_receive(conn))
        with_environment(env)
        out = ('ok', getattr(registry.worlds()[world], method)(*args))
    except BaseException as e:  # noqa: BLE001
        import traceback  # noqa: PLC0415

        out = ('err', f'{e!r}\n{traceback.format_exc()[-3000:]}')
    _send(conn, pickle.dumps(out))


def serve(path) -> None:
    from dst import boot, registry  # noqa: PLC0415

    boot.prepare()
    for w in registry.worlds().values():
        if w.name in {'session', 'dlcalc'}:
            w.imports()
    server = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    server.bind(path)
    server.listen(64)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)

    def orphaned() -> None:
        os.read(0, 1)
        import shutil  # noqa: PLC0415

        shutil.rmtree(os.environ['DST_SCRATCH'], ignore_errors=True)
        os._exit(0)

    Path(path + '.ready').touch()
    threading.Thread(target=orphaned, daemon=True).start()
    while True:
        conn, _ = server.accept()
        if os.fork() == 0:
            try:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                signal.alarm(200)
                _handle(conn)
            finally:
                os._exit(0)
        conn.close()


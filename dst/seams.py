"""Seams shared by the worlds that call pelicun in one process."""

from __future__ import annotations

import contextlib
import io
import os
import pickle
import random
import signal
import sys
import tempfile
import traceback
import warnings
from pathlib import Path

import numpy as np

from dst.core import HarnessError, derive


@contextlib.contextmanager
def sandboxed(disk, clock, salt, *, work='work', lib='lib', listing='sorted', state=None):
    """
    Put entropy, clock, files, directory order and cwd behind the simulator.

    ``state`` seeds the global random generators differently (they must not
    matter to anything a property promises).
    """
    from pelicun import base  # noqa: PLC0415

    saved = []

    def patch(obj, name, value) -> None:
        saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    real_rng = np.random.default_rng
    counter = [0]

    def default_rng(seed=None):
        if seed is None:
            counter[0] += 1
            seed = derive(salt, 'entropy', counter[0])
        return real_rng(seed)

    def order(names):
        if listing == 'sorted':
            return names
        if listing == 'reversed':
            return names[::-1]
        names = list(names)
        random.Random(derive(listing, *names)).shuffle(names)
        return names

    disk.list_order = order
    cwd, path = os.getcwd(), list(sys.path)
    np_state, py_state = np.random.get_state(), random.getstate()
    np.random.seed(derive(salt, 'np', state) % (1 << 32))
    random.seed(derive(salt, 'py', state))
    patch(np.random, 'default_rng', default_rng)
    if lib:
        patch(base, 'pelicun_path', Path(disk.path(lib)))
    patch(tempfile, 'tempdir', disk.path('tmp'))
    os.chdir(disk.path(work))
    try:
        with clock.installed(), disk.installed(), contextlib.redirect_stdout(
            io.StringIO()
        ), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield
    finally:
        for obj, name, value in reversed(saved):
            setattr(obj, name, value)
        os.chdir(cwd)
        sys.path[:] = path
        np.random.set_state(np_state)
        random.setstate(py_state)


def in_child(fn, *args, timeout=120):
    """Run ``fn(*args)`` in a forked copy of this process; return its value."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(timeout)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            try:
                out = ('ok', fn(*args))
            except BaseException as e:  # noqa: BLE001
                out = ('err', f'{e!r}\n{traceback.format_exc()[-3000:]}')
            data = pickle.dumps(out)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        raise HarnessError(f'child died with status {status}')
    kind, value = pickle.loads(data)
    if kind == 'err':
        raise HarnessError(value)
    return value

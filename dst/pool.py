"""
Worker-pool seam.

Replaces joblib's process backends.  Every simulated worker is a real forked
process that receives pickled tasks, but it stops at each file operation and
waits until the scheduler in the parent grants it.  Only one process runs at
any time, so the plan's scheduler seed decides every interleaving, the order
of completion, and which worker dies at which call.
"""

from __future__ import annotations

import ctypes
import os
import pickle
import signal
import socket
import struct
import traceback
from collections import Counter

import joblib
from joblib._parallel_backends import (
    FallbackToBackend,
    ParallelBackendBase,
    SequentialBackend,
)
import cloudpickle
from joblib.externals.loky.process_executor import TerminatedWorkerError

from dst.core import HarnessError, SimCrash, SimRunaway


def _send(sock, obj) -> None:
    data = obj if isinstance(obj, bytes) else pickle.dumps(obj)
    sock.sendall(struct.pack('!Q', len(data)) + data)


def _recv(sock):
    def take(n):
        parts = []
        while n:
            part = sock.recv(min(n, 1 << 20))
            if not part:
                raise EOFError
            parts.append(part)
            n -= len(part)
        return b''.join(parts)

    return pickle.loads(take(struct.unpack('!Q', take(8))[0]))


class _Job:
    def __init__(self, number, blob, callback) -> None:
        self.number, self.blob, self.callback = number, blob, callback
        self.finished = False
        self.value = None
        self.error = None

    def done(self):
        return self.finished

    def result(self, timeout=None):  # noqa: ARG002
        if self.error is not None:
            raise self.error
        return self.value

    get = result


class _Worker:
    def __init__(self, number, pid, sock) -> None:
        self.number, self.pid, self.sock = number, pid, sock
        self.job = None
        self.request = None


class Scheduler:
    """State of the simulated pool of one run."""

    def __init__(self, disk, rng, switch=0.3, on_fork=None, kill_main=None,
                 kill_worker=None, max_steps=60_000) -> None:
        self.disk, self.rng, self.switch = disk, rng, switch
        self.on_fork = on_fork
        #: scheduler step at which the main process dies
        self.kill_main = kill_main
        #: scheduler step at which the running worker dies
        self.kill_worker = kill_worker
        self.max_steps = max_steps
        self.steps = 0
        self.idle_polls = 0
        self.workers: list[_Worker] = []
        self.queue: list[_Job] = []
        self.jobs = 0
        self.n_jobs = 1
        self.last = None
        self.broken = False
        self.order: list[int] = []
        self.switches = 0
        self.fired: Counter = Counter()
        self.worker_crashed = False
        self.phase = 'before'

    # --- workers -------------------------------------------------------------

    def spawn(self) -> _Worker:
        mine, theirs = socket.socketpair()
        number = len(self.workers)
        pid = os.fork()
        if pid == 0:
            try:
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                mine.close()
                for w in self.workers:
                    w.sock.close()
                self.child(theirs)
            finally:
                os._exit(1)
        theirs.close()
        worker = _Worker(number, pid, mine)
        self.workers.append(worker)
        return worker

    def child(self, sock) -> None:
        def ask(*what):
            _send(sock, what)
            return _recv(sock)

        self.disk.remote = ask
        while True:
            try:
                job, blob = _recv(sock)
            except EOFError:
                os._exit(0)
            if self.on_fork:
                self.on_fork(job)
            try:
                value = cloudpickle.loads(blob)()
                out = ('done', cloudpickle.dumps(value))
            except BaseException as e:  # noqa: BLE001
                if isinstance(e, SimCrash):
                    os._exit(137)
                text = traceback.format_exc()
                try:
                    out = ('error', cloudpickle.dumps(e), text)
                    cloudpickle.loads(out[1])
                except Exception:  # noqa: BLE001
                    out = ('error', cloudpickle.dumps(RuntimeError(repr(e))), text)
            _send(sock, out)

    def reap(self, worker, kill=False) -> None:
        if kill:
            os.kill(worker.pid, signal.SIGKILL)
        worker.sock.close()
        os.waitpid(worker.pid, 0)
        self.workers[worker.number] = None

    def stop(self) -> None:
        for w in self.workers:
            if w is not None:
                self.reap(w, kill=True)
        self.workers = []
        self.queue = []
        self.last = None

    # --- scheduling ----------------------------------------------------------

    def live(self):
        return [w for w in self.workers if w is not None]

    def submit(self, func, callback):
        job = _Job(self.jobs, cloudpickle.dumps(func), callback)
        self.jobs += 1
        if self.broken:
            msg = 'a worker of the pool died'
            raise TerminatedWorkerError(msg)
        self.queue.append(job)
        return job

    def step(self) -> None:
        """Called whenever the main process waits."""
        self.steps += 1
        if self.steps > self.max_steps:
            raise SimRunaway('the worker pool does not finish')
        if self.kill_main is not None and self.steps >= self.kill_main:
            self.fired['pool.main-killed'] += 1
            self.stop()
            self.disk.dead = True
            raise SimCrash
        idle = [w for w in self.live() if w.job is None]
        while self.queue and (idle or len(self.live()) < self.n_jobs):
            fresh = len(self.live()) < self.n_jobs and (
                not idle or self.rng.random() < 0.5
            )
            worker = self.spawn() if fresh else idle.pop(self.rng.randrange(len(idle)))
            worker.job = self.queue.pop(0)
            worker.request = None
        busy = [w for w in self.live() if w.job is not None]
        if not busy:
            self.idle_polls += 1
            if self.idle_polls > 2000:
                raise SimRunaway('the main process waits for nothing')
            return
        self.idle_polls = 0
        if self.last in busy and self.rng.random() >= self.switch:
            worker = self.last
        else:
            worker = self.rng.choice(busy)
        if self.last is not None and worker is not self.last:
            self.switches += 1
        self.last = worker
        if self.kill_worker is not None and self.steps >= self.kill_worker:
            self.kill_worker = None
            self.fired['pool.worker-killed'] += 1
            self.reap(worker, kill=True)
            self.lost()
            return
        if worker.request is None:
            _send(worker.sock, (worker.job.number, worker.job.blob))
        else:
            kind, *args = worker.request
            _send(worker.sock, getattr(self.disk, kind)(*args))
        try:
            message = _recv(worker.sock)
        except EOFError:
            self.fired['pool.worker-crashed-at-call'] += 1
            self.reap(worker)
            self.lost()
            return
        if message[0] in {'mutation', 'reading'}:
            worker.request = message
            return
        job, worker.job, worker.request = worker.job, None, None
        if message[0] == 'done':
            job.value = cloudpickle.loads(message[1])
        else:
            job.error = cloudpickle.loads(message[1])
            job.trace = message[2]
        self.order.append(job.number)
        self.finish(job)

    def finish(self, job) -> None:
        job.finished = True
        if job.callback is not None:
            job.callback(job)

    def lost(self) -> None:
        """A worker died: the pool is broken, every pending task fails."""
        self.broken = True
        self.worker_crashed = True
        pending = [w.job for w in self.live() if w.job is not None] + self.queue
        jobs = [j for j in pending if not j.finished]
        self.stop()
        # the task of the dead worker is still pending in joblib
        for job in self.registered:
            if not job.finished and job not in jobs:
                jobs.append(job)
        for job in jobs:
            job.error = TerminatedWorkerError('a worker of the pool died')
            self.finish(job)

    registered: list


def install(scheduler):
    """Return (names to patch) so that joblib uses the simulated pool."""
    scheduler.registered = []

    class SimBackend(ParallelBackendBase):
        supports_retrieve_callback = True
        supports_return_generator = True
        uses_threads = False
        supports_sharedmem = False

        def configure(self, n_jobs=1, parallel=None, **kw):  # noqa: ARG002
            n_jobs = self.effective_n_jobs(n_jobs)
            if n_jobs == 1:
                raise FallbackToBackend(
                    SequentialBackend(nesting_level=self.nesting_level)
                )
            self.parallel = parallel
            scheduler.n_jobs = n_jobs
            scheduler.phase = 'pool'
            return n_jobs

        def effective_n_jobs(self, n_jobs):
            if n_jobs == 0:
                msg = 'n_jobs == 0 in Parallel has no meaning'
                raise ValueError(msg)
            if n_jobs is None:
                return 1
            if n_jobs < 0:
                n_jobs = max((os.cpu_count() or 1) + 1 + n_jobs, 1)
            return n_jobs

        def submit(self, func, callback=None):
            job = scheduler.submit(func, callback)
            scheduler.registered.append(job)
            return job

        def retrieve_result_callback(self, job):
            return job.result()

        def abort_everything(self, ensure_ready=True) -> None:  # noqa: ARG002
            scheduler.stop()
            scheduler.broken = False

        def terminate(self) -> None:
            scheduler.stop()
            scheduler.broken = False
            scheduler.phase = 'after'

    if joblib.parallel.DEFAULT_BACKEND not in {'loky', 'multiprocessing'}:
        msg = 'joblib has an unknown default backend'
        raise HarnessError(msg)
    backends = joblib.parallel.BACKENDS
    saved = dict(backends)

    def undo() -> None:
        backends.clear()
        backends.update(saved)
        scheduler.stop()

    backends['loky'] = SimBackend
    backends['multiprocessing'] = SimBackend
    return undo

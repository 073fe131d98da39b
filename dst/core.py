"""
Core of the deterministic simulator: seeds, plans, runs, shrinking, replay.

A *plan* is a JSON value that holds every decision of one simulated run: the
operations, the arguments, the interleaving and every fault with the exact
point at which it strikes.  ``World.generate`` turns a seed into a plan;
``World.execute`` turns a plan into a ``Result`` and draws nothing that the
plan does not determine.  One seed is therefore one execution, and one plan
file is one exact replay.
"""

from __future__ import annotations

import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
EVIDENCE = Path(os.environ.get('DST_EVIDENCE', VERIF / 'evidence'))


def derive(*parts) -> int:
    """Derive a 64-bit seed from any values, independent of PYTHONHASHSEED."""
    text = '\x1f'.join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:8], 'big')


def rng_for(*parts) -> random.Random:
    return random.Random(derive(*parts))


def digest(obj) -> str:
    return hashlib.sha256(
        json.dumps(obj, sort_keys=True, default=str).encode()
    ).hexdigest()[:16]


class SimCrash(BaseException):
    """The simulated process was killed at this point."""


class SimRunaway(BaseException):
    """The simulated process passed the step bound of a run."""


class HarnessError(Exception):
    """The machinery itself is broken; never reported as a violation."""


class Result:
    """What one simulated run produced."""

    def __init__(self) -> None:
        self.violations: list[dict] = []
        self.known: list[dict] = []
        self.stats: Counter = Counter()
        self.faults: Counter = Counter()
        self.states: set[str] = set()
        self.log: list = []
        self.sim_seconds: float = 0.0
        self.nontrivial = False

    def violate(self, prop: str, kind: str, detail: str, **where) -> None:
        self.violations.append(
            {'property': prop, 'kind': kind, 'detail': detail[:2000], **where}
        )

    def state(self, *parts) -> None:
        self.states.add(digest(parts))

    def event(self, *parts) -> None:
        self.log.append(parts)

    def to_json(self) -> dict:
        return {
            'violations': self.violations,
            'known': self.known,
            'stats': dict(self.stats),
            'faults': dict(self.faults),
            'states': sorted(self.states),
            'log_digest': digest(self.log),
            'sim_seconds': self.sim_seconds,
            'nontrivial': self.nontrivial,
        }


class World:
    """Base class of the simulated worlds."""

    name = 'world'
    #: components that run the real code / are replaced by the simulator
    real: list[str] = []
    stubs: list[str] = []
    #: wall-clock bound of one run; exceeding it is an error of the check
    run_bound_s = 300

    def prepare_for(self, prop: str) -> None:
        """Start what only this property needs, in the parent process."""

    def setup(self) -> None:
        """Prepare a worker process (imports, patches)."""

    def generate(self, rng: random.Random, prop: str, index: int) -> dict:
        raise NotImplementedError

    def execute(self, plan: dict) -> Result:
        raise NotImplementedError

    def shrink(self, plan: dict):
        """Yield smaller plans, most aggressive first."""
        yield from ()

    def describe(self, plan: dict):
        return plan


# --- shrinking helpers -------------------------------------------------------


def drop_chunks(items: list):
    """Yield copies of a list with chunks removed (ddmin order)."""
    n = len(items)
    size = n
    while size >= 1:
        for start in range(0, n, size):
            if size == n and n == 0:
                continue
            yield items[:start] + items[start + size :]
        size //= 2


def minimise(world: World, plan: dict, keep, budget_s: float) -> tuple[dict, int]:
    """Greedy shrink: accept any smaller plan for which ``keep`` holds."""
    deadline = time.monotonic() + budget_s
    tried = 0
    improved = True
    while improved and time.monotonic() < deadline:
        improved = False
        for candidate in world.shrink(plan):
            if time.monotonic() > deadline:
                break
            tried += 1
            try:
                ok = keep(world.execute(candidate))
            except (SimCrash, SimRunaway, Exception):  # noqa: BLE001
                ok = False
            if ok:
                plan = candidate
                improved = True
                break
    return plan, tried


# --- parallel batches --------------------------------------------------------

_WORLD: World | None = None
_PROP = ''
_SEED = 0


def _alarm(signum, frame):  # noqa: ARG001
    raise HarnessError('run exceeded its wall-clock bound')


def plan_for(world: World, prop: str, seed: int, index: int) -> dict:
    rng = rng_for('plan', world.name, prop, seed, index)
    plan = world.generate(rng, prop, index)
    # a plan must survive its own replay file
    return json.loads(json.dumps(plan))


def _one(args):
    index, twice = args
    world = _WORLD
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(world.run_bound_s)
        plan = plan_for(world, _PROP, _SEED, index)
        res = world.execute(plan)
        out = res.to_json()
        if twice:
            again = world.execute(plan).to_json()
            out['repeat_ok'] = again['log_digest'] == out['log_digest']
        out['index'] = index
        out['plan_digest'] = digest(plan)
        signal.alarm(0)
        return out
    except BaseException as e:  # noqa: BLE001
        signal.alarm(0)
        return {
            'index': index,
            'error': f'{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}',
        }


def run_batch(
    world: World,
    prop: str,
    seed: int,
    count: int,
    wall_s: float,
    procs: int | None = None,
    start: int = 0,
    stop_after: int = 1,
):
    """
    Run plans ``start .. start+count`` and yield their results.

    Stops early after ``stop_after`` violating runs or when the wall budget is
    used up (the number actually run is what the evidence reports).
    """
    global _WORLD, _PROP, _SEED  # noqa: PLW0603
    _WORLD, _PROP, _SEED = world, prop, seed
    world.setup()
    world.prepare_for(prop)
    procs = procs or min(8, os.cpu_count() or 1)
    ctx = mp.get_context('fork')
    deadline = time.monotonic() + wall_s
    outs = []
    bad = 0
    jobs = ((i, i % 16 == 3) for i in range(start, start + count))
    with ctx.Pool(procs, maxtasksperchild=None) as pool:
        it = pool.imap_unordered(
            _one, jobs, chunksize=max(1, min(16, count // (procs * 8) or 1))
        )
        for out in it:
            outs.append(out)
            if any(v['property'] == prop for v in out.get('violations', ())):
                bad += 1
                if bad >= stop_after:
                    pool.terminate()
                    break
            if time.monotonic() > deadline:
                pool.terminate()
                break
    outs.sort(key=lambda o: o['index'])
    return outs


# --- one check ---------------------------------------------------------------


def same_kind(prop: str, kind: str):
    def keep(res: Result) -> bool:
        return any(
            v['property'] == prop and v['kind'] == kind for v in res.violations
        )

    return keep


def check(world: World, prop: str, spec: dict, tier: str, seed: int) -> int:  # noqa: C901
    """Run one property's check; write evidence; return the exit status."""
    t0 = time.monotonic()
    print(f'seed={seed} property={prop} world={world.name} tier={tier}', flush=True)
    count = spec['runs'][tier]
    wall = spec['wall'][tier]
    outs = run_batch(world, prop, seed, count, wall, procs=spec.get('procs'))
    errors = [o for o in outs if 'error' in o]
    good = [o for o in outs if 'error' not in o]
    stats: Counter = Counter()
    faults: Counter = Counter()
    states: set[str] = set()
    histories: set[str] = set()
    nontrivial: set[str] = set()
    sim_seconds = 0.0
    repeats = 0
    diverged = []
    known: dict[str, int] = Counter()
    for o in good:
        stats.update(o['stats'])
        faults.update(o['faults'])
        states.update(o['states'])
        histories.add(o['log_digest'])
        if o['nontrivial']:
            nontrivial.add(o['log_digest'])
        sim_seconds += o['sim_seconds']
        if 'repeat_ok' in o:
            repeats += 1
            if not o['repeat_ok']:
                diverged.append(o['index'])
        for k in o['known']:
            known[f"{k['property']} {k['what']}"] += 1
    own = [
        (o['index'], v)
        for o in good
        for v in o['violations']
        if v['property'] == prop
    ]
    status = 0
    shown = None
    if own:
        index, violation = own[0]
        shown = report(world, prop, seed, index, violation, spec)
        status = 1
    elif errors:
        print(f'ERROR in run {errors[0]["index"]}: {errors[0]["error"]}')
        status = 3
    elif diverged and spec.get('diverge_is_error', True):
        print(f'ERROR: runs {diverged[:5]} did not repeat exactly')
        status = 3
    elif not good:
        print('ERROR: no simulated run finished')
        status = 3
    from dst import known as known_mod  # noqa: PLC0415

    for line in known_mod.lines_for(prop, known):
        print(line)
    wall_s = time.monotonic() - t0
    hours = max(wall_s, 1e-9) / 3600.0
    samples = []
    for o in good[:2]:
        samples.append(
            {
                'index': o['index'],
                'plan': world.describe(plan_for(world, prop, seed, o['index'])),
            }
        )
    evidence = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': len(good),
            'distinct_nontrivial': len(nontrivial),
            'rule': spec['rule'],
            'samples': samples,
            'distinct_histories': len(histories),
            'distinct_states': len(states),
            'state_measure': spec.get('state_measure', 'hash of the state after each operation'),
            'runs_per_hour': round(len(good) / hours),
            'seeds_per_hour': round(len(good) / hours),
            'simulated_seconds': round(sim_seconds, 1),
            'faults_injected': dict(sorted(faults.items())),
            'workload': dict(sorted(stats.items())),
            'determinism': {
                'runs_repeated': repeats,
                'diverged': len(diverged),
            },
            'errors': len(errors),
            'real_components': world.real,
            'stubbed_components': world.stubs,
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(wall_s, 2),
        'violations': len(own),
    }
    if shown:
        evidence['coverage']['violation'] = shown
    EVIDENCE.mkdir(parents=True, exist_ok=True)
    (EVIDENCE / f'{prop}.json').write_text(
        json.dumps(evidence, indent=1, default=str) + '\n'
    )
    print(
        f'{prop}: {len(good)} runs, {len(nontrivial)} distinct non-trivial, '
        f'{sum(faults.values())} faults injected, {len(own)} violations, '
        f'{wall_s:.1f}s'
    )
    return status


def report(world, prop, seed, index, violation, spec) -> dict:
    """Shrink a violating plan, write its replay file and print the line."""
    plan = plan_for(world, prop, seed, index)
    keep = same_kind(prop, violation['kind'])
    small, tried = plan, 0
    try:
        first = world.execute(plan)
        if keep(first):
            small, tried = minimise(
                world, plan, keep, spec.get('shrink_s', 60)
            )
        else:
            print('note: the violation did not repeat in the parent process')
    except (SimCrash, SimRunaway, Exception) as e:  # noqa: BLE001
        print(f'note: shrinking stopped: {e!r}')
    res = world.execute(small)
    final = next(
        (
            v
            for v in res.violations
            if v['property'] == prop and v['kind'] == violation['kind']
        ),
        violation,
    )
    replays = Path(os.environ.get('DST_REPLAY_DIR', VERIF / 'replays'))
    replays.mkdir(parents=True, exist_ok=True)
    path = replays / f'{prop}-{seed}-{index}.json'
    record = {
        'property': prop,
        'world': world.name,
        'seed': seed,
        'index': index,
        'violation': final,
        'log_digest': digest(res.log),
        'shrink_steps_tried': tried,
        'plan': small,
        'trace': [list(map(str, e)) for e in res.log[-200:]],
    }
    path.write_text(json.dumps(record, indent=1, default=str) + '\n')
    print(f'  {final["kind"]}: {final["detail"][:1500]}')
    print(f'VIOLATION property={prop} replay={path}', flush=True)
    return {'kind': final['kind'], 'detail': final['detail'], 'replay': str(path)}


def replay(worlds: dict, path: str) -> int:
    record = json.loads(Path(path).read_text())
    world = worlds[record['world']]
    world.setup()
    world.prepare_for(record['property'])
    res = world.execute(record['plan'])
    prop, kind = record['property'], record['violation']['kind']
    hit = [v for v in res.violations if v['property'] == prop]
    for v in hit:
        print(f"  {v['kind']}: {v['detail'][:1500]}")
    exact = digest(res.log) == record['log_digest']
    print(f'history digest {"matches" if exact else "differs from"} the replay file')
    if any(v['kind'] == kind for v in hit):
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    print(f'{prop}: the violation did not occur')
    return 0


def main_guard(fn) -> None:
    try:
        sys.exit(fn())
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        sys.exit(3)

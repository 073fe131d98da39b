"""Which world decides which property, and how much each tier explores."""

from __future__ import annotations


def worlds() -> dict:
    from dst.worlds.demands import DemandsWorld  # noqa: PLC0415
    from dst.worlds.dlcalc import DlcalcWorld  # noqa: PLC0415
    from dst.worlds.dlml import DlmlWorld  # noqa: PLC0415
    from dst.worlds.regional import RegionalWorld  # noqa: PLC0415
    from dst.worlds.session import SessionWorld  # noqa: PLC0415
    from dst.worlds.spread import SpreadWorld  # noqa: PLC0415

    return {w.name: w for w in (DlmlWorld(), RegionalWorld(), DlcalcWorld(), SessionWorld(),
                              DemandsWorld(), SpreadWorld())}


def _spec(world, quick, thorough, rule, **extra):
    return {
        'world': world,
        'runs': {'quick': quick, 'thorough': thorough},
        'wall': {'quick': extra.pop('quick_s', 60), 'thorough': extra.pop('thorough_s', 780)},
        'rule': rule,
        **extra,
    }


_DLML_STATE = (
    'hash of (which revisions each local file matches, installed version, '
    'pending interruption, damaged files, network and disk condition) after each operation'
)
_DLML_ASSUME = [
    'the GitHub model answers releases, tags, commits, comparisons and raw files as documented',
    'file-system faults strike at the system-call boundary; completed calls are durable',
    'one process at a time uses a data directory',
]


def _dlml(rule, quick=1600, thorough=60000):
    return _spec(
        'dlml', quick, thorough,
        'a run counts when it performs at least two imports or updates; runs are '
        f'distinct by the hash of their event history; {rule}',
        state_measure=_DLML_STATE,
        assumptions=_DLML_ASSUME,
    )


_REG_ASSUME = [
    'worker processes interact only through files and the results they return',
    'interleavings are explored at file operations',
    'a small synthetic damage and loss library stands in for the real one',
]


def _regional(rule, quick, thorough):
    return _spec(
        'regional', quick, thorough,
        'a run counts when its inventory needs more than one chunk or its request is impossible; '
        f'runs are distinct by the hash of their event history; {rule}',
        state_measure='hash of (outcome, order of completion, files present, method, inventory and chunk size) after each simulation',
        assumptions=_REG_ASSUME,
    )


_CALC_ASSUME = [
    'file-system faults strike at the system-call boundary; completed calls are durable',
    'a calculation is one thread; what it shares with others are the process and the folders',
    'a small generated damage and loss library stands in for the real one',
]


def _calc(rule, quick, thorough, **extra):
    return _spec(
        'dlcalc', quick, thorough,
        'a run counts when a calculation succeeds and the plan has several calculations or '
        f'realizations; runs are distinct by the hash of their event history; {rule}',
        state_measure='hash of (configuration, outcome, files present, sample size, damage process, '
        'route, folder) after each calculation',
        assumptions=_CALC_ASSUME,
        **extra,
    )


_SESSION_ASSUME = [
    'one thread drives the assessments of a process; steps are atomic unless interrupted',
    'interrupts strike where a function of pelicun is entered',
    'file-system faults strike at the system-call boundary; completed calls are durable',
    'generated models stand in for the real library',
]


def _session(rule, quick, thorough, **extra):
    return _spec(
        'session', quick, thorough,
        'a run counts when an assessment finishes and the plan contains what the property is about; '
        f'runs are distinct by the hash of their event history; {rule}',
        state_measure='hash of (origin of the demands, source, outcome, results present, map policy, '
        'kinds of models, or step, outcome and faults) after each step or assessment',
        assumptions=_SESSION_ASSUME,
        **extra,
    )


def _demands(rule, quick, thorough, **extra):
    return _spec(
        'demands', quick, thorough,
        f'a run counts when the final sample is compared; runs are distinct by the hash of their event history; {rule}',
        state_measure='hash of (step or process, outcome, source of the model, families, sampling method) after each '
        'process or history',
        assumptions=[*_SESSION_ASSUME[1:3], 'raw demands are generated; calibrations with limits are judged by the '
                     'parameters they save'],
        **extra,
    )


def _spread(rule, quick, thorough, **extra):
    return _spec(
        'spread', quick, thorough,
        f'a run counts when random variables are compared; runs are distinct by the hash of their event history; {rule}',
        state_measure='hash of (outcome, sampling method, correlation, families of quantities and capacities, scaling, loss functions) '
        'of each assessment',
        assumptions=[*_SESSION_ASSUME[1:], 'demands are the same in every realization'],
        **extra,
    )


SPECS = {
    'A09': _spread('each run compares every random variable with its distribution', 400, 12000),
    'A07': _demands('each plan has two or more processes that load and save the model', 420, 12000),
    'A08': _demands('each run compares every demand with the raw demands and the calibration', 700, 20000),

    'A01': _session('each plan interleaves the steps of one to three assessments', 150, 6000),
    'A02': _session('each plan has one to three processes that end early and one that finishes', 150, 6000),
    'A03': _session('each plan repeats, revises, interrupts or fails steps', 240, 6000, quick_s=90),
    'A04': _session('each run compares every loss with the reference', 400, 9000, quick_s=80),
    'A05': _session('each plan watches or overwrites what the user holds', 170, 6000),
    'A06': _session('each plan repeats a calculation in one to three other interpreters', 120, 3000, quick_s=80),

    'L01': _dlml('after every reported success each listed file equals the revision'),
    'L02': _dlml('failed and killed updates, then retries after the faults stop'),
    'L03': _dlml('imports without a library, under network, disk and kill faults'),
    'L04': _dlml('imports with a library, under network, disk and damage'),
    'L05': _dlml('imports around the daily period, with clock jumps'),
    'L06': _dlml('notices compared with the published releases'),
    'L07': _dlml('transfers compared with the difference between revisions'),
    'L08': _dlml('every request, output and stored byte searched for the token'),
    'R01': _regional('each run repeats one input under several schedules', 90, 1800),
    'R02': _regional('each run compares every value with the reference', 170, 3600),
    'R03': _regional('each run has at least one fault and a repetition', 140, 3000),
    'C01': _calc('each plan has two to four calculations in one process', 64, 1500, quick_s=100),
    'C02': _calc('each plan has two to four calculations in shared folders', 64, 1500, quick_s=100),
    'C03': _calc('each plan has a fault and a clean repetition', 88, 2000),
    'C04': _calc('each run recomputes every table', 240, 3000, quick_s=80),
    'C05': _calc('each run compares every realization with the reference', 480, 6000, quick_s=120),
    'R04': _regional('each run contains an impossible request', 400, 9000),
}

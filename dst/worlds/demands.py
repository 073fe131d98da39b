"""
World: demand models, calibrated from raw demands, sampled, saved and loaded.

A plan holds the raw demands of a user (any units, locations, event IDs and
failed analyses), settings of a calibration, and a history: earlier
calibrations and samples, interrupts, file errors, and processes that are
killed while they save or load a model.
"""

from __future__ import annotations

import copy
import io
import os

import numpy as np

from dst import scen
from dst.clock import Clock
from dst.core import Result, SimCrash, SimRunaway, World, derive, drop_chunks
from dst.fsim import Disk
from dst.seams import in_child, sandboxed
from dst.worlds.session import differs, frame, interrupting, raised

METHODS = ['LHS', 'LHS', 'LHS_midpoint', 'MonteCarlo']
CENTRE = {'PID': 0.01, 'PFA': 0.5, 'PFV': 12.0, 'SA_1.0': 0.8, 'RID': 0.003}


def key_of(column: str) -> str:
    """Type of a demand column ``type-loc-dir``."""
    return column.rsplit('-', 2)[0]


# --- generation --------------------------------------------------------------


def gen_raw(rng, columns, n):
    """Correlated positive demands in the unit of the library."""
    rows = []
    for _ in range(n):
        common = rng.gauss(0, 0.3)
        rows.append([CENTRE[key_of(c)] * float(np.exp(common * rng.choice([1, 1, 0.5]) + rng.gauss(0, 0.25)))
                     for c in columns])
    return rows


def gen_conf(rng, prop):
    types = rng.sample(sorted(CENTRE), rng.choice([1, 2, 2, 3]))
    columns = []
    for t in types:
        dirs = rng.choice([['1'], ['1', '2'], ['2', '1']]) if t != 'SA_1.0' else ['1']
        locs = rng.choice([['1'], ['1', '2'], ['2', '1'], ['0', '1'], ['9', '10']]) if t != 'SA_1.0' else ['0']
        columns += [f'{t}-{lo}-{d}' for lo in locs for d in dirs]
    if rng.random() < 0.4:
        rng.shuffle(columns)
    n = rng.choice([1, 2, 4, 7, 12, 12, 20, 20, 30] if prop == 'A08' else [1, 5, 12, 12, 16, 20, 24])
    units = {t: rng.choice(sorted(scen.TO_LIB[t])) for t in types}
    rows = gen_raw(rng, columns, n)
    raw = [[scen.sig(x / scen.TO_LIB[key_of(c)][units[key_of(c)]], 6) for c, x in zip(columns, row)] for row in rows]
    error = None
    if n > 4 and rng.random() < 0.25:
        error = [1 if rng.random() < 0.2 else 0 for _ in range(n)]
        error[0] = 0
    conf = {
        'columns': columns, 'units': units, 'raw': raw, 'error': error,
        'event': rng.random() < 0.25, 'blank': rng.random() < 0.2,
        'source': rng.choice(['file', 'frame']),
        'method': rng.choice(METHODS), 'seed': rng.randrange(1, 10**6),
        'calib': None, 'size': None, 'preserve': rng.random() < 0.4, 'clone': None,
        'log': rng.random() < 0.3,
    }
    conf['calib'] = gen_calib(rng, conf, limits=rng.random() < (0.35 if prop == 'A08' else 0.5))
    used = len(kept(conf))
    conf['size'] = rng.choice([1, 3, 7, max(used, 1), max(2 * used, 1), 3 * used + 1, 16])
    if rng.random() < 0.3:
        conf['clone'] = {}
        for c in rng.sample(columns, min(len(columns), 2)):
            t, lo, d = c.rsplit('-', 2)
            conf['clone'][c] = [c, f'{t}-{lo}-{int(d) + 5}'] if rng.random() < 0.5 else [
                f'{t}-{lo}-{int(d) + 5}', f'{t}-{int(lo) + 20}-{d}']
    return conf


def revised(rng, conf, prop):
    """Other inputs: the same demands from other analyses, or something else."""
    if rng.random() < 0.35:
        return gen_conf(rng, prop)
    out = copy.deepcopy(conf)
    if rng.random() < 0.3:
        out['units'] = {t: rng.choice(sorted(scen.TO_LIB[t])) for t in conf['units']}
    n = rng.choice([len(conf['raw']), len(conf['raw']), 9])
    out['raw'] = [[scen.sig(x / scen.TO_LIB[key_of(c)][out['units'][key_of(c)]], 6) for c, x in zip(out['columns'], row)]
                  for row in gen_raw(rng, out['columns'], n)]
    out['error'] = None
    if rng.random() < 0.3:
        out['calib'] = gen_calib(rng, out, limits=False)
    if rng.random() < 0.3:
        out['size'] = rng.choice([1, 5, n])
    return out


def gen_calib(rng, conf, *, limits):
    """Settings for all demands and for some of the types."""
    kinds = ['lognormal', 'lognormal', 'normal', 'empirical']
    out = {'ALL': {'DistributionFamily': rng.choice(kinds)}}
    if rng.random() < 0.4 and out['ALL']['DistributionFamily'] == 'lognormal':
        out['ALL']['AddUncertainty'] = rng.choice([0.1, '0.25'])
    if limits and len(conf['units']) == 1 and out['ALL']['DistributionFamily'] == 'lognormal' \
            and len(conf['raw']) >= 12 and rng.random() < 0.7:
        t = next(iter(conf['units']))
        unit = rng.choice(sorted(scen.TO_LIB[t]))
        factor = scen.TO_LIB[t][conf['units'][t]] / scen.TO_LIB[t][unit]
        out['ALL']['TruncateUpper'] = scen.sig(max(x for row in conf['raw'] for x in row) * factor * 1.5)
        out['ALL']['Unit'] = unit
        if rng.random() < 0.7:
            out[t.split('_')[0]] = {'DistributionFamily': 'lognormal', 'AddUncertainty': 0.1,
                                    'Unit': rng.choice(sorted(scen.TO_LIB[t]))}
            return out
    for t in sorted(conf['units']):
        if rng.random() < 0.35:
            continue
        head = t.split('_')[0]
        sec = out[head] = {'DistributionFamily': rng.choice(kinds)}
        unit = rng.choice(sorted(scen.TO_LIB[t]))
        factor = scen.TO_LIB[t][conf['units'][t]] / scen.TO_LIB[t][unit]
        vals = [x * factor for row in conf['raw'] for c, x in zip(conf['columns'], row) if key_of(c) == t]
        scaled = False
        if sec['DistributionFamily'] == 'normal':
            sec['AddUncertainty'] = scen.sig(float(np.mean(vals)) * rng.choice([0.0, 0.02, 0.1]))
            scaled = True
        elif sec['DistributionFamily'] == 'lognormal':
            sec['AddUncertainty'] = rng.choice([0, 0.1, '0.3'])
        # a limit is only asked for when enough demands remain
        if limits and sec['DistributionFamily'] != 'empirical' and len(conf['raw']) >= 12:
            for name, hi in (('TruncateUpper', 1), ('TruncateLower', 0), ('CensorUpper', 1)):
                if rng.random() > (0.4 if name[0] == 'T' else 0.2):
                    continue
                if name[0] == 'C' and (len(conf['columns']) > 3 or sec['DistributionFamily'] == 'normal'):
                    continue
                cut = rng.random() < 0.4 or name[0] == 'C'
                order = sorted(vals)
                edge = order[int(len(order) * (0.88 if hi else 0.1))] if cut else (
                    max(vals) * 1.6 if hi else min(vals) * 0.6)
                sec[name] = scen.sig(edge * (1.0001 if hi else 0.9999), 5)
                if rng.random() < 0.3:
                    sec[name] = str(sec[name])
                scaled = True
        if scaled or rng.random() < 0.2:
            sec['Unit'] = unit
            if not scaled and rng.random() < 0.5:
                del sec['Unit']
    if rng.random() < 0.1:
        out['XYZ'] = {'DistributionFamily': 'lognormal', 'TruncateUpper': 3.0}
    return out


def settings(conf, calib=None) -> dict:
    """Family, limits (user units) and added uncertainty of every column."""
    calib = calib or conf['calib']
    out = {}
    for c in conf['columns']:
        t = key_of(c)
        got = {'family': None, 'add': 0.0, 'sec': None}
        for name in ('ALL', t.split('_')[0]):
            sec = calib.get(name)
            if not sec:
                continue
            got['family'] = sec['DistributionFamily']
            factor = 1.0
            if 'Unit' in sec:
                factor = scen.TO_LIB[t][sec['Unit']] / scen.TO_LIB[t][conf['units'][t]]
            for k in ('TruncateLower', 'TruncateUpper', 'CensorLower', 'CensorUpper'):
                if k in sec:
                    got[k] = float(sec[k]) * factor
            if 'AddUncertainty' in sec:
                got['add'] = float(sec['AddUncertainty']) * (factor if sec['DistributionFamily'] == 'normal' else 1.0)
        out[c] = got
    return out


def kept(conf) -> list[int]:
    """The rows that a calibration uses."""
    rules = settings(conf)
    out = []
    for k, row in enumerate(conf['raw']):
        if conf['error'] and conf['error'][k]:
            continue
        if all((rules[c].get('CensorUpper') is None or x < rules[c]['CensorUpper'])
               and (rules[c].get('TruncateUpper') is None or x < rules[c]['TruncateUpper'])
               and (rules[c].get('TruncateLower') is None or x > rules[c]['TruncateLower'])
               for c, x in zip(conf['columns'], row)):
            out.append(k)
    return out


def close_to_limit(conf) -> bool:
    rules = settings(conf)
    return any(abs(x - rules[c][k]) < 1e-6 * abs(x) for row in conf['raw'] for c, x in zip(conf['columns'], row)
               for k in ('TruncateLower', 'TruncateUpper', 'CensorLower', 'CensorUpper') if k in rules[c])


def raw_rows(conf) -> list[list]:
    """The table of raw demands as the user has it."""
    cols = [('1-' if conf['event'] else '') + (c.replace('-', ' -', 1) if conf['blank'] else c) for c in conf['columns']]
    rows = [['', *cols], ['Units', *(conf['units'][key_of(c)] for c in conf['columns'])]]
    rows += [[k, *r] for k, r in enumerate(conf['raw'])]
    if conf['error']:
        rows[0].append('1-ERROR-0-0' if conf['event'] else 'ERROR-0-0')
        rows[1].append('unitless')
        for k, e in enumerate(conf['error']):
            rows[k + 2].append(e)
    return rows


class Modeler:
    """One user of a demand model."""

    def __init__(self, conf, disk) -> None:
        from pelicun.assessment import Assessment  # noqa: PLC0415

        self.conf = conf
        self.disk = disk
        config = {'Seed': conf['seed'], 'Sampling': {'SamplingMethod': conf['method']}, 'Verbose': conf['log']}
        if conf['log']:
            config['LogFile'] = disk.path('work', 'log.txt')
        self.asmnt = Assessment(config)

    @property
    def demand(self):
        return self.asmnt.demand

    def load(self, conf) -> None:
        rows = raw_rows(conf)
        if conf['source'] == 'file':
            path = self.disk.path('work', f'raw_{derive(rows)}.csv')
            with self.disk.quiet():
                with open(path, 'w') as f:
                    f.write(scen.csv_text(rows))
            self.demand.load_sample(path)
        else:
            self.demand.load_sample(frame(rows))

    def calibrate(self, conf) -> None:
        self.demand.calibrate_model(copy.deepcopy(conf['calib']))

    def generate(self, conf) -> None:
        self.asmnt.options.seed = conf['seed']
        config = {'SampleSize': conf['size']}
        if conf['preserve']:
            config['PreserveRawOrder'] = True
        if conf['clone']:
            config['DemandCloning'] = copy.deepcopy(conf['clone'])
        self.demand.generate_sample(config)

    def sample(self):
        got, units = self.demand.save_sample(save_units=True)
        got.columns = ['-'.join(c) for c in got.columns]
        units.index = ['-'.join(c) for c in units.index]
        return got, units.to_dict()

    def model(self, prefix) -> dict:
        """Load from tables in memory that the user read from the files."""
        import pandas as pd  # noqa: PLC0415

        out = {}
        for key, name in (('marginals', 'marginals'), ('empirical', 'empirical'), ('correlation', 'correlation')):
            path = f'{prefix}_{name}.csv'
            if os.path.exists(path):
                out[key] = pd.read_csv(path, index_col=0)
        return out


# --- the world ---------------------------------------------------------------


class DemandsWorld(World):
    name = 'demands'
    real = [
        'pelicun/assessment.py, base.py, file_io.py, uq.py, model/demand_model.py',
        'pandas reading and writing of every file',
    ]
    stubs = [
        'file-system call outcomes and directory order below the scratch root',
        'clock, operating-system entropy of random generators',
        'the user who drives the steps and interrupts them',
    ]
    run_bound_s = 200

    def setup(self) -> None:
        import pelicun.assessment  # noqa: F401, PLC0415

    def generate(self, rng, prop, index):  # noqa: ARG002
        plan = {'prop': prop, 'salt': rng.randrange(1 << 30)}
        getattr(self, 'gen_' + prop)(rng, plan)
        return plan

    def execute(self, plan):
        res = Result()
        getattr(self, 'run_' + plan['prop'])(plan, res)
        return res

    def shrink(self, plan):
        key = 'lives' if plan['prop'] == 'A07' else 'history'
        for part in drop_chunks(plan[key]):
            if part != plan[key]:
                yield {**plan, key: part}
        conf = plan['conf']
        for name, value in (('clone', None), ('preserve', False), ('error', None), ('event', False),
                            ('blank', False), ('log', False)):
            if conf[name]:
                yield {**plan, 'conf': {**conf, name: value}}
        for t in list(conf['calib']):
            if t != 'ALL':
                yield {**plan, 'conf': {**conf, 'calib': {k: v for k, v in conf['calib'].items() if k != t}}}
        for k, c in enumerate(conf['columns']):
            if len(conf['columns']) > 1 and not (conf['clone'] and c in conf['clone']):
                less = {**conf, 'columns': [x for x in conf['columns'] if x != c],
                        'raw': [[x for j, x in enumerate(r) if j != k] for r in conf['raw']]}
                less['units'] = {t: conf['units'][t] for t in {key_of(x) for x in less['columns']}}
                yield {**plan, 'conf': less}
        for size in (1, 3):
            if size < conf['size']:
                yield {**plan, 'conf': {**conf, 'size': size}}

    @staticmethod
    def disk() -> Disk:
        disk = Disk(max_events=2_000_000)
        with disk.quiet():
            for sub in ('work', 'tmp'):
                os.mkdir(disk.path(sub))
        disk.classify = classify
        return disk

    # --- A07: saved and loaded models ------------------------------------------

    def gen_A07(self, rng, plan) -> None:  # noqa: N802
        plan['conf'] = gen_conf(rng, 'A07')
        plan['other'] = revised(rng, plan['conf'], 'A07')
        lives = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            life = {'via': rng.choice(['prefix', 'prefix', 'dict']), 'faults': [], 'retry': rng.random() < 0.5,
                    'prior': rng.choice([None, None, 'calibrate', 'generate', 'model']),
                    'prefix': rng.choice(['m', 'm', 'n'])}
            if rng.random() < 0.75:
                cls = rng.choice(['ckpt', 'ckpt', 'ckpt', 'in'])
                life['faults'] = [{
                    'at': 'fs' if cls == 'ckpt' else 'fsread', 'cls': 'ckpt',
                    'n': rng.randrange(10 if cls == 'ckpt' else 5),
                    'kind': rng.choice(['crash', 'crash', 'enospc', 'eio', 'short'] if cls == 'ckpt'
                                       else ['crash', 'eio', 'emfile']),
                    'frac': rng.choice([0.0, 0.3, 0.7, 1.0])}]
            lives.append(life)
        plan['lives'] = lives

    def life(self, plan, root, saved, life, number):
        """One process: take the model, sample it, save it again."""
        conf, other = plan['conf'], plan['other']
        disk = Disk(root=root, max_events=2_000_000)
        disk.classify = classify
        out = {'outcome': 'ok', 'error': None, 'saved': saved, 'csv': None, 'units': None}
        with sandboxed(disk, Clock(), derive(plan['salt'], number), lib=None, state=number):
            try:
                user = Modeler(conf, disk)
                if life['prior'] and number != 'ref':
                    try:
                        user.load(other)
                        user.calibrate(other)
                        if life['prior'] == 'generate':
                            user.generate(other)
                        if life['prior'] == 'model':
                            user.demand.save_model(disk.path('work', 'o'))
                            user.demand.load_model(disk.path('work', 'o'))
                            user.generate(other)
                    except (ValueError, np.linalg.LinAlgError):
                        out['prior'] = 'failed'
                disk.reset_op(life['faults'])
                if saved is None:
                    user.load(conf)
                    user.calibrate(conf)
                else:
                    prefix = disk.path('work', saved)
                    user.demand.load_model(user.model(prefix) if life['via'] == 'dict' else prefix)
                    out['loaded'] = saved
                prefix = disk.path('work', life['prefix'])
                if life['prefix'] == saved:
                    out['saved'] = None  # from here on it is being replaced
                try:
                    user.demand.save_model(prefix)
                except OSError:
                    if not life['retry']:
                        raise
                    user.demand.save_model(prefix)
                out['saved'] = life['prefix']
                user.generate(conf)
                got, out['units'] = user.sample()
                out['csv'] = got.to_csv()
            except SimCrash:
                out['outcome'] = 'killed'
            except SimRunaway:
                raise
            except Exception as e:  # noqa: BLE001
                out['outcome'], out['error'] = 'error', raised(e)
            disk.dead = False
            out['fired'] = list(disk.op_fired)
            disk.reset_op()
        out.update(faults=dict(disk.fired), events=disk.events)
        return out

    def run_A07(self, plan, res) -> None:  # noqa: N802
        conf = plan['conf']
        quiet = {'via': 'prefix', 'faults': [], 'retry': False, 'prior': None, 'prefix': 'm'}
        refd, disk = self.disk(), self.disk()
        try:
            ref = in_child(self.life, plan, refd.root, None, quiet, 'ref')
            res.event('ref', ref['outcome'], ref['error'])
            if ref['outcome'] != 'ok':
                res.stats['failed'] += 1
                if closed_form(conf):
                    res.violate('A07', 'failed', f'a demand model cannot be made, saved and sampled: {ref["error"]}')
                return
            files = refd.tree('work')
            saved = None
            for number, life in enumerate([*plan['lives'], quiet, {**quiet, 'via': 'dict', 'prefix': 'n'}]):
                got = in_child(self.life, plan, disk.root, saved, life, number)
                res.stats['processes'] += 1
                res.stats['file calls'] += got['events']
                res.faults.update(got['faults'])
                res.faults['kill'] += got['outcome'] == 'killed'
                res.event(number, got['outcome'], got['error'], got['saved'], got['fired'], ref['csv'])
                res.state(number, got['outcome'], saved, got['saved'], life['via'], life['prior'],
                          sorted({v['family'] for v in settings(conf).values()}))
                if got['outcome'] == 'error' and not got['fired']:
                    res.violate('A07', 'outcome', f'process {number} fails with the model '
                                f'{"saved before" if saved else "it calibrates"} ({life["via"]}): {got["error"]}')
                    return
                if got.get('loaded'):
                    res.stats['loaded'] += 1
                if got['saved'] and got['saved'] == life['prefix']:
                    for name in ('marginals', 'correlation', 'empirical'):
                        a = disk.tree('work').get(f'{got["saved"]}_{name}.csv')
                        b = files.get(f'm_{name}.csv')
                        if name == 'empirical' and b is None:
                            continue
                        if name == 'empirical' and a is not None:
                            a, b = unlabelled(a), unlabelled(b)  # labels of rows mean nothing
                        d = differs(a, b)
                        if d:
                            res.violate('A07', 'saved', f'process {number} saved the model without an error, but of {name}: {d}')
                            return
                if got['csv'] is not None and loose(files.get('m_correlation.csv')):
                    res.stats['nearly singular'] += 1
                elif got['csv'] is not None:
                    d = differs(got['csv'].encode(), ref['csv'].encode(), 1e-6)
                    if not d and got['units'] != ref['units']:
                        d = f'units {got["units"]} instead of {ref["units"]}'
                    if d:
                        res.violate('A07', 'sample', f'process {number} ({life["via"]} of {saved}, before: {life["prior"]}): {d}')
                        return
                saved = got['saved']
            res.stats['finished'] += 1
            res.nontrivial = True
            res.sim_seconds += len(plan['lives'])
        finally:
            disk.close()
            refd.close()

    # --- A08: samples against the raw demands ------------------------------------

    def gen_A08(self, rng, plan) -> None:  # noqa: N802
        plan['conf'] = gen_conf(rng, 'A08')
        plan['other'] = revised(rng, plan['conf'], 'A08')
        history = []
        if rng.random() < 0.5:
            history = [{'do': do, 'what': 'other'} for do in ('load', 'calibrate', 'generate')]
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            history.append({'do': rng.choice(['load', 'calibrate', 'calibrate', 'generate', 'clone']),
                            'what': rng.choice(['conf', 'other', 'other'])})
        for do in ('load', 'calibrate', 'generate'):
            op = {'do': do, 'what': 'conf'}
            if rng.random() < 0.35:
                op['interrupt'] = rng.random()
            history.append(op)
        plan['history'] = history

    def course(self, plan, root):
        conf = plan['conf']
        disk = Disk(root=root, max_events=2_000_000)
        disk.classify = classify
        out = {'events': [], 'error': None}
        with sandboxed(disk, Clock(), derive(plan['salt'], 'A08'), lib=None, state=1):
            user = Modeler(conf, disk)
            sizes = {}
            if any('interrupt' in op for op in plan['history']):
                # how many calls each step makes, in an assessment of its own
                probe = Modeler(conf, disk)
                try:
                    for do in ('load', 'calibrate', 'generate'):
                        with interrupting(10**9) as left:
                            getattr(probe, do)(conf)
                        sizes[do] = 10**9 - left[0]
                except Exception:  # noqa: BLE001
                    sizes = {}
            for k, op in enumerate(plan['history']):
                which = plan[op['what']]
                last = k >= len(plan['history']) - 3
                try:
                    if op['do'] == 'clone':
                        if user.demand.sample is not None:
                            user.demand.clone_demands({'-'.join(c): ['-'.join(c)] for c in user.demand.sample.columns})
                        continue
                    if 'interrupt' in op and sizes.get(op['do']):
                        try:
                            with interrupting(1 + int(op['interrupt'] * sizes[op['do']])):
                                getattr(user, op['do'])(which)
                        except KeyboardInterrupt:
                            out['events'].append([op['do'], 'interrupted'])
                            if op['do'] == 'calibrate':
                                user.load(which)
                    getattr(user, op['do'])(which)
                    out['events'].append([op['do'], 'ok'])
                except Exception as e:  # noqa: BLE001
                    out['events'].append([op['do'], type(e).__name__])
                    if last and op['what'] == 'conf':
                        out['error'] = f'{op["do"]}: {raised(e)}'
                        return out
            got, units = user.sample()
            out['csv'], out['units'] = got.to_csv(), units
            if conf['clone']:
                again = Modeler(conf, disk)
                again.load(conf)
                again.calibrate(conf)
                user = again
            user.demand.save_model(disk.path('work', 'final'))
            out['files'] = {n: disk.tree('work').get(f'final_{n}.csv') for n in ('marginals', 'correlation')}
        return out

    def run_A08(self, plan, res) -> None:  # noqa: N802
        conf = plan['conf']
        disk = self.disk()
        try:
            got = in_child(self.course, plan, disk.root)
        finally:
            disk.close()
        res.event(got['events'], got['error'], got.get('csv'))
        res.faults['interrupt'] += sum(1 for e in got['events'] if e[1] == 'interrupted')
        res.state([e for e in got['events']], conf['method'], conf['preserve'], bool(conf['clone']),
                  sorted({v['family'] for v in settings(conf).values()}))
        if got['error']:
            res.stats['failed'] += 1
            if closed_form(conf) and len(kept(conf)) > 0:
                res.violate('A08', 'failed', f'after {got["events"]}: {got["error"]}')
            return
        if close_to_limit(conf):
            res.stats['on a limit'] += 1
            return
        res.stats['judged'] += 1
        res.nontrivial = True
        res.sim_seconds += 1

        def bad(kind, text):
            res.violate('A08', kind, text)

        judge(bad, res, conf, got)


def unlabelled(data: bytes) -> bytes:
    lines = data.decode().splitlines()
    return '\n'.join([*lines[:2], *(f'{k},' + x.partition(',')[2] for k, x in enumerate(lines[2:]))]).encode()


def loose(data: bytes) -> bool:
    """Whether the last digits of a correlation matrix decide how it is factorised."""
    import pandas as pd  # noqa: PLC0415

    rho = pd.read_csv(io.BytesIO(data), index_col=0).to_numpy(float)
    return rho.size > 0 and np.linalg.eigvalsh(rho).min() < 1e-6


def classify(rel) -> str:
    name = rel.rsplit('/', 1)[-1]
    if 'log' in name:
        return 'log'
    return 'ckpt' if name[:2] in {'m_', 'n_'} else 'in'


def closed_form(conf) -> bool:
    return not any(k.startswith(('Trunc', 'Cens')) for v in settings(conf).values() for k in v)


def judge(bad, res, conf, got) -> None:  # noqa: C901, PLR0911, PLR0912, PLR0915
    import pandas as pd  # noqa: PLC0415
    from scipy.stats import norm  # noqa: PLC0415

    sample = pd.read_csv(io.StringIO(got['csv']), index_col=0)
    rules = settings(conf)
    rows = kept(conf)
    n, size = len(rows), conf['size']
    raw = {c: np.array([conf['raw'][k][j] for k in rows]) for j, c in enumerate(conf['columns'])}
    names = {}
    for c in conf['columns']:
        for new in (conf['clone'] or {}).get(c, [c]):
            names[new] = c
    # shape
    if sorted(sample.columns) != sorted(names):
        return bad('columns', f'demands {sorted(sample.columns)} instead of {sorted(names)}')
    if list(sample.index) != list(range(size)):
        return bad('rows', f'{len(sample)} realizations instead of {size}')
    want = {new: conf['units'][key_of(c)] for new, c in names.items()}
    if got['units'] != want:
        return bad('units', f'{got["units"]} instead of {want}')
    if not np.isfinite(sample.to_numpy(float)).all():
        return bad('finite', 'the sample has gaps')
    first = {}
    for new, c in names.items():
        if c in first and not np.array_equal(sample[new].to_numpy(), sample[first[c]].to_numpy()):
            return bad('clone', f'{new} differs from {first[c]}')
        first.setdefault(c, new)
    # demands that keep the raw values
    for c, rule in rules.items():
        if rule['family'] != 'empirical':
            continue
        x = sample[first[c]].to_numpy(float)
        if conf['preserve']:
            y = raw[c][np.arange(size) % n]
            if not np.allclose(x, y, rtol=1e-9):
                return bad('order', f'{c} in raw order is {x[:6]} instead of {y[:6]}')
        else:
            near = np.abs(x[:, None] / raw[c][None, :] - 1).min(axis=1)
            if near.max() > 1e-9:
                return bad('empirical', f'{c} has {x[near.argmax()]}, which is none of the demands that the calibration keeps')
            if 'LHS' in conf['method'] and size % n == 0 and not np.allclose(
                    np.sort(x), np.sort(np.tile(raw[c], size // n)), rtol=1e-9):
                return bad('empirical', f'{c} does not take every raw demand equally often: {np.sort(x)[:6]}')
        res.stats['empirical'] += 1
    fitted = [c for c in conf['columns'] if rules[c]['family'] != 'empirical']
    if not fitted:
        return None
    # parameters
    table = pd.read_csv(io.BytesIO(got['files']['marginals']), index_col=0)
    corr = pd.read_csv(io.BytesIO(got['files']['correlation']), index_col=0)
    z = {}
    for c in fitted:
        rule, row = rules[c], table.loc[c]
        if row['Family'] != rule['family'] or row['Units'] != conf['units'][key_of(c)]:
            return bad('family', f'{c}: {row["Family"]} in {row["Units"]}')
        for side in ('TruncateLower', 'TruncateUpper'):
            a, b = row[side], rule.get(side, np.nan)
            if not np.isclose(a, b, rtol=1e-9, equal_nan=True):
                return bad('limits', f'{side} of {c} is {a} instead of {b}')
        med, spread = float(row['Theta_0']), float(row['Theta_1'])
        if closed_form(conf) or n < 3:
            if rule['family'] == 'lognormal':
                m, s = np.log(raw[c]).mean(), np.log(raw[c]).std()
                want_0, want_1 = np.exp(m), np.hypot(s, rule['add'])
            else:
                m, s = raw[c].mean(), raw[c].std()
                want_0, want_1 = m, np.hypot(s, rule['add']) / abs(m)
            if not np.isclose(med, want_0, rtol=1e-6) or not np.isclose(spread, want_1, rtol=1e-5, atol=1e-5):
                return bad('fit', f'{c} ({rule["family"]}, added {rule["add"]}) has {med}, {spread} instead of {want_0}, {want_1}')
            z[c] = (np.log(raw[c]) - m) / s if rule['family'] == 'lognormal' and s > 0 else (raw[c] - m) / s if s > 0 else None
            res.stats['fit'] += 1
        elif rule['add'] and spread < (rule['add'] if rule['family'] == 'lognormal' else rule['add'] / abs(med)) * (1 - 1e-6):
            return bad('fit', f'{c}: {spread} is less than the uncertainty that is added ({rule["add"]})')
    if n > len(fitted) + 1 and all(v is not None for v in z.values()) and len(z) == len(fitted):
        for a in fitted:
            for b in fitted:
                r = float(np.mean(z[a] * z[b]))
                if abs(corr.loc[a, b] - r) > 1e-6:
                    return bad('correlation', f'{a} and {b}: {corr.loc[a, b]} instead of {r}')
        res.stats['correlation'] += 1
    # the sample follows the parameters
    order = sorted(fitted)
    rho = corr.loc[order, order].to_numpy(float)
    w, spreads = np.linalg.eigvalsh(rho), [float(table.loc[c]['Theta_1']) for c in order]
    u = np.empty((len(order), size))
    for k, c in enumerate(order):
        row, x = table.loc[c], sample[first[c]].to_numpy(float)
        lo, hi = rules[c].get('TruncateLower', -np.inf), rules[c].get('TruncateUpper', np.inf)
        if x.min() < lo * (1 - 1e-9) or x.max() > hi * (1 + 1e-9):
            return bad('outside', f'{c} reaches from {x.min()} to {x.max()}, outside of {lo} to {hi}')
        med, spread = float(row['Theta_0']), float(row['Theta_1'])
        if row['Family'] == 'lognormal':
            def cdf(v, med=med, spread=spread):
                with np.errstate(divide='ignore'):
                    return norm.cdf(np.log(np.maximum(v, 0) / med) / spread)
        else:
            def cdf(v, med=med, spread=spread):
                return norm.cdf((v - med) / (abs(med) * spread))
        p_a, p_b = cdf(lo), cdf(hi)
        u[k] = (cdf(x) - p_a) / (p_b - p_a)
    if w.min() < 1e-3 or min(spreads) < 1e-3:
        res.stats['nearly singular'] += 1
        return None
    if conf['method'] == 'MonteCarlo' or not ((u > 1e-12) & (u < 1 - 1e-12)).all():
        return None
    free = norm.cdf(np.linalg.solve(np.linalg.cholesky(rho), norm.ppf(u)))
    for k, c in enumerate(order):
        x = np.sort(free[k]) * size
        if conf['method'] == 'LHS_midpoint':
            wrong = np.abs(x - (np.arange(size) + 0.5)).max() > 1e-4 * size
        else:
            wrong = (x < np.arange(size) - 1e-4 * size).any() or (x > np.arange(size) + 1 + 1e-4 * size).any()
        if wrong:
            return bad('sample', f'{c} does not follow its distribution and correlation: strata {x[:8]}')
    res.stats['strata'] += 1
    return None

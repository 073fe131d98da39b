"""
World: the regional simulation, its pool of worker processes, the disk.

One simulated machine holds a hazard grid, a building inventory and a small
synthetic damage and loss library.  The real ``regional_sim`` runs on it with
any number of cores; the simulator interleaves the worker processes at every
file operation, orders directory listings, kills workers or the main process
and fails file operations.  The library's fragilities have (almost) no
dispersion, so an independent reference model knows every number that must
come out for every building and realization.
"""

from __future__ import annotations

import contextlib
import io
import json
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
import warnings
from pathlib import Path

import numpy as np
import pandas as pd

from dst import boot
from dst.clock import Clock
from dst.core import Result, SimCrash, SimRunaway, World, derive, digest, drop_chunks
from dst.fsim import Disk
from dst.pool import Scheduler, install

EQ = 'Hazus Earthquake - Buildings'
HU = 'Hazus Hurricane Wind - Buildings'
LIBDIR = {
    EQ: 'seismic/building/portfolio/Hazus v6.1',
    HU: 'hurricane/building/portfolio/Hazus v5.1 coupled',
}
#: structure type -> demand, unit of the library, thresholds in that unit
FRAG = {
    EQ: {
        'W1': ('PGA', [0.22, 0.45]),
        'C1': ('PGA', [0.31, 0.52, 0.74]),
        'S3': ('PGV', [9.3, 17.1]),
        'URM': ('PGA', [0.13]),
    },
    HU: {
        'WSF1': ('PWS', [71.0, 104.0]),
        'MECB': ('PWS', [83.0, 121.0, 150.0]),
        'MH': ('PWS', [62.0]),
    },
}
DEMAND = {
    'PGA': ('Peak Ground Acceleration', 'g'),
    'PGV': ('Peak Ground Velocity', 'inchps'),
    'PWS': ('Peak Gust Wind Speed', 'mph'),
}
#: unit of the grid files -> factor into the unit of the library
UNITS = {
    'PGA': {'g': 1.0, 'mps2': 1 / 9.80665},
    'PGV': {'inchps': 1.0, 'cmps': 1 / 2.54, 'ftps': 12.0},
    'PWS': {'mph': 1.0, 'mps': 1 / 0.44704},
}
RANGE = {'PGA': (0.05, 0.9), 'PGV': (4.0, 25.0), 'PWS': (45.0, 170.0)}
OCC = ['RES1', 'COM1', 'IND2', 'EDU1']
OUTPUTS = ('demand.csv', 'damage.csv', 'repair_costs.csv', 'repair_times.csv')


def loss(method, struct, occ, ds, dv):
    """Consequence of one damage state in the synthetic library."""
    if ds == 0:
        return 0.0
    if method == EQ:
        base = 0.03 * (OCC.index(occ) + 1)
    else:
        base = 0.02 * (list(FRAG[HU]).index(struct) + 1)
    value = round(base * ds**2, 6)
    return value if dv == 'Cost' else round(value * 100 + 1, 6)


def write_library(root: Path) -> None:
    real = Path(boot.REPO) / 'pelicun'
    (root / 'resources').mkdir(parents=True)
    (root / 'settings').symlink_to(real / 'settings')
    shutil.copy(real / 'resources/dlml_resource_paths.json', root / 'resources')
    for method, sub in LIBDIR.items():
        lib = root / 'resources/DamageAndLossModelLibrary' / sub
        lib.mkdir(parents=True)
        frags = FRAG[method]
        width = max(len(t) for _, t in frags.values())
        head = 'ID,Incomplete,Demand-Type,Demand-Unit,Demand-Offset,Demand-Directional'
        for k in range(1, width + 1):
            head += f',LS{k}-Family,LS{k}-Theta_0,LS{k}-Theta_1,LS{k}-DamageStateWeights'
        rows = [head]
        for struct, (im, thresholds) in frags.items():
            name, unit = DEMAND[im]
            row = f'B.{struct},0,{name},{unit},0,0'
            for k in range(width):
                if k < len(thresholds):
                    row += f',lognormal,{thresholds[k]},0.0001,'
                else:
                    row += ',,,,'
            rows.append(row)
        (lib / 'fragility.csv').write_text('\n'.join(rows) + '\n')
        rows = ['ID,Incomplete,Quantity-Unit,DV-Unit'
                + ''.join(f',DS{k}-Theta_0' for k in range(1, width + 1))]
        keys = (
            [(f'LF.{o}', 'W1', o) for o in OCC]
            if method == EQ
            else [(f'B.{s}', s, 'RES1') for s in frags]
        )
        for key, struct, occ in keys:
            for dv, unit in (('Cost', 'loss_ratio'), ('Time', 'day')):
                rows.append(
                    f'{key}-{dv},0,1 EA,{unit}'
                    + ''.join(
                        f',{loss(method, struct, occ, k, dv)}'
                        for k in range(1, width + 1)
                    )
                )
        (lib / 'consequence_repair.csv').write_text('\n'.join(rows) + '\n')
        (lib / 'pelicun_config.py').write_text(
            'import pandas as pd\n\n\n'
            'def auto_populate(aim):\n'
            "    gi = aim['GeneralInformation']\n"
            '    comp = pd.DataFrame(\n'
            "        {f\"B.{gi['StructureType']}\": ['ea', 1, 1, 1, 'N/A']},\n"
            "        index=['Units', 'Location', 'Direction', 'Theta_0', 'Family'],\n"
            '    ).T\n'
            "    dv = {'Cost': True, 'Time': bool(gi.get('Times', 1))}\n"
            "    return gi, {'Losses': {'Repair': {'DecisionVariables': dv}}}, comp\n"
        )


class RegionalWorld(World):
    name = 'regional'
    real = [
        'pelicun/tools/regional_sim.py (whole run, from configuration to outputs)',
        'pelicun/tools/NNR.py, auto.py, file_io.py',
        'pelicun assessment, demand, asset, damage and loss models',
        'joblib.Parallel above its backend; cloudpickle of every task',
        'pandas and zip writing and reading of part files',
    ]
    stubs = [
        'joblib process backend (forked workers under a scheduler)',
        'file-system call outcomes and directory order below the scratch root',
        'clock, number of CPUs, operating-system entropy of random generators',
        'damage and loss model library (small synthetic one)',
    ]
    run_bound_s = 240

    def setup(self) -> None:
        import pelicun.assessment  # noqa: F401, PLC0415
        import pelicun.tools.regional_sim  # noqa: F401, PLC0415
        import tqdm  # noqa: PLC0415

        tqdm.tqdm.monitor_interval = 0

    # --- generation --------------------------------------------------------

    def generate(self, rng, prop, index):  # noqa: C901, PLR0912, PLR0915, ARG002
        nconf = 2 if rng.random() < {'R03': 0.6, 'R04': 0.5}.get(prop, 0.25) else 1
        configs = [self.gen_config(rng) for _ in range(nconf)]
        if nconf > 1 and rng.random() < 0.5:
            # the same region again: other intensities, part of the inventory
            old = json.loads(json.dumps(configs[0]))
            keep = rng.randrange(1, len(old['buildings']) + 1)
            new = {**old, 'buildings': old['buildings'][:keep], 'filter': None}
            for rows in new['values'].values():
                rng.shuffle(rows)
            configs[1] = new
        ops = []

        def chunks(conf):
            return -(-len(self.selected(configs[conf])) // configs[conf]['batch'])

        def run(faults, conf=None, pool=None, cores=None):
            if cores is None:
                cores = rng.choice([1, 2, 2, 3, 4, 8, None])
            conf = rng.randrange(nconf) if conf is None else conf
            ops.append(
                {
                    'conf': conf,
                    'batch': configs[conf]['batch']
                    if prop != 'R03' or rng.random() < 0.7
                    else rng.choice([3, 4, 1000]),
                    'cores': cores,
                    'cpus': rng.choice([1, 2, 3, 5, 8]),
                    'sched': rng.randrange(1 << 30),
                    'switch': rng.choice([0.02, 0.2, 0.6, 1.0]),
                    'listing': rng.choice(
                        ['sorted', 'reversed', rng.randrange(1 << 20), rng.randrange(1 << 20)]
                    ),
                    'faults': faults,
                    'pool': pool or {},
                }
            )

        if prop == 'R01':
            run([], 0, cores=1 if rng.random() < 0.5 else None)
            for _ in range(rng.choice([1, 1, 2])):
                run([], 0)
        elif prop == 'R02':
            run([])
            if nconf > 1:
                run([])
        elif prop == 'R04':
            if rng.random() < 0.6:
                run([])
            self.break_config(rng, configs[-1])
            run([], nconf - 1)
        else:
            if rng.random() < 0.5:
                run([])
            for _ in range(rng.choice([1, 1, 2])):
                faults, pool, cores = [], {}, None
                conf = rng.randrange(nconf)
                parts = 4 * chunks(conf)
                kind = rng.random()
                late = rng.random() < 0.3
                if late:
                    # killed with part files in place or while writing results
                    faults = [{'at': 'fs', 'cls': 'out', 'n': rng.randrange(8),
                               'kind': 'crash', 'frac': rng.choice([0.0, 0.5, 1.0])}]
                elif kind < 0.18:
                    pool = {'kill_worker': rng.choice([rng.randrange(2, 12), rng.randrange(1, 400)])}
                    cores = rng.choice([2, 3, 4, 8])
                elif kind < 0.28:
                    pool = {'kill_main': rng.choice([rng.randrange(2, 12), rng.randrange(1, 400)])}
                    cores = rng.choice([2, 3, 4, 8])
                elif kind < 0.5:
                    cls = rng.choice(['part', 'part', 'part', 'part', 'in', 'lib'])
                    faults = [{'at': 'fsread', 'cls': cls,
                               'n': rng.randrange(parts if cls == 'part' else 12),
                               'kind': rng.choice(['eio', 'eacces', 'emfile', 'crash'])}]
                else:
                    cls = rng.choice(['part', 'part', 'part', 'out', 'out', 'out', 'log', 'dir'])
                    n = rng.randrange({'part': parts * 5, 'out': 12, 'log': 60, 'dir': 3}[cls])
                    kinds = ['enospc', 'eio', 'eacces', 'short', 'crash', 'crash']
                    faults = [{'at': 'fs', 'cls': cls, 'n': n, 'kind': rng.choice(kinds),
                               'frac': rng.choice([0.0, 0.3, 0.7, 1.0])}]
                run(faults, conf, pool=pool, cores=cores)
            same = rng.random() < 0.6
            run([], ops[-1]['conf'] if same else None)
            if same and rng.random() < 0.3:
                ops[-1]['batch'] = rng.choice([4, 6, 1000])
        return {'salt': rng.randrange(1 << 30), 'configs': configs, 'ops': ops}

    def gen_config(self, rng):  # noqa: C901
        method = EQ if rng.random() < 0.6 else HU
        ims = ['PGA', 'PGV'] if method == EQ else ['PWS']
        if method == EQ and rng.random() < 0.3:
            ims = ['PGA']
        rng.shuffle(ims)
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 12])
        batch = rng.choice([1, 2, 2, 3, 4, 5, 1000])
        while n / batch > 6:
            batch += 1
        ids = rng.sample(range(1, 40), n)
        style = rng.random()
        if style < 0.4:
            ids.sort()
        elif style < 0.5:
            ids = [i + 95 for i in sorted(ids)]  # mixed number of digits
        structs = [s for s, (im, _) in FRAG[method].items() if im in ims]
        occs = rng.sample(OCC, rng.choice([1, 2, 3, 4]))
        side = rng.choice([2, 3, 3])
        grid = [[x + rng.choice([0, 0.01]), y] for x in range(side) for y in range(side)]
        gp = [f'site_{k}.csv' for k in range(len(grid))]
        if rng.random() < 0.5:
            # names that sort in another order than the rows of the grid
            gp = [f'site_{k}.csv' for k in rng.choice([range(7, 20), rng.sample(range(120), 9)])][:len(grid)]
        rows = rng.choice([1, 2, 3, 5])
        lowered = rng.random() < 0.15
        values = {
            im: [
                [round(rng.uniform(*RANGE[im]) * (0.2 if lowered else 1), 4) for _ in range(rows)]
                for _ in grid
            ]
            for im in ims
        }
        buildings = []
        for i in ids:
            if rng.random() < 0.2:
                lon, lat = grid[rng.randrange(len(grid))]
            else:
                lon, lat = round(rng.uniform(0, side - 1), 4), round(rng.uniform(0, side - 1), 4)
            buildings.append([i, lon, lat, rng.choice(structs), rng.choice(occs)])
        flt = None
        if rng.random() < 0.35:
            pick = rng.sample(ids, rng.randrange(1, n + 1))
            parts = [str(i) for i in pick]
            if rng.random() < 0.3:
                parts.append(f'{pick[0]}-{pick[0]}')
            flt = rng.choice([',', ', ']).join(parts)
        return {
            'method': method,
            'ims': [[im, rng.choice(sorted(UNITS[im]))] for im in ims],
            'times': method == EQ or rng.random() < 0.6,
            'grid': grid, 'gp': gp, 'values': values, 'buildings': buildings,
            'extra_column': rng.random() < 0.3,
            'filter': flt, 'samples': rng.choice([1, 2, 3, 5, 7]),
            'realizations': rng.choice([1, 2, 4, 5, 8]),
            'neighbors': rng.choice([1, 2, 3, 4]), 'batch': batch, 'bad': None,
        }

    def break_config(self, rng, conf) -> None:
        conf['bad'] = rng.choice(['filter', 'filter', 'filter-text', 'filter-range', 'im', 'no-im'])
        used = [b[0] for b in conf['buildings']]
        if conf['bad'] == 'filter':
            conf['filter'] = f'{used[0]}, {max(used) + 3}'
        elif conf['bad'] == 'filter-text':
            conf['filter'] = f'{used[0]}, x'
        elif conf['bad'] == 'filter-range':
            conf['filter'] = f'{used[0]}, {max(used)}-{min(used) - 1}'

    # --- reference model ---------------------------------------------------

    @staticmethod
    def selected(conf) -> list[list]:
        if not conf['filter']:
            return conf['buildings']
        want = set()
        for part in conf['filter'].split(','):
            lo, _, hi = part.strip().partition('-')
            want.update(range(int(lo), int(hi or lo) + 1))
        by_id = {b[0]: b for b in conf['buildings']}
        return [by_id[i] for i in sorted(want)]

    def reference(self, conf):
        """(demand columns -> rows, damage, cost, time, ambiguous) by building."""
        ref = {'demand': {}, 'damage': {}, 'cost': {}, 'time': {}, 'fuzzy': set()}
        grid = np.array(conf['grid'], dtype=float)
        units = dict(map(tuple, conf['ims']))
        for bid, lon, lat, struct, occ in self.selected(conf):
            d = np.sqrt(((grid - np.array([lon, lat])) ** 2).sum(axis=1))
            near = np.argsort(d, kind='stable')[: conf['neighbors']]
            far = np.sort(d)
            if conf['neighbors'] < len(d) and abs(
                far[conf['neighbors'] - 1] - far[conf['neighbors']]
            ) < 1e-9:
                ref['fuzzy'].add(bid)  # a tie between neighbours
            w = 1.0 / (d[near] + 1e-20) ** 2
            w = w / w.sum()
            im_used, thresholds = FRAG[conf['method']][struct]
            for im, _unit in conf['ims']:
                v = np.array(conf['values'][im])[:, : conf['samples']]
                have = v.shape[1]
                val = w @ v[near]
                val = val[np.arange(conf['samples']) % have]
                ref['demand'][f'{im}-{bid}-1'] = val
                if im == im_used:
                    x = val * UNITS[im][units[im]]
                    x = x[np.arange(conf['realizations']) % len(x)]
                    t = np.array(thresholds)
                    if (np.abs(x[:, None] / t[None, :] - 1) < 2e-3).any():
                        ref['fuzzy'].add(bid)
                    ds = (x[:, None] > t[None, :]).sum(axis=1)
            ref['damage'][bid] = ds
            for dv, key in (('Cost', 'cost'), ('Time', 'time')):
                ref[key][bid] = np.array(
                    [loss(conf['method'], struct, occ, int(k), dv) for k in ds]
                )
        return ref

    # --- execution ---------------------------------------------------------

    def write_inputs(self, disk, k, conf) -> None:
        folder = f'in{k}'
        units = dict(map(tuple, conf['ims']))
        rows = ['GP_file,Longitude,Latitude'] + [
            f'{g},{x},{y}' for g, (x, y) in zip(conf['gp'], conf['grid'])
        ]
        disk.put(f'{folder}/EventGrid.csv', ('\n'.join(rows) + '\n').encode())
        ims = [im for im, _ in conf['ims']]
        if conf['bad'] == 'im':
            ims = ims[1:]
        for g, name in enumerate(conf['gp']):
            cols = {im: conf['values'][im][g] for im in reversed(ims)}
            if conf['extra_column'] or not cols:
                cols = {'XTRA': [9.0] * len(conf['values'][conf['ims'][0][0]][g]), **cols}
            disk.put(f'{folder}/{name}', pd.DataFrame(cols).to_csv(index=False).encode())
        table = pd.DataFrame(
            [
                [lon, lat, s, o, int(conf['times'])]
                for _, lon, lat, s, o in conf['buildings']
            ],
            columns=['Longitude', 'Latitude', 'StructureType', 'OccupancyClass', 'Times'],
            index=pd.Index([b[0] for b in conf['buildings']], name='id'),
        )
        disk.put(f'{folder}/inventory.csv', table.to_csv().encode())
        app = {
            'pathToSource': disk.path(folder),
            'assetSourceFile': 'inventory.csv',
        }
        if conf['filter'] is not None:
            app['filter'] = conf['filter']
        config = {
            'RegionalEvent': {
                'eventFilePath': disk.path(folder),
                'eventFile': 'EventGrid.csv',
            },
            'Applications': {
                'RegionalMapping': {
                    'Buildings': {
                        'ApplicationData': {
                            'samples': conf['samples'],
                            'neighbors': conf['neighbors'],
                        }
                    }
                },
                'DL': {
                    'Buildings': {
                        'ApplicationData': {
                            'Realizations': conf['realizations'],
                            'DL_Method': conf['method'],
                        }
                    }
                },
                'Assets': {'Buildings': {'ApplicationData': app}},
            },
        }
        if conf['bad'] != 'no-im':
            config['RegionalEvent']['units'] = units
        disk.put(f'{folder}/config.json', json.dumps(config).encode())

    @contextlib.contextmanager
    def seams(self, disk, clock, op, sched, salt, state):
        from pelicun import base  # noqa: PLC0415

        saved = {}

        def patch(obj, name, value) -> None:
            saved[obj, name] = getattr(obj, name)
            setattr(obj, name, value)

        real_rng = np.random.default_rng
        counter = [0]

        def default_rng(seed=None):
            if seed is None:
                counter[0] += 1
                seed = derive(salt, state['who'], counter[0])
            return real_rng(seed)

        def on_fork(job) -> None:
            state['who'] = ('task', job)
            counter[0] = 0

        sched.on_fork = on_fork
        listing = op['listing']

        def order(names):
            if listing == 'sorted':
                return names
            if listing == 'reversed':
                return names[::-1]
            names = list(names)
            random.Random(derive(listing, *names)).shuffle(names)
            return names

        disk.list_order = order
        cwd = os.getcwd()
        path = list(sys.path)
        env = os.environ.get('PELICUN_DST_BATCH_SIZE')
        np_state = np.random.get_state()
        py_state = random.getstate()
        np.random.seed(derive(salt, 'np') % (1 << 32))
        random.seed(derive(salt, 'py'))
        undo = install(sched)
        patch(np.random, 'default_rng', default_rng)
        patch(os, 'cpu_count', lambda: op['cpus'])
        patch(base, 'pelicun_path', Path(disk.path('lib')))
        patch(tempfile, 'tempdir', disk.path('tmp'))
        names = random.Random(derive(salt, 'names'))
        patch(
            tempfile, '_name_sequence',
            iter(lambda: f'{names.randrange(1 << 40):010x}', None),
        )
        os.chdir(disk.path('work'))
        with clock.installed():
            def sleep(seconds) -> None:
                clock.advance(seconds)
                sched.step()

            patch(time, 'sleep', sleep)
            try:
                with disk.installed(), contextlib.redirect_stdout(
                    io.StringIO()
                ), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    yield
            finally:
                undo()
                for (obj, name), value in reversed(saved.items()):
                    setattr(obj, name, value)
                os.chdir(cwd)
                sys.path[:] = path
                np.random.set_state(np_state)
                random.setstate(py_state)
                if env is None:
                    os.environ.pop('PELICUN_DST_BATCH_SIZE', None)

    def execute(self, plan):  # noqa: C901, PLR0912, PLR0915
        from pelicun.tools import regional_sim as rs  # noqa: PLC0415

        res = Result()
        disk = Disk(max_events=400_000)
        clock = Clock()
        try:
            write_library(Path(disk.path('lib')))
            for sub in ('work', 'tmp'):
                os.mkdir(disk.path(sub))
            for k, conf in enumerate(plan['configs']):
                self.write_inputs(disk, k, conf)
            disk.classify = self.classify
            first: dict[int, dict] = {}
            inputs = {k: v for k, v in disk.tree().items() if k.startswith(('in', 'lib'))}
            for number, op in enumerate(plan['ops']):
                conf = plan['configs'][op['conf']]
                before = disk.tree('work')
                disk.reset_op(op['faults'])
                sched = Scheduler(
                    disk, random.Random(op['sched']), op['switch'], **op['pool']
                )
                os.environ['PELICUN_DST_BATCH_SIZE'] = str(op['batch'])
                outcome, error = 'ok', None
                events = disk.events
                t0 = clock.now
                state = {'who': ('main', number)}
                try:
                    with self.seams(disk, clock, op, sched,
                                    derive(plan['salt'], number), state):
                        rs.regional_sim(
                            disk.path(f"in{op['conf']}", 'config.json'), op['cores']
                        )
                except SimCrash:
                    outcome = 'killed'
                except SimRunaway as e:
                    outcome, error = 'hang', e
                except Exception as e:  # noqa: BLE001
                    outcome, error = 'error', e
                disk.dead = False
                fired = list(disk.op_fired)
                res.faults.update(sched.fired)
                res.stats[f'run.{outcome}'] += 1
                res.stats['tasks'] += sched.jobs
                res.stats['worker switches'] += sched.switches
                res.stats['file calls'] += disk.events - events
                res.sim_seconds += (clock.now - t0).total_seconds()
                after = disk.tree('work')
                res.event(
                    number, outcome, type(error).__name__, sched.steps, sched.order, fired,
                    digest({k: digest(v.hex()) for k, v in after.items() if k in OUTPUTS}),
                )
                res.state(
                    op['conf'], outcome, tuple(sched.order), sorted(k for k in after),
                    conf['method'], len(conf['buildings']), op['batch'],
                )
                self.judge(
                    res, plan, number, op, conf, outcome, error, fired, sched, disk,
                    before, after, inputs, first,
                )
                # a killed process leaves its temporary folder behind
                with disk.quiet():
                    for name in os.listdir(disk.path('tmp')):
                        shutil.rmtree(disk.path('tmp', name), ignore_errors=True)
            res.faults.update(disk.fired)
            res.nontrivial = any(
                len(self.selected(c)) > c['batch']
                for c in plan['configs']
                if not c['bad']
            ) or any(c['bad'] for c in plan['configs'])
        finally:
            disk.close()
        return res

    @staticmethod
    def classify(rel: str) -> str:
        if rel.startswith('tmp'):
            return 'part' if '/' in rel[4:] else 'dir'
        if rel.startswith('work'):
            rel = rel[5:]
            if rel in OUTPUTS:
                return 'out'
            return 'log' if rel.endswith('.txt') else 'part'
        return 'lib' if rel.startswith('lib') else 'in'

    def judge(self, res, plan, number, op, conf, outcome, error, fired, sched, disk,
              before, after, inputs, first) -> None:  # noqa: C901, PLR0912
        hard = [f for f in fired if f[2] != 'short'] or sched.worker_crashed
        where = f'run {number} ({op["cores"]} cores)'
        now = {k: v for k, v in disk.tree().items() if k.startswith(('in', 'lib'))}
        if now != inputs:
            bad = sorted(k for k in set(now) | set(inputs) if now.get(k) != inputs.get(k))
            res.violate('R03', 'inputs-changed', f'{where}: {bad[:4]}')
        if outcome == 'hang':
            res.violate('R03', 'no-progress', f'{where}: {error}')
            return
        outs_before = {k: v for k, v in before.items() if k in OUTPUTS}
        outs_after = {k: v for k, v in after.items() if k in OUTPUTS}
        if conf['bad']:
            if outcome == 'ok':
                res.violate('R04', 'bad-request-accepted',
                            f'{where}: {conf["bad"]} was not rejected')
            elif not isinstance(error, ValueError):
                res.violate('R04', 'bad-request-unclear',
                            f'{where}: {conf["bad"]} raised {error!r}')
            if outs_after != outs_before:
                res.violate('R04', 'bad-request-touched-results',
                            f'{where}: {conf["bad"]} changed the results')
            return
        if outcome == 'error' and not hard:
            trace = ''.join(traceback.format_exception(error))[-600:]
            prop = 'R02' if not plan['ops'][number]['faults'] else 'R03'
            for p in {prop, 'R01' if number else prop}:
                res.violate(p, 'fails-without-fault', f'{where}: {error!r} {trace}')
            return
        stray = sorted(set(after) - set(before) - set(OUTPUTS) - {'pelicun_log.txt'})
        stray = [s for s in stray if not s.endswith('.txt')]
        if stray and outcome != 'killed' and not any(f[0] in {'unlink', 'rmdir'} for f in fired):
            res.violate('R03', 'stray-files', f'{where}: {stray}')
        if outcome in {'ok', 'error'}:
            with disk.quiet():
                left = os.listdir(disk.path('tmp'))
            if left and not any(f[0] in {'unlink', 'rmdir'} for f in fired):
                res.violate('R03', 'temporary-files-left', f'{where}: {left[:3]}')
        if outcome != 'ok':
            # a failure before the results are written leaves the old ones
            started = next(
                (i for i, (_, rel, _) in enumerate(disk.touched)
                 if self.classify(rel) == 'out'),
                len(disk.touched) + 1,
            )
            writing = outcome == 'killed' or any(at >= started for at in disk.fired_at)
            if not writing and outs_after != outs_before:
                changed = sorted(
                    k for k in OUTPUTS if outs_after.get(k) != outs_before.get(k)
                )
                res.violate(
                    'R03', 'results-replaced-by-failed-run',
                    f'{where} failed with {error!r} after {fired} but {changed} changed',
                )
            return
        problems, fuzzy = self.compare(conf, outs_after)
        for kind, text in problems:
            prop = 'R03' if hard else 'R02'
            res.violate(prop, kind, f'{where}: {text}')
            if not hard and any(o['faults'] or o['pool'] for o in plan['ops'][:number]):
                res.violate('R03', f'after-failure-{kind}', f'{where}: {text}')
            if number and not hard:
                res.violate('R01', kind, f'{where}: {text}')
        res.stats['buildings checked'] += len(self.selected(conf))
        res.stats['ambiguous buildings'] += fuzzy
        if not fuzzy:
            ref = first.setdefault(op['conf'], outs_after)
            for name in OUTPUTS:
                if ref.get(name) != outs_after.get(name):
                    res.violate(
                        'R01', 'depends-on-schedule',
                        f'{where}: {name} differs from an earlier run of the same input',
                    )

    def compare(self, conf, outs):  # noqa: C901, PLR0912
        ref = self.reference(conf)
        problems = []
        order = [b[0] for b in self.selected(conf)]
        expected = set(OUTPUTS) if conf['times'] else set(OUTPUTS) - {'repair_times.csv'}
        if set(outs) != expected:
            problems.append(
                ('wrong-files', f'{sorted(outs)} instead of {sorted(expected)}')
            )
        if 'demand.csv' in outs:
            df = pd.read_csv(io.BytesIO(outs['demand.csv']), index_col=0, dtype=str)
            cols = [f'{im}-{b}-1' for b in order for im, _ in conf['ims']]
            if list(df.columns) != cols:
                problems.append(('demand-columns', f'{list(df.columns)[:8]} not {cols[:8]}'))
            else:
                rows = [str(i) for i in range(conf['samples'])] + ['Units']
                if sorted(map(str, df.index)) != sorted(rows):
                    problems.append(('demand-rows', f'{list(df.index)} not {rows}'))
                else:
                    units = dict(map(tuple, conf['ims']))
                    df.index = df.index.map(str)
                    for c in cols:
                        if df.loc['Units', c] != units[c.split('-')[0]]:
                            problems.append(('demand-units', f'{c}: {df.loc["Units", c]}'))
                        if int(c.split('-')[1]) in ref['fuzzy']:
                            continue
                        got = df.loc[rows[:-1], c].astype(float).to_numpy()
                        if not np.allclose(got, ref['demand'][c], rtol=1e-9, atol=0):
                            problems.append(
                                ('demand-values',
                                 f'{c}: {got.tolist()} not {ref["demand"][c].tolist()}')
                            )
        for name, key in (
            ('damage.csv', 'damage'), ('repair_costs.csv', 'cost'), ('repair_times.csv', 'time'),
        ):
            if name not in outs:
                continue
            df = pd.read_csv(io.BytesIO(outs[name]), index_col=0)
            if list(df.index) != order:
                problems.append(('buildings', f'{name} lists {list(df.index)} not {order}'))
                continue
            if df.shape[1] != conf['realizations']:
                problems.append(('realizations', f'{name} has {df.shape[1]} columns'))
                continue
            df.columns = [int(float(c)) for c in df.columns]
            df = df[sorted(df.columns)]
            for b in order:
                if b in ref['fuzzy']:
                    continue
                got = df.loc[b].to_numpy(dtype=float)
                if not np.allclose(got, ref[key][b], rtol=1e-7, atol=1e-12):
                    problems.append(
                        (f'{key}-values',
                         f'{name} building {b}: {got.tolist()} not {ref[key][b].tolist()}')
                    )
        seen, first = set(), []
        for kind, text in problems:
            if kind not in seen:
                seen.add(kind)
                first.append((kind, text))
        return first, len(ref['fuzzy'])

    # --- shrinking ---------------------------------------------------------

    def shrink(self, plan):
        for ops in drop_chunks(plan['ops']):
            if ops:
                yield {**plan, 'ops': ops}
        for k, conf in enumerate(plan['configs']):
            for keep in drop_chunks(conf['buildings']):
                if keep and not conf['filter']:
                    confs = list(plan['configs'])
                    confs[k] = {**conf, 'buildings': keep}
                    yield {**plan, 'configs': confs}
            for key, small in (
                ('filter', None), ('samples', 1), ('realizations', 1),
                ('neighbors', 1), ('extra_column', False),
            ):
                if conf[key] != small and not conf['bad']:
                    confs = list(plan['configs'])
                    confs[k] = {**conf, key: small}
                    yield {**plan, 'configs': confs}
        for k, op in enumerate(plan['ops']):
            for key, small in (
                ('faults', []), ('pool', {}), ('cores', 1), ('listing', 'sorted'),
                ('switch', 0.02),
            ):
                if op[key] != small:
                    ops = list(plan['ops'])
                    ops[k] = {**op, key: small}
                    yield {**plan, 'ops': ops}

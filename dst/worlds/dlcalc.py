"""
World: damage and loss calculations one after another in one process.

Each run calls the real ``DL_calculation`` (its ``main`` or ``run_pelicun``)
with generated inputs, on a simulated disk, under simulated clock and entropy.
A history of calculations shares the process and its output folders and meets
disk errors, full disks and kills.  Three oracles judge it: the same
calculation alone in a fresh process on a clean disk, the tables compared with
each other, and an independent reference model of the damage and the losses.
"""

from __future__ import annotations

import io
import json
import os
import sys
import traceback
import zipfile
from pathlib import Path

import numpy as np
import pandas as pd

from dst import boot, scen
from dst.clock import Clock
from dst.core import Result, SimCrash, SimRunaway, World, derive, digest, drop_chunks
from dst.fsim import Disk
from dst.seams import in_child, sandboxed

# libraries of archetypes, one for each configuration
OWN = ('Hazus Earthquake - Buildings', 'Hazus Earthquake - Stories', 'Hazus Earthquake - Transportation')
PAIR = ('Hazus Hurricane Wind - Buildings', 'Hazus Hurricane Storm Surge - Buildings')
#: what populates a configuration automatically
SCRIPT = '''\
import json
from pathlib import Path
import pandas as pd

HERE = Path(__file__).resolve().parent


def auto_populate(aim):
    gi = dict(aim['GeneralInformation'])
    gi['auto'] = 1
    dl = json.loads((HERE / 'dl.json').read_text())
    comp = pd.read_csv(HERE / 'assign.csv', index_col=0)
    return gi, dl, comp
'''
TABLES = {
    'Demand': {'Sample': 'DEM_sample.zip', 'Statistics': 'DEM_stats.csv'},
    'Asset': {'Sample': 'CMP_sample.zip', 'Statistics': 'CMP_stats.csv'},
    'Damage': {
        'Sample': 'DMG_sample.zip', 'Statistics': 'DMG_stats.csv',
        'GroupedSample': 'DMG_grp.zip', 'GroupedStatistics': 'DMG_grp_stats.csv',
    },
    'Loss': {
        'Sample': 'DV_repair_sample.zip', 'Statistics': 'DV_repair_stats.csv',
        'GroupedSample': 'DV_repair_grp.zip', 'GroupedStatistics': 'DV_repair_grp_stats.csv',
        'AggregateSample': 'DV_repair_agg.zip',
        'AggregateStatistics': 'DV_repair_agg_stats.csv',
    },
}
ALL_STEMS = {f.split('.')[0] for t in TABLES.values() for f in t.values()} | {
    'DL_summary', 'DL_summary_stats',
}
USER_FILES = {'notes.txt': b'keep me', 'DMG_sample_old.csv': b'1,2\n', 'my_DL_summary.csv': b'x\n'}


def raised(e) -> str:
    """One line: the exception and the pelicun frames it passed through."""
    frames = [
        f"{Path(f.filename).name}:{f.lineno} {f.name}"
        for f in traceback.extract_tb(e.__traceback__)
        if 'pelicun' in f.filename or 'dst/' in f.filename
    ]
    return f"{type(e).__name__}: {str(e)[:200]} [{' > '.join(frames[-5:])}]"


#: numbers of a configuration that may be given as text
AS_TEXT = {'NumberOfStories', 'CapacityMedian', 'Theta_1', 'DriftCapacityMedian', 'DriftCapacityLogStd',
           'Median', 'RepairCostAndTimeCorrelation'}


def as_text(node, every=False) -> None:
    for k, v in node.items():
        if isinstance(v, dict):
            as_text(v, k in {'CollapseLimits', 'InferResidualDrift'})
        elif (every or k in AS_TEXT) and isinstance(v, (int, float)):
            node[k] = str(v)


def combine(pair, real) -> None:
    """Replace the losses from wind and flood at one place by what both together cause."""
    total = {}
    for k in [k for k in real if k[0] == 'Cost' and k[1] == k[2] and k[2] in {pair['wind'], pair['flood']}]:
        place = total.setdefault(k[4:], {})
        place[k[2]] = place.get(k[2], 0) + real.pop(k)
    axes = [[row[0] for row in pair['table']], pair['table'][0]]
    for place, v in total.items():
        points = np.column_stack(np.broadcast_arrays(*[v.get(pair[c], 0.0) for c in ('wind', 'flood')]))
        real['Cost', 'combination', 'both', '0', *place] = np.array(
            [scen.multilinear(axes, pair['table'], list(p)) for p in points])


class DlcalcWorld(World):
    name = 'dlcalc'
    real = [
        'pelicun/tools/DL_calculation.py (main and run_pelicun)',
        'pelicun/assessment.py, auto.py, base.py, file_io.py, uq.py',
        'demand, asset, damage and loss models',
        'pandas, zip and JSON writing and reading of every file',
    ]
    stubs = [
        'file-system call outcomes and directory order below the scratch root',
        'clock, operating-system entropy of random generators',
        'damage and loss model library (small generated one)',
    ]
    run_bound_s = 240

    def setup(self) -> None:
        import pelicun.tools.DL_calculation  # noqa: F401, PLC0415

    def imports(self) -> None:
        self.setup()

    # --- generation --------------------------------------------------------

    def generate(self, rng, prop, index):  # noqa: ARG002
        lib_ids = rng.sample(scen.POOL, 3)
        lib = {'frag': {}, 'conseq': {}, 'unit': {}}
        for c in lib_ids:
            f = scen.gen_frag(rng, rng.choice(['PID', 'PFA']))
            f['beta'] = 1e-6
            lib['frag'][c] = f
            lib['unit'][c] = rng.choice(['ea', 'ft2'])
            lib['conseq'][c] = scen.gen_conseq(rng, f, list(scen.DV_UNIT), lib['unit'][c])
        nconf = {'C01': 3, 'C02': 3, 'C03': 2}.get(prop, 1)
        nconf = rng.randrange(2 if nconf > 1 else 1, nconf + 1)
        confs = [self.gen_conf(rng, prop, lib) for _ in range(nconf)]
        for k, c in enumerate(confs):
            if c.get('own_lib'):
                c['own_lib']['name'] = OWN[k]
        pairs = [c for c in confs if c.get('pair')]
        for c in pairs[1:]:
            # there is one library of each method
            for key in set(c) - {'route', 'outputs', 'wanted', 'detailed', 'format', 'inner'}:
                del c[key]
            c.update({k: json.loads(json.dumps(v)) for k, v in pairs[0].items() if k not in c})
        if nconf > 1 and rng.random() < 0.4:
            # the same assessment with other outputs
            fixed = {'stage', 'sampled'} & set(confs[0])
            confs[1] = {**json.loads(json.dumps(confs[0])),
                        'route': 'explicit' if fixed else confs[1]['route'],
                        'outputs': self.gen_outputs(rng, confs[0]), 'wanted': confs[1]['wanted'],
                        'detailed': confs[1]['detailed'], 'format': confs[1]['format']}
            if 'stage' in fixed:
                confs[1]['outputs'] = {
                    k: v for k, v in (confs[1]['outputs'] or {'Format': {'CSV': True, 'JSON': True}}).items()
                    if k not in {'Damage', 'Loss'}} or {'Demand': {'Sample': True}}
        for c in confs:
            # automatic configurations calibrate uncoupled demands
            if c.get('pair'):
                # (an inundation of zero has no logarithm)
                c['coupled'], c['calibration'] = c['coupled'] or c['route'] == 'auto', None
            elif c['route'] == 'auto' and not c['coupled']:
                rows = len(next(iter(c['demand']['cols'].values())))
                c['calibration'] = 'lognormal' if rows > 2 else None
                c['coupled'] = rows <= 2
        ops = []

        def run(k, faults=(), out=None):
            ops.append({
                'conf': k,
                'out': rng.choice([0, 0, 0, 1, None]) if out is None else out,
                'entry': rng.choice(['call', 'call', 'main']),
                'listing': rng.choice(['sorted', 'reversed', rng.randrange(1 << 20)]),
                'faults': list(faults),
            })

        if prop in {'C01', 'C02'}:
            for _ in range(rng.choice([2, 3, 3, 4])):
                run(rng.randrange(nconf))
            if prop == 'C02' and rng.random() < 0.5:
                # one of the earlier runs does not finish
                at = rng.randrange(len(ops) - 1)
                ops[at]['faults'] = [self.gen_fault(rng)]
                if rng.random() < 0.7:
                    for op in ops[:at]:
                        op['out'] = 1 - (ops[at]['out'] or 0)
                    ops[at + 1]['out'] = ops[at]['out'] = ops[at]['out'] or 0
                    if rng.random() < 0.7:
                        # the next one has few outputs
                        confs.append(self.few_outputs(rng, confs[ops[at]['conf']]))
                        ops[at + 1]['conf'] = len(confs) - 1
                        ops[at]['faults'][0].update(at='fs', cls='out', n=rng.randrange(4, 60))
        elif prop == 'C03':
            if rng.random() < 0.6:
                run(rng.randrange(nconf), out=0)
            for _ in range(rng.choice([1, 1, 2])):
                run(rng.randrange(nconf), [self.gen_fault(rng)], out=0)
            run(ops[-1]['conf'] if rng.random() < 0.6 else rng.randrange(nconf), out=0)
        else:
            run(0)
        return {'salt': rng.randrange(1 << 30), 'lib': lib, 'confs': confs, 'ops': ops}

    def gen_fault(self, rng):
        if rng.random() < 0.2:
            cls = rng.choice(['in', 'lib', 'out'])
            return {'at': 'fsread', 'cls': cls, 'n': rng.randrange(6 if cls != 'out' else 14),
                    'kind': rng.choice(['eio', 'eacces', 'emfile', 'crash'])}
        cls = rng.choice(['out', 'out', 'out', 'out', 'out', 'work'])
        n = rng.choice([rng.randrange(8), rng.randrange(90)])
        return {'at': 'fs', 'cls': cls, 'n': n,
                'kind': rng.choice(['enospc', 'eio', 'eacces', 'edquot', 'short', 'crash', 'crash']),
                'frac': rng.choice([0.0, 0.3, 0.7, 1.0])}

    def gen_conf(self, rng, prop, lib):  # noqa: C901, PLR0912, PLR0915
        stories = rng.choice([1, 2, 2, 3])
        dirs = rng.choice([['1'], ['1', '2'], ['1', '2']])
        dvs = rng.choice([['Cost'], ['Cost', 'Time'], ['Cost', 'Time'], ['Time'],
                          ['Cost', 'Time', 'Carbon'], ['Cost', 'Time', 'Carbon', 'Energy']])
        cmps, frag, conseq = scen.gen_assets(
            rng, stories, dirs, dvs=dvs, max_cmp=3, dispersion=rng.random() < 0.5)
        use_lib = rng.random() < 0.7
        if use_lib:
            for c in list(frag):
                # some components come from the library, some override it
                if c in lib['frag'] and rng.random() < 0.6 and frag[c]['edp'] != 'SA_1.0':
                    del frag[c]
                    for r in cmps:
                        if r['id'] == c:
                            r['unit'] = lib['unit'][c]
                            if r['loc'] == 'roof':
                                r['loc'] = '1'
                if c in lib['frag'] and rng.random() < 0.6:
                    conseq.pop(c, None)
        both = {**(lib['frag'] if use_lib else {}), **frag}
        both = {c: f for c, f in both.items() if any(r['id'] == c for r in cmps)}
        if rng.random() < 0.1 and len(both) > 1:
            # a component without damage model
            c = rng.choice(sorted(both))
            if c not in lib['frag']:
                frag.pop(c, None)
                both.pop(c)
        n = rng.choice([1, 2, 3, 5, 8] if prop == 'C05' else [1, 2, 3, 5])
        units = None
        length = rng.choice(['in', 'ft', 'm'])
        with_units = rng.random() < 0.6
        if not with_units:
            acc = {'in': 'inchps2', 'ft': 'ftps2', 'm': 'mps2'}[length]
            vel = {'in': 'inchps', 'ft': 'ftps', 'm': 'mps'}[length]
            units = {'PID': 'unitless', 'PFA': acc, 'PFV': vel, 'SA_1.0': acc}
        dem = scen.gen_demands(rng, stories, dirs, both, n, units)
        coupled = rng.random() < 0.5
        conf = {
            'route': rng.choice(['explicit', 'explicit', 'auto']),
            'stories': stories, 'dirs': dirs, 'dvs': dvs, 'cmps': cmps, 'frag': frag,
            'conseq': conseq, 'use_lib': use_lib, 'demand': dem, 'with_units': with_units,
            'length': length, 'coupled': coupled,
            'calibration': None if coupled or rng.random() < 0.6 else 'lognormal',
            'size': rng.choice([1, 2, 3, 5, 8, 12]),
            'seed': rng.choice([None, rng.randrange(1000), rng.randrange(1000)]),
            'listall': rng.choice([None, True, False]),
            'eco': rng.choice([None, {'AcrossFloors': True, 'AcrossDamageStates': False},
                               {'AcrossFloors': False, 'AcrossDamageStates': False},
                               {'AcrossFloors': True, 'AcrossDamageStates': True},
                               {'AcrossFloors': False, 'AcrossDamageStates': True}]),
            'nondir': rng.choice([None, {'ALL': 1.5}, {'PFA': 1.0, 'ALL': 1.2}]),
            'sampling': rng.choice([None, 'MonteCarlo', 'LHS', 'LHS_midpoint']),
            'rid': None, 'collapse': None, 'irreparable': None, 'climit': None,
            'process': rng.choice(['FEMA P-58', 'FEMA P-58', 'None', 'User Defined',
                                   'User Defined' if prop == 'C05' else 'FEMA P-58']),
            'tasks': None,
            'loss': rng.random() < 0.85,
            'map': rng.choice(['Automatic', 'Automatic' if prop != 'C05' else 'User Defined', 'User Defined']),
            'map_rows': None, 'scaling': None,
            'replacement': {}, 'wanted': None, 'detailed': rng.random() < 0.6,
            'format': rng.choice([None, None, ['csv'], ['json'], ['csv', 'json']]),
            'inner': rng.random() < 0.5,
        }
        if conf['calibration'] == 'lognormal' and n < 3:
            conf['calibration'] = None
        if rng.random() < 0.5:
            conf['rid'] = {d: scen.sig(rng.uniform(0.004, 0.012)) for d in dirs}
            if rng.random() < 0.7:
                conf['irreparable'] = scen.sig(rng.uniform(0.002, 0.01))
        if rng.random() < 0.5:
            conf['collapse'] = rng.choice([
                ['PID', scen.sig(rng.uniform(0.01, 0.04))],
                ['SA_1.0', scen.sig(rng.uniform(0.3, 1.8))],
            ])
            conf['collapse_fixed'] = rng.random() < 0.2
        conf['text'] = rng.random() < 0.2
        if rng.random() < 0.3:
            conf['rho'] = rng.choice([0, 0.6, 1.0])
        if rng.random() < 0.3:
            conf['offset'] = rng.choice([{'PFA': 0, 'PFV': 0}, {'PFA': -1, 'PFV': 0}])
        if rng.random() < 0.5 and n > 2 and conf['calibration'] is None:
            t = rng.choice(['PID', 'PID', 'PFA', 'PFV'])
            vals = sorted(max(v[i] for c, v in dem['cols'].items() if c.startswith(t))
                          for i in range(n))
            limit = scen.sig((vals[-1] + vals[-2]) / 2, 8)
            if vals[-2] < round(limit) < vals[-1]:
                limit = round(limit)
            if vals[-2] < vals[-1]:
                conf['climit'] = {t: limit}
                peak = {k: [max(v[i] for c, v in dem['cols'].items() if c.startswith(k)) for i in range(n)]
                        for k in ('PID', 'PFA', 'PFV')}
                for k in rng.sample(sorted(peak), rng.choice([0, 1, 1, 2])):
                    cut = sorted(peak[k])
                    at = rng.randrange(1, n)
                    more = {k: scen.sig((cut[at] + cut[at - 1]) / 2, 8), **conf['climit']}
                    if sum(all(peak[a][i] <= x for a, x in more.items()) for i in range(n)) > 1:
                        if rng.random() < 0.5:
                            more = dict(reversed(more.items()))
                        conf['climit'] = more
        if conf['process'] == 'User Defined':
            conf['tasks'] = self.gen_tasks(rng, both)
        if conf['map'] == 'User Defined':
            conf['map_rows'] = self.gen_map(rng, cmps, conseq, lib if use_lib else None)
            if not conf['map_rows']:
                conf['map'] = 'Automatic'
            if (prop == 'C05' and {'collapse', 'irreparable'} & {r[0] for r in conf['map_rows']}
                    and rng.random() < 0.7):
                # irreparable damage and collapse that occur
                conf['process'], conf['tasks'] = 'FEMA P-58', None
                conf['rid'] = conf['rid'] or {d: scen.sig(rng.uniform(0.004, 0.012)) for d in dirs}
                conf['irreparable'] = conf['irreparable'] or scen.sig(rng.uniform(0.002, 0.01))
                if rng.random() < 0.5:
                    conf['collapse'] = conf['collapse'] or ['PID', scen.sig(rng.uniform(0.02, 0.04))]
        conf['conseq'] = conseq = conseq if any(v['dv'] for v in conseq.values()) else {}
        if not conseq and not use_lib:
            conf['loss'] = False
        for dv in dvs:
            if conf['process'] != 'FEMA P-58' or rng.random() < 0.6:
                conf['replacement'][dv] = rng.choice([2e5, 4e4, 1000.0, 1e6])
        if rng.random() < 0.15:
            pg = rng.choice(scen.groups(cmps, stories))[0]
            conf['scaling'] = {'-'.join(pg[:3]): rng.choice(
                [{'ALL': '*1.4'}, {'LS1': '*0.8'}, {'ALL': '/1.1'}])}
        extra = rng.random()
        if extra < 0.25:
            self.make_hazus(rng, conf)
        elif extra < 0.32 and conf['route'] == 'explicit':
            self.make_sampled(rng, conf)
        elif extra < 0.42:
            self.make_pair(rng, conf)
        if rng.random() < 0.2:
            # event IDs in the names of the demands
            conf['event'] = rng.choice(['1-', '0-', '12-'])
        if rng.random() < 0.2:
            # demands that the file leaves out and that are copies of others
            cols = conf['demand']['cols']
            names = sorted(c for c in cols if c[:3] in {'PFA', 'PFV', 'PID'} - set(conf['climit'] or ()))
            rng.shuffle(names)
            for c in names[:rng.choice([1, 1, 2])]:
                twin = next((t for t in names if t != c and t[:3] == c[:3]
                             and not any(t == o or t in copies for o, copies in conf.get('clone', {}).items())), None)
                if twin is not None and not any(c in v for v in conf.get('clone', {}).values()):
                    conf.setdefault('clone', {})[c] = [c, twin] if rng.random() < 0.5 else [twin, c]
                    cols[twin] = list(cols[c])
        if conf['loss'] and rng.random() < 0.4:
            for dv in conf['replacement']:
                if rng.random() < 0.6:
                    conf.setdefault('rep_dist', {})[dv] = [
                        rng.choice(['lognormal', 'normal']), rng.choice([1e-8, 1e-8, 0.3])]
        conf['outputs'] = self.gen_outputs(rng, conf)
        if (prop != 'C05' and conf['route'] == 'explicit' and rng.random() < 0.08
                and not conf.get('pair')):
            # only a part of the calculation
            conf['stage'] = 'asset'
            conf['loss'] = False
            conf['outputs'] = {k: v for k, v in (conf['outputs'] or {'Format': {'CSV': True, 'JSON': True}}).items()
                               if k not in {'Damage', 'Loss'}} or {'Demand': {'Sample': True}}
        if prop == 'C05':
            stats = rng.random() < 0.15
            conf['outputs'] = {k: {o: 'tatistics' not in o or stats for o in v} for k, v in TABLES.items()}
            conf['outputs']['Settings'] = {
                'CondenseDS': False, 'SimpleIndexInJSON': False,
                'AggregateColocatedComponentResults': rng.random() < 0.3}
            conf['outputs']['Format'] = {'CSV': True, 'JSON': False}
            conf['route'], conf['format'] = 'explicit', None
            if not conf['loss']:
                del conf['outputs']['Loss']
        if conf['route'] == 'auto':
            conf['calibration'] = None if coupled else 'lognormal'
            if rng.random() < 0.4:
                conf['wanted'] = {k: rng.random() < 0.7 for k in ('IM', 'EDP', 'DM', 'DV')}
            if conf['calibration'] and n < 3:
                conf['coupled'], conf['calibration'] = True, None
        return conf

    def make_hazus(self, rng, conf) -> None:
        """Turn the configuration into one with archetypes by occupancy."""
        facility = rng.random() < 0.35
        classes = ['LF'] if facility else rng.choice([['STR'], ['STR', 'NSA'], ['NSD', 'STR', 'NSA'], ['NSA', 'STR']])
        conf['process'] = 'Hazus Earthquake - ' + ('Lifeline Facilities' if facility else 'Buildings')
        conf['tasks'] = conf['map_rows'] = conf['scaling'] = None
        conf['map'], conf['use_lib'] = 'Automatic', False
        conf['occ'] = rng.choice(['RES1', 'COM4', 'W1'])
        conf['units'] = {**scen.DV_UNIT, 'Cost': 'loss_ratio', 'Time': 'day'}
        conf['cmps'], conf['frag'], conf['conseq'] = [], {}, {}
        for kind in classes:
            c = f"{kind}.{rng.choice(['C1L.LC', 'W1.HC', 'S5M.PC'])}"
            edp = 'PFA' if kind == 'NSA' else rng.choice(['PID', 'PID', 'SA_1.0'])
            lo, hi = scen.EDP[edp][2]
            top = scen.sig(lo + (hi - lo) * rng.uniform(0.2, 0.8))
            ths = [scen.sig(top * x) for x in (0.3, 0.5, 0.75, 1.0)]
            split = rng.random() < 0.6
            conf['frag'][c] = f = {
                'edp': edp, 'offset': 0, 'directional': 1 if edp == 'SA_1.0' else rng.choice([0, 1]),
                'ths': ths if split else [*ths, scen.sig(top * 1.2)],
                'weights': [None, None, None, rng.choice(['0.5|0.5', '0.8|0.2'])] if split else [None] * 5,
                'beta': 1e-6}
            entry = scen.gen_conseq(rng, f, conf['dvs'], 'ea')
            if 'Time' in conf['dvs'] and 'Time' not in entry['dv']:
                entry['dv']['Time'] = [[float(k), None] for k in range(1, 6)]
            conf['conseq'][f"{kind}.{conf['occ']}"] = entry
            locs = '0' if edp == 'SA_1.0' else rng.choice(['1', 'all'])
            conf['cmps'].append({
                'id': c, 'unit': 'ea', 'loc': locs, 'dir': rng.choice(['1', ','.join(conf['dirs'])])
                if edp != 'SA_1.0' else '1', 'q': 1.0, 'family': None, 'theta_1': None,
                'blocks': rng.choice([1, 1, 3])})
        if not any(v['dv'] for v in conf['conseq'].values()):
            conf['conseq'], conf['loss'] = {}, False
        old = conf['demand']
        conf['demand'] = scen.gen_demands(
            rng, conf['stories'], conf['dirs'], conf['frag'],
            len(next(iter(old['cols'].values()))), old['units'])
        conf['climit'] = None
        # the replacement time is looked up unless it is given
        lookup = f"{classes[0] if facility else 'STR'}.{conf['occ']}"
        conf['replacement'] = {dv: v for dv, v in conf['replacement'].items() if rng.random() < 0.5}
        if 'Time' not in conf['conseq'].get(lookup, {'dv': ()})['dv']:
            conf['replacement']['Time'] = 300.0
        if conf['conseq'] and rng.random() < 0.6:
            # a part of the models comes from the library
            conf['own_lib'] = own = {'frag': {}, 'conseq': {}, 'unit': {}}
            for c, f in list(conf['frag'].items()):
                kind = rng.choice(['lib', 'lib', 'custom', 'both'])
                if kind != 'custom':
                    own['frag'][c], own['unit'][c] = json.loads(json.dumps(f)), 'ea'
                if kind == 'lib':
                    del conf['frag'][c]
                elif kind == 'both':
                    own['frag'][c]['ths'] = [scen.sig(t * 1.3) for t in f['ths']]
            for c, entry in list(conf['conseq'].items()):
                kind = rng.choice(['lib', 'custom', 'both', 'both'])
                if kind != 'custom':
                    own['conseq'][c], own['unit'][c] = json.loads(json.dumps(entry)), 'ea'
                if kind == 'lib':
                    del conf['conseq'][c]
                elif kind == 'both':
                    for rows in own['conseq'][c]['dv'].values():
                        for row in rows:
                            if isinstance(row[0], float):
                                row[0] = scen.sig(row[0] * 2)
            if not own['frag'] or not any(v['dv'] for v in own['conseq'].values()):
                conf['own_lib'] = None
                conf['frag'] = {**own['frag'], **conf['frag']}
                conf['conseq'] = {**own['conseq'], **conf['conseq']}
            if not any(v['dv'] for v in conf['conseq'].values()):
                conf['conseq'] = {}

    def make_pair(self, rng, conf) -> None:
        """A building under wind and storm surge: two methods whose losses combine."""
        # the first one in alphabetical order counts as the one under wind
        wind, flood = rng.choice([('W.SF.1', 'X.RES1'), ('W.MH', 'W.SS'), ('B.W', 'F.RES3')])
        conf['dvs'] = ['Cost']
        conf['units'] = {**scen.DV_UNIT, 'Cost': 'loss_ratio'}
        conf['use_lib'], conf['map'], conf['map_rows'], conf['loss'] = False, 'Automatic', None, True
        conf['process'] = rng.choice(['None', 'Hazus Hurricane'])
        conf['frag'], conf['conseq'] = {}, {}
        for key in ('rid', 'irreparable', 'climit', 'tasks', 'scaling'):
            conf[key] = None
        conf['replacement'] = {'Cost': 1.0} if rng.random() < 0.5 else {}
        ths = sorted(scen.sig(rng.uniform(70, 190)) for _ in range(rng.choice([1, 3, 4])))
        for i in range(1, len(ths)):
            ths[i] = max(ths[i], scen.sig(ths[i - 1] * 1.1))
        frag = {'edp': 'PWS', 'offset': 0, 'directional': 1, 'ths': ths, 'weights': [None] * len(ths), 'beta': 1e-6}
        costs = sorted(scen.sig(rng.uniform(0.01, 1.0), 3) for _ in ths)
        steps = sorted(scen.sig(rng.uniform(0.1, 11.0), 3) for _ in range(rng.choice([1, 2, 4])))
        ratios = sorted(scen.sig(rng.uniform(0.0, 1.0), 3) for _ in steps)
        loc, d = rng.choice(['1', 'all']), rng.choice(conf['dirs'])
        q = {'unit': 'ea', 'loc': loc, 'dir': d, 'q': 1.0, 'family': None, 'theta_1': None}
        conf['cmps'] = [{**q, 'id': wind, 'blocks': rng.choice([1, 1, 2])}, {**q, 'id': flood, 'blocks': 1}]
        side = [sorted({0.0, 1.0, *rng.sample([0.1, 0.25, 0.5, 0.8], rng.choice([0, 1, 2]))}) for _ in range(2)]
        table = [[a if not b else b if not a else scen.sig(max(a, b) + rng.random() * (min(a + b, 1) - max(a, b)), 5)
                  for b in side[1]] for a in side[0]]
        conf['pair'] = {
            'wind': wind, 'flood': flood,
            'lib': {'frag': {wind: frag}, 'unit': {wind: 'ea'},
                    'conseq': {wind: {'per': 1, 'dv': {'Cost': [[c, None] for c in costs]}}}},
            'lf': {'x': [0.0, *steps, 1000.0], 'y': [0.0, *ratios, 1.0]}, 'table': table,
        }
        cols = conf['demand']['cols']
        rows = len(next(iter(cols.values())))
        length = conf['length']
        units = {'PWS': {'in': 'inchps', 'ft': 'ftps', 'm': 'mps'}[length],
                 'PIH': {'in': 'inch', 'ft': 'ft', 'm': 'm'}[length]}
        if conf['with_units']:
            units = {t: rng.choice(sorted(scen.TO_LIB[t])) for t in units}
        conf['demand']['units'].update(units)
        calm = rng.random() < 0.3
        for t, unit in units.items():
            f = scen.TO_LIB[t][unit]
            for story in range(1, conf['stories'] + 1):
                out = cols[f'{t}-{story}-{d}'] = []
                while len(out) < rows:
                    v = scen.sig(rng.uniform(*((50.0, 120.0) if t == 'PWS' and calm else scen.EDP[t][2])) / f, 5)
                    if t == 'PIH' and rng.random() < 0.3:
                        v = 0.0
                    if t == 'PIH' or all(abs(v * f / x - 1) > 2 * scen.FUZZ for x in ths):
                        out.append(v)
        conf['calibration'] = None

    def make_sampled(self, rng, conf) -> None:
        """Quantities of the components come from a table of realizations."""
        seen, cmps = set(), []
        for (c, loc, d, _), row in scen.groups(conf['cmps'], conf['stories']):
            if (c, loc, d) not in seen:
                seen.add((c, loc, d))
                cmps.append({**row, 'loc': loc, 'dir': d, 'family': None, 'theta_1': None, 'blocks': 1,
                             'q': [rng.choice([1.0, 2.5, 8.0, 12.0]) for _ in range(conf['size'])]})
        conf['cmps'], conf['sampled'] = cmps, rng.choice(['plain', 'uid'])
        conf['collapse'] = conf['irreparable'] = conf['tasks'] = conf['scaling'] = None
        if conf['process'] == 'User Defined':
            conf['process'] = 'None'

    def gen_tasks(self, rng, frag):
        solid = [c for c, f in frag.items() if f['beta'] != 0.4 and not any(f['weights'])]
        tasks = {}
        start = rng.choice([1, 1, 1, 8])
        for k in range(rng.choice([1, 2, 3])):
            if not solid:
                break
            src = rng.choice(solid)
            event = f"DS{rng.randrange(0 if rng.random() < 0.2 else 1, len(frag[src]['ths']) + 1)}"
            others = [c for c in frag if c != src]
            target = []
            loc = '-LOC' if rng.random() < 0.4 else ''
            for _ in range(rng.choice([1, 1, 2])):
                kind = rng.random()
                if kind < 0.25 or not others:
                    target.append(rng.choice(['collapse_DS1', 'ALL_NA', 'collapse_DS1']))
                elif loc and kind < 0.5:
                    target.append('ALL_NA')
                else:
                    c = rng.choice(others)
                    top = scen.n_ds(frag[c])
                    target.append(f"{c}_{rng.choice(['NA', 'DS0', f'DS{rng.randrange(1, top + 1)}'])}")
            tasks[f'{start + k}_{src}{loc}'] = {event: target if len(target) > 1 else target[0]}
        if rng.random() < 0.5:
            tasks[f'{start + 4}_collapse'] = {'DS1': 'ALL_NA'}
        return tasks

    def gen_map(self, rng, cmps, conseq, lib):
        ids = sorted({r['id'] for r in cmps})
        avail = sorted(set(conseq) | set(lib['conseq'] if lib else ()))
        unit = {r['id']: r['unit'] for r in cmps}
        out = []
        for c in ids:
            same = [a for a in avail
                    if (unit.get(a) or (lib and lib['unit'].get(a))) in
                    ({'ea'} if unit[c] == 'ea' else {'ft2', 'm2'})]
            if same and rng.random() < 0.85:
                out.append([c, c if c in same and rng.random() < 0.6 else rng.choice(same)])
        single = [a for a in avail if (unit.get(a) or (lib and lib['unit'].get(a))) == 'ea']
        if out and single and rng.random() < 0.5:
            # collapse or irreparable damage have consequences of their own
            for driver in rng.choice([['collapse'], ['irreparable'], ['collapse', 'irreparable']]):
                out.insert(rng.randrange(len(out) + 1), [
                    driver, 'replacement' if rng.random() < 0.4 else rng.choice(single)])
        return out

    @staticmethod
    def few_outputs(rng, conf):
        out = json.loads(json.dumps(conf))
        part = rng.choice([p for p in TABLES
                           if (p != 'Loss' or conf['loss']) and not (conf.get('stage') and p == 'Damage')])
        out['outputs'] = {part: {rng.choice(sorted(TABLES[part])): True}}
        if out['route'] == 'auto':
            out['wanted'] = {k: rng.random() < 0.4 for k in ('IM', 'EDP', 'DM', 'DV')}
        return out

    def gen_outputs(self, rng, conf):
        if rng.random() < 0.15:
            return None
        out = {}
        for part, tables in TABLES.items():
            if part == 'Loss' and not conf['loss']:
                continue
            if rng.random() < 0.75:
                out[part] = {o: rng.random() < 0.6 for o in tables}
        if rng.random() < 0.8:
            out['Format'] = rng.choice([
                {'CSV': True, 'JSON': True}, {'CSV': True, 'JSON': True},
                {'CSV': True, 'JSON': False}, {'CSV': False, 'JSON': True}])
        if rng.random() < 0.7:
            out['Settings'] = {
                k: rng.random() < 0.5 for k in
                ('CondenseDS', 'SimpleIndexInJSON', 'AggregateColocatedComponentResults')}
        return out or None

    # --- what the configuration asks for -----------------------------------

    @staticmethod
    def wanted(conf):
        """(tables by part, csv, json, settings) that a run must deliver."""
        everything = {p: set(t) for p, t in TABLES.items()}
        if conf['route'] == 'auto':
            if conf['detailed']:
                tables = everything
                csv, js = True, True
            else:
                tables = {
                    'Demand': {'Sample'}, 'Asset': {'Sample'},
                    'Damage': {'GroupedSample', 'GroupedStatistics'}, 'Loss': everything['Loss'],
                }
                csv, js = False, True
            settings = {'CondenseDS': True, 'SimpleIndexInJSON': True,
                        'AggregateColocatedComponentResults': True}
            tables = dict(tables)
            if not conf['loss']:
                tables['Loss'] = set()
            w = conf['wanted']
            if w:
                if not w['IM'] and not w['EDP']:
                    tables['Demand'] = set()
                if not w['DM']:
                    tables['Damage'] = set()
                if not w['DV']:
                    tables['Loss'] = set()
        else:
            settings = {'CondenseDS': False, 'SimpleIndexInJSON': False,
                        'AggregateColocatedComponentResults': True}
            o = conf['outputs']
            if o is None:
                tables, csv, js = everything, True, True
                if not conf['loss']:
                    tables = {**everything, 'Loss': set()}
            else:
                tables = {p: {k for k, v in o.get(p, {}).items() if v} for p in TABLES}
                fmt = o.get('Format', {'CSV': True, 'JSON': False})
                csv, js = fmt['CSV'], fmt['JSON']
                settings = {**{k: False for k in settings}, **o['Settings']} if o.get('Settings') else settings
        if conf.get('stage'):
            tables = {p: t if p in {'Demand', 'Asset'} else set() for p, t in tables.items()}
        if conf['format'] is not None:
            csv, js = 'csv' in conf['format'], 'json' in conf['format']
        return tables, csv, js, settings

    def expected_files(self, conf) -> set[str]:
        tables, csv, js, _ = self.wanted(conf)
        names = [TABLES[p][o] for p, t in tables.items() for o in t]
        out = {'DL_summary.csv', 'DL_summary_stats.csv'}
        if csv:
            out |= set(names)
        if js:
            out |= {n.split('.')[0] + '.json' for n in [*names, *list(out)[:0]]}
            out |= {'DL_summary.json', 'DL_summary_stats.json'}
        return out

    # --- inputs ------------------------------------------------------------

    def put_library(self, disk, plan) -> None:
        real = Path(boot.REPO) / 'pelicun'
        with disk.quiet():
            root = Path(disk.path('lib'))
            (root / 'resources').mkdir(parents=True)
            (root / 'settings').symlink_to(real / 'settings')
        disk.put('lib/resources/dlml_resource_paths.json',
                 (real / 'resources/dlml_resource_paths.json').read_bytes())
        paths = json.loads((real / 'resources/dlml_resource_paths.json').read_text())
        done = set()
        for name, lib, units in [('FEMA P-58', plan['lib'], None)] + [
                (c['own_lib']['name'], c['own_lib'], c['units'])
                for c in plan['confs'] if c.get('own_lib')]:
            if name in done:
                continue
            done.add(name)
            sub = 'lib/resources/DamageAndLossModelLibrary/' + paths[name]
            disk.put(sub + 'fragility.csv', scen.csv_text(scen.frag_rows(lib['frag'])).encode())
            disk.put(sub + 'consequence_repair.csv',
                     scen.csv_text(scen.conseq_rows(lib['conseq'], lib['unit'], units)).encode())
        for c in plan['confs']:
            if not c.get('pair') or done & set(PAIR):
                continue
            done |= set(PAIR)
            pair = c['pair']
            sub, other = ('lib/resources/DamageAndLossModelLibrary/' + paths[name] for name in PAIR)
            lib = pair['lib']
            disk.put(sub + 'fragility.csv', scen.csv_text(scen.frag_rows(lib['frag'])).encode())
            disk.put(sub + 'consequence_repair.csv',
                     scen.csv_text(scen.conseq_rows(lib['conseq'], lib['unit'], c['units'])).encode())
            disk.put(sub + 'combine_wind_flood.csv', scen.csv_text(pair['table']).encode())
            disk.put(other + 'loss_repair.csv', scen.csv_text([
                ['ID', 'Incomplete', 'Demand-Type', 'Demand-Unit', 'Demand-Offset', 'Demand-Directional',
                 'DV-Unit', 'LossFunction-Family', 'LossFunction-Theta_0', 'LossFunction-Theta_1'],
                [f"{pair['flood']}-Cost", 0, *scen.EDP['PIH'][:2], 0, 1, 'loss_ratio', None,
                 ','.join(f'{y:g}' for y in pair['lf']['y']) + '|' + ','.join(f'{x:g}' for x in pair['lf']['x']),
                 None]]).encode())
            for k, conf in enumerate(plan['confs']):
                if conf.get('pair') and conf['route'] == 'auto':
                    for n, folder in enumerate((sub, other)):
                        dl = self.dl_config(conf, disk, f'in{k}')
                        for part, key in (('Asset', 'ComponentDatabase'), ('Losses', 'ConsequenceDatabase')):
                            at = dl[part] if part == 'Asset' else dl[part]['Repair']
                            at[key] = PAIR[n]
                        dl['Losses']['Repair'].pop('CombinationMethod')
                        disk.put(f'{folder}dl-{k}.json', json.dumps(dl).encode())
                        disk.put(f'{folder}assign-{k}.csv',
                                 scen.csv_text(scen.assign_rows(conf['cmps'][n:n + 1])).encode())
                        disk.put(folder + 'pelicun_config.py', SCRIPT.replace(
                            "'dl.json'", "f\"dl-{gi['AIM_id']}.json\"").replace(
                            "'assign.csv'", "f\"assign-{gi['AIM_id']}.csv\"").encode())

    def put_inputs(self, disk, k, conf) -> None:
        base = f'in{k}'
        units = {r['id']: r['unit'] for r in conf['cmps']}
        copies = {c for k, v in conf.get('clone', {}).items() for c in v if c != k}
        raw = {'units': conf['demand']['units'],
               'cols': {c: v for c, v in conf['demand']['cols'].items() if c not in copies}}
        rows = scen.demand_rows(raw, with_units=conf['with_units'])
        rows[0] = ['', *[conf.get('event', '') + c for c in rows[0][1:]]]
        disk.put(f'{base}/response.csv', scen.csv_text(rows).encode())
        if conf['frag']:
            disk.put(f'{base}/model/fragility.csv',
                     scen.csv_text(scen.frag_rows(conf['frag'])).encode())
        if conf['conseq']:
            cunits = {c: units.get(c, 'ea') for c in conf['conseq']}
            disk.put(f'{base}/model/consequence_repair.csv',
                     scen.csv_text(scen.conseq_rows(conf['conseq'], cunits, conf.get('units'))).encode())
        if conf['map_rows']:
            disk.put(f'{base}/model/loss_map.csv',
                     scen.csv_text([['', 'Repair'], *conf['map_rows']]).encode())
        if conf['tasks'] is not None:
            disk.put(f'{base}/model/process.json', json.dumps(conf['tasks']).encode())
        assign = scen.csv_text(scen.assign_rows(conf['cmps'])).encode()
        if conf.get('sampled'):
            tail = '-0' if conf['sampled'] == 'uid' else ''
            assign = scen.csv_text([
                ['', *[f"{r['id']}-{r['loc']}-{r['dir']}{tail}" for r in conf['cmps']]],
                ['Units', *[r['unit'] for r in conf['cmps']]],
                *[[i, *[r['q'][i] for r in conf['cmps']]] for i in range(conf['size'])]]).encode()
        dl = self.dl_config(conf, disk, base)
        config = {
            'GeneralInformation': {
                'AIM_id': f'{k}',
                'units': {'length': conf['length']},
            },
        }
        if conf['route'] == 'explicit':
            disk.put(f'{base}/CMP_QNT.csv', assign)
            dl['Asset'][f"Component{'Sample' if conf.get('sampled') else 'Assignment'}File"] = disk.path(base, 'CMP_QNT.csv')
            if conf.get('stage'):
                for part in ('Damage', 'Losses'):
                    dl.pop(part, None)
            dl['Demands'] = {
                'DemandFilePath': disk.path(base, 'response.csv'),
                'CoupledDemands': conf['coupled'],
                **({'Calibration': {'ALL': {'DistributionFamily': conf['calibration']}}}
                   if conf['calibration'] else {}),
                **dl['Demands'],
            }
            dl['Options']['Sampling']['SampleSize'] = conf['size']
            if conf['outputs'] is not None:
                outs = {p: v for p, v in conf['outputs'].items() if p != 'Loss'}
                if 'Loss' in conf['outputs']:
                    outs['Loss'] = {'Repair': conf['outputs']['Loss']}
                dl['Outputs'] = outs
            config['DL'] = dl
        else:
            disk.put(f'{base}/model/assign.csv', assign)
            disk.put(f'{base}/model/dl.json', json.dumps(dl).encode())
            disk.put(f'{base}/model/pelicun_config.py', SCRIPT.encode())
            app = {'DL_Method': ', '.join(PAIR) if conf.get('pair') else 'User-provided Models'}
            if conf['inner']:
                app['custom_model_dir'] = disk.path(base, 'model')
                app['Options'] = {'Sampling': dl['Options']['Sampling']}
            config['Applications'] = {'DL': {'ApplicationData': app}}
            if conf['wanted']:
                config['outputs'] = conf['wanted']
        disk.put(f'{base}/AIM.json', json.dumps(config).encode())

    def dl_config(self, conf, disk, base) -> dict:
        options = {'Sampling': {}}
        if conf['sampling']:
            options['Sampling']['SamplingMethod'] = conf['sampling']
        for key, name in (('rho', 'RepairCostAndTimeCorrelation'), ('offset', 'DemandOffset'),
                          ('seed', 'Seed'), ('listall', 'ListAllDamageStates'),
                          ('eco', 'EconomiesOfScale'), ('nondir', 'NonDirectionalMultipliers')):
            if conf.get(key) is not None:
                options[name] = conf[key]
        database = 'FEMA P-58' if conf['use_lib'] else 'None'
        if conf.get('pair'):
            database = ','.join(PAIR)
        if conf.get('own_lib'):
            database = conf['own_lib']['name']
        dl = {
            'Options': options,
            'Demands': {},
            'Asset': {
                'NumberOfStories': conf['stories'],
                'ComponentDatabase': database,
            },
            'Damage': {'DamageProcess': conf['process']},
        }
        if conf['frag']:
            dl['Asset']['ComponentDatabasePath'] = 'CustomDLDataFolder/fragility.csv'
        if conf.get('occ'):
            dl['Asset']['OccupancyType'] = conf['occ']
        if conf['climit'] is not None:
            dl['Demands']['CollapseLimits'] = conf['climit']
        if conf.get('clone'):
            dl['Demands']['DemandCloning'] = conf['clone']
        if conf['rid']:
            dl['Demands']['InferResidualDrift'] = {'method': 'FEMA P-58', **conf['rid']}
        if conf['tasks'] is not None:
            dl['Damage']['DamageProcessFilePath'] = disk.path(base, 'model', 'process.json')
        if conf['collapse']:
            edp, med = conf['collapse']
            if edp == 'SA_1.0':
                unit = {'in': 'inchps2', 'ft': 'ftps2', 'm': 'mps2'}[conf['length']]
                med = med / scen.TO_LIB['SA_1.0'][unit]
            dl['Damage']['CollapseFragility'] = {
                'DemandType': edp, 'CapacityDistribution': 'lognormal',
                'CapacityMedian': med, 'Theta_1': 1e-6}
            if conf.get('collapse_fixed'):
                for key in ('CapacityDistribution', 'Theta_1'):
                    del dl['Damage']['CollapseFragility'][key]
        if conf['irreparable']:
            dl['Damage']['IrreparableDamage'] = {
                'DriftCapacityMedian': conf['irreparable'], 'DriftCapacityLogStd': 1e-6}
        if conf['scaling']:
            dl['Damage']['ScalingSpecification'] = conf['scaling']
        if conf['loss']:
            rep = {
                'MapApproach': conf['map'],
                'ConsequenceDatabase': database,
                'DecisionVariables': {dv: True for dv in conf['dvs']},
            }
            if conf.get('pair'):
                rep['CombinationMethod'] = 'Hazus Hurricane'
            if conf['conseq']:
                rep['ConsequenceDatabasePath'] = 'CustomDLDataFolder/consequence_repair.csv'
            if conf['map_rows']:
                rep['MapFilePath'] = 'CustomDLDataFolder/loss_map.csv'
            for dv, value in conf['replacement'].items():
                rep[f'Replacement{dv}'] = {'Unit': (conf.get('units') or scen.DV_UNIT)[dv], 'Median': value}
                if dv in conf.get('rep_dist', {}):
                    rep[f'Replacement{dv}'].update(zip(('Distribution', 'Theta_1'), conf['rep_dist'][dv]))
            dl['Losses'] = {'Repair': rep}
        if conf.get('text'):
            as_text(dl)
        return dl

    # --- one calculation ---------------------------------------------------

    def calculate(self, disk, clock, conf, k, op, salt, state=None) -> None:
        from pelicun.tools import DL_calculation as dlc  # noqa: PLC0415

        base = f'in{k}'
        out = None if op['out'] is None else disk.path('work', f"out{op['out']}")
        args = {
            'config_path': disk.path(base, 'AIM.json'),
            'demand_file': disk.path(base, 'response.csv'),
            'output_path': out,
            'realizations': conf['size'],
            'auto_script_path': None,
            'custom_model_dir': disk.path(base, 'model'),
            'output_format': conf['format'],
            'detailed_results': conf['detailed'],
            'coupled_edp': conf['coupled'],
        }
        with sandboxed(disk, clock, salt, listing=op['listing'], state=state):
            if op['entry'] == 'call':
                dlc.run_pelicun(**args)
                return
            argv = ['DL_calculation.py', '-c', args['config_path'], '-d', args['demand_file'],
                    '-s', str(args['realizations']),
                    '--custom_model_dir', args['custom_model_dir'],
                    '--detailed_results', str(args['detailed_results']),
                    '--coupled_EDP', str(args['coupled_edp'])]
            if out:
                argv += ['--dirnameOutput', out]
            if args['output_format']:
                argv += ['--output_format', ','.join(args['output_format'])]
            old, sys.argv = sys.argv, argv
            try:
                dlc.main()
            finally:
                sys.argv = old

    def prepare(self, plan, only=None) -> Disk:
        disk = Disk(max_events=400_000)
        self.put_library(disk, plan)
        with disk.quiet():
            for sub in ('work', 'tmp'):
                os.mkdir(disk.path(sub))
        for k, conf in enumerate(plan['confs']):
            if only in {None, k}:
                self.put_inputs(disk, k, conf)
        disk.classify = self.classify
        return disk

    @staticmethod
    def classify(rel: str) -> str:
        top, _, rest = rel.partition('/')
        if top.startswith('in'):
            stem = rest.split('.')[0]
            return 'out' if stem in ALL_STEMS or (
                stem == 'CMP_QNT' and False) else 'in'
        if top == 'work':
            return 'out' if '/' in rest else 'work'
        return top

    @staticmethod
    def outputs(disk, op) -> dict[str, bytes]:
        """The result files of one operation's output folder (unpacked)."""
        sub = f"in{op['conf']}" if op['out'] is None else f"work/out{op['out']}"
        if not os.path.isdir(disk.path(sub)):
            return {}
        files = {}
        for name, data in disk.tree(sub).items():
            if name.split('.')[0] in ALL_STEMS and '/' not in name:
                if name.endswith('.zip'):
                    try:
                        with zipfile.ZipFile(io.BytesIO(data)) as z:
                            data = b''.join(z.read(n) for n in z.namelist())
                    except (zipfile.BadZipFile, OSError):
                        data = b'\0damaged zip'
                files[name] = data
        return files

    def alone(self, plan, k, op, salt, state=None, start=None, listing='sorted'):
        """The same calculation in a fresh process on a clean disk."""
        disk = self.prepare(plan, only=k)
        try:
            try:
                self.calculate(disk, Clock(start) if start else Clock(), plan['confs'][k],
                               k, {**op, 'faults': [], 'listing': listing}, salt, state)
            except Exception as e:  # noqa: BLE001
                tb = raised(e)
                return {'error': type(e).__name__, 'trace': tb, 'files': {}}
            return {'error': None, 'files': self.outputs(disk, op)}
        finally:
            disk.close()

    def history(self, plan):
        """Run every operation in this process; return what happened."""
        disk = self.prepare(plan)
        clock = Clock()
        out = []
        try:
            inputs = {n: v for n, v in disk.tree().items() if n.startswith(('in', 'lib'))}
            for number, op in enumerate(plan['ops']):
                k = op['conf']
                folder = f'in{k}' if op['out'] is None else f"work/out{op['out']}"
                if op['out'] is not None:
                    for name, data in USER_FILES.items():
                        disk.put(f'{folder}/{name}', data)
                disk.reset_op(op['faults'])
                outcome, error, trace = 'ok', None, ''
                salt = self.salt(plan, op)
                t0, e0 = clock.now, disk.events
                try:
                    self.calculate(disk, clock, plan['confs'][k], k, op, salt, state=number)
                except SimCrash:
                    outcome = 'killed'
                except SimRunaway as e:
                    outcome, error = 'hang', repr(e)
                except Exception as e:  # noqa: BLE001
                    outcome, error = 'error', type(e).__name__
                    trace = raised(e)
                disk.dead = False
                tree = disk.tree()
                now = {n: v for n, v in tree.items() if n in inputs}
                changed = sorted(n for n in inputs if now.get(n) != inputs[n])
                users = [] if op['out'] is None else sorted(
                    n for n, v in USER_FILES.items() if tree.get(f'{folder}/{n}') != v)
                extra = sorted(
                    n for n in tree
                    if n.startswith(folder + '/') and n not in inputs
                    and n.split('/')[-1].split('.')[0] not in ALL_STEMS
                    and n.split('/')[-1] not in USER_FILES
                    and n.split('/')[-1] != 'CMP_QNT.csv')
                out.append({
                    'outcome': outcome, 'error': error, 'trace': trace,
                    'fired': list(disk.op_fired), 'files': self.outputs(disk, op),
                    'inputs_changed': changed, 'user_changed': users, 'extra': extra,
                    'events': disk.events - e0, 'sim': (clock.now - t0).total_seconds(),
                })
                # later operations start from intact inputs
                for n in changed:
                    disk.put(n, inputs[n])
            return out, dict(disk.fired)
        finally:
            disk.close()

    @staticmethod
    def salt(plan, op):
        return derive(plan['salt'], op['conf'])

    # --- execution ---------------------------------------------------------

    def execute(self, plan):
        res = Result()
        ops, fired = in_child(self.history, plan)
        refs = {}
        res.faults.update(fired)
        for number, (op, got) in enumerate(zip(plan['ops'], ops)):
            k = op['conf']
            if k not in refs:
                refs[k] = in_child(self.alone, plan, k, op, self.salt(plan, op))
            conf = plan['confs'][k]
            res.stats[f"run.{got['outcome']}"] += 1
            res.stats['file calls'] += got['events']
            res.sim_seconds += got['sim']
            res.event(number, got['outcome'], got['error'], got['fired'],
                      digest({n: digest(v.hex()) for n, v in got['files'].items()}))
            res.state(k, got['outcome'], sorted(got['files']), sorted(conf), conf['size'],
                      conf['process'], conf['route'], op['out'])
            self.judge(res, plan, number, op, conf, got, refs[k])
        res.nontrivial = any(g['outcome'] == 'ok' for g in ops) and (
            len(ops) > 1 or plan['confs'][0]['size'] > 1)
        return res

    def judge(self, res, plan, number, op, conf, got, ref) -> None:  # noqa: C901, PLR0912
        hard = [f for f in got['fired'] if f[2] != 'short']
        where = f"run {number} (configuration {op['conf']}, output {op['out']})"
        if got['inputs_changed']:
            res.violate('C03', 'inputs-changed', f"{where}: {got['inputs_changed'][:4]}")
        if got['user_changed']:
            res.violate('C02', 'other-files-changed', f"{where}: {got['user_changed'][:4]}")
        if got['extra'] and got['outcome'] == 'ok':
            res.violate('C02', 'stray-files', f"{where}: {got['extra'][:4]}")
        if got['outcome'] == 'hang':
            res.violate('C03', 'no-progress', f"{where}: {got['error']}")
            return
        if ref['error'] is not None:
            # the generated inputs are valid: a calculation must succeed alone
            for prop in ('C05', 'C04'):
                res.violate(prop, 'fails-alone', f"{where}: {ref['trace']}")
            return
        if got['outcome'] == 'error' and not hard:
            res.violate('C01', 'fails-after-others', f"{where}: {got['trace']}")
            if any(o['faults'] for o in plan['ops'][:number]):
                res.violate('C03', 'fails-after-failure', f"{where}: {got['trace']}")
            return
        if got['outcome'] != 'ok':
            return
        files = got['files']
        want = self.expected_files(conf)
        if self.no_losses(files):
            # little to tabulate per component when nothing is lost
            parts = {n for n in want if n.startswith(('DV_repair_sample', 'DV_repair_stats',
                                                      'DV_repair_grp'))}
            if not parts & set(files):
                want -= parts
        if set(files) != want:
            missing, surplus = sorted(want - set(files)), sorted(set(files) - want)
            kind = 'missing-output' if missing else 'unrequested-output'
            detail = f'{where}: missing {missing}, not requested {surplus}'
            if hard:
                res.violate('C03', 'incomplete-after-fault', detail)
            else:
                res.violate('C02', kind, detail)
        files = {n: v for n, v in files.items() if n in want}
        differ = sorted(n for n in want & set(files) & set(ref['files'])
                        if files[n] != ref['files'][n])
        if differ:
            detail = f'{where}: {differ[:6]} differ from a clean run{self.first_diff(files, ref, differ)}'
            if hard:
                res.violate('C03', 'wrong-after-fault', f'{detail} after {hard}')
            else:
                res.violate('C01', 'depends-on-history', detail)
                if any(o['faults'] for o in plan['ops'][:number]):
                    res.violate('C03', 'rerun-differs', detail)
        if hard:
            return
        try:
            self.consistency(res, conf, files, where)
        except Exception as e:  # noqa: BLE001
            tb = raised(e)
            res.violate('C04', 'unreadable', f'{where}: {tb}')
        self.semantics(res, plan, conf, files, where)

    def no_losses(self, files) -> bool:
        summary = self.table(files, 'DL_summary')
        if summary is None:
            return False
        cols = [c for c in summary[0].columns if c.startswith('repair_')]
        return bool(cols) and not (summary[0][cols].to_numpy(float) != 0).any()

    @staticmethod
    def first_diff(files, ref, names) -> str:
        a, b = files[names[0]].decode(errors='replace'), ref['files'][names[0]].decode(errors='replace')
        for x, y in zip(a.splitlines(), b.splitlines()):
            if x != y:
                return f' ({x[:120]!r} instead of {y[:120]!r})'
        return ''

    # --- tables ------------------------------------------------------------

    @staticmethod
    def table(files, stem):
        """(values, units) of one delivered table, or None."""
        name = next((n for n in files if n.split('.')[0] == stem and not n.endswith('.json')), None)
        if name is not None:
            df = pd.read_csv(io.BytesIO(files[name]), index_col=0, dtype=object, keep_default_na=False)
            units = None
            key = next((i for i in df.index if str(i).lower() == 'units'), None)
            if key is not None:
                units = df.loc[key].to_dict()
                df = df.drop(key)
            df = df.apply(lambda c: pd.to_numeric(c.replace('', np.nan)))
        else:
            name = stem + '.json'
            if name not in files:
                return None
            df, units = DlcalcWorld.from_json(json.loads(files[name]))
        if stem in {'DV_repair_agg', 'DV_repair_agg_stats', 'DL_summary', 'DL_summary_stats'}:
            # a shorter name next to `repair_time-...` is padded with a dash
            df.columns = [str(c).rstrip('-') for c in df.columns]
        return df, units

    @staticmethod
    def from_json(data):
        data = dict(data)
        units = data.pop('Units', None)
        cols = {}

        def walk(node, path):
            if isinstance(node, list):
                cols['-'.join(path)] = pd.Series(node, dtype=float)
            elif all(not isinstance(v, (dict, list)) for v in node.values()):
                cols['-'.join(path)] = pd.Series(node, dtype=float)
            else:
                for key, value in node.items():
                    walk(value, [*path, key])

        for key, value in data.items():
            walk(value, [key])
        return pd.DataFrame(cols), units

    def consistency(self, res, conf, files, where) -> None:  # noqa: C901, PLR0912
        def bad(kind, text):
            res.violate('C04', kind, f'{where}: {text}')

        tables, csv, js, settings = self.wanted(conf)
        tab = {}
        for stem in ALL_STEMS:
            both = [n for n in files if n.split('.')[0] == stem]
            if not both:
                continue
            t = self.table(files, stem)
            tab[stem] = t
            if len(both) == 2:
                jf, ju = self.from_json(json.loads(files[stem + '.json']))
                jf.columns = [str(c).rstrip('-') for c in jf.columns]
                a, au = t
                if sorted(jf.columns) != sorted(a.columns):
                    bad('json-columns', f'{stem}: {sorted(jf.columns)[:5]} and {sorted(a.columns)[:5]}')
                    continue
                if (au is None) != (ju is None) or (au and au != ju):
                    bad('json-units', f'{stem}: {ju} and {au}')
                for c in a.columns:
                    x, y = a[c].to_numpy(float), jf[c].to_numpy(float)
                    if len(x) != len(y) or not np.array_equal(x, y, equal_nan=True):
                        if len(x) == len(y) and np.allclose(x, y, rtol=1e-12, atol=0, equal_nan=True):
                            continue
                        bad('json-values', f'{stem} {c}: {y[:5]} and {x[:5]}')
                        break
        # every sample has one row per realization, numbered from 0
        for stem in ('DEM_sample', 'CMP_sample', 'DMG_sample', 'DMG_grp', 'DV_repair_sample',
                     'DV_repair_grp', 'DV_repair_agg', 'DL_summary'):
            if conf.get('stage') and stem == 'DL_summary':
                continue  # a summary is about damage and losses
            if stem in tab:
                rows = [str(int(float(i))) for i in tab[stem][0].index]
                if sorted(rows, key=int) != [str(i) for i in range(conf['size'])]:
                    bad('realizations', f"{stem} has rows {rows[:8]} instead of {conf['size']}")
        for sample, stats in (('DEM_sample', 'DEM_stats'), ('CMP_sample', 'CMP_stats'),
                              ('DMG_sample', 'DMG_stats'), ('DMG_grp', 'DMG_grp_stats'),
                              ('DV_repair_sample', 'DV_repair_stats'),
                              ('DV_repair_grp', 'DV_repair_grp_stats'),
                              ('DV_repair_agg', 'DV_repair_agg_stats'),
                              ('DL_summary', 'DL_summary_stats')):
            if sample in tab and stats in tab:
                self.check_stats(bad, stats, tab[sample], tab[stats])
        self.check_groups(bad, conf, tab, settings)
        # units accompany every table that carries quantities
        for stem in tab:
            if stem.startswith(('DEM', 'CMP', 'DMG')) or stem in {
                'DV_repair_sample', 'DV_repair_stats', 'DV_repair_grp', 'DV_repair_grp_stats',
            }:
                t, u = tab[stem]
                if not u or any(c not in u or not isinstance(u[c], str) or not u[c]
                                for c in t.columns):
                    bad('no-units', f'{stem}: {u}')
        if 'DL_summary' in tab:
            s = tab['DL_summary'][0]
            if 'DV_repair_agg' in tab:
                a = tab['DV_repair_agg'][0]
                for c in a.columns:
                    if c not in s.columns or not np.allclose(
                            s[c].to_numpy(float), a[c].to_numpy(float), rtol=1e-9):
                        bad('summary-losses', f'{c} differs between the summary and DV_repair_agg')
            if 'DMG_sample' in tab:
                d = tab['DMG_sample'][0]
                for what in ('collapse', 'irreparable'):
                    cols = [c for c in d.columns if c.startswith(what + '-') and c.endswith('-1')]
                    val = d[cols].fillna(0).sum(axis=1) if cols else pd.Series(0.0, index=d.index)
                    if what not in s.columns or not np.allclose(s[what].to_numpy(float), val.to_numpy(float)):
                        bad('summary-damage', f'{what} differs between the summary and DMG_sample')
        if 'DV_repair_sample' in tab and 'DV_repair_agg' in tab and not conf.get('pair'):
            v = tab['DV_repair_sample'][0]
            a = tab['DV_repair_agg'][0]
            for dv in conf['dvs']:
                cols = [c for c in v.columns if c.startswith(dv + '-')]
                if not cols:
                    continue
                rep = [c for c in cols if c.split('-')[1] == 'replacement']
                other = [c for c in cols if c not in rep]
                anyrep = [c for c in v.columns if c.split('-')[1] == 'replacement']
                on = (v[anyrep].fillna(0) > 0).any(axis=1).to_numpy() if anyrep else False
                total = v[rep].fillna(0).sum(axis=1).to_numpy() + np.where(
                    on, 0.0, v[other].fillna(0).sum(axis=1).to_numpy())
                name = 'repair_time-sequential' if dv == 'Time' else f'repair_{dv.lower()}'
                if name not in a.columns:
                    bad('aggregate-missing', f'{name} is not among {list(a.columns)}')
                elif not np.allclose(a[name].to_numpy(float), total, rtol=1e-6, atol=1e-9):
                    bad('aggregate-total',
                        f'{name}: {a[name].tolist()[:4]} but the parts sum to {total.tolist()[:4]}')

    @staticmethod
    def check_stats(bad, name, sample, stats) -> None:
        t, s = sample[0], stats[0]
        if sorted(t.columns) != sorted(s.columns):
            bad('statistics-columns', f'{name}: {sorted(s.columns)[:5]} and {sorted(t.columns)[:5]}')
            return
        s.index = [str(i) for i in s.index]
        for c in t.columns:
            x = t[c].to_numpy(float)
            x = x[~np.isnan(x)]
            for stat, fn in (('count', len), ('mean', np.mean), ('min', np.min), ('max', np.max),
                             ('50%', np.median), ('10%', lambda v: np.percentile(v, 10)),
                             ('90%', lambda v: np.percentile(v, 90))):
                if stat not in s.index or not len(x):
                    continue
                want, have = float(fn(x)), float(s.loc[stat, c])
                if not np.isclose(want, have, rtol=1e-7, atol=1e-12):
                    bad('statistics', f'{name} {c} {stat} is {have}, the sample gives {want}')
                    return
            if len(x) > 1:
                want, have = float(np.std(x, ddof=1)), float(s.loc['std', c])
                if not np.isclose(want, have, rtol=1e-6, atol=1e-9 * max(1.0, np.abs(x).max())):
                    bad('statistics', f'{name} {c} std is {have}, the sample gives {want}')
                    return

    @staticmethod
    def check_groups(bad, conf, tab, settings) -> None:
        def split(df):
            return {tuple(c.split('-')): df[c].to_numpy(float) for c in df.columns}

        agg = settings['AggregateColocatedComponentResults']
        if 'DMG_sample' in tab and 'DMG_grp' in tab:
            d, g = split(tab['DMG_sample'][0]), split(tab['DMG_grp'][0])
            if settings['CondenseDS']:
                want = {}
                for k, v in d.items():
                    w = np.where(np.nan_to_num(v) > 0, int(k[-1]), 0)
                    key = (k[0], k[1])
                    want[key] = np.maximum(want.get(key, 0), w)
            else:
                want = {}
                for k, v in d.items():
                    want[k[0],] = want.get((k[0],), 0) + np.nan_to_num(v)
            if set(want) != set(g):
                bad('group-columns', f'DMG_grp has {sorted(g)[:6]}, DMG_sample gives {sorted(want)[:6]}')
            else:
                for k in want:
                    if not np.allclose(np.nan_to_num(g[k]), want[k], rtol=1e-7, atol=1e-12):
                        bad('group-values', f'DMG_grp {k}: {g[k][:5]}, DMG_sample gives {want[k][:5]}')
                        break
        if 'DV_repair_sample' in tab and 'DV_repair_grp' in tab:
            d, g = split(tab['DV_repair_sample'][0]), split(tab['DV_repair_grp'][0])
            want = {}
            for k, v in d.items():
                want[k[:3]] = want.get(k[:3], 0) + np.nan_to_num(v)
            if set(want) != set(g):
                bad('group-columns', f'DV_repair_grp has {sorted(g)[:6]} not {sorted(want)[:6]}')
            else:
                for k in want:
                    if not np.allclose(np.nan_to_num(g[k]), want[k], rtol=1e-7, atol=1e-9):
                        bad('group-values', f'DV_repair_grp {k}: {g[k][:5]} not {want[k][:5]}')
                        break
        # the quantities in the damage states add up to the components'
        if 'DMG_sample' in tab and 'CMP_sample' in tab:
            d, q = split(tab['DMG_sample'][0]), split(tab['CMP_sample'][0])
            total, na = {}, {}
            for k, v in d.items():
                total[k[:-1]] = total.get(k[:-1], 0) + np.nan_to_num(v)
                na[k[:-1]] = na.get(k[:-1], False) | np.isnan(v)
            # not applicable at all: the aggregation of instances may report zeros
            gone = np.zeros(conf['size'], dtype=bool)
            for k, v in d.items():
                if k[0] == 'collapse' and k[-1] == '1':
                    gone |= np.nan_to_num(v) > 0
            if any('_NA' in str(t) for t in (conf['tasks'] or {}).values()):
                gone[:] = True
            for k, v in total.items():
                na[k] |= gone & (v == 0)
            for k, v in total.items():
                if k not in q:
                    bad('unknown-component', f'{k} is in DMG_sample but not in CMP_sample')
                    break
                ok = np.isclose(v, q[k], rtol=1e-7, atol=1e-9) | na[k]
                if not ok.all():
                    bad('quantity-lost', f'{k}: damage states hold {v[:5]}, the asset {q[k][:5]}')
                    break
        _ = agg

    # --- reference model ---------------------------------------------------

    def semantics(self, res, plan, conf, files, where) -> None:  # noqa: C901, PLR0912, PLR0915
        def bad(kind, text):
            res.violate('C05', kind, f'{where}: {text}')

        need = ('DEM_sample', 'CMP_sample', 'DMG_sample')
        tab = {s: self.table(files, s) for s in (*need, 'DV_repair_sample', 'DV_repair_agg')}
        if any(tab[s] is None for s in need) or self.wanted(conf)[3]['CondenseDS'] is None:
            return
        agg_uid = self.wanted(conf)[3]['AggregateColocatedComponentResults']
        n = conf['size']
        dt, du = tab['DEM_sample']
        dem, lib = {}, plan['lib'] if conf['use_lib'] else {'frag': {}, 'conseq': {}, 'unit': {}}
        lib = conf.get('own_lib') or lib
        lib = conf['pair']['lib'] if conf.get('pair') else lib
        raw = conf['demand']
        keep = list(range(len(next(iter(raw['cols'].values())))))
        if conf['climit'] is not None:
            keep = [i for i in keep if all(
                max(v[i] for c, v in raw['cols'].items() if c.startswith(t)) <= x
                for t, x in conf['climit'].items())]
        for c in dt.columns:
            t, loc, d = c.split('-')
            vals = dt[c].to_numpy(float)
            if c in raw['cols']:
                src = np.array(raw['cols'][c])[keep]
                if du[c] != raw['units'][t]:
                    bad('demand-unit', f"{c} is in {du[c]}, the input is in {raw['units'][t]}")
                    return
                if conf['coupled']:
                    want = src[np.arange(n) % len(src)]
                    if not np.allclose(vals, want, rtol=1e-9):
                        bad('demand-order', f'{c}: {vals[:5]} instead of {want[:5]}')
                        return
                elif conf['calibration'] is None and not all(
                        np.isclose(src, v, rtol=1e-9).any() for v in vals):
                    bad('demand-values', f'{c}: {vals[:5]} are not values of the input')
                    return
            if t == 'ONE':
                continue
            dem[t, loc, d] = vals * scen.TO_LIB[t][du[c]]
        if conf['rid'] and not self.check_residual(bad, conf, dt):
            return
        missing = set(raw['cols']) - set(dt.columns)
        if missing:
            bad('demand-missing', f'{sorted(missing)[:5]}')
            return
        for c, names in conf.get('clone', {}).items():
            for name in names:
                if not np.array_equal(dt[c].to_numpy(float), dt[name].to_numpy(float)):
                    bad('demand-copy', f'{name} is not a copy of {c}')
                    return
        frag = {**lib['frag'], **conf['frag']}
        cmps = list(conf['cmps'])
        extra = {'collapse': {'edp': 'ONE', 'offset': 0, 'directional': 1, 'ths': [1e10],
                              'weights': [None], 'beta': None}}
        one = np.ones(n)

        def add(cid, loc, d):
            cmps.append({'id': cid, 'unit': 'ea', 'loc': loc, 'dir': d, 'q': 1.0,
                         'family': None, 'theta_1': None, 'blocks': 1})

        locs = ','.join(sorted({b for a, b, _ in dem if a == 'PID'}))
        dds = ','.join(sorted({c for a, _, c in dem if a == 'PID'}))
        if conf['collapse']:
            edp, med = conf['collapse']
            spec = {'edp': edp, 'offset': 0, 'directional': 1, 'ths': [med],
                    'weights': [None], 'beta': 1e-6}
            if edp == 'PID':
                extra['excessive.coll.DEM'] = spec
                add('excessive.coll.DEM', locs, dds)
            else:
                extra['collapse'] = spec
        if not conf.get('sampled'):
            add('collapse', '0', '1')
        if conf['irreparable']:
            extra['excessiveRID'] = {'edp': 'RID', 'offset': 0, 'directional': 1,
                                     'ths': [conf['irreparable']], 'weights': [None], 'beta': 1e-6}
            extra['irreparable'] = {**extra['collapse'], 'edp': 'ONE', 'ths': [1e10]}
            add('excessiveRID', locs, dds)
            add('irreparable', '0', '1')
        frag = {**frag, **extra}
        dem['ONE', '0', '1'] = one
        ids = {r['id'] for r in cmps}
        process = None
        if conf['process'] == 'FEMA P-58':
            process = {k: v for k, v in scen.P58.items() if k.split('_')[1] in ids}
        elif conf['process'] == 'User Defined':
            process = conf['tasks']
        elif conf['process'] in scen.HAZUS:
            full = {c.split('.')[0]: c for c in ids}
            process = {}
            for key, event in scen.HAZUS[conf['process']].items():
                number, source = key.split('_')
                source = full.get(source, source) if source in {'STR', 'LF'} else source
                if source in ids:
                    process[f'{number}_{source}'] = event
        nondir = conf['nondir'] or {'ALL': 1.2}
        offsets = conf.get('offset') or {'PFA': -1, 'PFV': -1}
        pgs = scen.groups(cmps, conf['stories'])
        known = {}
        if conf.get('occ'):
            # a limit state may lead to the state that means collapse
            seen = self.column(tab['DMG_sample'][0], 'collapse-', '-1') > 0
            known = {s: (seen, 4, 5) for s in [k.split('_')[1] for k in process if k.startswith('1_')]
                     if any(frag[s]['weights'])}
        exp = scen.damage(pgs, frag, dem, n, offsets, {'ALL': 1.2, **nondir}, process, conf['scaling'], known)
        good = ~exp.fuzzy
        res.stats['realizations compared'] += int(good.sum())
        res.stats['ambiguous realizations'] += int(exp.fuzzy.sum())
        # quantities
        qt = tab['CMP_sample'][0]
        qty = {tuple(c.split('-')): qt[c].to_numpy(float) for c in qt.columns}
        want_q = {}
        for pg, row in pgs:
            key = pg[:3] if agg_uid else pg
            want_q.setdefault(key, []).append((pg, row))
        if set(qty) != set(want_q):
            bad('asset-components', f'{sorted(set(qty) ^ set(want_q))[:6]}')
            return
        for key, rows in want_q.items():
            if all(r['family'] is None for _, r in rows):
                q = sum(np.array(r['q']) for _, r in rows)
                if not np.allclose(qty[key], q, rtol=1e-9):
                    bad('asset-quantity', f'{key}: {qty[key][:4]} instead of {q}')
                    return
        dm = tab['DMG_sample'][0]
        dmg = {tuple(c.split('-')): dm[c].to_numpy(float) for c in dm.columns}
        if not self.compare_damage(bad, conf, exp, want_q, qty, dmg, good, listall=conf['listall'] is not False):
            return
        if not conf['loss'] or tab['DV_repair_sample'] is None:
            return
        self.compare_losses(bad, conf, lib, cmps, dmg, tab, n, good, dem)

    @staticmethod
    def column(t, head, tail):
        cols = [c for c in t.columns if c.startswith(head) and c.endswith(tail)]
        return t[cols].fillna(0).sum(axis=1).to_numpy(float) if cols else np.zeros(len(t))

    @staticmethod
    def check_residual(bad, conf, dt) -> bool:
        """Residual drifts follow the peak drifts and the yield drift."""
        for c in dt.columns:
            t, loc, d = c.split('-')
            if t != 'PID' or d not in conf['rid']:
                continue
            name = f'RID-{loc}-{d}'
            if name not in dt.columns:
                bad('residual-missing', f'{name} is not among {list(dt.columns)[:6]}')
                return False
            pid, rid = dt[c].to_numpy(float), dt[name].to_numpy(float)
            y = conf['rid'][d]
            mid = np.where(pid < 4 * y, 0.3 * (pid - y), pid - 3 * y)
            zero = pid < y * (1 - 1e-9)
            # variation: lognormal with a dispersion of 0.2, never above the peak
            low, high = np.minimum(mid * np.exp(-1.4), pid), np.minimum(mid * np.exp(1.4), pid)
            ok = np.where(zero, rid == 0, (rid >= low * (1 - 1e-9)) & (rid <= high * (1 + 1e-9)))
            ok |= np.abs(pid / y - 1) < 1e-6
            if not ok.all():
                bad('residual-drift', f'{name}: {rid[:4]} for peak drifts {pid[:4]} and yield {y}')
                return False
        return True

    @staticmethod
    def compare_damage(bad, conf, exp, groups, qty, dmg, good, *, listall) -> bool:
        for key, rows in groups.items():
            mine = {int(k[-1]): np.nan_to_num(v) for k, v in dmg.items() if k[:-1] == key}
            live = [(pg, r) for pg, r in rows if pg in exp.ls]
            if not live:
                if mine:
                    bad('damage-without-model', f'{key} has damage but no damage model')
                    return False
                continue
            top = scen.n_ds(exp.frag[live[0][0]])
            # a state forced by a damage process may lie outside the model's range
            if listall and mine and not set(range(top + 1)) <= set(mine):
                bad('damage-states-missing', f'{key} lists {sorted(mine)} of {top + 1} states')
                return False
            for r in np.flatnonzero(good):
                have = {ds: v[r] for ds, v in mine.items() if v[r] > 0}
                if len(live) == 1:
                    allowed = exp.allowed(live[0][0], r)
                    q = qty[key][r]
                else:
                    allowed = set().union(*(exp.allowed(pg, r) for pg, _ in live))
                    q = sum(row['q'] for pg, row in live if exp.allowed(pg, r))
                if set(have) - allowed:
                    bad('damage-state', f'{key} realization {r} is in {sorted(have)}, expected {sorted(allowed)}')
                    return False
                if not allowed and have:
                    bad('damage-not-applicable', f'{key} realization {r}: {have}')
                    return False
                if allowed and not np.isclose(sum(have.values()), q, rtol=1e-7, atol=1e-9):
                    bad('damage-quantity', f'{key} realization {r}: {have} of {q}')
                    return False
                if len(live) == 1 and len(allowed) > 1:
                    blocks = live[0][1]['blocks']
                    for ds, v in have.items():
                        share = v / q * blocks if q else 0
                        if abs(share - round(share)) > 1e-6:
                            bad('damage-blocks', f'{key} realization {r}: {v} of {q} is not a number of {blocks} blocks')
                            return False
                if len(live) > 1:
                    for ds in allowed:
                        definite = sum(row['q'] for pg, row in live if exp.allowed(pg, r) == {ds})
                        if mine.get(ds, np.zeros(r + 1))[r] < definite - 1e-9:
                            bad('damage-quantity', f'{key} realization {r}: {have}, at least {definite} in {ds}')
                            return False
        known = set(groups)
        for k in dmg:
            if k[:-1] not in known:
                bad('damage-unknown', f'{k}')
                return False
        return True

    def compare_losses(self, bad, conf, lib, cmps, dmg, tab, n, good, dem) -> None:  # noqa: C901
        conseq = {**lib['conseq'], **{c: v for c, v in conf['conseq'].items()}}
        for c in conf['conseq']:
            # a custom entry replaces the library's per decision variable
            if c in lib['conseq']:
                conseq[c] = {**conf['conseq'][c], 'dv': dict(conf['conseq'][c]['dv'])}
                for dv, rows in lib['conseq'][c]['dv'].items():
                    if dv not in conseq[c]['dv']:
                        return  # a mixture with the library's units: not compared
        units = {r['id']: r['unit'] for r in cmps}
        cunits = {**lib['unit'], **{c: units.get(c, 'ea') for c in conf['conseq']}}
        for c, u in cunits.items():
            if units.get(c) is not None and (units[c] == 'ea') != (u == 'ea'):
                return
        if conf['map_rows']:
            mapping = [tuple(r) for r in conf['map_rows']]
        elif conf.get('occ'):
            mapping = [(c, f"{c.split('.')[0]}.{conf['occ']}") for c in units]
            mapping = [(c, m) for c, m in mapping if m in conseq]
        else:
            mapping = [(c, c) for c in units if c in conseq]
        eco = conf['eco'] or {'AcrossFloors': True, 'AcrossDamageStates': False}
        full = {k if len(k) == 5 else (*k[:3], '-', k[3]): v for k, v in dmg.items()}
        dist = {dv: fam for dv, (fam, t) in conf.get('rep_dist', {}).items() if t > 0.1}
        rep = {'per': 1, 'dv': {dv: [[v, dist.get(dv)]] for dv, v in conf['replacement'].items()}}
        if conf['process'] != 'FEMA P-58':
            # a replacement that is not described costs one loss ratio
            rep['dv'].setdefault('Cost', [[1.0, None]])
            rep['dv'].setdefault('Time', [[1.0, None]])
            if conf.get('occ') and 'Time' not in conf['replacement']:
                kind = 'LF' if 'Facilities' in conf['process'] else 'STR'
                rep['dv']['Time'] = [[conseq[f"{kind}.{conf['occ']}"]['dv']['Time'][4][0], None]]
        conseq['replacement'] = rep
        exp = scen.losses(
            full, conseq,
            [*mapping, *[(c, 'replacement') for c in ('collapse', 'irreparable') if c not in dict(mapping)]],
            {**cunits, **units}, conf['dvs'], eco)
        pair, loose = conf.get('pair'), {}
        if pair:
            for pg, _ in scen.groups([r for r in cmps if r['id'] == pair['flood']], conf['stories']):
                uid = '-' if self.wanted(conf)[3]['AggregateColocatedComponentResults'] else pg[3]
                key, lf = ('Cost', pg[0], pg[0], 'N/A', pg[1], pg[2], uid), pair['lf']
                at = dem['PIH', pg[1], pg[2]]
                exp[key] = (np.interp(at, lf['x'], lf['y']), False)
                # the points of a loss function are kept with six digits
                loose[key] = np.ptp([np.interp(at * f, lf['x'], lf['y']) for f in (1 - 2e-5, 1 + 2e-5)], axis=0)
        have = {}
        t = tab['DV_repair_sample'][0]
        if pair and not any('-N/A-' in c for c in t.columns) and all(
                c.split('-')[1] == pair['flood'] for c in t.columns):
            # nothing but the losses from flood: they have no damage states
            t = t.set_axis(['-'.join([*c.split('-')[:3], 'N/A', *c.split('-')[3:]]) for c in t.columns], axis=1)
        for c in t.columns:
            k = c.split('-')
            have[tuple(k) if len(k) == 7 else (*k, '-')] = np.nan_to_num(t[c].to_numpy(float))
        random = False
        for k, (v, noisy) in exp.items():
            got = have.pop(k, None)
            if got is None:
                if (v[good] > 0).any():
                    bad('loss-missing', f'{k}: expected {v[:4]}')
                    return
                continue
            random |= noisy
            if noisy:
                zero = (v == 0) & good
                if (got[zero] != 0).any() or (got < 0).any():
                    bad('loss-without-damage', f'{k}: {got[:4]} for {v[:4]}')
                    return
                # dispersion of 0.3: far outliers are errors of scale
                if (got[good] > 8 * v[good] + 1e-9).any():
                    bad('loss-scale', f'{k}: {got[good][:4]} around {v[good][:4]}')
                    return
                continue
            if not np.allclose(got[good], v[good], rtol=1e-5, atol=1e-9 + np.max(loose.get(k, 0.0))):
                bad('loss-value', f'{k}: {got[good][:4]} instead of {v[good][:4]}')
                return
        left = {k: v for k, v in have.items() if (v != 0).any()}
        if left:
            bad('loss-unexpected', f'{sorted(left)[:3]}')
            return
        if tab['DV_repair_agg'] is None:
            return
        real = {}
        for c in t.columns:
            k = c.split('-')
            real[tuple(k)] = np.nan_to_num(t[c].to_numpy(float))
        if pair:
            combine(pair, real)
        want = scen.aggregate(real, conf['dvs'], n)
        a = tab['DV_repair_agg'][0]
        for name, v in want.items():
            if name not in a.columns:
                bad('aggregate-missing', f'{name} is not in {list(a.columns)}')
                return
            if not np.allclose(a[name].to_numpy(float), v, rtol=1e-6, atol=1e-9):
                bad('aggregate-value', f'{name}: {a[name].tolist()[:4]} instead of {v.tolist()[:4]}')
                return
        # totals agree with the reference where nothing is random
        _ = random

    # --- shrinking ---------------------------------------------------------

    def shrink(self, plan):
        for ops in drop_chunks(plan['ops']):
            if ops:
                yield {**plan, 'ops': ops}
        for k, op in enumerate(plan['ops']):
            for key, small in (('faults', []), ('listing', 'sorted'), ('entry', 'call')):
                if op[key] != small:
                    ops = list(plan['ops'])
                    ops[k] = {**op, key: small}
                    yield {**plan, 'ops': ops}
        for k, conf in enumerate(plan['confs']):
            for key, small in (
                ('size', 1), ('rid', None), ('collapse', None), ('scaling', None),
                ('eco', None), ('nondir', None), ('sampling', None), ('climit', None),
                ('wanted', None), ('format', None), ('text', False), ('rho', None), ('offset', None),
                ('collapse_fixed', False), ('rep_dist', {}), ('event', ''),
            ):
                if conf.get(key, small) != small and not (key == 'rid' and conf['irreparable']):
                    confs = list(plan['confs'])
                    confs[k] = {**conf, key: small}
                    yield {**plan, 'confs': confs}
            if conf['irreparable']:
                confs = list(plan['confs'])
                confs[k] = {**conf, 'irreparable': None}
                yield {**plan, 'confs': confs}
            for rows in drop_chunks(conf['cmps']):
                if rows and not conf['scaling'] and not conf['tasks']:
                    confs = list(plan['confs'])
                    confs[k] = {**conf, 'cmps': rows}
                    yield {**plan, 'confs': confs}

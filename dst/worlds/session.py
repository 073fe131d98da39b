"""
Assessments driven step by step through the Python interface.

One plan holds the configuration of one or more assessments ("actors"), the
order in which their steps run in one process, and every fault.  Inputs are
data frames and dictionaries held by the user or files on the simulated disk.
"""

from __future__ import annotations

import contextlib
import copy
import io
import sys

import numpy as np

from dst import scen
from dst.clock import Clock
from dst.core import Result, SimCrash, SimRunaway, World, derive, digest, drop_chunks
from dst.fsim import Disk
from dst.seams import in_child, sandboxed
from dst.worlds.dlcalc import DlcalcWorld

CALIBRATED = ('empirical', 'lognormal', 'normal')
LF_DVS = ('Cost', 'Time', 'Carbon', 'Energy')
STEPS = ['demand', 'calibrate', 'generate', 'rid', 'expand', 'asset', 'quantities',
         'fragilities', 'damage', 'map', 'consequences', 'loss', 'scale', 'aggregate']

#: roughly how many functions of pelicun a step calls
CALLS = {'demand': 370, 'calibrate': 40, 'generate': 250, 'rid': 500, 'expand': 500, 'asset': 70,
         'quantities': 70, 'fragilities': 80, 'damage': 500, 'map': 18, 'consequences': 150, 'loss': 120,
         'scale': 8, 'aggregate': 50}


# --- generation --------------------------------------------------------------


def gen_lf(rng, dvs, edp):
    """A loss-function component."""
    lo, hi = scen.EDP[edp][2]
    out = {}
    for dv in dvs:
        if rng.random() < 0.1:
            continue
        n = rng.choice([2, 3, 4])
        xs = [0.0] + sorted(scen.sig(hi * rng.uniform(0.1, 2)) for _ in range(n - 2)) + [scen.sig(hi * 40)]
        ys = [0.0]
        for _ in xs[1:]:
            ys.append(scen.sig(ys[-1] + rng.uniform(10, 500), 5))
        if rng.random() < 0.3:
            ys[0] = 5.0
        out[dv] = {'x': xs, 'y': ys, 'family': rng.choice([None, None, 'lognormal', 'normal'])}
    return {'edp': edp, 'offset': 0 if edp != 'PFA' else rng.choice([0, 1]),
            'directional': 1 if edp == 'SA_1.0' else rng.choice([0, 1]), 'dv': out}


def lf_rows(lf):
    head = ['ID', 'Incomplete', 'Demand-Type', 'Demand-Unit', 'Demand-Offset', 'Demand-Directional',
            'DV-Unit', 'LossFunction-Family', 'LossFunction-Theta_0', 'LossFunction-Theta_1']
    rows = [head]
    for c, v in lf.items():
        name, unit, _ = scen.EDP[v['edp']]
        for dv, f in v['dv'].items():
            table = ','.join(f'{y:g}' for y in f['y']) + '|' + ','.join(f'{x:g}' for x in f['x'])
            rows.append([f'{c}-{dv}', 0, name, unit, v['offset'], v['directional'], scen.DV_UNIT[dv],
                         f['family'], table, 0.2 if f['family'] else None])
    return scen.with_expressions(rows, [v for v in lf.values() for _ in v['dv']])


def gen_expr(rng, f, *, positive):
    """A second demand of the same type and how the two are combined."""
    f['expr'] = {'text': rng.choice([t for t in sorted(scen.EXPRESSIONS) if not positive or '-' not in t]),
                 'offset': 1 - f['offset'] if f['edp'] != 'PID' else 0,
                 'directional': rng.choice([0, 1])}
    if f['edp'] == 'PID':
        f['expr']['directional'] = 1 - f['directional']


def gen_conf(rng, prop):  # noqa: C901, PLR0912, PLR0915
    stories = rng.choice([1, 2, 2, 3])
    dirs = rng.choice([['1'], ['1', '2'], ['1', '2']])
    dvs = rng.choice([['Cost', 'Time'], ['Cost', 'Time'], ['Cost'], ['Time', 'Cost'],
                      ['Cost', 'Time', 'Carbon', 'Energy'], ['Energy', 'Cost']])
    exact = prop == 'A04'
    cmps, frag, conseq = scen.gen_assets(rng, stories, dirs, max_cmp=4 if exact else 3, dvs=dvs, dispersion=not exact)
    ids = list(dict.fromkeys(r['id'] for r in cmps))
    lf = {}
    for c in ids[1:]:
        if rng.random() < 0.45:
            lf[c] = gen_lf(rng, dvs, frag[c]['edp'])
            if any(r['id'] == c and r['loc'] == 'roof' for r in cmps):
                lf[c]['offset'] = 0
            lf[c]['directional'] = frag[c]['directional'] = frag[c]['directional'] if frag[c]['edp'] == 'SA_1.0' else lf[c]['directional']
            del frag[c], conseq[c]
            for r in cmps:
                if r['id'] == c:
                    r['unit'] = 'ea'
    allfrag = {**frag, **{c: {**v, 'ths': [scen.EDP[v['edp']][2][1]]} for c, v in lf.items()}}
    if not any(v['dv'] for v in conseq.values()):
        c = sorted(conseq)[0]
        unit = next(r['unit'] for r in cmps if r['id'] == c)
        while not conseq[c]['dv']:
            conseq[c] = scen.gen_conseq(rng, frag[c], dvs, 'ea' if unit == 'ea' else 'ft2')
    combine = None
    if exact or rng.random() < 0.3:
        for c, f in [*frag.items(), *lf.items()]:
            if f['edp'] in {'PID', 'PFA', 'PFV'} and rng.random() < 0.15 and not any(
                    r['id'] == c and r['loc'] == 'roof' for r in cmps):
                gen_expr(rng, f, positive=c in lf)
    if exact:
        if len(lf) > 1 and rng.random() < 0.7:
            combine = gen_combine(rng, cmps, lf, stories, dirs, dvs)
        if len(frag) > 1 and rng.random() < 0.3:
            # damage of this component means that the asset is replaced
            c = rng.choice(sorted(frag))
            unit = next(r['unit'] for r in cmps if r['id'] == c)
            conseq['replacement'] = scen.gen_conseq(rng, frag[c], dvs, 'ea' if unit == 'ea' else 'ft2')
            del conseq[c]
        for r in cmps:
            r['family'] = r['theta_1'] = None
            r['q'] = max(r['q'], 1.0)
        noisy = 0.3 if rng.random() < 0.4 else 0.0
        for v in conseq.values():
            for rows in v['dv'].values():
                for row in rows:
                    row[1] = rng.choice(['lognormal', 'normal']) if rng.random() < noisy else None
        for v in lf.values():
            for f in v['dv'].values():
                f['family'] = 'lognormal' if rng.random() < noisy else None
    rows = rng.choice([3, 4, 5, 8, 12 if exact else 5])
    mode = rng.choice(['sample', 'sample', 'empirical', 'lognormal', 'normal', 'model'])
    if exact:
        mode = 'sample'
    demand = scen.gen_demands(rng, stories, dirs, allfrag, rows)
    size = rows if mode == 'sample' else rng.choice([3, 5, 10, 12])
    conf = {
        'stories': stories, 'dirs': dirs, 'dvs': dvs, 'cmps': cmps, 'frag': frag, 'conseq': conseq,
        'lf': lf, 'units': {r['id']: r['unit'] for r in cmps}, 'demand': demand, 'mode': mode, 'size': size,
        'preserve': mode == 'empirical' and rng.random() < 0.4,
        'clone': None,
        'rid': None, 'expand': None,
        'source': rng.choice(['frame', 'frame', 'file']),
        'seed': rng.randrange(1, 10_000),
        'sampling': rng.choice(['LHS', 'LHS', 'MonteCarlo', 'LHS_midpoint']),
        'listall': rng.random() < 0.3,
        'eco': {'AcrossFloors': rng.random() < 0.5, 'AcrossDamageStates': rng.random() < 0.5},
        'nondir': {'ALL': rng.choice([1.0, 1.2, 1.5])},
        'offset': rng.choice([{'PFA': -1, 'PFV': -1}, {'PFA': 0, 'PFV': 0}, {'PFA': -1, 'PFV': 0}]),
        'rho': rng.choice([0.0, 0.0, 0.6, 1.0]),
        'log': rng.random() < 0.5, 'verbose': rng.random() < 0.3,
        'process': gen_process(rng, frag, exact) if rng.random() < 0.5 else None,
        'batch': rng.choice([1, 2, 3, 1000]),
        'thresholds': gen_thresholds(rng, cmps, frag) if rng.random() < 0.25 else None,
        'policy': rng.choice(['fill', 'fill_all', None]),
        'map': None, 'scaling': None, 'replace': None, 'combine': combine,
    }
    names = list(demand['cols'])
    if mode in {'empirical', 'lognormal', 'normal', 'model'} and rng.random() < 0.2 and len(dirs) == 2:
        conf['clone'] = {n: [n[:-1] + '1', n[:-1] + '2'] for n in names if n.endswith('-1') and not n.startswith('SA')}
        for n in [n for n in names if n.endswith('-2')]:
            del demand['cols'][n]
    conf['calib'] = gen_calibration(rng, demand) if mode in CALIBRATED and rng.random() < 0.5 else None
    if not exact and rng.random() < (0.6 if prop == 'A06' else 0.3):
        # most consequences are random
        conf['rho'] = rng.choice([conf['rho'], 0.6])
        for v in conseq.values():
            for dv in v['dv']:
                family = rng.choice(['lognormal', 'normal', None])
                for row in v['dv'][dv]:
                    row[1] = family
    if rng.random() < 0.3:
        conf['rid'] = scen.sig(rng.uniform(0.005, 0.02))
    if rng.random() < 0.4:
        conf['expand'] = ['ONE', 1.0, 'ea']
    mapped = {}
    for c in ids:
        if c in frag and c not in conseq:
            mapped[c] = 'replacement'
            conf['units']['replacement'] = conf['units'][c]
        elif rng.random() < 0.3:
            same = [k for k in sorted(conseq) if k in conf['units'] and (not exact or compatible(conf, c, k))]
            mapped[c] = rng.choice(same) if c in conseq and same else c
        elif exact and c in lf and rng.random() < 0.4 and not combine and not any(
                r['id'] == c and r['loc'] == 'roof' for r in cmps):
            mapped[c] = rng.choice([k for k in sorted(lf) if (lf[k]['edp'] == 'SA_1.0') == (lf[c]['edp'] == 'SA_1.0')])
    if conf['policy'] is None:
        for c in ids:
            if rng.random() < 0.85 or c not in mapped:
                mapped.setdefault(c, c)
    conf['map'] = mapped or None
    if conf['policy'] is None and not mapped:
        conf['map'] = {c: c for c in ids}
    if rng.random() < 0.3:
        conf['scaling'] = [gen_scaling(rng, dvs, ids, stories) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < (0.7 if 'replacement' in conseq else 0.35):
        conf['replace'] = {dv: {'value': scen.sig({'Cost': 3000, 'Time': 8, 'Carbon': 150, 'Energy': 900}[dv] * rng.uniform(0.5, 20)),
                                'ratio': rng.choice([0.2, 0.4, 1.0, 2.0]),
                                'beta': None if rng.random() < 0.5 else rng.choice([0.3, 0.8])} for dv in dvs}
    if exact and conf['replace']:
        used = set(final_map(conf).values())
        have = {dv for c in used for m in (conseq, lf) for dv in m.get(c, {'dv': ()})['dv']}
        if set(dvs) - have:
            conf['replace'] = None
        elif 'Energy' in dvs:
            conf['replace']['Energy']['value'] *= BASE['Energy']
    return conf


def gen_calibration(rng, demand) -> dict:
    """Settings for some of the demand types; limits keep every value."""
    out = {}
    for t in ('PID', 'PFA', 'PFV', 'SA'):
        vals = [v for n, col in demand['cols'].items() if n.startswith(t) for v in col]
        if not vals or rng.random() < 0.5:
            continue
        out[t] = {'DistributionFamily': rng.choice(['lognormal', 'lognormal', 'empirical'])}
        if rng.random() < 0.5:
            out[t]['AddUncertainty'] = rng.choice([0.05, 0.2])
        if rng.random() < 0.5:
            out[t]['Unit'] = demand['units']['SA_1.0' if t == 'SA' else t]
            for name, x in (('TruncateUpper', max(vals) * 2), ('TruncateLower', min(vals) / 2)):
                if rng.random() < 0.6:
                    out[t][name] = rng.choice([scen.sig(x), f'{scen.sig(x)}'])
    return out


def final_map(conf) -> dict:
    out = dict(conf['map'] or {})
    if conf['policy']:
        for r in conf['cmps']:
            out.setdefault(r['id'], r['id'])
    return out


def compatible(conf, c, k) -> bool:
    """Whether the consequences of k describe quantities like those of c."""
    return (conf['units'][c] == 'ea') == (conf['units'][k] == 'ea')


def gen_combine(rng, cmps, lf, stories, dirs, dvs):
    """Loss-function components at the same places and how their losses combine."""
    ids = sorted(lf)
    loc = rng.choice(['all', '1', f'1--{stories}'])
    d = rng.choice([','.join(dirs), dirs[0]])
    for c in ids:
        if lf[c]['edp'] == 'SA_1.0':
            lf[c]['edp'], lf[c]['directional'] = 'PID', rng.choice([0, 1])
        rows = [r for r in cmps if r['id'] == c]
        cmps[:] = [r for r in cmps if not any(r is x for x in rows[1:])]
        rows[0]['loc'], rows[0]['dir'] = loc, d
    if len(ids) > 2 and rng.random() < 0.5:
        sets = [tuple(rng.sample(ids, 3))]
    else:
        sets = [tuple(rng.sample(ids, 2))]
    out = {}
    for dv in dvs:
        for names in sets:
            if all(dv in lf[c]['dv'] for c in names) and rng.random() < 0.8:
                axes = [[0.0, *sorted(rng.sample([200.0, 900.0, 3000.0, 9000.0], rng.choice([1, 2]))), 1e12]
                        for _ in names]
                shape = [len(a) for a in axes]
                cells = []
                for i in np.ndindex(*shape):
                    at = [a[k] for a, k in zip(axes, i)]
                    alone = sum(1 for k in i if k) <= 1
                    cells.append(sum(at) if alone else scen.sig(
                        max(at) + rng.random() * (sum(at) - max(at)), 8))
                out.setdefault(dv, []).append([list(names), shape, cells])
    return out or None


def gen_process(rng, frag, definite=False):
    ids = sorted(frag)
    # what random damage states trigger cannot be foreseen
    sources = [c for c in ids if not definite or not any(frag[c]['weights'])]
    if not sources:
        return None
    out = {}
    for k in range(1, rng.choice([1, 2, 3]) + 1):
        src = rng.choice(sources)
        ds = rng.randrange(1, scen.n_ds(frag[src]) + 1)
        others = [c for c in ids if c != src]
        target = 'ALL_NA'
        if others and rng.random() < 0.7:
            t = rng.choice(others)
            target = f't_DS{rng.randrange(0, scen.n_ds(frag[t]) + 1)}'.replace('t_', f'{t}_') if rng.random() < 0.8 else f'{t}_NA'
        out[f'{k}_{src}'] = {f'DS{ds}': target}
    return out


def gen_thresholds(rng, cmps, frag):
    pgs = [r for r in cmps if r['id'] in frag]
    out = {}
    for r in pgs:
        if rng.random() < 0.6:
            loc = rng.choice(['1', '2'])
            out[f"{r['id']}-{loc}-{r['dir'].split(',')[0]}"] = {
                rng.choice(['ALL', 'LS1']): rng.choice(['*1.3', '*0.7', '/1.5'])}
    return out or None


def gen_scaling(rng, dvs, ids, stories):
    loc = rng.choice([None, None, '1', f'1--{stories}'])
    return {'dv': rng.choice(dvs), 'cmp': rng.choice([None, *ids]), 'loc': loc,
            'dir': rng.choice([None, None, '1', '1--2']), 'x': rng.choice([0.5, 2.0, 3.0, 0.0])}


# --- one assessment ----------------------------------------------------------


def steps_of(conf, bulk=False) -> list[str]:
    if bulk:
        return ['all_damage', 'all_loss', *(['scale'] if conf['scaling'] else []), 'all_aggregate']
    out = ['demand']
    if conf['mode'] not in {'sample', 'model'}:
        out.append('calibrate')
    if conf['mode'] != 'sample':
        out.append('generate')
    for s in ('rid', 'expand'):
        if conf[s]:
            out.append(s)
    out += ['asset', 'quantities', 'fragilities', 'damage', 'map', 'consequences', 'loss']
    if conf['scaling']:
        out.append('scale')
    out.append('aggregate')
    return out


class Actor:
    """One assessment and the inputs its user holds."""

    def __init__(self, conf, disk, tag, shared=None) -> None:
        self.conf = conf
        self.disk = disk
        self.tag = tag
        self.asmnt = None
        self.agg = None
        self.inputs = shared if shared is not None else build_inputs(conf)

    def file(self, name):
        return self.disk.path('work', f'{self.tag}_{name}')

    def src(self, name):
        """A data source: the user's frame or a file."""
        if self.conf['source'] == 'file':
            return self.file(name + '.csv')
        return self.inputs['frames'][name]

    def config(self):
        out = self.inputs['config']
        if self.conf['log']:
            out = {**out, 'LogFile': self.file('log.txt')}
        return out

    def new(self) -> None:
        from pelicun.assessment import Assessment  # noqa: PLC0415

        self.asmnt = Assessment(self.config())

    def run(self, step, seed=None) -> None:
        if self.asmnt is None:
            self.new()
        if seed is not None:
            self.asmnt.options.seed = seed
        getattr(self, 's_' + step)()

    # steps

    def s_all_damage(self) -> None:
        conf, f = self.conf, self.inputs['frames']
        model, assets = self.file('model'), self.file('cmp')
        if conf['source'] != 'file':
            model = {'marginals': f['model_marginals'], 'correlation': f['model_correlation']}
            assets = {'marginals': f['cmp_marginals']}
        self.asmnt.calculate_damage(
            conf['stories'], self.inputs['generate'], model, assets, [self.src('frag')],
            self.inputs['process'], self.inputs['thresholds'],
            {'parameters': self.inputs['rid'], 'method': 'FEMA P58'} if conf['rid'] else None,
            dict(zip(('label', 'value', 'unit'), conf['expand'])) if conf['expand'] else None,
            conf['batch'])

    def s_all_loss(self) -> None:
        self.asmnt.calculate_loss(
            tuple(self.conf['dvs']), self.loss_sources(),
            self.src('map') if self.conf['map'] else None, self.conf['policy'])

    def s_all_aggregate(self) -> None:
        self.agg = self.asmnt.aggregate_loss(self.replacement(), self.inputs.get('combine'))

    def s_demand(self) -> None:
        if self.conf['mode'] == 'model':
            if self.conf['source'] == 'file':
                self.asmnt.demand.load_model(self.file('model'))
            else:
                f = self.inputs['frames']
                self.asmnt.demand.load_model(
                    {'marginals': f['model_marginals'], 'correlation': f['model_correlation']})
        else:
            self.asmnt.demand.load_sample(self.src('demand'))

    def s_calibrate(self) -> None:
        self.asmnt.demand.calibrate_model(self.inputs['calibration'])

    def s_generate(self) -> None:
        self.asmnt.demand.generate_sample(self.inputs['generate'])

    def s_rid(self) -> None:
        self.asmnt.demand.estimate_RID_and_adjust_sample(self.inputs['rid'])

    def s_expand(self) -> None:
        self.asmnt.demand.expand_sample(*self.conf['expand'])

    def s_asset(self) -> None:
        self.asmnt.stories = self.conf['stories']
        if self.conf['source'] == 'file':
            self.asmnt.asset.load_cmp_model(self.file('cmp'))
        else:
            self.asmnt.asset.load_cmp_model({'marginals': self.inputs['frames']['cmp_marginals']})

    def s_quantities(self) -> None:
        self.asmnt.asset.generate_cmp_sample()

    def s_fragilities(self) -> None:
        self.asmnt.damage.load_model_parameters(
            [self.src('frag')], set(self.asmnt.asset.list_unique_component_ids()), warn_missing=False)

    def s_damage(self) -> None:
        self.asmnt.damage.calculate(
            self.inputs['process'], self.conf['batch'], self.inputs['thresholds'])

    def s_map(self) -> None:
        self.asmnt.loss.decision_variables = tuple(self.conf['dvs'])
        source = None
        if self.conf['map']:
            source = self.src('map')
        self.asmnt.loss.add_loss_map(source, self.conf['policy'])

    def loss_sources(self) -> list:
        paths = []
        if self.conf['conseq']:
            paths.append(self.src('conseq'))
        if self.conf['lf'] and any(v['dv'] for v in self.conf['lf'].values()):
            paths.append(self.src('lf'))
        return paths

    def s_consequences(self) -> None:
        self.asmnt.loss.load_model_parameters(self.loss_sources())

    def s_loss(self) -> None:
        self.asmnt.loss.calculate()

    def s_scale(self) -> None:
        self.asmnt.loss.consequence_scaling(self.file('scaling.csv'))

    def s_aggregate(self) -> None:
        self.agg = self.asmnt.loss.aggregate_losses(
            self.replacement(), self.inputs.get('combine'), future=True)

    def replacement(self):
        from pelicun import uq  # noqa: PLC0415

        rep = self.conf['replace']
        if not rep:
            return None
        reg = uq.RandomVariableRegistry(self.asmnt.options.rng)
        for dv, v in rep.items():
            if v['beta']:
                reg.add_RV(uq.LogNormalRandomVariable(dv, theta=np.array([v['value'], v['beta']])))
            else:
                reg.add_RV(uq.DeterministicRandomVariable(dv, theta=np.array([v['value']])))
        return reg, {dv: v['ratio'] for dv, v in rep.items()}

    # results

    def results(self) -> dict:
        """Every result that exists, as frames."""
        a = self.asmnt
        out = {}
        if a is None:
            return out
        if a.demand.sample is not None:
            got, units = a.demand.save_sample(save_units=True)
            out['demand'] = got
            out['demand units'] = units.to_frame()
        if a.asset.cmp_sample is not None:
            got, units = a.asset.save_cmp_sample(save_units=True)
            out['quantities'] = got
            out['quantity units'] = units.to_frame()
        if a.damage.ds_model.sample is not None:
            got, units = a.damage.save_sample(save_units=True)
            out['damage'] = got
            out['damage units'] = units.to_frame()
            out['probabilities'] = a.damage.ds_model.probabilities()
        if a.loss.ds_model.sample is not None:
            out['loss'] = a.loss.ds_model.sample
        if a.loss.lf_model.sample is not None:
            out['lf loss'] = a.loss.lf_model.sample
        if a.loss.sample is not None and a.loss.loss_params is not None:
            try:
                out['losses'] = a.loss.save_sample()
            except Exception as e:  # noqa: BLE001
                out['losses'] = frame([['', 'error'], ['losses cannot be saved', raised(e)]])
        if self.agg is not None:
            out['aggregate'], out['exceedance'] = self.agg
        return out

    def texts(self) -> dict[str, str]:
        return {k: v.to_csv() for k, v in self.results().items()}


def frame(rows):
    import pandas as pd  # noqa: PLC0415

    return pd.read_csv(io.StringIO(scen.csv_text(rows)), index_col=0)


def tables(conf) -> dict[str, list]:
    """Rows of every input table of a configuration."""
    if 'spread' in conf:
        from dst.worlds.spread import tables_of  # noqa: PLC0415

        return tables_of(conf)
    out = {
        'demand': scen.demand_rows(conf['demand']),
        'cmp_marginals': scen.assign_rows(conf['cmps']),
    }
    if conf['frag']:
        out['frag'] = scen.frag_rows(conf['frag'])
    if conf['conseq']:
        out['conseq'] = scen.conseq_rows(conf['conseq'], conf['units'])
    if any(v['dv'] for v in conf['lf'].values()):
        out['lf'] = lf_rows(conf['lf'])
    if conf['map']:
        out['map'] = [['', 'Repair'], *[[k, v] for k, v in conf['map'].items()]]
    if conf['mode'] == 'model':
        cols = conf['demand']['cols']
        rows = [['', 'Family', 'Theta_0', 'Theta_1', 'Units']]
        for n, vals in cols.items():
            rows.append([n, 'lognormal', vals[0], 0.3, conf['demand']['units'][n.split('-')[0]]])
        out['model_marginals'] = rows
        names = list(cols)
        out['model_correlation'] = [['', *names], *[
            [a, *[1.0 if a == b else 0.5 for b in names]] for a in names]]
    if conf['scaling']:
        out['scaling'] = [['Decision Variable', 'Component', 'Location', 'Direction', 'Scale Factor'],
                          *[[s['dv'], s['cmp'], s['loc'], s['dir'], s['x']] for s in conf['scaling']]]
    return out


def build_inputs(conf) -> dict:
    out = {'frames': {}}
    for name, rows in tables(conf).items():
        if name != 'scaling' and conf['source'] != 'file':
            out['frames'][name] = frame(rows)
    out['config'] = {
        'Seed': conf['seed'],
        'Sampling': {'SamplingMethod': conf['sampling']},
        'ListAllDamageStates': conf['listall'],
        'DemandOffset': dict(conf['offset']),
        'NonDirectionalMultipliers': dict(conf['nondir']),
        'RepairCostAndTimeCorrelation': conf['rho'],
        'EconomiesOfScale': dict(conf['eco']),
        'Verbose': conf['verbose'],
    }
    family = conf['mode'] if conf['mode'] in {'lognormal', 'normal', 'empirical'} else 'lognormal'
    out['calibration'] = {'ALL': {'DistributionFamily': family, 'AddUncertainty': 0.1}} if family != 'empirical' \
        else {'ALL': {'DistributionFamily': 'empirical'}}
    if family == 'normal':
        # keep values that damage a component positive
        out['calibration']['ALL']['AddUncertainty'] = 0.0001
    out['calibration'].update(copy.deepcopy(conf['calib'] or {}))
    gen = {'SampleSize': conf['size']}
    if conf['preserve']:
        gen['PreserveRawOrder'] = True
    if conf['clone']:
        gen['DemandCloning'] = copy.deepcopy(conf['clone'])
    out['generate'] = gen
    out['rid'] = {'yield_drift': conf['rid']}
    out['combine'] = {
        dv: {tuple(names): np.array(cells).reshape(shape) for names, shape, cells in sets}
        for dv, sets in conf['combine'].items()} if conf['combine'] else None
    out['process'] = copy.deepcopy(conf['process'])
    out['thresholds'] = copy.deepcopy(conf['thresholds'])
    return out


# --- the world ---------------------------------------------------------------


def raised(e) -> str:
    """Where in pelicun an error came from."""
    import traceback  # noqa: PLC0415

    frames = [f for f in traceback.extract_tb(e.__traceback__) if 'pelicun' in f.filename]
    where = [f'{f.name}' for f in frames[-4:]]
    return f'{type(e).__name__}: {str(e)[:200]} in {" > ".join(where)}'


def frozen(obj):
    """A value that changes whenever the object changes."""
    import pandas as pd  # noqa: PLC0415

    if isinstance(obj, (pd.DataFrame, pd.Series)):
        return ('frame', obj.to_csv(), str(obj.dtypes) if isinstance(obj, pd.DataFrame) else str(obj.dtype),
                repr(list(obj.index.names)), repr(list(getattr(obj, 'columns', obj).names)) if isinstance(obj, pd.DataFrame) else '')
    if isinstance(obj, dict):
        return ('dict', tuple((repr(k), frozen(v)) for k, v in obj.items()))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple(frozen(v) for v in obj))
    if isinstance(obj, np.ndarray):
        return ('array', obj.tobytes(), obj.shape)
    return repr(obj)


def spoil(obj) -> None:
    """What a user may do with an object of theirs: overwrite all of it."""
    import pandas as pd  # noqa: PLC0415

    if isinstance(obj, pd.DataFrame):
        for k in range(obj.shape[1]):
            col = obj.iloc[:, k]
            obj.isetitem(k, np.full(len(col), -7.0))
        values = obj.to_numpy()
        if values.flags.writeable and values.size:
            values[...] = -7.0
    elif isinstance(obj, pd.Series):
        if len(obj):
            obj.iloc[:] = 'spoiled' if obj.dtype == object else -7.0
    elif isinstance(obj, dict):
        for k, v in list(obj.items()):
            if isinstance(v, (dict, list, pd.DataFrame)):
                spoil(v)
            else:
                obj[k] = -7
        obj['spoiled'] = -7
    elif isinstance(obj, list):
        obj[:] = ['spoiled']


def deep_spoil_frame(obj) -> None:
    """Overwrite the memory of a frame in place."""
    import pandas as pd  # noqa: PLC0415

    if isinstance(obj, pd.DataFrame):
        for block in obj._mgr.blocks:  # noqa: SLF001
            values = block.values
            if isinstance(values, np.ndarray) and values.flags.writeable:
                values[...] = 0 if values.dtype == bool else -7


class SessionWorld(World):
    name = 'session'
    real = [
        'pelicun/assessment.py (Assessment), base.py, file_io.py, uq.py',
        'demand, asset, damage and loss models',
        'pandas reading and writing of every file',
    ]
    stubs = [
        'file-system call outcomes and directory order below the scratch root',
        'clock, operating-system entropy of random generators',
        'the user who drives the steps',
    ]
    run_bound_s = 200

    def setup(self) -> None:
        import pelicun.assessment  # noqa: F401, PLC0415
        import pelicun.tools.DL_calculation  # noqa: F401, PLC0415

    def imports(self) -> None:
        self.setup()

    def prepare_for(self, prop) -> None:
        if prop == 'A06':
            from dst import hashes  # noqa: PLC0415

            hashes.start()

    # --- generation --------------------------------------------------------

    def generate(self, rng, prop, index):  # noqa: ARG002
        plan = {'prop': prop, 'salt': rng.randrange(1 << 30)}
        getattr(self, 'gen_' + prop)(rng, plan)
        return plan

    def gen_A01(self, rng, plan) -> None:  # noqa: N802
        confs = [gen_conf(rng, 'A01')]
        if rng.random() < 0.7:
            confs.append(sibling(rng, confs[0]) if rng.random() < 0.6 else gen_conf(rng, 'A01'))
        actors = [{'conf': k, 'shared': None} for k in range(len(confs))]
        if rng.random() < 0.6 or len(actors) == 1:
            actors.append({'conf': 0, 'shared': 0 if rng.random() < 0.7 else None})
        if rng.random() < 0.2:
            # one call for several steps, instead of each step
            for conf in confs:
                conf['mode'], conf['calib'], conf['preserve'] = 'model', None, False
            for a in actors:
                a['bulk'] = rng.random() < 0.6
        plan['confs'] = confs
        plan['actors'] = actors
        left = [len(steps_of(confs[a['conf']], a.get('bulk'))) for a in actors]
        order = []
        style = rng.choice(['mixed', 'mixed', 'bursts', 'serial'])
        while any(left):
            k = rng.choice([i for i, n in enumerate(left) if n])
            burst = {'mixed': 1, 'bursts': rng.randrange(1, 6), 'serial': 99}[style]
            for _ in range(min(burst, left[k])):
                order.append(k)
                left[k] -= 1
        plan['order'] = order
        plan['pokes'] = [rng.random() < 0.15 for _ in order]

    # --- common machinery ----------------------------------------------------

    @staticmethod
    def disk_for(confs, tags) -> Disk:
        import os  # noqa: PLC0415

        disk = Disk(max_events=2_000_000)
        with disk.quiet():
            for sub in ('work', 'tmp'):
                os.mkdir(disk.path(sub))
        for conf, tag in zip(confs, tags):
            for n, rows in tables(conf).items():
                disk.put(f'work/{tag}_{n}.csv', scen.csv_text(rows).encode())
        disk.classify = lambda rel: 'log' if 'log' in rel else ('ckpt' if 'ckpt' in rel else 'in')
        return disk

    def execute(self, plan):
        res = Result()
        getattr(self, 'run_' + plan['prop'])(plan, res)
        return res

    def shrink(self, plan):
        yield from getattr(self, 'shrink_' + plan['prop'], lambda p: ())(plan)

    def shrink_confs(self, plan):
        """Plans with simpler configurations."""
        for k, conf in enumerate(plan['confs']):
            for key in ('rid', 'expand', 'scaling', 'replace', 'process', 'thresholds', 'clone', 'combine'):
                if conf.get(key):
                    yield self.with_conf(plan, k, {**conf, key: None})
            for key, value in (('log', False), ('verbose', False), ('rho', 0.0), ('listall', False),
                               ('source', 'frame'), ('batch', 1000)):
                if conf[key] != value:
                    yield self.with_conf(plan, k, {**conf, key: value})
            if len(conf['cmps']) > 1:
                for i in range(len(conf['cmps'])):
                    rows = conf['cmps'][:i] + conf['cmps'][i + 1:]
                    ids = {r['id'] for r in rows}
                    small = {**conf, 'cmps': rows,
                             'frag': {c: v for c, v in conf['frag'].items() if c in ids},
                             'conseq': {c: v for c, v in conf['conseq'].items() if c in ids},
                             'lf': {c: v for c, v in conf['lf'].items() if c in ids}}
                    if small['map']:
                        small['map'] = {a: b for a, b in conf['map'].items() if a in ids and b in ids} or None
                    if small['frag'] and (small['map'] or small['policy']):
                        small['process'] = None
                        yield self.with_conf(plan, k, small)

    @staticmethod
    def with_conf(plan, k, conf):
        confs = list(plan['confs'])
        confs[k] = conf
        return {**plan, 'confs': confs}

    def record(self, res, conf, outcome, texts) -> None:
        res.event(outcome, digest(texts))
        res.state(conf['mode'], conf['source'], outcome, sorted(texts), conf['policy'],
                  bool(conf['lf']), bool(conf['process']), bool(conf['replace']))

    # --- A01: assessments in one process --------------------------------------

    def interleaved(self, plan):
        tags = [f'a{k}' for k in range(len(plan['actors']))]
        confs = [plan['confs'][a['conf']] for a in plan['actors']]
        disk = self.disk_for(confs, tags)
        clock = Clock()
        try:
            actors = []
            for a, conf, tag in zip(plan['actors'], confs, tags):
                shared = None if a['shared'] is None else actors[a['shared']].inputs
                actors.append(Actor(conf, disk, tag, shared))
            todo = [steps_of(c, a.get('bulk')) for a, c in zip(plan['actors'], confs)]
            failed = [None] * len(actors)
            with sandboxed(disk, clock, plan['salt'], lib=None):
                for k, poke in zip(plan['order'], plan['pokes']):
                    if failed[k] or not todo[k]:
                        continue
                    step = todo[k].pop(0)
                    if poke:
                        np.random.random(3)
                        np.random.seed(5)
                    try:
                        actors[k].run(step)
                    except Exception as e:  # noqa: BLE001
                        failed[k] = (step, raised(e))
                out = []
                for k, actor in enumerate(actors):
                    texts = actor.texts()
                    log = disk.tree('work')
                    logs = {n.split('_', 1)[1]: v.decode() for n, v in log.items()
                            if n.startswith(tags[k] + '_log')}
                    out.append({'failed': failed[k], 'texts': texts, 'logs': logs})
            return out, disk.events
        finally:
            disk.close()

    def alone(self, conf, tag, salt, start='2025-03-10T09:00:00', listing='sorted', state='alone'):
        disk = self.disk_for([conf], [tag])
        try:
            actor = Actor(conf, disk, tag)
            failed = None
            with sandboxed(disk, Clock(start), salt, lib=None, state=state, listing=listing):
                for step in steps_of(conf):
                    try:
                        actor.run(step)
                    except Exception as e:  # noqa: BLE001
                        failed = (step, raised(e))
                        break
                texts = actor.texts()
            logs = {n.split('_', 1)[1]: v.decode() for n, v in disk.tree('work').items()
                    if n.startswith(tag + '_log')}
            return {'failed': failed, 'texts': texts, 'logs': logs}
        finally:
            disk.close()

    def run_A01(self, plan, res) -> None:  # noqa: N802
        outs, events = in_child(self.interleaved, plan)
        res.stats['file calls'] += events
        refs = {}
        for k, (a, got) in enumerate(zip(plan['actors'], outs)):
            conf = plan['confs'][a['conf']]
            key = (a['conf'], conf['log'] and k)
            if key not in refs:
                refs[key] = in_child(self.alone, conf, f'a{k}', plan['salt'])
            ref = dict(refs[key])
            res.stats['assessments'] += 1
            res.stats['failed' if got['failed'] else 'finished'] += 1
            self.record(res, conf, got['failed'], got['texts'])
            if a.get('bulk'):
                res.stats['assessments by few calls'] += 1
                # the same error, of another step
                for o in (got, ref):
                    o['failed'] = o['failed'] and o['failed'][1].split(' in ')[0]
                    o['logs'] = {}
            if got['failed'] != ref['failed']:
                res.violate('A01', 'outcome', f'assessment {k}: {got["failed"]} but alone: {ref["failed"]}')
                continue
            d = first_difference(got['texts'], ref['texts'])
            if d:
                res.violate('A01', 'results', f'assessment {k} among others differs from the same one alone: {d}')
            d = first_difference(got['logs'], ref['logs'])
            if d:
                res.violate('A01', 'log', f'log of assessment {k} among others differs from the same one alone: {d}')
        res.sim_seconds += len(plan['order'])
        res.nontrivial = len(outs) > 1 and any(not o['failed'] for o in outs)

    def shrink_A01(self, plan):  # noqa: N802
        for k in range(len(plan['actors'])):
            if len(plan['actors']) > 1:
                actors = [dict(a) for i, a in enumerate(plan['actors']) if i != k]
                for a in actors:
                    if a['shared'] == k:
                        a['shared'] = None
                    elif a['shared'] is not None and a['shared'] > k:
                        a['shared'] -= 1
                pairs = [(o - (o > k), p) for o, p in zip(plan['order'], plan['pokes']) if o != k]
                yield {**plan, 'actors': actors, 'order': [o for o, _ in pairs], 'pokes': [p for _, p in pairs]}
        if any(a.get('bulk') for a in plan['actors']):
            for k, a in enumerate(plan['actors']):
                if a['bulk']:
                    n = len(steps_of(plan['confs'][a['conf']]))
                    order = [o for o in plan['order'] if o != k] + [k] * n
                    yield {**plan, 'actors': [{**b, 'bulk': b['bulk'] and i != k} for i, b in enumerate(plan['actors'])],
                           'order': order, 'pokes': [False] * len(order)}
        if any(plan['pokes']):
            yield {**plan, 'pokes': [False] * len(plan['pokes'])}
        serial = sorted(plan['order'])
        if serial != plan['order']:
            yield {**plan, 'order': serial}
        yield from self.shrink_confs(plan)

    # --- A05: what the user holds ----------------------------------------------

    def gen_A05(self, rng, plan) -> None:  # noqa: N802
        plan['kind'] = 'calc' if rng.random() < 0.2 else 'steps'
        plan['spoil_in'] = rng.random() < 0.7
        if plan['kind'] == 'calc':
            dl = DlcalcWorld().generate(rng, 'C05', 0)
            dl['confs'] = dl['confs'][:1]
            dl['ops'] = [{'conf': 0, 'out': None, 'entry': 'call', 'listing': 'sorted', 'faults': []}]
            plan['dl'] = dl
            return
        conf = gen_conf(rng, 'A05')
        if rng.random() < 0.7:
            conf['source'] = 'frame'
        plan['confs'] = [conf]
        plan['spoil_out'] = rng.random() < 0.7
        plan['peek'] = rng.random() < 0.8

    #: inputs that each step takes
    TAKES = {
        'demand': ['demand', 'model_marginals', 'model_correlation', 'config'],
        'calibrate': ['calibration'], 'generate': ['generate'], 'rid': ['rid'],
        'asset': ['cmp_marginals'], 'fragilities': ['frag'],
        'damage': ['process', 'thresholds'], 'map': ['map'], 'consequences': ['conseq', 'lf'],
        'aggregate': ['combine'],
    }

    def held(self, plan):
        conf = plan['confs'][0]
        disk = self.disk_for([conf], ['a'])
        clock = Clock()
        touched = []
        try:
            actor = Actor(conf, disk, 'a')
            failed = None
            with sandboxed(disk, clock, plan['salt'], lib=None):
                for step in steps_of(conf):
                    before = frozen(actor.inputs)
                    files = {n: v for n, v in disk.tree('work').items() if 'log' not in n}
                    try:
                        actor.run(step)
                    except Exception as e:  # noqa: BLE001
                        failed = (step, raised(e))
                        break
                    if frozen(actor.inputs) != before:
                        touched.append((step, changed_parts(before, frozen(actor.inputs))))
                    if {n: v for n, v in disk.tree('work').items() if 'log' not in n} != files:
                        touched.append((step, 'files'))
                    if plan['peek'] or plan['spoil_out']:
                        before = frozen(actor.inputs)
                        results = actor.results()
                        if frozen(actor.inputs) != before:
                            touched.append((step + ' (results)', changed_parts(before, frozen(actor.inputs))))
                        if plan['spoil_out']:
                            for name, f in results.items():
                                if name not in INTERNAL:
                                    deep_spoil_frame(f)
                                    spoil(f)
                    if plan['spoil_in']:
                        for name in self.TAKES.get(step, ()):
                            for where in (actor.inputs, actor.inputs['frames']):
                                if where.get(name) is not None:
                                    deep_spoil_frame(where[name])
                                    spoil(where[name])
                    if plan['spoil_out'] and step == 'aggregate':
                        actor.run(step)
                texts = actor.texts()
            return {'failed': failed, 'texts': texts, 'touched': touched, 'events': disk.events}
        finally:
            disk.close()

    #: the stages that a script calls, which take objects of the user
    SCRIPT = ('__init__', 'calculate_demand', 'calculate_asset', 'calculate_damage',
              'calculate_loss', 'load_consequence_info')

    def held_by_script(self, plan):
        """Run a calculation while watching what each stage is given."""
        import inspect  # noqa: PLC0415

        from pelicun.assessment import DLCalculationAssessment as Calc  # noqa: PLC0415

        touched, world, dl = [], DlcalcWorld(), plan['dl']

        def watched(name, stage):
            sig = inspect.signature(stage)

            def run(this, *args, **kwargs):
                if plan['spoil_in']:
                    args, kwargs = copy.deepcopy(args), copy.deepcopy(kwargs)
                given = sig.bind(this, *args, **kwargs).arguments
                given = {k: v for k, v in given.items() if k != 'self'}
                before = {k: frozen(v) for k, v in given.items()}
                try:
                    return stage(this, *args, **kwargs)
                finally:
                    changed = [k for k, v in given.items() if frozen(v) != before[k]]
                    if changed:
                        touched.append((name, ', '.join(changed)))
                    if plan['spoil_in']:
                        for v in given.values():
                            spoil(v)
            return run

        disk = world.prepare(dl, only=0)
        old = {n: Calc.__dict__.get(n) for n in self.SCRIPT}
        for n in self.SCRIPT:
            setattr(Calc, n, watched(n, getattr(Calc, n)))
        op, failed = dl['ops'][0], None
        try:
            try:
                world.calculate(disk, Clock(), dl['confs'][0], 0, op, world.salt(dl, op))
            except Exception as e:  # noqa: BLE001
                failed = type(e).__name__
            return {'failed': failed, 'files': world.outputs(disk, op), 'touched': touched,
                    'events': disk.events}
        finally:
            for n, stage in old.items():
                if stage is None:
                    delattr(Calc, n)
                else:
                    setattr(Calc, n, stage)
            disk.close()

    def run_A05_calc(self, plan, res) -> None:  # noqa: N802
        dl = plan['dl']
        op = dl['ops'][0]
        got = in_child(self.held_by_script, plan)
        ref = in_child(DlcalcWorld().alone, dl, 0, op, DlcalcWorld.salt(dl, op))
        res.stats['calculations'] += 1
        res.stats['file calls'] += got['events']
        res.stats['failed' if got['failed'] else 'finished'] += 1
        res.event(plan['spoil_in'], got['failed'], got['touched'],
                  digest({n: digest(v.hex()) for n, v in got['files'].items()}))
        res.state(sorted(got['files']), bool(dl['confs'][0]['rid']), dl['confs'][0]['process'])
        for stage, what in got['touched']:
            res.violate('A05', f'touched-{stage}', f'{stage} changed its arguments: {what}')
        if got['failed'] != ref['error']:
            res.violate('A05', 'outcome', f'{got["failed"]} instead of {ref["error"]} after the user changed their objects')
        elif not got['failed']:
            wrong = sorted(n for n in {*got['files'], *ref['files']} if got['files'].get(n) != ref['files'].get(n))
            if wrong:
                res.violate('A05', 'results', f'results changed with objects of the user: {wrong}')
        res.sim_seconds += 60
        res.nontrivial = not got['failed']

    def run_A05(self, plan, res) -> None:  # noqa: N802
        if plan.get('kind', 'steps') == 'calc':
            self.run_A05_calc(plan, res)
            return
        got = in_child(self.held, plan)
        conf = plan['confs'][0]
        ref = in_child(self.alone, conf, 'a', plan['salt'])
        res.stats['assessments'] += 1
        res.stats['file calls'] += got['events']
        res.stats['failed' if got['failed'] else 'finished'] += 1
        self.record(res, conf, got['failed'], got['texts'])
        res.event(plan['spoil_in'], plan['spoil_out'], got['touched'])
        for step, what in got['touched']:
            res.violate('A05', f'touched-{step}', f'step {step} changed the objects of the user: {what}')
        if plan['spoil_out'] and conf['replace'] and any(v['beta'] for v in conf['replace'].values()):
            got['texts'] = {k: v for k, v in got['texts'].items() if k not in {'aggregate', 'exceedance'}}
            ref['texts'] = {k: v for k, v in ref['texts'].items() if k not in {'aggregate', 'exceedance'}}
        if got['failed'] != ref['failed']:
            res.violate('A05', 'outcome', f'{got["failed"]} instead of {ref["failed"]} after the user changed their objects')
        else:
            d = first_difference(got['texts'], ref['texts'])
            if d:
                res.violate('A05', 'results', f'results changed with objects of the user: {d}')
        res.sim_seconds += len(steps_of(conf))
        res.nontrivial = not got['failed'] and (plan['spoil_in'] or plan['spoil_out'])

    def shrink_A05(self, plan):  # noqa: N802
        if plan.get('kind', 'steps') == 'calc':
            if plan['spoil_in']:
                yield {**plan, 'spoil_in': False}
            for dl in DlcalcWorld().shrink(plan['dl']):
                yield {**plan, 'dl': dl}
            return
        for key in ('spoil_in', 'spoil_out', 'peek'):
            if plan[key]:
                yield {**plan, key: False}
        yield from self.shrink_confs(plan)

    # --- A06: the same configuration anywhere ----------------------------------

    def gen_A06(self, rng, plan) -> None:  # noqa: N802
        from dst.hashes import SEEDS  # noqa: PLC0415

        def where():
            return {
                'hash': rng.choice(SEEDS), 'salt': rng.randrange(1 << 30), 'state': rng.randrange(1 << 30),
                'start': rng.choice(['2025-03-10T09:00:00', '1999-12-31T23:59:59', '2031-07-04T00:00:00']),
                'listing': rng.choice(['sorted', 'reversed', rng.randrange(1 << 20)]),
                'env': {'TZ': rng.choice(['UTC', 'Asia/Tokyo', 'America/Los_Angeles']),
                        'LANG': rng.choice(['C', 'tr_TR.UTF-8', 'de_DE.UTF-8']),
                        'COLUMNS': rng.choice([None, '20', '200']),
                        'HOME': rng.choice(['/nonexistent', '/'])},
            }

        plan['places'] = [where() for _ in range(rng.choice([1, 2, 2, 3]))]
        plan['kind'] = rng.choice(['steps', 'steps', 'tool'])
        if plan['kind'] == 'steps':
            plan['confs'] = [gen_conf(rng, 'A06')]
            if rng.random() < 0.15:
                plan['confs'][0]['seed'] = 0
            for p in plan['places']:
                p['change'] = {k: v for k, v in (
                    ('log', rng.random() < 0.5), ('verbose', rng.random() < 0.5),
                    ('source', rng.choice(['frame', 'file']))) if rng.random() < 0.5}
        else:

            plan['confs'] = []
            plan['tool'] = DlcalcWorld().generate(rng, 'C04', 0)
            plan['tool']['confs'][0]['seed'] = rng.choice([0, rng.randrange(1, 1000)])
            for p in plan['places']:
                p['op'] = {**plan['tool']['ops'][0], 'listing': p['listing'],
                           'out': rng.choice([0, 1]), 'entry': rng.choice(['call', 'main'])}

    def tool_alone(self, plan, op, salt, start, state):

        got = DlcalcWorld().alone(plan, 0, op, salt, state, start=start, listing=op['listing'])
        return {'failed': got['error'], 'texts': {k: v.decode('latin1') for k, v in got['files'].items()}}

    def run_A06(self, plan, res) -> None:  # noqa: N802
        from dst import hashes  # noqa: PLC0415

        if plan['kind'] == 'steps':
            conf = plan['confs'][0]
            ref = in_child(self.alone, conf, 'a', plan['salt'])
            self.record(res, conf, ref['failed'], ref['texts'])
        else:
            tool = plan['tool']
            ref = in_child(self.tool_alone, tool, {**tool['ops'][0], 'out': 0}, plan['salt'],
                           '2025-03-10T09:00:00', 'alone')
            res.event(ref['failed'], digest(ref['texts']))
            if ref['failed']:
                res.stats['tool failed'] += 1
            res.state('tool', ref['failed'], sorted(ref['texts']))
        res.stats['failed' if ref['failed'] else 'finished'] += 1
        for k, p in enumerate(plan['places']):
            if plan['kind'] == 'steps':
                got = hashes.call(p['hash'], 'session', 'alone', {**conf, **p['change']}, 'a',
                                  p['salt'], p['start'], p['listing'], p['state'], env=p['env'])
            else:
                got = hashes.call(p['hash'], 'session', 'tool_alone', tool, p['op'],
                                  p['salt'], p['start'], p['state'], env=p['env'])
            res.stats['repeated elsewhere'] += 1
            res.stats[f"hash seed {p['hash']}"] += 1
            res.event(k, p['hash'], got['failed'], digest(got['texts']))
            if got['failed'] != ref['failed']:
                res.violate('A06', 'outcome', f'{got["failed"]} instead of {ref["failed"]} at {p}')
                continue
            d = first_difference(got['texts'], ref['texts'])
            if d:
                res.violate('A06', 'results', f'the same configuration and seed, other results at {p}: {d}')
        res.sim_seconds += 20 * len(plan['places'])
        res.nontrivial = not ref['failed']

    def shrink_A06(self, plan):  # noqa: N802
        if len(plan['places']) > 1:
            for p in plan['places']:
                yield {**plan, 'places': [p]}
        for k, p in enumerate(plan['places']):
            for key, value in (('change', {}), ('salt', plan['salt']), ('state', 'alone'), ('listing', 'sorted'),
                               ('start', '2025-03-10T09:00:00'), ('env', {})):
                if key in p and p[key] != value:
                    yield {**plan, 'places': [*plan['places'][:k], {**p, key: value}, *plan['places'][k + 1:]]}
        if plan['kind'] == 'steps':
            yield from self.shrink_confs(plan)

    # --- A03: steps repeated, revised and interrupted ---------------------------

    def gen_A03(self, rng, plan) -> None:  # noqa: N802
        base = gen_conf(rng, 'A03')
        other = variant(rng, base)
        plan['confs'] = [base, other]
        steps = steps_of(base)
        ops, pos, v, jumps = [], 0, 0, rng.choice([0, 1, 1, 2, 3])
        trouble = rng.random() < 0.6
        while pos < len(steps):
            op = {'step': steps[pos], 'conf': v, 'faults': []}
            if trouble and rng.random() < (0.45 if steps[pos] == 'damage' else 0.2):
                op['faults'] = [self.gen_trouble(rng, base, op['step'])]
                if rng.random() < 0.5:
                    # other inputs for this and some earlier steps before it is repeated
                    v = rng.choice([0, 1, 1 - v])
                    op['back'] = [rng.choice([steps[0], rng.choice(steps[:pos + 1])]), v]
            ops.append(op)
            pos += 1
            if jumps and rng.random() < 0.25:
                jumps -= 1
                pos = steps.index(safe_start(rng.choice(steps[:pos]), steps))
                v = rng.choice([0, 1])
            elif jumps and pos == len(steps):
                jumps -= 1
                pos = steps.index(safe_start(rng.choice(steps), steps))
                v = 1 - v
        plan['ops'] = ops

    @staticmethod
    def gen_trouble(rng, conf, step):
        kinds = ['interrupt', 'interrupt']
        if conf['source'] == 'file':
            kinds += ['read', 'read']
        if conf['log']:
            kinds += ['log', 'log']
        kind = rng.choice(kinds)
        if kind == 'interrupt':
            typical = CALLS.get(step, 100)
            return {'at': 'call', 'n': int(rng.choice([0.1, 1, 1, 1, 3]) * typical * rng.random()) + 1}
        if kind == 'read':
            return {'at': 'fsread', 'cls': 'in', 'n': rng.randrange(2),
                    'kind': rng.choice(['eio', 'eacces', 'emfile'])}
        return {'at': 'fs', 'cls': 'log', 'n': rng.randrange(12),
                'kind': rng.choice(['enospc', 'eio', 'short']), 'frac': rng.choice([0.0, 0.5])}

    def revised(self, plan):
        """Run the history; return results and what happened."""
        confs = plan['confs']
        disk = self.disk_for(confs, ['v0', 'v1'])
        events, fired = [], {}
        try:
            inputs = [build_inputs(c) for c in confs]
            actor = Actor(confs[0], disk, 'v0', inputs[0])
            last = {}
            failed = None

            def go(step, v, faults=()):
                actor.conf, actor.tag, actor.inputs = confs[v], f'v{v}', inputs[v]
                calls = [f for f in faults if f['at'] == 'call']
                disk.reset_op([f for f in faults if f['at'] != 'call'])
                last[step] = v
                with interrupting(calls[0]['n'] if calls else None) as hit:
                    actor.run(step, derive(plan['salt'], step) % (1 << 32))
                return hit

            with sandboxed(disk, Clock(), plan['salt'], lib=None):
                actor.new()
                steps = steps_of(confs[0])
                for op in plan['ops']:
                    try:
                        go(op['step'], op['conf'], op['faults'])
                        events.append((op['step'], op['conf'], 'ok'))
                        continue
                    except KeyboardInterrupt:
                        events.append((op['step'], op['conf'], 'interrupted'))
                        fired['interrupt'] = fired.get('interrupt', 0) + 1
                    except Exception as e:  # noqa: BLE001
                        events.append((op['step'], op['conf'], raised(e)))
                        if not disk.op_fired:
                            failed = (op['step'], raised(e))
                            break
                    try:
                        back, v = op.get('back') or (op['step'], op['conf'])
                        first = min(steps.index(safe_start(s, steps)) for s in (op['step'], back))
                        for step in steps[first:steps.index(op['step']) + 1]:
                            go(step, v)
                            events.append((step, v, 'again'))
                    except Exception as e:  # noqa: BLE001
                        failed = (step, raised(e))
                        break
                disk.reset_op()
                texts = actor.texts()
            for k, v in disk.fired.items():
                fired[k] = fired.get(k, 0) + v
            return {'failed': failed, 'texts': texts, 'events': events, 'fired': fired, 'last': last,
                    'count': disk.events}
        finally:
            disk.close()

    def direct(self, plan, last):
        """Every step once with the inputs it was last given."""
        confs = plan['confs']
        disk = self.disk_for(confs, ['v0', 'v1'])
        try:
            inputs = [build_inputs(c) for c in confs]
            actor = Actor(confs[0], disk, 'v0', inputs[0])
            failed = None
            with sandboxed(disk, Clock(), plan['salt'], lib=None):
                actor.new()
                for step in steps_of(confs[0]):
                    if step not in last:
                        break
                    v = last[step]
                    actor.conf, actor.tag, actor.inputs = confs[v], f'v{v}', inputs[v]
                    try:
                        actor.run(step, derive(plan['salt'], step) % (1 << 32))
                    except Exception as e:  # noqa: BLE001
                        failed = (step, raised(e))
                        break
                return {'failed': failed, 'texts': actor.texts()}
        finally:
            disk.close()

    def run_A03(self, plan, res) -> None:  # noqa: N802
        got = in_child(self.revised, plan)
        ref = in_child(self.direct, plan, got['last'])
        res.faults.update(got['fired'])
        res.stats['steps'] += len(got['events'])
        res.stats['file calls'] += got['count']
        res.stats['failed' if got['failed'] else 'finished'] += 1
        self.record(res, plan['confs'][0], got['failed'], got['texts'])
        for e in got['events']:
            res.event(*e)
            res.state(*e)
        res.sim_seconds += len(got['events'])
        res.nontrivial = not got['failed'] and len(got['events']) > len(steps_of(plan['confs'][0]))
        if bool(got['failed']) != bool(ref['failed']):
            res.violate('A03', 'outcome',
                        f'{got["failed"]} after {short_events(got["events"])}, but {ref["failed"]} with each step once')
        elif not got['failed']:
            d = first_difference(got['texts'], ref['texts'])
            if d:
                res.violate('A03', 'results', f'{d} after {short_events(got["events"])}')

    def shrink_A03(self, plan):  # noqa: N802
        for k, op in enumerate(plan['ops']):
            if op['faults']:
                yield {**plan, 'ops': [*plan['ops'][:k], {**op, 'faults': []}, *plan['ops'][k + 1:]]}
        steps = steps_of(plan['confs'][0])
        for k in range(len(plan['ops'])):
            for j in range(k + 1, len(plan['ops'])):
                a, b = plan['ops'][k]['step'], plan['ops'][j]['step']
                if k and a == b or (k == 0 and b == steps[0]):
                    # leave out a whole loop
                    yield {**plan, 'ops': plan['ops'][:k] + plan['ops'][j:]}
        if any(op['conf'] for op in plan['ops']):
            yield {**plan, 'ops': [{**op, 'conf': 0} for op in plan['ops']]}
        for small in self.shrink_confs({**plan, 'confs': plan['confs'][:1]}):
            conf = small['confs'][0]
            both = [conf, {**conf, **{k: plan['confs'][1][k] for k in ('demand', 'batch')}}]
            keep = steps_of(conf)
            yield {**plan, 'confs': both, 'ops': [op for op in plan['ops'] if op['step'] in keep]}

    # --- A02: samples saved and loaded by another process ------------------------

    STAGES = {
        'demand': ('demand', 'calibrate', 'generate', 'rid', 'expand'),
        'cmp': ('asset', 'quantities'),
        'dmg': ('fragilities', 'damage'),
        'loss': ('map', 'consequences', 'loss', 'scale'),
        'agg': ('aggregate',),
    }

    def gen_A02(self, rng, plan) -> None:  # noqa: N802
        conf = gen_conf(rng, 'A02')
        for r in conf['cmps']:
            r['blocks'] = 1
        plan['confs'] = [conf]
        lives = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            stop = rng.choice(['fault', 'fault', 'stage'])
            life = {'stop': None, 'faults': [], 'retry': rng.random() < 0.5}
            if stop == 'stage':
                life['stop'] = rng.choice(['demand', 'cmp', 'dmg', 'loss'])
            else:
                cls = rng.choice(['ckpt', 'ckpt', 'ckpt', 'ckpt', 'ckpt'] + ['log'] * conf['log']
                                 + ['in'] * (conf['source'] == 'file'))
                life['faults'] = [{
                    'at': 'fs' if cls != 'in' else 'fsread', 'cls': cls,
                    'n': rng.randrange(9 if cls == 'ckpt' else 4 if cls == 'in' else 40),
                    'kind': rng.choice(['crash', 'crash', 'enospc', 'eio', 'short'] if cls != 'in'
                                       else ['crash', 'eio', 'emfile']),
                    'frac': rng.choice([0.0, 0.3, 0.7, 1.0])}]
            lives.append(life)
        plan['lives'] = lives

    def life(self, plan, root, done, life, number):
        """One process: load what is done, go on until it ends."""
        conf = plan['confs'][0]
        disk = Disk(root=root, max_events=2_000_000)
        disk.classify = lambda rel: 'log' if 'log' in rel else ('ckpt' if 'ckpt' in rel else 'in')
        actor = Actor(conf, disk, 'a')
        steps = steps_of(conf)
        done = list(done)
        out = {'outcome': 'ok', 'error': None, 'texts': None}
        save = {
            'demand': lambda: actor.asmnt.demand.save_sample(actor.file('ckpt_demand.csv')),
            'cmp': lambda: actor.asmnt.asset.save_cmp_sample(actor.file('ckpt_cmp.csv')),
            'dmg': lambda: actor.asmnt.damage.save_sample(actor.file('ckpt_dmg.csv')),
            'loss': lambda: actor.asmnt.loss.save_sample(actor.file('ckpt_loss.csv')),
        }

        def load(stage) -> None:
            path = actor.file(f'ckpt_{stage}.csv')
            if stage == 'demand':
                actor.asmnt.demand.load_sample(path)
            elif stage == 'cmp':
                actor.asmnt.stories = conf['stories']
                actor.asmnt.asset.load_cmp_sample(path)
            elif stage == 'dmg':
                actor.asmnt.damage.load_sample(path)
            else:
                actor.asmnt.loss.decision_variables = tuple(conf['dvs'])
                actor.asmnt.loss.load_sample(path)

        with sandboxed(disk, Clock(), derive(plan['salt'], number), lib=None, state=number):
            disk.reset_op(life['faults'])
            try:
                actor.new()
                for stage, names in self.STAGES.items():
                    if stage in done:
                        load(stage)
                        continue
                    for step in names:
                        if step in steps:
                            actor.run(step, derive(plan['salt'], step) % (1 << 32))
                    if stage in save:
                        if stage == 'loss' and actor.asmnt.loss.sample is None:
                            continue
                        try:
                            save[stage]()
                        except OSError:
                            if not life['retry']:
                                raise
                            save[stage]()
                        done.append(stage)
                    if stage == life['stop']:
                        out['outcome'] = 'left'
                        break
            except SimCrash:
                out['outcome'] = 'killed'
            except SimRunaway:
                raise
            except Exception as e:  # noqa: BLE001
                out['outcome'], out['error'] = 'error', raised(e)
            disk.dead = False
            fired = list(disk.op_fired)
            disk.reset_op()
            if out['outcome'] == 'ok':
                out['texts'] = {k: f.to_csv() for k, f in zip(('aggregate', 'exceedance'), actor.agg)}
        out.update(done=done, fired=fired, faults=dict(disk.fired), events=disk.events)
        return out

    def run_A02(self, plan, res) -> None:  # noqa: N802
        conf = plan['confs'][0]
        quietly = {'stop': None, 'faults': [], 'retry': False}
        refd = self.disk_for([conf], ['a'])
        disk = self.disk_for([conf], ['a'])
        try:
            ref = in_child(self.life, plan, refd.root, [], quietly, 'ref')
            res.event('ref', ref['outcome'], ref['error'])
            if ref['outcome'] != 'ok':
                res.stats['failed'] += 1
                return
            done = []
            resumed = False
            for number, life in enumerate([*plan['lives'], quietly]):
                got = in_child(self.life, plan, disk.root, done, life, number)
                res.stats['processes'] += 1
                res.stats['file calls'] += got['events']
                res.faults.update(got['faults'])
                if got['outcome'] == 'killed':
                    res.faults['kill'] += 1
                resumed = resumed or (bool(done) and number > 0)
                res.event(number, got['outcome'], got['error'], got['done'], got['fired'])
                res.state(number, got['outcome'], got['done'], got['fired'])
                if got['outcome'] == 'error' and not got['fired']:
                    header = (refd.tree('work').get('a_ckpt_loss.csv') or b'').split(b'\n')[0].decode()
                    if 'loss' in done and set(conf['replace'] or ()) - {c.split('-')[0] for c in header.split(',')}:
                        # the table does not tell the unit of a replacement consequence
                        res.stats['unit unknown'] += 1
                        return
                    res.violate('A02', 'outcome', f'process {number} that continues after {done} fails: {got["error"]}')
                    return
                done = got['done']
                for stage in done:
                    name = f'a_ckpt_{stage}.csv'
                    a, b = disk.tree('work').get(name), refd.tree('work').get(name)
                    d = differs(a, b)
                    if d:
                        res.violate('A02', 'saved', f'{name} was saved without an error but {d}')
                        return
                if got['outcome'] == 'ok':
                    d = ''
                    for k in ref['texts']:
                        d = d or differs(got['texts'][k].encode(), ref['texts'][k].encode())
                    if d:
                        res.violate('A02', 'results', f'after {number} processes (finished {done}): aggregate losses: {d}')
                        return
            res.stats['finished'] += 1
            res.nontrivial = resumed
            self.record(res, conf, None, ref['texts'])
            res.sim_seconds += len(plan['lives'])
        finally:
            disk.close()
            refd.close()

    def shrink_A02(self, plan):  # noqa: N802
        for lives in drop_chunks(plan['lives']):
            if lives != plan['lives']:
                yield {**plan, 'lives': lives}
        yield from self.shrink_confs(plan)


    # --- A04: losses against a reference -------------------------------------

    def gen_A04(self, rng, plan) -> None:  # noqa: N802
        conf = gen_conf(rng, 'A04')
        plan['confs'] = [conf]
        trouble = rng.random() < 0.4
        plan['trouble'] = {
            s: self.gen_trouble(rng, conf, s) for s in steps_of(conf)
            if s not in {'demand', 'rid', 'expand'} and rng.random() < 0.25} if trouble else {}

    def stepwise(self, plan):
        """Run the steps; collect every table that the reference needs."""
        conf = plan['confs'][0]
        disk = self.disk_for([conf], ['a'])
        out = {'failed': None, 'fired': {}, 'agg': []}
        try:
            actor = Actor(conf, disk, 'a')
            steps = steps_of(conf)
            with sandboxed(disk, Clock(), plan['salt'], lib=None):
                actor.new()
                for step in steps:
                    fault = plan['trouble'].get(step)
                    disk.reset_op([fault] if fault and fault['at'] != 'call' else [])
                    try:
                        try:
                            with interrupting(fault['n'] if fault and fault['at'] == 'call' else None):
                                actor.run(step)
                        except (KeyboardInterrupt, Exception) as e:  # noqa: BLE001
                            if not isinstance(e, KeyboardInterrupt) and not disk.op_fired:
                                raise
                            if isinstance(e, KeyboardInterrupt):
                                out['fired']['interrupt'] = out['fired'].get('interrupt', 0) + 1
                            disk.reset_op()
                            for again in steps[steps.index(safe_start(step, steps)):steps.index(step) + 1]:
                                actor.run(again)
                    except Exception as e:  # noqa: BLE001
                        out['failed'] = (step, raised(e))
                        return out
                    disk.reset_op()
                a = actor.asmnt
                r = actor.results()
                out['tables'] = {k: (list(map(tuple, f.columns)), f.to_numpy(float)) for k, f in r.items()
                                 if k in {'demand', 'quantities', 'damage', 'loss', 'lf loss'}}
                out['demand units'] = {tuple(i): v for i, v in r['demand units'].iloc[:, 0].items()}
                combine = actor.inputs['combine']
                for rep, comb in ((False, None), (True, combine), (False, combine), (True, None)):
                    if (rep and not conf['replace']) or (comb is None and not rep and out['agg']):
                        continue
                    limits = actor.replacement() if rep else None
                    agg, exc = a.loss.aggregate_losses(limits, comb, future=True)
                    values = {dv: rv.sample for dv, rv in limits[0].RV.items()} if rep else {}
                    out['agg'].append((rep and values, comb is not None,
                                       {'-'.join(x for x in ([c] if isinstance(c, str) else c) if x): agg[c].to_numpy(float) for c in agg},
                                       {c: exc[c].to_numpy(bool) for c in exc}))
                after = actor.results()
                out['altered'] = [k for k in ('loss', 'lf loss', 'damage', 'quantities', 'demand')
                                  if k in r and not r[k].equals(after[k])]
            for k, v in disk.fired.items():
                out['fired'][k] = out['fired'].get(k, 0) + v
            return out
        finally:
            disk.close()

    def run_A04(self, plan, res) -> None:  # noqa: N802
        conf = plan['confs'][0]
        got = in_child(self.stepwise, plan)
        res.faults.update(got['fired'])
        res.stats['assessments'] += 1
        res.sim_seconds += len(steps_of(conf))
        res.state(got['failed'], sorted(got.get('tables', ())), conf['policy'], bool(conf['lf']),
                  bool(conf['replace']), bool(conf['combine']), bool(conf['scaling']), bool(conf['process']))
        if got['failed']:
            res.event(got['failed'])
            res.violate('A04', 'failed', f'step {got["failed"][0]} of a valid assessment fails: {got["failed"][1]}')
            return
        res.event(digest([got['tables'], got['agg']]))

        def bad(kind, text):
            res.violate('A04', kind, text)

        if got['altered']:
            bad('altered', f'aggregating losses changed the {got["altered"]} sample')
        res.nontrivial = judge_losses(bad, res, conf, got) and any(
            v.any() for _, _, agg, _ in got['agg'] for v in agg.values())

    def shrink_A04(self, plan):  # noqa: N802
        for step in plan['trouble']:
            yield {**plan, 'trouble': {k: v for k, v in plan['trouble'].items() if k != step}}
        yield from self.shrink_confs(plan)


#: how many base units the unit of a decision variable has
BASE = {'Energy': 1e6}


def judge_losses(bad, res, conf, got) -> bool:  # noqa: C901, PLR0911, PLR0912
    """Compare damage, losses and their totals with the reference."""

    def cols(name):
        names, values = got['tables'].get(name, ([], np.zeros((0, 0))))
        return {k: values[:, i] for i, k in enumerate(names)}

    dem = {}
    for k, v in cols('demand').items():
        dem[k] = v if k[0] == 'ONE' else v * scen.TO_LIB[k[0]][got['demand units'][k]]
    for n, raw in conf['demand']['cols'].items():
        t = n.split('-')[0]
        mine = dem.get(tuple(n.split('-')))
        if mine is None or not np.allclose(mine, np.array(raw) * scen.TO_LIB[t][conf['demand']['units'][t]], rtol=1e-9):
            bad('demand', f'{n} is not as it was given')
            return False
    n = conf['size']
    pgs = scen.groups(conf['cmps'], conf['stories'])
    exp = scen.damage(pgs, conf['frag'], dem, n, conf['offset'], conf['nondir'], conf['process'], conf['thresholds'])
    good = ~exp.fuzzy
    res.stats['realizations compared'] += int(good.sum())
    res.stats['ambiguous realizations'] += int(exp.fuzzy.sum())
    qty = cols('quantities')
    if set(qty) != {pg for pg, _ in pgs}:
        bad('asset-components', f'{sorted(set(qty) ^ {pg for pg, _ in pgs})[:4]}')
        return False
    for pg, row in pgs:
        if not np.allclose(qty[pg], row['q'], rtol=1e-9):
            bad('asset-quantity', f'{pg}: {qty[pg][:4]} instead of {row["q"]}')
            return False
    dmg = cols('damage')
    if not DlcalcWorld.compare_damage(bad, conf, exp, {pg: [(pg, row)] for pg, row in pgs}, qty, dmg, good,
                                      listall=conf['listall']):
        return False
    # losses
    mapping = final_map(conf)
    ids = {r['id'] for r in conf['cmps']}
    want = scen.losses(dmg, conf['conseq'], [(a, b) for a, b in mapping.items() if a in ids],
                       {**conf['units']}, conf['dvs'], conf['eco'])
    noisy = {k for k, (_, random) in want.items() if random}
    want = {k: v for k, (v, _) in want.items()}
    want_lf = {}
    for pg, row in pgs:
        f = conf['lf'].get(mapping.get(pg[0]))
        if f is None or pg[0] in conf['frag']:
            continue
        for dv in conf['dvs']:
            if dv in f['dv']:
                x = scen.demand_of(f, pg, dem, conf['offset'], conf['nondir'])
                y = np.interp(x, f['dv'][dv]['x'], f['dv'][dv]['y'])
                want_lf[dv, mapping[pg[0]], *pg] = y * row['q']
                if f['dv'][dv]['family']:
                    noisy.add((dv, mapping[pg[0]], *pg))
    for table in (want, want_lf):
        for k in table:
            table[k] = table[k] * factor_of(conf, k) * BASE.get(k[0], 1.0)
    have = {k: np.nan_to_num(v) for k, v in cols('loss').items()}
    have_lf = cols('lf loss')
    for name, w, h, which in (('loss', want, have, good), ('lf-loss', want_lf, have_lf, np.ones(n, bool))):
        for k, v in w.items():
            mine = h.get(k)
            if mine is None:
                if name == 'lf-loss' or (v[which] != 0).any():
                    bad(f'{name}-missing', f'{k}: expected {v[:4]}')
                    return False
            elif k in noisy:
                # dispersions of 0.3 and 0.2: far outliers are errors of scale
                if ((mine[which] > 0) & (v[which] == 0)).any() or (mine[which] < 0).any() or (
                        mine[which] > 8 * v[which] + 1e-7).any():
                    bad(f'{name}-scale', f'{k}: {mine[which][:4]} around {v[which][:4]}')
                    return False
            elif not np.allclose(mine[which], v[which], rtol=3e-4 if name == 'lf-loss' else 3e-5, atol=1e-7):
                bad(f'{name}-value', f'{k}: {mine[which][:4]} instead of {v[which][:4]}')
                return False
        left = [k for k in set(h) - set(w) if (h[k] != 0).any()]
        if left:
            bad(f'{name}-unexpected', f'{sorted(left)[:3]}: {h[sorted(left)[0]][:4]}')
            return False
    # totals follow from the losses as they are
    for replace, combine, agg, exc in got['agg']:
        if not judge_totals(bad, conf, have, have_lf, replace, combine, agg, exc, n):
            return False
    return True


def factor_of(conf, key) -> float:
    """What the scaling rules multiply a loss with."""
    dv, dmg, loc, d = key[0], key[2], key[-3], key[-2]

    def within(rule, value):
        if rule is None:
            return True
        if '--' in rule:
            a, b = rule.split('--')
            return int(a) <= int(value) <= int(b)
        return rule == value

    out = 1.0
    for s in conf['scaling'] or ():
        if s['dv'] == dv and s['cmp'] in {None, dmg} and within(s['loc'], loc) and within(s['dir'], d):
            out *= s['x']
    return out


def judge_totals(bad, conf, ds, lf, replace, combine, agg, exc, n) -> bool:  # noqa: C901, PLR0912
    label = f'aggregate (replacement {replace is not False}, combination {combine})'
    total = {}
    replaced = np.zeros(n, dtype=bool)
    for k, v in ds.items():
        if k[1] == 'replacement':
            replaced |= v > 0
    for k, v in [*[((*k[:3], *k[4:]), v) for k, v in ds.items()], *lf.items()]:
        v = v if k[1] == 'replacement' else np.where(replaced, 0.0, v)
        total[k] = total.get(k, 0.0) + v
    empty = not total
    if combine:
        for dv, sets in conf['combine'].items():
            for names, shape, cells in sets:
                table = np.array(cells).reshape(shape)
                axes = [table[tuple(slice(None) if i == j else 0 for j in range(len(shape)))]
                        for i in range(len(shape))]
                places = [{k[3:] for k in total if k[0] == dv and k[2] == c} for c in names]
                for place in set.intersection(*places):
                    keys = [next(k for k in total if k[0] == dv and k[2] == c and k[3:] == place) for c in names]
                    points = np.column_stack([total.pop(k) for k in keys])
                    total[dv, 'combination', str(names), *place] = np.array(
                        [scen.multilinear(axes, table, list(p)) for p in points])
    close = np.zeros(n, dtype=bool)
    if replace:
        hit = np.zeros(n, dtype=bool)
        for dv in conf['replace']:
            mine = {k: v for k, v in total.items() if k[0] == dv}
            rep = np.zeros(n, dtype=bool)
            for k, v in mine.items():
                if k[1] == 'replacement':
                    rep |= v > 0
            sums = np.sum([v for k, v in mine.items() if k[1] != 'replacement'] or [np.zeros(n)], axis=0)
            # the value of a replacement is random: take what was drawn
            limit = (np.array(replace[dv]) if replace[dv] is not None else np.full(n, np.nan)) * conf['replace'][dv]['ratio']
            over = ~rep & (sums > limit)
            close |= np.abs(sums / limit - 1) < 1e-9
            if not empty:
                e = exc.get(dv)
                if e is None or (e != over)[~close].any():
                    bad('exceedance', f'{label}: {dv} exceeds in {e}, expected {over} (sums {sums}, limit {limit})')
                    return False
            hit |= over
            v = conf['replace'][dv]
            if replace[dv] is not None and (np.abs(np.log(np.array(replace[dv]) / v['value'])) > 8 * (v['beta'] or 1e-12)).any():
                bad('replacement-value', f'{label}: {dv} {replace[dv]}, expected around {v["value"]}')
                return False
        if not empty:
            for k in total:
                total[k] = np.where(hit, 0.0, total[k])
            for dv in conf['replace']:
                total[dv, 'replacement', 'threshold_exceedance', '0', '1', '0'] = np.where(hit, replace[dv], 0.0)
    elif exc:
        bad('exceedance', f'{label}: {sorted(exc)} without thresholds')
        return False
    want = {}
    for dv in conf['dvs']:
        mine = [(k, v) for k, v in total.items() if k[0] == dv]
        if not mine:
            if empty:
                zero = np.zeros(len(next(iter(agg.values()), np.zeros(n))))
                for name in (['repair_time-sequential', 'repair_time-parallel'] if dv == 'Time' else [f'repair_{dv.lower()}']):
                    want[name] = zero
            continue
        if dv == 'Time':
            locs = {}
            for k, v in mine:
                locs[k[3]] = locs.get(k[3], 0.0) + v
            want['repair_time-sequential'] = sum(locs.values())
            want['repair_time-parallel'] = np.max(list(locs.values()), axis=0)
        else:
            want[f'repair_{dv.lower()}'] = sum(v for _, v in mine)
    if set(want) != set(agg):
        bad('aggregate-columns', f'{label}: {sorted(agg)} instead of {sorted(want)}')
        return False
    for name, v in want.items():
        v = v / BASE.get(name[7:].title(), 1.0)  # noqa: PLW2901
        if agg[name].shape != v.shape or not np.allclose(agg[name][~close[:len(v)]], v[~close[:len(v)]], rtol=1e-9, atol=1e-9):
            bad('aggregate-value', f'{label}: {name} is {agg[name]} instead of {v}')
            return False
    return True


def first_difference(a: dict, b: dict) -> str:
    for name in sorted(set(a) | set(b)):
        if name not in a or name not in b:
            return f'{name} is only {"there" if name in a else "alone"}'
        if a[name] != b[name]:
            for la, lb in zip(a[name].split('\n'), b[name].split('\n')):
                if la != lb:
                    return f'{name}: {la[:300]!r} instead of {lb[:300]!r}'
            return f'{name}: different length'
    return ''


#: results that are the assessment's own tables, not copies
INTERNAL = {'loss', 'lf loss'}


def changed_parts(a, b) -> str:
    """Names of the inputs that differ between two frozen values."""
    def items(x):
        return dict(x[1]) if isinstance(x, tuple) and x and x[0] == 'dict' else {}

    x, y = items(a), items(b)
    out = []
    for k in x:
        if x[k] != y.get(k):
            sub = changed_parts(x[k], y.get(k))
            out.append(f'{k}: {sub}' if sub else f'{k}: {str(x[k])[:150]} became {str(y.get(k))[:150]}')
    return '; '.join(out)


def safe_start(step, steps) -> str:
    """Where to start again when a step has to be repeated."""
    if step == 'scale':
        return 'loss'
    if step == 'calibrate':
        return 'demand'
    if step in {'rid', 'expand'}:
        return 'generate' if 'generate' in steps else 'demand'
    return step


def variant(rng, conf):
    """The same assessment with other inputs for some of its steps."""
    out = copy.deepcopy(conf)
    if rng.random() < 0.7:
        f = rng.choice([0.5, 0.8, 1.3, 2.0])
        for n, vals in out['demand']['cols'].items():
            out['demand']['cols'][n] = [scen.sig(v * f, 6) for v in vals]
    if rng.random() < 0.5:
        for r in out['cmps']:
            r['q'] = r['q'] * 2
            r['blocks'] = rng.choice([1, 2, 3])
    if conf['lf'] and rng.random() < 0.25:
        # no loss functions any more
        out['cmps'] = [r for r in out['cmps'] if r['id'] not in conf['lf']]
    if rng.random() < 0.3 and len({r['id'] for r in out['cmps']}) > 1:
        # one component row less; models stay available
        k = rng.randrange(len(out['cmps']))
        rows = out['cmps'][:k] + out['cmps'][k + 1:]
        if {r['id'] for r in rows} & set(out['frag']):
            out['cmps'] = rows
    out['process'] = gen_process(rng, conf['frag']) if rng.random() < 0.5 else conf['process']
    out['batch'] = rng.choice([1, 2, 1000])
    if rng.random() < 0.5:
        out['policy'] = rng.choice(['fill', 'fill_all'])
    if conf['mode'] in {'empirical', 'lognormal', 'normal', 'model'}:
        out['size'] = rng.choice([3, 5, 10])
    if conf['replace'] and rng.random() < 0.5:
        for v in out['replace'].values():
            v['value'] *= 2
    if conf['scaling'] and rng.random() < 0.5:
        for v in out['scaling']:
            v['x'] += 1.0
    return out


def sibling(rng, conf):
    """An assessment of the same components with other properties."""
    out = variant(rng, conf)
    some = conf['mode'] if rng.random() < 0.5 else rng.choice(['sample', 'empirical', 'lognormal', 'model'])
    if not conf['clone'] and not conf['preserve']:
        out['mode'] = some
    models = [*out['frag'].items(), *out['lf'].items()]
    for c, f in models:
        if f['edp'] != 'SA_1.0':
            roof = any(r['id'] == c and r['loc'] == 'roof' for r in out['cmps'])
            if rng.random() < 0.5:
                f['directional'] = 1 - f['directional']
            if f['edp'] != 'PID' and not roof and rng.random() < 0.5:
                f['offset'] = 1 - f['offset']
        if 'ths' in f and rng.random() < 0.5:
            k = rng.choice([0.5, 0.9, 1.2, 2.0])
            f['ths'] = [scen.sig(v * k, 6) for v in f['ths']]
    for v in out['conseq'].values():
        for rows in v['dv'].values():
            k = rng.choice([1, 1, 2, 0.5])
            for row in rows:
                if isinstance(row[0], str):
                    ys, xs = row[0].split('|')
                    row[0] = ','.join(f'{float(y) * k:g}' for y in ys.split(',')) + '|' + xs
                else:
                    row[0] = scen.sig(row[0] * k)
    for v in out['lf'].values():
        for f in v['dv'].values():
            if rng.random() < 0.5:
                f['y'] = [scen.sig(y * 2, 6) for y in f['y']]
    for key, choices in (('eco', [{'AcrossFloors': a, 'AcrossDamageStates': b} for a in (True, False) for b in (True, False)]),
                         ('nondir', [{'ALL': 1.0}, {'ALL': 1.2}, {'ALL': 1.5}]),
                         ('offset', [{'PFA': -1, 'PFV': -1}, {'PFA': 0, 'PFV': 0}, {'PFA': -1, 'PFV': 0}]),
                         ('rho', [0.0, 0.6, 1.0]), ('sampling', ['LHS', 'MonteCarlo', 'LHS_midpoint']),
                         ('seed', [conf['seed'], rng.randrange(1, 10_000)]),
                         ('listall', [False, True]), ('log', [False, True])):
        if rng.random() < 0.4:
            out[key] = rng.choice(choices)
    return out


@contextlib.contextmanager
def interrupting(n):
    """Deliver an interrupt at the n-th call of a function of pelicun."""
    if n is None:
        yield None
        return
    left = [n]

    def trace(frame, event, arg):  # noqa: ARG001
        if event == 'call' and '/pelicun/' in frame.f_code.co_filename:
            left[0] -= 1
            if left[0] == 0:
                sys.settrace(None)
                raise KeyboardInterrupt
        return None

    old = sys.gettrace()
    sys.settrace(trace)
    try:
        yield left
    finally:
        sys.settrace(old)


def short_events(events) -> str:
    return ', '.join(f'{s}{v}' if how == 'ok' else f'{s}{v} {how}' for s, v, how in events)[-900:]


def differs(a, b, rtol=1e-9) -> str:
    """Compare two CSV files as tables; the order of columns is free."""
    import pandas as pd  # noqa: PLC0415

    if a == b:
        return ''
    if a is None or b is None:
        return 'it is missing'
    try:
        x, y = (pd.read_csv(io.BytesIO(v), index_col=0, dtype=str, keep_default_na=False) for v in (a, b))
    except Exception as e:  # noqa: BLE001
        return f'it cannot be read: {e!r}'
    if list(x.index) != list(y.index):
        return f'it has rows {list(x.index)[:8]} instead of {list(y.index)[:8]}'
    if sorted(x.columns) != sorted(y.columns):
        return f'it has columns {sorted(x.columns)[:8]} instead of {sorted(y.columns)[:8]}'
    for c in y.columns:
        for r, u, v in zip(y.index, x[c], y[c]):
            if u == v:
                continue
            try:
                if np.isclose(float(u), float(v), rtol=rtol, atol=1e-12):
                    continue
            except ValueError:
                pass
            return f'{c} of row {r} is {u!r} instead of {v!r}'
    return ''

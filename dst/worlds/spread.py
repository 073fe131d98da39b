"""
Random quantities, capacities and consequences follow their distributions.

The random numbers of a run come from the seeded generator behind the seam.
With Latin hypercube sampling every random variable takes exactly one value
from each of N equally likely strata, so what an assessment with N
realizations delivers can be compared with the distribution that the input
asked for without a statistical doubt: the values, mapped through an
independent implementation of the distribution function, have to occupy every
stratum once.  The same holds for the number of realizations that exceed a
capacity and for the losses of damaged components.  Plain Monte Carlo samples
are held against bounds that a correct sample exceeds with a probability below
1e-11.
"""

from __future__ import annotations

import math

import numpy as np
from scipy.special import ndtr, ndtri

from dst import scen
from dst.clock import Clock
from dst.core import digest
from dst.seams import in_child, sandboxed
from dst.worlds.session import Actor, SessionWorld, interrupting, raised, safe_start, steps_of

#: ln(2 / 1e-12)
LOG = math.log(2e12)
UNITS = {'ea': 1.0, 'ft2': 1.0, 'm2': 1 / 0.3048**2}


# --- distributions, independent of pelicun ------------------------------------


def base_cdf(family, theta, x):
    x = np.asarray(x, float)
    if family == 'lognormal':
        with np.errstate(divide='ignore'):
            return ndtr((np.log(np.maximum(x, 0)) - math.log(theta[0])) / theta[1])
    if family in {'normal', 'normal_cov'}:
        return ndtr((x - theta[0]) / (theta[0] * theta[1]))
    if family == 'normal_std':
        return ndtr((x - theta[0]) / theta[1])
    if family == 'uniform':
        return np.clip((x - theta[0]) / (theta[1] - theta[0]), 0, 1)
    if family == 'multilinear_CDF':
        return np.interp(x, theta[0], theta[1], left=0.0, right=1.0)
    return (x >= theta[0]).astype(float)  # deterministic


def cdf(family, theta, x, lo=None, hi=None):
    """Distribution function of a variable, truncated if limits are given."""
    a = 0.0 if lo is None else float(base_cdf(family, theta, lo))
    b = 1.0 if hi is None else float(base_cdf(family, theta, hi))
    return np.clip((base_cdf(family, theta, x) - a) / (b - a), 0, 1)


# --- generation ---------------------------------------------------------------


def gen_limits(rng, family, t0, theta):
    """Truncation limits around the centre of a distribution."""
    lo = hi = None
    if family in {None, 'deterministic', 'multilinear_CDF'} or rng.random() < 0.5:
        return lo, hi
    if family == 'uniform':
        width = theta[1] - theta[0]
        lo = rng.choice([None, theta[0] + 0.2 * width, theta[0] - 0.5 * width])
        hi = rng.choice([None, theta[1] - 0.3 * width, theta[1] + 0.5 * width])
    else:
        lo = rng.choice([None, t0 * rng.uniform(0.7, 0.95)])
        hi = rng.choice([None, t0 * rng.uniform(1.05, 1.4)])
    return (None if lo is None else scen.sig(lo)), (None if hi is None else scen.sig(hi))


def gen_dist(rng, centre, families):
    family = rng.choice(families)
    c = scen.sig(centre)
    if family in {None, 'deterministic'}:
        theta = [c, None]
    elif family == 'lognormal':
        theta = [c, rng.choice([0.2, 0.4, 0.6])]
    elif family in {'normal', 'normal_cov'}:
        theta = [c, rng.choice([0.1, 0.15, 0.2])]
    elif family == 'normal_std':
        theta = [c, scen.sig(c * rng.choice([0.1, 0.2]))]
    elif family == 'uniform':
        theta = [scen.sig(c * rng.uniform(0.3, 0.9)), scen.sig(c * rng.uniform(1.1, 2))]
    else:
        n = rng.choice([2, 3, 4])
        xs = [c * 0.4]
        for _ in range(n - 1):
            xs.append(xs[-1] * rng.uniform(1.3, 3))
        ps = sorted(rng.sample([0.1, 0.2, 0.35, 0.5, 0.7, 0.9], n - 2))
        theta = [[scen.sig(x) for x in xs], [0.0, *ps, 1.0]]
    lo, hi = gen_limits(rng, family, c, theta)
    return {'family': family, 'theta': theta, 'lo': lo, 'hi': hi}


def gen_spread(rng, conf):  # noqa: C901, PLR0912
    """The random parts of a configuration; everything sits in conf['spread']."""
    stories, dirs, dem = conf['stories'], conf['dirs'], conf['demand']
    ids = rng.sample([*scen.POOL, 'Cost.10', 'D.Time', 'X.Cost.1'], rng.choice([1, 2, 3]))
    cmps, frag, conseq, lf = [], {}, {}, {}
    for c in ids:
        as_lf = rng.random() < 0.25 and len(ids) > 1
        edp = 'PID' if as_lf else rng.choice(['PID', 'PFA', 'PFV', 'SA_1.0'])
        kind = 'ea' if as_lf or rng.random() < 0.5 else 'ft2'
        rows = rng.choice([1, 1, 2])
        for _ in range(rows):
            loc = '0' if edp == 'SA_1.0' else rng.choice(['all', str(rng.randrange(1, stories + 1)), f'1--{stories}'])
            d = '1' if edp == 'SA_1.0' else rng.choice([*dirs, ','.join(dirs)])
            q = gen_dist(rng, rng.choice([1.0, 2.5, 8.0, 40.0]), [
                None, 'deterministic', 'lognormal', 'normal', 'normal_cov', 'normal_std', 'uniform'])
            cmps.append({'id': c, 'unit': 'ea' if kind == 'ea' else rng.choice(['ft2', 'm2']), 'loc': loc, 'dir': d,
                         'q': q, 'blocks': rng.choice([1, 1, 2, 3])})
        if as_lf:
            lf[c] = {'edp': 'PID', 'offset': 0, 'directional': rng.choice([0, 1]),
                     'dv': {dv: {'x': [0.0, 0.01, 0.4], 'y': [0.0, 100.0, scen.sig(100 + rng.uniform(100, 900))],
                                 'family': rng.choice([None, 'lognormal', 'normal']),
                                 't1': rng.choice([0.2, 0.35])} for dv in conf['dvs'] if rng.random() < 0.9}}
            continue
        f = {'edp': edp, 'unit': rng.choice(sorted(scen.TO_LIB[edp])), 'offset': rng.choice([0, 1]) if edp == 'PFA' else 0,
             'directional': 1 if edp == 'SA_1.0' else rng.choice([0, 1]), 'ls': []}
        acting = [v[0] * scen.TO_LIB[edp][dem['units'][edp]] for n, v in dem['cols'].items() if n.startswith(edp)]
        level = rng.choice(acting) / scen.TO_LIB[edp][f['unit']]
        certain = rng.random() < 0.35
        for k in range(rng.choice([1, 2, 2, 3])):
            x = level * (rng.uniform(0.001, 0.01) if certain else rng.uniform(0.5, 1.4)) * 1.2**k
            ls = gen_dist(rng, x, ['lognormal', 'lognormal', 'normal', 'normal_std', 'uniform', 'multilinear_CDF', 'deterministic'])
            ls['weights'] = rng.choice([None, None, None, [0.4, 0.6], [0.5, 0.3, 0.2], [0.1, 0.9]])
            f['ls'].append(ls)
        frag[c] = f
        n_ds = sum(1 if ls['weights'] is None else len(ls['weights']) for ls in f['ls'])
        conseq[c] = {}
        for dv in conf['dvs']:
            if rng.random() < 0.1:
                continue
            multi = rng.random() < 0.35
            rows = []
            for k in range(n_ds):
                med = scen.sig({'Cost': 1000.0, 'Time': 2.0}[dv] * (k + 1) * rng.uniform(0.5, 2))
                fam = rng.choice([None, 'lognormal', 'lognormal', 'normal'])
                t1 = rng.choice([0.2, 0.3, 0.5])
                rows.append({'family': fam, 't0': [[med, scen.sig(med * 0.4)], [4, 60]] if multi else med, 't1': t1})
            conseq[c][dv] = rows
    if not any(conseq.values()):
        conseq = {}
    conseq = {c: v for c, v in conseq.items() if v}
    lf = {c: v for c, v in lf.items() if v['dv']}
    cmps = [r for r in cmps if r['id'] in frag or r['id'] in lf]
    return {'cmps': cmps, 'frag': frag, 'conseq': conseq, 'lf': lf}


def gen_list_scaling(rng, conf):
    """Capacities that are scaled, some of them by realization."""
    out = {}
    sp = conf['spread']
    for row in sp['cmps']:
        f = sp['frag'].get(row['id'])
        if f is None or rng.random() < 0.5:
            continue
        for loc in scen.locations(row['loc'], conf['stories']):
            for d in row['dir'].split(','):
                if rng.random() < 0.5:
                    continue
                target = rng.choice(['ALL', *[f'LS{k + 1}' for k in range(len(f['ls']))]])
                limited = [ls['family'] for ls in f['ls'] if ls['lo'] is not None or ls['hi'] is not None]
                if set(limited) - {'lognormal'}:
                    continue
                if limited:
                    # limits stay where they are
                    ops = rng.choice(['*1.2', '/1.2', ['*1.1', '/1.15'] * (conf['size'] // 2)])
                elif rng.random() < 0.5:
                    ops = [rng.choice(['*1000', '/1000', '*1', '/1.3']) for _ in range(conf['size'])]
                elif f['edp'] == 'PID' and rng.random() < 0.4:
                    ops = rng.choice(['+0.004', '-0.0001', '+0.02'])
                    if any(isinstance(ls['theta'][0], list) or ls['theta'][0] < 0.001 for ls in f['ls']):
                        ops = '+0.003'
                else:
                    ops = rng.choice(['*1.3', '/1.5', '*0.6'])
                out[f'{row["id"]}-{loc}-{d}'] = {target: ops}
    return out or None


# --- tables ---------------------------------------------------------------------


def commas(values):
    return ','.join(f'{x:g}' for x in values)


def tables_of(conf):
    sp = conf['spread']
    out = {'demand': scen.demand_rows(conf['demand'])}
    head = ['ID', 'Units', 'Location', 'Direction', 'Theta_0', 'Blocks', 'Family', 'Theta_1', 'TruncateLower', 'TruncateUpper']
    out['cmp_marginals'] = [head, *[
        [r['id'], r['unit'], r['loc'], r['dir'], r['q']['theta'][0], r['blocks'], r['q']['family'],
         r['q']['theta'][1], r['q']['lo'], r['q']['hi']] for r in sp['cmps']]]
    if sp['frag']:
        width = max(len(f['ls']) for f in sp['frag'].values())
        head = ['ID', 'Incomplete', 'Demand-Type', 'Demand-Unit', 'Demand-Offset', 'Demand-Directional']
        for k in range(1, width + 1):
            head += [f'LS{k}-{x}' for x in ('Family', 'Theta_0', 'Theta_1', 'TruncateLower', 'TruncateUpper', 'DamageStateWeights')]
        rows = [head]
        for c, f in sp['frag'].items():
            row = [c, 0, scen.EDP[f['edp']][0], f['unit'], f['offset'], f['directional']]
            for k in range(width):
                if k >= len(f['ls']):
                    row += [None] * 6
                    continue
                ls = f['ls'][k]
                t0, t1 = ls['theta']
                if ls['family'] == 'multilinear_CDF':
                    t0, t1 = f'{commas(t0)}|{commas(t1)}', None
                row += [ls['family'], t0, t1, ls['lo'], ls['hi'],
                        '|'.join(f'{w:g}' for w in ls['weights']) if ls['weights'] else None]
            rows.append(row)
        out['frag'] = rows
    if sp['conseq']:
        width = max(len(r) for v in sp['conseq'].values() for r in v.values())
        head = ['ID', 'Incomplete', 'Quantity-Unit', 'DV-Unit']
        for k in range(1, width + 1):
            head += [f'DS{k}-Family', f'DS{k}-Theta_0', f'DS{k}-Theta_1']
        rows = [head]
        kinds = {r['id']: r['unit'] for r in sp['cmps']}
        for c, v in sp['conseq'].items():
            for dv, entries in v.items():
                row = [f'{c}-{dv}', 0, '1 EA' if kinds[c] == 'ea' else '1 SF', scen.DV_UNIT[dv]]
                for k in range(width):
                    if k >= len(entries):
                        row += [None] * 3
                        continue
                    e = entries[k]
                    t0 = f'{commas(e["t0"][0])}|{commas(e["t0"][1])}' if isinstance(e['t0'], list) else e['t0']
                    row += [e['family'], t0, e['t1'] if e['family'] else None]
                rows.append(row)
        out['conseq'] = rows
    if any(v['dv'] for v in sp['lf'].values()):
        head = ['ID', 'Incomplete', 'Demand-Type', 'Demand-Unit', 'Demand-Offset', 'Demand-Directional',
                'DV-Unit', 'LossFunction-Family', 'LossFunction-Theta_0', 'LossFunction-Theta_1']
        rows = [head]
        for c, v in sp['lf'].items():
            name, unit, _ = scen.EDP[v['edp']]
            for dv, f in v['dv'].items():
                rows.append([f'{c}-{dv}', 0, name, unit, v['offset'], v['directional'], scen.DV_UNIT[dv], f['family'],
                             f'{commas(f["y"])}|{commas(f["x"])}', f['t1'] if f['family'] else None])
        out['lf'] = rows
    return out


# --- checks on one variable ---------------------------------------------------------


def strata(u, n, method, *, full, tol=3e-5):
    """Is ``u`` (all or some of N uniform values) a possible sample?  None or what is wrong."""
    u = np.sort(np.asarray(u, float))
    if not np.isfinite(u).all():
        return 'is not a number in some realizations'
    m = len(u)
    if m == 0:
        return None
    if method == 'MonteCarlo':
        if not full:
            return None
        steps = np.arange(m)
        gap = max(np.max(u - steps / m), np.max((steps + 1) / m - u))
        if gap > math.sqrt(LOG / (2 * m)):
            return f'is {gap:.3f} away from its distribution in {m} realizations'
        return None
    mid = 0.5 if method == 'LHS_midpoint' else None
    if full:
        i = np.arange(n)
        if mid is None:
            off = np.maximum(i / n - u, u - (i + 1) / n)
        else:
            off = np.abs(u - (i + mid) / n)
        if off.max() > tol:
            k = int(off.argmax())
            return f'does not follow its distribution: value {k + 1} of {n} in order is at probability {u[k]:.5f}'
        return None
    last = -1
    for x in u:
        k = max(last + 1, math.floor((x - tol) * n))
        if k > (x + tol) * n or (mid is not None and abs(x * n - math.floor(x * n) - mid) > tol * n):
            return f'does not follow its distribution: probability {x:.5f} is taken too often'
        last = k
    return None


class Spread:
    """Judge what one assessment delivered."""

    def __init__(self, conf, got, res) -> None:
        self.conf, self.got, self.res = conf, got, res
        self.n, self.method = conf['size'], conf['sampling']
        self.vectors = {}
        self.pairs = set()

    def cols(self, name):
        names, values = self.got['tables'].get(name, ([], np.zeros((0, 0))))
        return {k: values[:, i] for i, k in enumerate(names)}

    def bad(self, kind, text) -> None:
        self.res.violate('A09', kind, text)

    def judge(self) -> None:
        sp = self.conf['spread']
        self.pgs = scen.groups(sp['cmps'], self.conf['stories'])
        self.qty = self.cols('quantities')
        if not self.quantities():
            return
        dem = {}
        for name, raw in self.conf['demand']['cols'].items():
            t = name.split('-')[0]
            dem[tuple(name.split('-'))] = np.array(raw) * scen.TO_LIB[t][self.conf['demand']['units'][t]]
        self.dem = dem
        self.dmg = self.cols('damage')
        if self.capacities() and self.consequences() and self.functions():
            self.independence()

    def check(self, what, name, u, *, full) -> bool:
        self.res.stats['random variables checked'] += 1
        problem = strata(u, self.n, self.method, full=full)
        if problem:
            self.bad(what, f'{what} {name} {problem}')
            return False
        if full:
            self.vectors[what, *name] = u
        return True

    def quantities(self) -> bool:
        if set(self.qty) != {pg for pg, _ in self.pgs}:
            self.bad('quantity', f'groups {sorted(set(self.qty) ^ {pg for pg, _ in self.pgs})[:4]}')
            return False
        for pg, row in self.pgs:
            d = row['q']
            x = self.qty[pg] * UNITS[self.got['quantity units'][pg]] / UNITS[row['unit']]
            if d['family'] in {None, 'deterministic'}:
                if not np.allclose(x, d['theta'][0], rtol=1e-9):
                    self.bad('quantity', f'{pg}: {x[:4]} instead of {d["theta"][0]}')
                    return False
                continue
            limits = [v for v in (d['lo'], d['hi'])]
            if (limits[0] is not None and x.min() < limits[0] * (1 - 1e-9)) or (
                    limits[1] is not None and x.max() > limits[1] * (1 + 1e-9)):
                self.bad('quantity', f'{pg}: values between {x.min():g} and {x.max():g} leave the limits {limits}')
                return False
            if not self.check('quantity', pg, cdf(d['family'], d['theta'], x, d['lo'], d['hi']), full=True):
                return False
        return True

    def scaled(self, pg, k, ls):
        """Distribution parameters by realization: [(theta, how many or index)]."""
        ops = ((self.conf['thresholds'] or {}).get('-'.join(pg[:3])) or {})
        op = ops.get('ALL', ops.get(f'LS{k + 1}'))
        if op is None or ls['family'] not in {'normal', 'lognormal', 'deterministic'}:
            return [ls['theta']] * self.n
        ops = op if isinstance(op, list) else [op] * self.n
        out = []
        for o in ops:
            x = float(o[1:])
            t = ls['theta'][0]
            out.append([{'+': t + x, '-': t - x, '*': t * x, '/': t / x}[o[0]], ls['theta'][1]])
        return out

    def capacities(self) -> bool:
        n = self.n
        for pg, row in self.pgs:
            f = self.conf['spread']['frag'].get(pg[0])
            if f is None:
                continue
            x = scen.demand_of(f, pg, self.dem, self.conf['offset'], self.conf['nondir'])[0] / scen.TO_LIB[f['edp']][f['unit']]
            groups, j = [], 1
            for ls in f['ls']:
                m = len(ls['weights'] or [1])
                groups.append(list(range(j, j + m)))
                j += m
            unit = self.qty[pg] / row['blocks']
            counts = np.zeros((j, n))
            for key, v in self.dmg.items():
                if key[:4] == pg:
                    if int(key[4]) >= j:
                        self.bad('damage', f'{pg} has damage state {key[4]}')
                        return False
                    counts[int(key[4])] = np.nan_to_num(v) / unit
            if np.abs(counts - np.round(counts)).max() > 1e-6 or np.abs(counts.sum(axis=0) - row['blocks']).max() > 1e-6:
                self.bad('damage', f'{pg}: damaged parts {counts[:, 0]} of {row["blocks"]} blocks')
                return False
            counts = np.round(counts)
            p = np.zeros(n)
            exceed = {}
            for k in reversed(range(len(f['ls']))):
                ls = f['ls'][k]
                thetas = self.scaled(pg, k, ls)
                if ls['family'] == 'deterministic' and any(abs(x / t[0] - 1) < 1e-6 for t in thetas):
                    return True
                if thetas[0] == thetas[-1] and all(t == thetas[0] for t in thetas):
                    one = float(cdf(ls['family'], thetas[0], x, ls['lo'], ls['hi']))
                    here = np.full(n, one)
                elif ls['lo'] is not None or ls['hi'] is not None:
                    here = np.array([self.truncated(ls, t, x) for t in thetas])
                else:
                    here = np.array([float(cdf(ls['family'], t, x)) for t in thetas])
                p = np.maximum(p, here)
                exceed[k] = p.copy()
                reached = counts[groups[k][0]:].sum(axis=0)
                if not self.compare_exceedance(pg, k, row['blocks'], p, reached):
                    return False
            for k, g in enumerate(groups):
                if len(g) == 1:
                    continue
                here = counts[g]
                total = here.sum(axis=0)
                w = np.array(f['ls'][k]['weights'])
                if (total == row['blocks']).all() and self.method != 'MonteCarlo':
                    off = np.abs(here.sum(axis=1) - w * n * row['blocks']) - row['blocks']
                else:
                    # given the limit state, damage states are drawn independently
                    off = np.abs(here.sum(axis=1) - w * total.sum()) - math.sqrt(
                        LOG * max(total.sum(), 1) / 2) - row['blocks']
                self.res.stats['random variables checked'] += 1
                if off.max() > 1e-6:
                    self.bad('weights', f'{pg}: limit state {k + 1} leads to its damage states {here.sum(axis=1)} times, weights {w}')
                    return False
            if 0.2 < exceed[0].min() and exceed[0].max() < 0.8 and len(set(exceed[0])) == 1:
                # the blocks that are damaged, by realization
                reached = counts[1:].sum(axis=0)
                self.vectors['damage', *pg] = reached
                if row['blocks'] > 1 and self.n >= 100 and set(reached) <= {0, row['blocks']}:
                    self.bad('dependent', f'{pg}: all blocks are always damaged together')
                    return False
        return True

    @staticmethod
    def truncated(ls, theta, x):
        a = 0.0 if ls['lo'] is None else float(base_cdf(ls['family'], theta, ls['lo']))
        b = 1.0 if ls['hi'] is None else float(base_cdf(ls['family'], theta, ls['hi']))
        return float(np.clip((base_cdf(ls['family'], theta, min(max(x, ls['lo'] or -np.inf), ls['hi'] or np.inf)) - a) / (b - a), 0, 1))

    def compare_exceedance(self, pg, k, blocks, p, reached) -> bool:
        n = self.n
        self.res.stats['random variables checked'] += 1
        sure = p > 1 - 1e-9
        never = p < 1e-9
        if (reached[sure] != blocks).any() or (reached[never] != 0).any():
            self.bad('capacity', f'{pg}: limit state {k + 1} is reached in {reached[sure][:4]} and {reached[never][:4]} '
                                 f'of {blocks} blocks where it always and never has to be')
            return False
        rest = ~sure & ~never
        m = int(rest.sum())
        if not m:
            return True
        total, want = reached[rest].sum(), p[rest].sum() * blocks
        if m == n and (p == p[0]).all() and self.method != 'MonteCarlo':
            limit = blocks * (1 + 1e-4 * n)
        else:
            limit = math.sqrt(LOG * m * blocks / 2) + blocks
        if abs(total - want) > limit:
            self.bad('capacity', f'{pg}: limit state {k + 1} is reached {total:g} times in {m} realizations of {blocks} blocks, '
                                 f'expected {want:.2f}')
            return False
        return True

    def consequences(self) -> bool:
        sp, n = self.conf['spread'], self.n
        have = {k: np.nan_to_num(v) for k, v in self.cols('loss').items()}
        model = {c: {'per': 1, 'dv': {dv: [
            [f'{commas(e["t0"][0])}|{commas(e["t0"][1])}' if isinstance(e['t0'], list) else e['t0'], e['family']]
            for e in rows] for dv, rows in v.items()}} for c, v in sp['conseq'].items()}
        kinds = {}
        for pg, _ in self.pgs:
            kinds.setdefault(pg[0], self.got['quantity units'][pg])
        want = scen.losses(self.dmg, model, [(c, c) for c in sp['frag']], kinds, self.conf['dvs'], self.conf['eco'])
        us = {}
        for key, (median, random) in want.items():
            mine = have.get(key)
            if mine is None:
                if (median != 0).any():
                    self.bad('loss', f'{key} is missing')
                    return False
                continue
            hit = median > 0
            if (mine[~hit] != 0).any():
                self.bad('loss', f'{key}: losses without damage')
                return False
            if not random:
                if not np.allclose(mine, median, rtol=3e-5, atol=1e-9):
                    self.bad('loss', f'{key}: {mine[:4]} instead of {median[:4]}')
                    return False
                continue
            e = sp['conseq'][key[1]][key[0]][int(key[3]) - 1]
            ratio = mine[hit] / median[hit]
            family, t1 = e['family'], e['t1']
            u = cdf(family, [1.0, t1], ratio, 0.0, None)
            full = bool(hit.all())
            rho = self.conf['rho']
            partner = ('Cost', *key[1:])
            if rho and key[0] == 'Time' and self.is_random(partner):
                us['Time', *key[1:]] = (hit, u)
                continue
            us[key] = (hit, u)
            if not self.check('loss', key, u, full=full):
                return False
        return self.correlated(us)

    def is_random(self, key) -> bool:
        rows = self.conf['spread']['conseq'].get(key[1], {}).get(key[0])
        return bool(rows and rows[int(key[3]) - 1]['family'])

    def correlated(self, us) -> bool:
        """Repair times that depend on the repair costs."""
        rho = self.conf['rho']
        for key, (hit, u) in us.items():
            if key[0] != 'Time' or not rho or ('Cost', *key[1:]) not in us:
                continue
            hit_c, c = us['Cost', *key[1:]]
            if (hit != hit_c).any():
                self.bad('loss', f'{key}: cost and time disagree where there are losses')
                return False
            if rho == 1.0:
                if not np.allclose(c, u, atol=1e-4):
                    self.bad('correlation', f'{key}: cost and time are not fully correlated')
                    return False
                continue
            with np.errstate(invalid='ignore'):
                left = ndtr((ndtri(np.clip(u, 1e-12, 1 - 1e-12)) - rho * ndtri(np.clip(c, 1e-12, 1 - 1e-12))) / math.sqrt(1 - rho**2))
            self.pairs.add(key[1:])
            if not self.check('loss', ('Time given Cost', *key[1:]), left, full=bool(hit.all())):
                return False
        return True

    def functions(self) -> bool:
        have = self.cols('lf loss')
        lf = self.conf['spread']['lf']
        us = {}
        for pg, row in self.pgs:
            f = lf.get(pg[0])
            if f is None:
                continue
            for dv, e in f['dv'].items():
                x = scen.demand_of(f, pg, self.dem, self.conf['offset'], self.conf['nondir'])
                median = np.interp(x, e['x'], e['y'])
                mine = have.get((dv, pg[0], *pg))
                if mine is None:
                    self.bad('lf-loss', f'{dv} {pg} is missing')
                    return False
                # quantities count in their base unit
                ratio = mine / median / self.qty[pg]
                if not e['family']:
                    if not np.allclose(ratio, 1, rtol=3e-4):
                        self.bad('lf-loss', f'{dv} {pg}: {mine[:4]} instead of {(median * self.qty[pg])[:4]}')
                        return False
                    continue
                if row['blocks'] > 1:
                    # the sum of independent blocks: the mean is known
                    if (ratio < 0).any() or abs(ratio.mean() - 1.03) > 0.5:
                        self.bad('lf-loss', f'{dv} {pg}: {ratio[:4]} times the median')
                        return False
                    continue
                us[dv, *pg] = cdf(e['family'], [1.0, e['t1']], ratio, 0.0, None)
        rho = self.conf['rho']
        for key, u in us.items():
            cost = us.get(('Cost', *key[1:]))
            if rho and key[0] == 'Time' and cost is not None:
                if rho == 1.0:
                    if not np.allclose(cost, u, atol=1e-3):
                        self.bad('correlation', f'{key}: cost and time of a loss function are not fully correlated')
                        return False
                    continue
                self.pairs.add(key[1:])
                with np.errstate(invalid='ignore'):
                    u = ndtr((ndtri(u) - rho * ndtri(cost)) / math.sqrt(1 - rho**2))  # noqa: PLW2901
            if not self.check('lf-loss', key, u, full=True):
                return False
        return True

    def independence(self) -> None:
        if self.n < 100:
            return
        keys = sorted(self.vectors, key=str)
        m = np.array([self.vectors[k] for k in keys])
        keys = [k for k, v in zip(keys, m) if v.std() > 0]
        if len(keys) < 2:
            return
        r = np.corrcoef(np.array([self.vectors[k] for k in keys]))
        self.res.stats['pairs checked for dependence'] += len(keys) * (len(keys) - 1) // 2
        for i in range(len(keys)):
            for j in range(i):
                if abs(r[i, j]) > 0.75:
                    self.bad('dependent', f'{keys[j]} and {keys[i]} depend on each other: correlation {r[i, j]:.3f}')
                    return


# --- the world -------------------------------------------------------------------


class SpreadWorld(SessionWorld):
    """Assessments whose random parts are compared with their distributions."""

    name = 'spread'

    def gen_A09(self, rng, plan) -> None:  # noqa: N802
        n = rng.choice([20, 40, 100, 100, 150, 200])
        stories, dirs = rng.choice([1, 2]), rng.choice([['1'], ['1', '2']])
        demand = scen.gen_demands(rng, stories, dirs, {}, 1)
        for v in demand['cols'].values():
            v *= n
        conf = {
            'stories': stories, 'dirs': dirs, 'dvs': rng.choice([['Cost', 'Time'], ['Cost', 'Time'], ['Time', 'Cost'], ['Cost']]),
            'demand': demand, 'mode': 'sample', 'size': n, 'preserve': False, 'clone': None, 'calib': None,
            'rid': None, 'expand': None, 'source': rng.choice(['frame', 'file']), 'seed': rng.randrange(1, 10_000),
            'sampling': rng.choice(['LHS', 'LHS', 'LHS', 'LHS_midpoint', 'MonteCarlo']),
            'listall': rng.random() < 0.3,
            'eco': {'AcrossFloors': rng.random() < 0.5, 'AcrossDamageStates': rng.random() < 0.5},
            'nondir': {'ALL': rng.choice([1.0, 1.2])},
            'offset': rng.choice([{'PFA': -1, 'PFV': -1}, {'PFA': 0, 'PFV': 0}]),
            'rho': rng.choice([0.0, 0.6, -0.4, 0.9, 1.0]),
            'log': False, 'verbose': False, 'process': None, 'batch': rng.choice([1, 2, 5, 1000]),
            'thresholds': None, 'policy': 'fill', 'map': None, 'scaling': None, 'replace': None, 'combine': None,
        }
        while True:
            conf['spread'] = gen_spread(rng, conf)
            if conf['spread']['frag'] and (conf['spread']['conseq'] or any(v['dv'] for v in conf['spread']['lf'].values())):
                break
        self.mirror(conf)
        if rng.random() < 0.35:
            conf['thresholds'] = gen_list_scaling(rng, conf)
        plan['confs'] = [conf]
        plan['trouble'] = {
            s: SessionWorld.gen_trouble(rng, conf, s) for s in steps_of(conf)
            if s not in {'demand', 'aggregate'} and rng.random() < 0.25} if rng.random() < 0.3 else {}

    @staticmethod
    def mirror(conf) -> None:
        """What the steps of a session read from a configuration."""
        sp = conf['spread']
        conf['frag'], conf['conseq'], conf['lf'] = sp['frag'], sp['conseq'], sp['lf']
        conf['cmps'] = sp['cmps']
        conf['units'] = {r['id']: r['unit'] for r in sp['cmps']}

    def sampled(self, plan):
        conf = plan['confs'][0]
        disk = self.disk_for([conf], ['a'])
        out = {'failed': None, 'fired': {}}
        try:
            actor = Actor(conf, disk, 'a')
            steps = [s for s in steps_of(conf) if s != 'aggregate']
            with sandboxed(disk, Clock(), plan['salt'], lib=None):
                actor.new()
                for step in steps:
                    fault = plan['trouble'].get(step)
                    disk.reset_op([fault] if fault and fault['at'] != 'call' else [])
                    try:
                        try:
                            with interrupting(fault['n'] if fault and fault['at'] == 'call' else None):
                                actor.run(step)
                        except (KeyboardInterrupt, Exception) as e:  # noqa: BLE001
                            if not isinstance(e, KeyboardInterrupt) and not disk.op_fired:
                                raise
                            if isinstance(e, KeyboardInterrupt):
                                out['fired']['interrupt'] = out['fired'].get('interrupt', 0) + 1
                            disk.reset_op()
                            for again in steps[steps.index(safe_start(step, steps)):steps.index(step) + 1]:
                                actor.run(again)
                    except Exception as e:  # noqa: BLE001
                        out['failed'] = (step, raised(e))
                        return out
                    disk.reset_op()
                r = actor.results()
                out['tables'] = {k: (list(map(tuple, f.columns)), f.to_numpy(float)) for k, f in r.items()
                                 if k in {'quantities', 'damage', 'loss', 'lf loss'}}
                out['quantity units'] = {tuple(i): v for i, v in r['quantity units'].iloc[:, 0].items()}
            for k, v in disk.fired.items():
                out['fired'][k] = out['fired'].get(k, 0) + v
            return out
        finally:
            disk.close()

    def run_A09(self, plan, res) -> None:  # noqa: N802
        conf = plan['confs'][0]
        got = in_child(self.sampled, plan)
        res.faults.update(got['fired'])
        res.stats['assessments'] += 1
        res.stats[f'{conf["sampling"]} samples'] += 1
        res.sim_seconds += len(steps_of(conf))
        sp = conf['spread']
        res.state(got['failed'], conf['sampling'], conf['rho'],
                  sorted({r['q']['family'] or '' for r in sp['cmps']}),
                  sorted({ls['family'] for f in sp['frag'].values() for ls in f['ls']}),
                  bool(conf['thresholds']), bool(sp['lf']))
        if got['failed']:
            res.event(got['failed'])
            res.violate('A09', 'failed', f'step {got["failed"][0]} of a valid assessment fails: {got["failed"][1]}')
            return
        res.event(digest(got['tables']))
        Spread(conf, got, res).judge()
        res.nontrivial = res.stats['random variables checked'] > 0

    def shrink(self, plan):  # noqa: C901
        conf = plan['confs'][0]
        sp = conf['spread']
        for step in plan['trouble']:
            yield {**plan, 'trouble': {k: v for k, v in plan['trouble'].items() if k != step}}

        def make(**kw):
            new = {**conf, **kw}
            self.mirror(new)
            return {**plan, 'confs': [new]}

        for c in sorted({r['id'] for r in sp['cmps']}):
            new = {'cmps': [r for r in sp['cmps'] if r['id'] != c],
                   **{k: {a: b for a, b in sp[k].items() if a != c} for k in ('frag', 'conseq', 'lf')}}
            if new['cmps'] and (new['conseq'] or any(v['dv'] for v in new['lf'].values())):
                yield make(spread=new)
        if len(sp['cmps']) > 1:
            for i, r in enumerate(sp['cmps']):
                if any(o['id'] == r['id'] for j, o in enumerate(sp['cmps']) if j != i):
                    yield make(spread={**sp, 'cmps': sp['cmps'][:i] + sp['cmps'][i + 1:]})
        for i, r in enumerate(sp['cmps']):
            simpler = []
            if r['blocks'] > 1:
                simpler.append({**r, 'blocks': 1})
            if r['q']['family']:
                simpler.append({**r, 'q': {'family': None, 'theta': [2.0, None], 'lo': None, 'hi': None}})
            for s in simpler:
                yield make(spread={**sp, 'cmps': sp['cmps'][:i] + [s] + sp['cmps'][i + 1:]})
        if conf['thresholds']:
            yield make(thresholds=None)
            for k in conf['thresholds']:
                yield make(thresholds={a: b for a, b in conf['thresholds'].items() if a != k} or None)
        if conf['rho']:
            yield make(rho=0.0)
        if conf['source'] == 'file':
            yield make(source='frame')

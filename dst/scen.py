"""
Generated assets, demands, damage and consequence models, and an independent
reference for what must come out of them.

Component capacities have (almost) no dispersion unless a component asks for
it, so the damage of every realization follows from its demands; consequences
follow from the damaged quantities.  The reference is written from the
documented behaviour and shares no code with pelicun.
"""

from __future__ import annotations

import numpy as np

EDP = {
    'PID': ('Peak Interstory Drift Ratio', 'unitless', (0.002, 0.04)),
    'PFA': ('Peak Floor Acceleration', 'g', (0.1, 1.5)),
    'PFV': ('Peak Floor Velocity', 'inchps', (2.0, 30.0)),
    'SA_1.0': ('Spectral Acceleration|1.0', 'g', (0.1, 2.0)),
    'RID': ('Residual Interstory Drift Ratio', 'unitless', (0.0, 0.02)),
    'PWS': ('Peak Gust Wind Speed', 'mph', (50.0, 220.0)),
    'PIH': ('Peak Inundation Height', 'ft', (0.0, 12.0)),
}
#: unit in a file -> factor into the unit of the library
TO_LIB = {
    'PID': {'unitless': 1.0, 'rad': 1.0},
    'PFA': {'g': 1.0, 'mps2': 1 / 9.80665, 'inchps2': 0.0254 / 9.80665, 'ftps2': 0.3048 / 9.80665},
    'PFV': {'inchps': 1.0, 'cmps': 1 / 2.54, 'ftps': 12.0, 'mps': 1 / 0.0254},
    'SA_1.0': {'g': 1.0, 'mps2': 1 / 9.80665, 'inchps2': 0.0254 / 9.80665, 'ftps2': 0.3048 / 9.80665},
    'RID': {'unitless': 1.0},
    'PWS': {'mph': 1.0, 'inchps': 0.0254 / 0.44704, 'ftps': 0.3048 / 0.44704, 'mps': 1 / 0.44704},
    'PIH': {'ft': 1.0, 'm': 1 / 0.3048, 'inch': 1 / 12.0, 'in': 1 / 12.0},
}
POOL = ['B.10.11a', 'B.10.12', 'C.20.21c', 'C.30.01', 'D.40.11', 'D.20', 'E.20.22', 'F.50.10']
DV_UNIT = {'Cost': 'USD_2011', 'Time': 'worker_day', 'Carbon': 'kg', 'Energy': 'MJ'}
#: quantity unit of components -> (factor to base unit)
QTY = {'ea': 1.0, 'ft2': 1.0, 'm2': 1 / 0.3048**2}
P58 = {
    '1_excessive.coll.DEM': {'DS1': 'collapse_DS1'},
    '2_collapse': {'DS1': 'ALL_NA'},
    '3_excessiveRID': {'DS1': 'irreparable_DS1'},
    '4_irreparable': {'DS1': 'ALL_NA'},
    '5_irreparable': {'DS1': 'collapse_DS0'},
}
HAZUS = {
    'Hazus Earthquake - Lifeline Facilities': {
        '1_LF': {'DS5': 'collapse_DS1'},
        '2_collapse': {'DS1': 'ALL_NA'},
    },
    'Hazus Earthquake - Buildings': {
        '1_STR': {'DS5': 'collapse_DS1'},
        '2_excessive.coll.DEM': {'DS1': 'collapse_DS1'},
        '3_collapse': {'DS1': 'ALL_NA'},
        '4_excessiveRID': {'DS1': 'irreparable_DS1'},
        '5_irreparable': {'DS1': 'ALL_NA'},
        '6_irreparable': {'DS1': 'collapse_DS0'},
    },
}
FUZZ = 2e-3


def sig(x: float, n: int = 4) -> float:
    return float(f'{x:.{n}g}')


# --- generation --------------------------------------------------------------


def gen_frag(rng, edp):
    lo, hi = EDP[edp][2]
    n = rng.choice([1, 2, 2, 3])
    ths = sorted(sig(lo + (hi - lo) * rng.uniform(0.05, 0.9)) for _ in range(n))
    for i in range(1, n):
        if ths[i] < ths[i - 1] * 1.05:
            ths[i] = sig(ths[i - 1] * 1.3)
    weights = [None] * n
    if rng.random() < 0.25:
        weights[rng.randrange(n)] = rng.choice(['0.4|0.6', '0.5|0.3|0.2', '0.1 | 0.9'])
    return {
        'edp': edp,
        'offset': 0 if edp != 'PFA' else rng.choice([0, 1, 1]),
        'directional': rng.choice([0, 1]) if edp != 'SA_1.0' else 1,
        'ths': ths,
        'weights': weights,
        'beta': 0.4 if rng.random() < 0.15 else (None if rng.random() < 0.2 else 1e-6),
    }


def n_ds(frag) -> int:
    return sum(1 if w is None else len(w.split('|')) for w in frag['weights'])


def ds_groups(frag) -> list[list[int]]:
    """Damage states that belong to each limit state."""
    out, k = [[0]], 1
    for w in frag['weights']:
        m = 1 if w is None else len(w.split('|'))
        out.append(list(range(k, k + m)))
        k += m
    return out


def gen_conseq(rng, frag, dvs, qty_unit):
    out = {}
    for dv in dvs:
        if rng.random() < 0.08:
            continue  # this decision variable is not in the library
        rows = []
        base = {'Cost': 1000.0, 'Time': 2.0, 'Carbon': 50.0, 'Energy': 300.0}[dv]
        multi = rng.random() < 0.4
        family = rng.choice([None, None, None, 'lognormal', 'normal'])
        for k in range(1, n_ds(frag) + 1):
            med = sig(base * k * rng.uniform(0.5, 2))
            if multi:
                q1, q2 = rng.choice([(1, 4), (2, 10), (5, 20)])
                rows.append([f'{med:g},{sig(med * 0.4):g}|{q1},{q2}', family])
            else:
                rows.append([med, family])
        out[dv] = rows
    per = 1 if qty_unit == 'ea' else rng.choice([1, 10, 100])
    return {'per': per, 'dv': out}


def gen_assets(rng, stories, dirs, *, max_cmp=4, dvs=('Cost', 'Time'), dispersion=True):
    ids = rng.sample(POOL, rng.randrange(1, max_cmp + 1))
    cmps, frag, conseq = [], {}, {}
    for c in ids:
        edp = rng.choice(['PID', 'PID', 'PFA', 'PFA', 'PFV', 'SA_1.0'])
        unit = rng.choice(['ea', 'ea', 'ft2', 'm2'])
        f = gen_frag(rng, edp)
        if not dispersion and f['beta'] == 0.4:
            f['beta'] = 1e-6
        frag[c] = f
        conseq[c] = gen_conseq(rng, f, dvs, 'ea' if unit == 'ea' else 'ft2')
        rows = 1 if rng.random() < 0.75 else 2
        for _ in range(rows):
            if edp == 'SA_1.0':
                loc = '0'
            elif stories == 1:
                loc = rng.choice(['1', 'all', 'top'])
            else:
                loc = rng.choice([
                    'all', f'1--{stories}', str(rng.randrange(1, stories + 1)), 'top',
                    ','.join(map(str, range(1, stories + 1))),
                ])
            if edp == 'PFA' and f['offset'] == 0 and rng.random() < 0.15:
                loc = 'roof'
            d = rng.choice(dirs) if rng.random() < 0.5 else ','.join(dirs)
            if edp == 'SA_1.0':
                d = '1'
            cmps.append({
                'id': c, 'unit': unit, 'loc': loc, 'dir': d,
                'q': rng.choice([1.0, 2.0, 3.0, 8.0, 12.5, 0.0] if rng.random() < 0.2
                                else [1.0, 2.0, 3.0, 8.0, 12.5]),
                'family': None, 'theta_1': None,
                'blocks': rng.choice([1, 1, 2, 3, 4]),
            })
    # every row of one component carries the same unit
    first = {}
    for row in cmps:
        row['unit'] = first.setdefault(row['id'], row['unit'])
    dup = [r['id'] for r in cmps]
    for row in cmps:
        if dup.count(row['id']) == 1 and rng.random() < 0.2:
            row['family'], row['theta_1'] = rng.choice([('lognormal', 0.4), ('normal', 0.2)])
            row['q'] = max(row['q'], 1.0)
    return cmps, frag, conseq


def gen_demands(rng, stories, dirs, frag, rows, units=None, sa=True):
    """Raw demand table in file units; values keep clear of every threshold."""
    if units is None:
        units = {t: rng.choice(sorted(TO_LIB[t])) for t in ('PID', 'PFA', 'PFV', 'SA_1.0')}
    ths = {t: [x for f in frag.values() if f['edp'] == t for x in f['ths']] for t in TO_LIB}
    cols = {}

    def value(t):
        lo, hi = EDP[t][2]
        while True:
            v = sig(rng.uniform(lo, hi) / TO_LIB[t][units[t]], 5)
            x = v * TO_LIB[t][units[t]]
            if all(abs(x * m / th - 1) > 2 * FUZZ for th in ths[t] for m in (1.0, 1.2, 1.5)):
                return v

    for s in range(stories + 2):
        for d in dirs:
            if 1 <= s <= stories:
                cols[f'PID-{s}-{d}'] = [value('PID') for _ in range(rows)]
            cols[f'PFA-{s}-{d}'] = [value('PFA') for _ in range(rows)]
            cols[f'PFV-{s}-{d}'] = [value('PFV') for _ in range(rows)]
    if sa:
        cols['SA_1.0-0-1'] = [value('SA_1.0') for _ in range(rows)]
    names = list(cols)
    rng.shuffle(names)
    used = {n.split('-')[0] for n in names}
    return {'units': {t: u for t, u in units.items() if t in used},
            'cols': {n: cols[n] for n in names}}


def locations(text, stories) -> list[int]:
    if text == 'all':
        return list(range(1, stories + 1))
    if text == 'top':
        return [stories]
    if text == 'roof':
        return [stories + 1]
    if '--' in text:
        a, b = text.split('--')
        return list(range(int(a), int(b) + 1))
    return [int(x) for x in text.split(',')]


def groups(cmps, stories) -> list[tuple]:
    """Performance groups: (cmp, loc, dir, uid) with the row they come from."""
    out, seen = [], {}
    for row in cmps:
        for loc in locations(row['loc'], stories):
            for d in row['dir'].split(','):
                key = (row['id'], str(loc), d)
                uid = seen.get(key, 0)
                seen[key] = uid + 1
                out.append(((*key, str(uid)), row))
    return out


# --- files -------------------------------------------------------------------


def csv_text(rows) -> str:
    def cell(x):
        if x is None:
            return ''
        s = str(x)
        return f'"{s}"' if ',' in s else s

    return '\n'.join(','.join(cell(c) for c in r) for r in rows) + '\n'


def frag_rows(frag, extra=()):
    width = max(len(f['ths']) for f in frag.values())
    head = ['ID', 'Incomplete', 'Demand-Type', 'Demand-Unit', 'Demand-Offset', 'Demand-Directional']
    for k in range(1, width + 1):
        head += [f'LS{k}-Family', f'LS{k}-Theta_0', f'LS{k}-Theta_1', f'LS{k}-DamageStateWeights']
    rows = [head]
    for c, f in frag.items():
        name, unit, _ = EDP[f['edp']]
        row = [c, 0, name, unit, f['offset'], f['directional']]
        for k in range(width):
            if k < len(f['ths']):
                fam = 'lognormal' if f['beta'] else None
                row += [fam, f['ths'][k], f['beta'], f['weights'][k]]
            else:
                row += [None] * 4
        rows.append(row)
    rows.extend(extra)
    return with_expressions(rows, list(frag.values()))


def with_expressions(rows, models):
    """Columns for demands that are combined from two."""
    if not any(f.get('expr') for f in models):
        return rows
    head = ['Demand-Expression', *[f'Demand2-{c}' for c in ('Type', 'Unit', 'Offset', 'Directional')]]
    out = [rows[0] + head]
    for row, f in zip(rows[1:], models):
        e = f.get('expr')
        out.append(row + ([e['text'], *EDP[f['edp']][:2], e['offset'], e['directional']] if e else [None] * 5))
    return out


EXPRESSIONS = {
    'sqrt(X1^2 + X2^2)': lambda a, b: np.sqrt(a**2 + b**2),
    '(X1 + X2)/2': lambda a, b: (a + b) / 2,
    '(2*X1 + X2) / 3': lambda a, b: (2 * a + b) / 3,
    'X1 - X2/4': lambda a, b: a - b / 4,
}


def conseq_rows(conseq, cmp_units, dv_units=None):
    dv_units = dv_units or DV_UNIT
    width = max([len(r) for c in conseq.values() for r in c['dv'].values()] or [1])
    head = ['ID', 'Incomplete', 'Quantity-Unit', 'DV-Unit']
    for k in range(1, width + 1):
        head += [f'DS{k}-Family', f'DS{k}-Theta_0', f'DS{k}-Theta_1']
    rows = [head]
    for c, v in conseq.items():
        qty = '1 EA' if cmp_units[c] == 'ea' else f"{v['per']} SF"
        for dv, entries in v['dv'].items():
            row = [f'{c}-{dv}', 0, qty, dv_units[dv]]
            for k in range(width):
                if k < len(entries):
                    theta, fam = entries[k]
                    row += [fam, theta, 0.3 if fam else None]
                else:
                    row += [None] * 3
            rows.append(row)
    return rows


def assign_rows(cmps):
    head = ['ID', 'Units', 'Location', 'Direction', 'Theta_0', 'Blocks', 'Family', 'Theta_1']
    return [head] + [
        [r['id'], r['unit'], r['loc'], r['dir'], r['q'], r['blocks'], r['family'], r['theta_1']]
        for r in cmps
    ]


def demand_rows(dem, *, with_units=True):
    names = list(dem['cols'])
    rows = [['', *names]]
    if with_units:
        rows.append(['Units', *[dem['units'][n.split('-')[0]] for n in names]])
    for i in range(len(dem['cols'][names[0]])):
        rows.append([i, *[dem['cols'][n][i] for n in names]])
    return rows


# --- reference: damage -------------------------------------------------------


def demand_of(frag, pg, dem, offsets, nondir):
    """Demand (library unit) that acts on a performance group."""
    t = frag['edp']
    if frag.get('expr'):
        e = frag['expr']
        return EXPRESSIONS[e['text']](
            demand_of({**frag, 'expr': None}, pg, dem, offsets, nondir),
            demand_of({**frag, 'expr': None, 'offset': e['offset'], 'directional': e['directional']},
                      pg, dem, offsets, nondir))
    loc = int(pg[1]) + int(frag['offset']) + offsets.get(t, 0)
    if frag['directional']:
        return dem[t, str(loc), pg[2]]
    cols = [v for (a, b, _), v in dem.items() if a == t and b == str(loc)]
    m = nondir.get(t, nondir.get('ALL'))
    return np.max(np.array(cols), axis=0) * m


class Damage:
    """
    Expected damage: per group and realization a set of possible states.

    ``state[pg]`` is an array of codes: k >= 0 means limit state k (any damage
    state of that limit state), ('ds', j) style overrides are kept in
    ``fixed[pg]`` (-2: not overridden, -1: not applicable, j: damage state j).
    ``free`` groups have dispersed capacities: any state is possible.
    """

    def __init__(self, n) -> None:
        self.n = n
        self.frag = {}
        self.ls = {}
        self.fixed = {}
        self.free = set()
        self.fuzzy = np.zeros(n, dtype=bool)

    def ds(self, pg):
        """Definite damage state per realization (groups without weights)."""
        base = self.ls[pg]
        if pg not in self.free:
            g = ds_groups(self.frag[pg])
            base = np.array([g[k][0] if len(g[k]) == 1 else 900 + k for k in base])
        return np.where(self.fixed[pg] == -2, base, self.fixed[pg])

    def allowed(self, pg, r) -> set[int] | None:
        """Possible damage states; empty: not applicable."""
        f = self.fixed[pg][r]
        if f == -1:
            return set()
        if f >= 0:
            return {int(f)}
        if pg in self.free:
            return set(range(n_ds(self.frag[pg]) + 1))
        return set(ds_groups(self.frag[pg])[int(self.ls[pg][r])])


def scale_ths(frag, pg, spec):
    ths = list(frag['ths'])
    ops = (spec or {}).get('-'.join(pg[:3]))
    if not ops:
        return ths
    out = []
    for k, th in enumerate(ths):
        op = ops.get('ALL', ops.get(f'LS{k + 1}'))
        if op is None:
            out.append(th)
            continue
        x = float(op[1:])
        out.append({'+': th + x, '-': th - x, '*': th * x, '/': th / x}[op[0]])
    return out


def damage(pgs, frag, dem, n, offsets, nondir, process=None, spec=None, known=None):
    """
    Expected damage.

    ``known`` tells which of the damage states of its highest limit state a
    component is in: {component: (realizations, state otherwise, state there)}.
    """
    out = Damage(n)
    for pg, _row in pgs:
        f = frag.get(pg[0])
        if f is None:
            continue
        x = demand_of(f, pg, dem, offsets, nondir)
        t = np.array(scale_ths(f, pg, spec))
        out.frag[pg] = f
        out.fixed[pg] = np.full(n, -2)
        if f['beta'] == 0.4:
            out.free.add(pg)
            out.ls[pg] = np.full(n, 950)
        else:
            out.fuzzy |= (np.abs(x[:, None] / t[None, :] - 1) < FUZZ).any(axis=1)
            # the damage state is the highest limit state whose capacity is exceeded
            over = x[:, None] > t[None, :]
            out.ls[pg] = np.where(
                over.any(axis=1), len(t) - np.argmax(over[:, ::-1], axis=1), 0
            )
        if pg[0] in (known or {}):
            there, other, state = known[pg[0]]
            top = out.ls[pg] == len(t)
            out.fixed[pg] = np.where(top, np.where(there, state, other), out.fixed[pg])
    for key in sorted(process or {}, key=lambda k: int(k.split('_')[0])):
        apply_task(out, key.split('_')[1], process[key])
    return out


def apply_task(dmg, source, events) -> None:
    by_loc = source.endswith('-LOC')
    if by_loc:
        source = source[:-4]
    if not any(pg[0] == source for pg in dmg.ls):
        return
    for event, targets in events.items():
        want = int(event[2:])
        for target in targets if isinstance(targets, list) else [targets]:
            name, what = target.split('_')
            new = -1 if what == 'NA' else int(what[2:])
            locs = {pg[1] for pg in dmg.ls if pg[0] == source} if by_loc else {None}
            hits = []
            for loc in sorted(locs, key=str):
                src = [pg for pg in dmg.ls if pg[0] == source and loc in {None, pg[1]}]
                rows = np.max([dmg.ds(pg) for pg in src], axis=0) == want
                hits.append((loc, rows))
            for loc, rows in hits:
                for pg in dmg.ls:
                    if loc is not None and pg[1] != loc:
                        continue
                    if pg[0] == name or (name == 'ALL' and pg[0] != source):
                        dmg.fixed[pg] = np.where(rows, new, dmg.fixed[pg])


# --- reference: losses -------------------------------------------------------


def median(theta, q):
    if isinstance(theta, str):
        m, x = theta.split('|')
        return np.interp(q, [float(v) for v in x.split(',')], [float(v) for v in m.split(',')])
    return np.full(np.shape(q), float(theta))


def losses(dmg, conseq, loss_map, cmp_units, dvs, eco):
    """
    Expected losses from a damage sample.

    ``dmg`` maps (cmp, loc, dir, uid, ds) to quantities in the unit of the
    component.  Returns {(dv, loss, dmg, ds, loc, dir, uid): (values, random)}.
    """
    out = {}
    for driver, cons in loss_map:
        if cons not in conseq:
            continue
        mine = {k: np.nan_to_num(v) for k, v in dmg.items() if k[0] == driver}
        if not mine:
            continue
        entry = conseq[cons]
        unit = QTY[cmp_units[driver]]  # quantities in 'ea' or ft2
        per = entry['per'] if cmp_units.get(cons, 'ea') != 'ea' else 1
        for dv in dvs:
            rows = entry['dv'].get(dv)
            if rows is None:
                continue
            for key, q in mine.items():
                ds = int(key[4])
                if ds == 0 or ds > len(rows):
                    continue
                peers = [
                    v for k, v in mine.items()
                    if (eco['AcrossDamageStates'] or k[4] == key[4])
                    and (eco['AcrossFloors'] or k[1] == key[1])
                ]
                theta, fam = rows[ds - 1]
                # quantities count in the unit of the consequence model
                total = np.sum(peers, axis=0) * unit / per
                value = q * unit * median(theta, total) / per
                out[dv, cons, driver, key[4], key[1], key[2], key[3]] = (value, fam is not None)
    return out


def aggregate(loss, dvs, n):
    """Totals per decision variable: cost sums, sequential and parallel times."""
    out = {}
    exclusive = np.zeros(n, dtype=bool)
    for key, v in loss.items():
        if key[1] == 'replacement':
            exclusive |= v > 0
    for dv in dvs:
        cols = {k: np.where(exclusive & (k[1] != 'replacement'), 0.0, v)
                for k, v in loss.items() if k[0] == dv}
        if not cols:
            continue
        if dv != 'Time':
            out[f'repair_{dv.lower()}'] = np.sum(list(cols.values()), axis=0)
            continue
        by_loc = {}
        for k, v in cols.items():
            by_loc.setdefault(k[4], []).append(v)
        per = [np.sum(v, axis=0) for v in by_loc.values()]
        out['repair_time-sequential'] = np.sum(per, axis=0)
        out['repair_time-parallel'] = np.max(per, axis=0)
    return out


def multilinear(axes, table, point) -> float:
    if not axes:
        return float(table)
    x, axis = point[0], axes[0]
    i = min(max(int(np.searchsorted(axis, x, side='right')) - 1, 0), len(axis) - 2)
    w = (x - axis[i]) / (axis[i + 1] - axis[i])
    return (1 - w) * multilinear(axes[1:], table[i], point[1:]) + w * multilinear(axes[1:], table[i + 1], point[1:])

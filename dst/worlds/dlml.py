"""
World: the model library, its download tool, the network, the disk, the clock.

One simulated machine runs pelicun "processes" (``import pelicun`` from a
script, ``pelicun dlml update`` from the command line) against a simulated
GitHub.  Between and inside them the simulator moves the clock, changes the
repository, breaks the network and the disk, kills the process at any file or
network call, and damages local files.
"""

from __future__ import annotations

import contextlib
import datetime as _dt
import hashlib
import importlib
import io
import json
import logging
import os
import re
import sys
import warnings

from dst.clock import Clock
from dst.core import Result, SimCrash, SimRunaway, World, drop_chunks
from dst.fsim import Disk
from dst.net import API_ONLY, GitHub, Network

DAY = 86400
FRESH = ('pelicun', 'pelicun.cli', 'pelicun.tools', 'pelicun.tools.dlml')
NET_SOFT = ['refuse', 'timeout', 'readtimeout', 'http403', 'http404', 'http429',
            'http500', 'http502', 'truncate', 'reset']
FS_SOFT = ['enospc', 'eio', 'eacces', 'short']


def sha_of(i: int, salt: int) -> str:
    return hashlib.sha1(f'{salt}/{i}'.encode()).hexdigest()


def content(path: str, ver: int, size: int) -> bytes:
    line = f'{path},{ver},0.5|1.5,lognormal\n'.encode()
    return (line * (size // len(line) + 1))[:size] if size else b''


class DlmlWorld(World):
    name = 'dlml'
    real = [
        'pelicun/__init__.py (import-time check)',
        'pelicun/cli.py',
        'pelicun/tools/dlml.py',
        'requests and urllib3 above the transport adapter',
        'tqdm, json, logging',
    ]
    stubs = [
        'GitHub API and raw hosts (in-process model)',
        'HTTP transport (adapter seam)',
        'wall clock and sleep',
        'file-system call outcomes below the scratch root',
        'process boundaries (modules re-imported per simulated process)',
    ]
    run_bound_s = 120

    def setup(self) -> None:
        import pelicun.cli  # noqa: F401, PLC0415

    # --- generation --------------------------------------------------------

    def generate(self, rng, prop, index):  # noqa: C901, PLR0912, PLR0915
        salt = rng.randrange(1 << 30)
        big = prop in {'L01', 'L02'} and rng.random() < 0.03
        nfiles = 305 + rng.randrange(20) if big else rng.choice([1, 2, 3, 4, 6, 9])
        names = []
        for i in range(nfiles):
            d = rng.choice(['', 'seismic/', 'seismic/building/p58/', 'hurricane/'])
            stem = f'f{i}'
            if not big and rng.random() < 0.12:
                stem += rng.choice([' data', '#1', '&x', '+y', '%20z', "'q"])
            if not big and i and rng.random() < 0.12:
                # a file of the same name in another folder
                name = f"{d}{names[rng.randrange(i)].rsplit('/', 1)[-1]}"
                if name not in names:
                    names.append(name)
                    continue
            names.append(f'{d}{stem}.csv' if rng.random() < 0.8 else f'{d}{stem}.json')
        if not big and rng.random() < 0.12:
            # names that an address cut at a reserved character would confuse
            base = f'mixed/g{rng.randrange(3)}'
            names += [base, base + rng.choice(['#2.csv', '?2.csv', '%23x.csv', ';2.csv'])]
        sizes = [0, 1, 17, 400, 8191, 8192, 8193, 20000]

        def size():
            return rng.choice([17, 400]) if big else rng.choice(sizes)

        ncommits = rng.choice([1, 2, 3, 3, 4, 5])
        commits = []
        ver = 0
        for c in range(ncommits):
            if c == 0:
                tree = {n: [0, size()] for n in names}
                parent = None
            else:
                parent = c - 1 if rng.random() < 0.75 else rng.randrange(c)
                tree = dict(commits[parent]['tree'])
                if big:
                    touched = list(tree) if rng.random() < 0.7 else rng.sample(sorted(tree), 3)
                else:
                    touched = rng.sample(sorted(tree), rng.randint(0, len(tree)))
                for n in touched:
                    ver += 1
                    roll = rng.random()
                    if roll < 0.75 or len(tree) == 1:
                        tree[n] = [ver, size()]
                    elif roll < 0.87:
                        del tree[n]
                    else:
                        old = tree.pop(n)
                        # a rename keeps the bytes: name the content after its first path
                        tree[f'moved{ver}.csv'] = old if len(old) == 3 else [*old, n]
                if rng.random() < 0.3:
                    ver += 1
                    tree[f'new/added{ver}.csv'] = [ver, size()]
            commits.append(
                {
                    'parent': parent,
                    'tree': tree,
                    'comments': rng.random() < 0.3,
                }
            )
        vers = ['v1.0.0', 'v1.1.0', 'v1.2.0', 'v1.10.0', 'v2.0.0', 'v2.0.1']
        if rng.random() < 0.25:
            vers = ['v1.0.0', 'v1.1.0rc1', 'v1.1.0', 'v2.0.0-beta.2', 'v2.0.0', 'v2.0.0.post1']
        if rng.random() < 0.2:
            vers[rng.randrange(6)] = 'beta'
        releases = []
        cset = list(range(ncommits))
        for i, tag in enumerate(sorted(rng.sample(range(6), min(6, ncommits)))):
            releases.append(
                {
                    'tag': vers[tag],
                    'commit': cset[i],
                    'annotated': rng.random() < 0.4,
                    'target': 'sha' if rng.random() < 0.7 else 'main',
                }
            )
        if rng.random() < 0.15 and len(releases) > 1:
            # an older line gets a later patch release
            releases[-1]['tag'], releases[0]['tag'] = releases[0]['tag'], releases[-1]['tag']
        published = rng.randint(1, len(releases))
        if rng.random() < 0.04:
            published = 0
        plan = {
            'salt': salt,
            'commits': commits,
            'releases': releases,
            'published': published,
            'main': releases[published - 1]['commit'] if published else 0,
            'token': f'ghp_{salt:x}secret' if rng.random() < (0.8 if prop == 'L08' else 0.3) else None,
            'start': f'2025-{rng.randint(1, 12):02d}-{rng.randint(1, 28):02d}T'
            f'{rng.randint(0, 23):02d}:{rng.randint(0, 59):02d}:00.{rng.randint(0, 999999):06d}',
            'ops': [],
        }
        ops = plan['ops']
        faulty = rng.random() < {'L06': 0.3, 'L07': 0.15, 'L05': 0.3}.get(prop, 0.8)
        crashy = rng.random() < {'L05': 0.1, 'L06': 0.1, 'L07': 0.05, 'L04': 0.25}.get(prop, 0.6)
        nops = rng.randint(2, 9) if not big else rng.randint(2, 4)
        weights = {
            'update': 5,
            'import': 3,
            'push': 1,
            'release': 1.2,
            'advance': 1,
            'tamper': 2.0 if prop == 'L01' else 1.0,
            'net': 0.5,
            'disk': 0.5,
        }
        if prop in {'L04', 'L05', 'L06'}:
            weights.update({'import': 6, 'advance': 5, 'update': 2.5, 'release': 1.6})
        if prop == 'L03':
            weights.update({'import': 8, 'update': 1.5})
        if prop == 'L07':
            weights.update({'update': 8, 'import': 1, 'disk': 0, 'net': 0})
        if prop in {'L04', 'L05', 'L06'} or (prop == 'L07') or rng.random() < 0.4:
            ops.append(
                self._gen_update(rng, plan, big, faulty=False, crashy=False)
                if rng.random() < 0.7
                else {'op': 'import', 'faults': []}
            )
        kinds, ws = zip(*weights.items())
        for _ in range(nops):
            kind = rng.choices(kinds, ws)[0]
            if kind == 'update':
                ops.append(self._gen_update(rng, plan, big, faulty, crashy))
            elif kind == 'import':
                ops.append(
                    {'op': 'import', 'faults': self._gen_faults(rng, nfiles, faulty, crashy, big)}
                )
            elif kind == 'push':
                ops.append({'op': 'push', 'commit': rng.randrange(ncommits)})
            elif kind == 'release':
                ops.append({'op': 'release'})
            elif kind == 'advance':
                if rng.random() < 0.5:
                    ops.append({'op': 'advance', 'rel': rng.choice([-3600, -1, 0, 1, 60])})
                else:
                    ops.append(
                        {
                            'op': 'advance',
                            's': rng.choice([60, 3600, 40000, 86399, 90000, 400000])
                            if rng.random() < 0.85
                            else -rng.choice([60, 3600, 90000]),
                        }
                    )
            elif kind == 'tamper':
                ops.append(
                    {
                        'op': 'tamper',
                        'what': rng.choice(
                            ['delete', 'corrupt', 'cache-garbage', 'cache-torn',
                             'cache-delete', 'cache-nondict', 'cache-binary',
                             'cache-time', 'wipe']
                        ),
                        'pick': rng.random(),
                        'where': rng.random(),
                    }
                )
                if prop in {'L01', 'L07'} and rng.random() < 0.6:
                    # damage between a recorded installation and a move away from it
                    ops.insert(-1, self._gen_update(rng, plan, big, False, False))
                    ops[-1]['what'] = rng.choice(['delete', 'corrupt', 'corrupt', ops[-1]['what']])
                    ops.append(self._gen_update(rng, plan, big, False, False))
            elif kind == 'net':
                ops.append({'op': 'net', 'offline': rng.random() < 0.5})
            elif kind == 'disk':
                ops.append(
                    {'op': 'disk', 'readonly': rng.random() < 0.3, 'full': rng.random() < 0.25}
                )
        # faults stop here; whatever is on disk must now be recoverable
        ops.append({'op': 'heal'})
        tail = rng.random()
        if tail < 0.3:
            ops.append({'op': 'import', 'faults': []})
        ops.append(self._gen_update(rng, plan, big, faulty=False, crashy=False))
        if rng.random() < 0.5:
            ops.append({'op': 'advance', 'rel': rng.choice([-1, 0, 5])})
            ops.append({'op': 'import', 'faults': []})
        return plan

    def _gen_update(self, rng, plan, big, faulty, crashy):
        n = len(plan['commits'])
        roll = rng.random()
        if roll < 0.4:
            target = 'latest'
        elif roll < 0.7:
            target = f"tag:{rng.randrange(len(plan['releases']))}"
        elif roll < 0.9:
            target = f'commit:{rng.randrange(n)}'
        elif roll < 0.96:
            target = 'commit:latest'
        else:
            target = rng.choice(['bad-tag', 'bad-commit', 'bad-sha'])
        op = {
            'op': 'update',
            'target': target,
            'no_cache': rng.random() < 0.2,
            'faults': self._gen_faults(rng, len(plan['commits'][0]['tree']), faulty, crashy, big),
        }
        if rng.random() < 0.15:
            op['log'] = rng.choice([True, 'upd.log'])
        if rng.random() < 0.12:
            op['events'] = [
                {
                    'n': rng.randint(1, 6),
                    'event': rng.choice(['push', 'release']),
                    'commit': rng.randrange(n),
                }
            ]
        return op

    def _gen_faults(self, rng, nfiles, faulty, crashy, big):
        out = []
        span = 10 if big else max(6, nfiles + 5)
        if faulty and rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                if rng.random() < 0.6:
                    kind = rng.choice(NET_SOFT + list(API_ONLY))
                    out.append(
                        {
                            'at': 'net',
                            'n': rng.randrange(span),
                            'kind': kind,
                            'frac': round(rng.random(), 3),
                        }
                    )
                else:
                    out.append(
                        {
                            'at': 'fs',
                            'n': rng.randrange(2 * span),
                            'kind': rng.choice(FS_SOFT),
                            'frac': round(rng.random(), 3),
                        }
                    )
        if crashy and rng.random() < 0.35:
            if rng.random() < 0.4:
                out.append(
                    {
                        'at': 'net',
                        'n': rng.randrange(span),
                        'kind': rng.choice(['crash', 'crashbody']),
                        'frac': round(rng.random(), 3),
                    }
                )
            else:
                out.append(
                    {
                        'at': 'fs',
                        'n': rng.randrange(3 * span),
                        'kind': 'crash',
                        'frac': round(rng.random(), 3),
                    }
                )
        return out

    # --- execution ---------------------------------------------------------

    def execute(self, plan):
        run = _Run(plan)
        return run.go()

    # --- shrinking ---------------------------------------------------------

    def shrink(self, plan):  # noqa: C901
        for ops in drop_chunks(plan['ops']):
            yield {**plan, 'ops': ops}
        for i, op in enumerate(plan['ops']):
            for key in ('faults', 'events'):
                if op.get(key):
                    for fs in drop_chunks(op[key]):
                        ops = list(plan['ops'])
                        ops[i] = {**op, key: fs}
                        yield {**plan, 'ops': ops}
            if op.get('log'):
                ops = list(plan['ops'])
                ops[i] = {k: v for k, v in op.items() if k != 'log'}
                yield {**plan, 'ops': ops}
            if op['op'] == 'update' and op['target'] != 'latest':
                ops = list(plan['ops'])
                ops[i] = {**op, 'target': 'latest'}
                yield {**plan, 'ops': ops}
            for j, f in enumerate(op.get('faults', ())):
                if f.get('frac'):
                    fs = list(op['faults'])
                    fs[j] = {**f, 'frac': 0.0}
                    ops = list(plan['ops'])
                    ops[i] = {**op, 'faults': fs}
                    yield {**plan, 'ops': ops}
        if plan['token']:
            yield {**plan, 'token': None}
        names = sorted({p for c in plan['commits'] for p in c['tree']})
        if len(names) > 1:
            for kept in drop_chunks(names):
                if not kept:
                    continue
                keep = set(kept)
                commits = [
                    {**c, 'tree': {p: v for p, v in c['tree'].items() if p in keep}}
                    for c in plan['commits']
                ]
                yield {**plan, 'commits': commits}
        for i, c in enumerate(plan['commits']):
            if c.get('comments'):
                commits = list(plan['commits'])
                commits[i] = {**c, 'comments': False}
                yield {**plan, 'commits': commits}

    def describe(self, plan):
        return {
            'commits': len(plan['commits']),
            'files': len({p for c in plan['commits'] for p in c['tree']}),
            'releases': plan['releases'][: plan['published']],
            'ops': plan['ops'],
        }


class _Run:
    """One execution of a plan."""

    def __init__(self, plan) -> None:
        self.plan = plan
        self.res = Result()
        self.disk = Disk()
        self.clock = Clock(plan['start'])
        self.t0 = self.clock.now
        self.hub = GitHub()
        self.hub.apply_event = self.remote_event
        self.net = Network(self.hub, self.clock, self.disk.die)
        self.lib = 'site/lib'
        # --- model ---
        self.installed = None  # {'sha', 'version'} of the last reported success
        self.maybe: set[str] = set()  # revisions that may be recorded as complete
        self.ever = False  # some installation was reported complete
        self.dirty = False  # a later operation failed or was killed part-way
        self.tampered: set[str] = set()
        self.cache_ok = True
        self.version_known = False
        self.checked_at = None  # time of the last check known to be recorded
        self.last_query = None  # latest time anything was asked or installed
        self.last_found = None  # latest tag found by the recorded check
        self.update_since_check = False
        self.finding_branch = False
        self.build_remote()

    # --- remote ------------------------------------------------------------

    def tree_bytes(self, i: int) -> dict[str, bytes]:
        c = self.plan['commits'][i]
        out = {}
        for p, v in c['tree'].items():
            path = v[2] if len(v) > 2 else p
            out[p] = content(path, v[0], v[1])
        lines = sorted(c['tree'])
        if c.get('comments'):
            lines = ['# models', '', *lines, '# end']
        out['model_files.txt'] = ('\n'.join(lines) + '\n').encode()
        out['README.md'] = f'rev {i}'.encode()
        return out

    def build_remote(self) -> None:
        p = self.plan
        self.shas = [sha_of(i, p['salt']) for i in range(len(p['commits']))]
        for i, c in enumerate(p['commits']):
            par = c['parent']
            self.hub.commit(
                self.shas[i],
                None if par is None else self.shas[par],
                self.tree_bytes(i),
                branch=None,
            )
        self.hub.branches['main'] = self.shas[p['main']]
        self.published = 0
        for _ in range(p['published']):
            self.publish(move=False)

    def publish(self, *, move=True) -> None:
        if self.published >= len(self.plan['releases']):
            return
        r = self.plan['releases'][self.published]
        self.published += 1
        sha = self.shas[r['commit']]
        if r['annotated']:
            obj = sha_of(10_000 + self.published, self.plan['salt'])
            self.hub.tag_objects[obj] = sha
            self.hub.tags[r['tag']] = ('tag', sha)
        else:
            self.hub.tags[r['tag']] = ('commit', sha)
        if move:
            self.hub.branches['main'] = sha
        self.hub.releases.append(
            {'tag': r['tag'], 'sha': sha, 'target': sha if r['target'] == 'sha' else 'main'}
        )

    def remote_event(self, event) -> None:
        self.res.stats[f"remote.{event['event']}-during-update"] += 1
        if event['event'] == 'push':
            self.hub.branches['main'] = self.shas[event['commit']]
        else:
            self.publish()
        self.heads.append(self.hub.branches['main'])
        if self._targets is not None:
            self._targets.append(self.resolve(self._target))

    def resolve(self, target: str):
        """(sha, version, asked) the target stands for right now, or None."""
        if target == 'latest':
            r = self.hub.latest_release()
            return (r['sha'], r['tag'], 'latest') if r else None
        if target.startswith('tag:'):
            tag = self.plan['releases'][int(target[4:])]['tag']
            r = next((r for r in self.hub.releases if r['tag'] == tag), None)
            return (r['sha'], r['tag'], tag) if r else None
        if target == 'commit:latest':
            sha = self.hub.branches['main']
            return (sha, f'commit-{sha[:7]}', 'commit latest')
        if target.startswith('commit:'):
            sha = self.shas[int(target[7:]) % len(self.shas)]
            return (sha, f'commit-{sha[:7]}', f'commit {sha[:7]}')
        return None

    def argument(self, target: str) -> str:
        if target == 'latest':
            return 'latest'
        if target.startswith('tag:'):
            return self.plan['releases'][int(target[4:])]['tag']
        if target == 'commit:latest':
            return 'commit latest'
        if target.startswith('commit:'):
            return f'commit {self.shas[int(target[7:]) % len(self.shas)][:7]}'
        return {'bad-tag': 'v9.9.9', 'bad-commit': 'commit 0000000', 'bad-sha': 'commit xyz'}[target]

    # --- processes ---------------------------------------------------------

    def process(self, argv, body):
        """Run ``body`` as a new pelicun process; return (outcome, text)."""
        for name in FRESH:
            sys.modules.pop(name, None)
        logger = logging.getLogger('pelicun.dlml')
        for h in list(logger.handlers):
            logger.removeHandler(h)
        logger.setLevel(logging.NOTSET)
        out, err = io.StringIO(), io.StringIO()
        saved_argv, saved_cwd = sys.argv, os.getcwd()
        caught = []
        error = ''
        with self.disk.quiet():
            os.makedirs(self.disk.path('work'), exist_ok=True)
            os.chdir(self.disk.path('work'))
        sys.argv = argv
        env = {'DLML_DATA_DIR': self.disk.path(self.lib)}
        if self.plan['token']:
            env['GITHUB_TOKEN'] = self.plan['token']
        saved_env = {k: os.environ.get(k) for k in ('DLML_DATA_DIR', 'GITHUB_TOKEN')}
        os.environ.pop('GITHUB_TOKEN', None)
        os.environ.update(env)
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), \
                    warnings.catch_warnings(record=True) as caught, \
                    self.clock.installed(), self.net.installed(), self.disk.installed():
                warnings.simplefilter('always')
                try:
                    body()
                    outcome = 'ok'
                except SystemExit as e:
                    outcome = 'ok' if e.code in {None, 0} else 'fail'
                    error = f'SystemExit({e.code})'
                except SimCrash:
                    outcome = 'crash'
                except SimRunaway as e:
                    outcome = 'runaway'
                    error = str(e)
                except Exception as e:  # noqa: BLE001
                    outcome = 'fail'
                    error = f'{type(e).__name__}: {e}'
                if self.disk.dead and outcome != 'crash':
                    outcome = 'crash'
        finally:
            for h in list(logger.handlers):
                logger.removeHandler(h)
                with contextlib.suppress(Exception):
                    h.close()
            sys.argv = saved_argv
            os.chdir(saved_cwd)
            for k, v in saved_env.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
        self.disk.dead = False
        self.text = out.getvalue() + err.getvalue() + error + ''.join(
            str(w.message) for w in caught
        )
        self.warned = [str(w.message) for w in caught if 'update available' in str(w.message)]
        return outcome, error

    # --- the run -----------------------------------------------------------

    def go(self):
        res = self.res
        try:
            for i, op in enumerate(self.plan['ops']):
                self.i, self.op = i, op
                self._targets = None
                res.stats[f"op.{op['op']}"] += 1
                getattr(self, 'op_' + op['op'])(op)
                self.note_state()
            for k, v in self.disk.fired.items():
                res.faults[k] += v
            for k, v in self.net.fired.items():
                res.faults[k] += v
            res.stats['requests'] += self.net.total
            res.stats['file calls'] += self.disk.events
            res.sim_seconds = max(0.0, (self.clock.now - self.t0).total_seconds())
            res.nontrivial = bool(res.stats['op.update'] + res.stats['op.import'] >= 2)
        finally:
            self.disk.close()
        return res

    def note_state(self) -> None:
        tree = self.disk.tree(self.lib)
        shape = []
        for p, b in sorted(tree.items()):
            if p == '.dlml_cache.json':
                continue
            owner = [i for i in range(len(self.shas)) if self.hub.commits[self.shas[i]]['tree'].get(p) == b]
            shape.append((p, owner[:4]))
        self.res.state(shape, self.installed and self.installed['version'], self.dirty,
                       sorted(self.tampered), self.net.offline, self.disk.readonly, self.disk.full)

    def op_push(self, op) -> None:
        self.hub.branches['main'] = self.shas[op['commit'] % len(self.shas)]

    def op_release(self, op) -> None:  # noqa: ARG002
        self.publish()

    def op_advance(self, op) -> None:
        if 'rel' in op:
            # land just before, on or just after the end of the daily period
            base = self.checked_at or self.last_query or self.clock.now
            goal = base + _dt.timedelta(seconds=DAY + op['rel'])
            if goal > self.clock.now:
                self.clock.now = goal
        else:
            self.clock.advance(op['s'])
            if op['s'] < 0:
                self.res.faults['clock.backward'] += 1

    def op_net(self, op) -> None:
        self.net.offline = op['offline']

    def op_disk(self, op) -> None:
        self.disk.readonly, self.disk.full = op['readonly'], op['full']

    def op_heal(self, op) -> None:  # noqa: ARG002
        self.net.offline = self.disk.readonly = self.disk.full = False

    def op_tamper(self, op) -> None:
        what = op['what']
        tree = self.disk.tree(self.lib)
        data = sorted(p for p in tree if p != '.dlml_cache.json' and p != 'model_files.txt')
        self.res.faults[f'local.{what}'] += 1
        cache = f'{self.lib}/.dlml_cache.json'
        if what in {'delete', 'corrupt'}:
            if not data:
                return
            p = data[int(op['pick'] * len(data))]
            if what == 'delete':
                self.disk.remove(f'{self.lib}/{p}')
            else:
                b = tree[p]
                k = int(op.get('where', op['pick']) * max(1, len(b)))
                self.disk.put(f'{self.lib}/{p}', b[:k] + b'\x00\xffdamaged' + b[k + 3 :])
            self.tampered.add(p)
            return
        if what == 'wipe':
            # rm -rf lib/* : hidden files stay
            for p in tree:
                if not p.startswith('.'):
                    self.disk.remove(f'{self.lib}/{p}')
            self.tampered.update(p for p in tree if p != '.dlml_cache.json')
            return
        if '.dlml_cache.json' not in tree:
            return
        self.cache_ok = False
        self.version_known = False
        self.checked_at = None
        if what == 'cache-delete':
            self.disk.remove(cache)
        elif what == 'cache-garbage':
            self.disk.put(cache, b'{"commit_sha": "abc')
        elif what == 'cache-torn':
            b = tree['.dlml_cache.json']
            self.disk.put(cache, b[: int(op['pick'] * len(b))])
        elif what == 'cache-nondict':
            self.disk.put(cache, [b'[]', b'null', b'"x"', b'3'][int(op['pick'] * 4)])
        elif what == 'cache-binary':
            self.disk.put(cache, b'\xff\xfe\x00\x81' * 9)
        elif what == 'cache-time':
            try:
                obj = json.loads(tree['.dlml_cache.json'])
            except ValueError:
                return
            if isinstance(obj, dict) and 'last_version_check' in obj:
                obj['last_version_check'] = ['yesterday', 17, '2025-01-01T00:00:00+00:00'][
                    int(op['pick'] * 3)
                ]
                self.disk.put(cache, json.dumps(obj).encode())
                self.cache_ok = True  # installation record itself intact

    # --- oracles -----------------------------------------------------------

    def exact(self, sha: str, skip=()) -> list[str]:
        """Differences between the library on disk and a revision."""
        tree = self.hub.commits[sha]['tree']
        local = self.disk.tree(self.lib)
        manifest = tree['model_files.txt']
        wanted = ['model_files.txt'] + [
            s for line in manifest.decode().splitlines()
            if (s := line.strip()) and not s.startswith('#')
        ]
        bad = []
        for p in wanted:
            if p in skip:
                continue
            if p not in local:
                bad.append(f'{p}: missing')
            elif local[p] != tree[p]:
                bad.append(f'{p}: {len(local[p])} bytes differ from the revision')
        return bad

    def hard(self) -> bool:
        """Anything that may legitimately make this operation fail."""
        return bool(
            self.net.op_fired
            or any(k != 'short' for *_, k in self.disk.op_fired)
            or self.net.offline
            or self.disk.readonly
            or self.disk.full
        )

    def check_token(self) -> None:
        token = self.plan['token']
        for e in self.net.op_log:
            api = self.hub.is_api(e['url'])
            if token and api and e['auth'] != f'Bearer {token}':
                self.res.violate('L08', 'api-without-token', f"{e['url']} sent without the token")
            if token and not api and any(token in str(v) for v in e['headers'].values()):
                self.res.violate('L08', 'token-to-other-host', f"{e['url']} carried the token")
            if token and token in e['url']:
                self.res.violate('L08', 'token-in-url', e['url'])
        if token:
            if token in self.text:
                self.res.violate('L08', 'token-printed', self.text[:500])
            for p, b in self.disk.tree().items():
                if token.encode() in b:
                    self.res.violate('L08', 'token-stored', f'{p} contains the token')

    def begin(self, op) -> None:
        self.disk.reset_op(op.get('faults'))
        self.net.reset_op(op.get('faults'), op.get('events'))
        self.before = self.disk.tree(self.lib)
        self.heads = [self.hub.branches['main']]

    def data_only(self, tree):
        return {p: b for p, b in tree.items() if p != '.dlml_cache.json'}

    def interrupted(self) -> None:
        """A process failed or was killed: it may have touched anything."""
        now = self.disk.tree(self.lib)
        if self.data_only(now) != self.data_only(self.before):
            self.dirty = True
            self.version_known = False
        if now.get('.dlml_cache.json') != self.before.get('.dlml_cache.json'):
            self.cache_ok = False
            self.version_known = False
            self.checked_at = None
        if self.disk.op_fired:
            self.cache_ok = False
            self.checked_at = None
        # it may have finished everything but the report
        self.maybe.update(s for s in self.shas if not self.exact(s))
        if not self.ever and 'model_files.txt' in now and self.complete():
            # every model file arrived; only the bookkeeping did not finish
            self.res.stats['install.complete-but-reported-failed'] += 1
            self.unsure()

    def unsure(self) -> None:
        """A library is there; which revision it records is not known."""
        self.installed = None
        self.ever = True
        self.dirty = True
        self.version_known = self.cache_ok = False
        self.checked_at = None

    def complete(self) -> bool:
        """Some revision's model files are all present with their bytes."""
        return any(
            not [b for b in self.exact(s) if not b.startswith('model_files.txt:')]
            for s in self.shas
        )

    def success(self, sha, version, *, recorded) -> None:
        self.installed = {'sha': sha, 'version': version}
        self.maybe = {sha}
        self.ever = True
        self.dirty = False
        self.tampered = set()
        self.version_known = recorded
        self.cache_ok = recorded
        self.update_since_check = True
        self.checked_at = None

    def fetched_data(self):
        out = []
        for e in self.net.op_log:
            m = re.match(re.escape(f'{GitHub.RAW}/{GitHub.OWNER}/{GitHub.REPO}/') + r'([^/]+)/(.*)', e['url'])
            if m:
                from urllib.parse import unquote  # noqa: PLC0415

                name = unquote(m.group(2))
                if name != 'model_files.txt':
                    out.append(name)
        return out

    def op_update(self, op) -> None:  # noqa: C901, PLR0912, PLR0915
        res = self.res
        argv = ['pelicun', 'dlml', 'update', self.argument(op['target'])]
        if op['no_cache']:
            argv.append('--no-cache')
        if op.get('log'):
            argv.append('--log')
            if isinstance(op['log'], str):
                argv.append(op['log'])
        self._target = op['target']
        self._targets = [self.resolve(op['target'])]
        self.begin(op)
        clean = (
            self.installed is not None
            and not self.dirty
            and self.cache_ok
            and self.version_known
            and 'model_files.txt' in self.before
        )
        installed_before = self.installed
        had_cache = '.dlml_cache.json' in self.before

        def body() -> None:
            cli = importlib.import_module('pelicun.cli')
            cli.main()

        outcome, error = self.process(argv, body)
        self.last_query = max(filter(None, [self.last_query, self.clock.now]))
        res.event(self.i, 'update', op['target'], outcome, self.net.n, self.disk.n)
        res.stats[f'update.{outcome}'] += 1
        self.check_token()
        if outcome == 'runaway':
            res.violate('L02', 'runaway', error)
            return
        targets = [t for t in self._targets if t]
        if outcome == 'fail':
            if targets and len(targets) == len(self._targets) and not self.hard():
                res.violate(
                    'L02', 'fails-without-fault',
                    f"op {self.i} update {argv[3]!r} failed with no fault: {error}",
                )
            raw = [e for e in self.net.op_log if e['url'].startswith(GitHub.RAW)]
            after = self.disk.tree(self.lib)
            if not raw and self.data_only(after) != self.data_only(self.before):
                res.violate('L02', 'failed-update-changed-files',
                            f'op {self.i} failed before any transfer but changed local files')
            self.interrupted()
            return
        if outcome == 'crash':
            self.interrupted()
            return
        # success reported
        if not targets:
            res.violate('L02', 'success-for-unknown-target',
                        f'op {self.i} update {argv[3]!r} reported success, no such revision exists')
            return
        verdicts = []
        for sha, version, _ in targets:
            skip = ()
            if (
                not op['no_cache']
                and sha in self.maybe
                and self.tampered
                and 'model_files.txt' in self.before
            ):
                skip = self.tampered - set(self.fetched_data())
            bad = self.exact(sha, skip)
            verdicts.append((bad, sha, version))
            if not bad:
                break
        bad, sha, version = min(verdicts, key=lambda v: len(v[0]))
        if bad and self.branch_fallback():
            res.known.append({'property': 'L01', 'what': 'branch-fallback'})
            self.finding_branch = True
            self.unsure()
            return
        if bad:
            text = (
                f"op {self.i}: update {argv[3:]} reported success but "
                f"{len(bad)} file(s) are not those of {version} ({sha[:7]}): {bad[:4]}"
            )
            res.violate('L01', 'not-the-requested-revision', text)
            if self.dirty or not self.cache_ok:
                res.violate('L02', 'retry-does-not-recover', text)
            if self.tampered:
                res.violate('L01', 'damage-not-repaired', text)
        if op.get('log') and not self.hard():
            logs = [b for p, b in self.disk.tree('work').items() if p.endswith('.log')]
            if not logs or not any(logs):
                res.violate('L09', 'no-log', f'op {self.i}: --log left no log file')
        # economy
        if (
            clean
            and not op['no_cache']
            and not self.hard()
            and not op.get('events')
            and self.compare_usable(installed_before['sha'], sha)
            and not self.finding_branch
        ):
            a = self.hub.commits[installed_before['sha']]['tree']
            b = self.hub.commits[sha]['tree']
            listed = set(a['model_files.txt'].decode().split('\n'))
            fetched = self.fetched_data()
            wasted = [
                f for f in fetched
                if f in a and f in b and a[f] == b[f] and f in listed and f not in self.tampered
            ]
            res.stats['economy.checked'] += 1
            if wasted:
                res.violate(
                    'L07', 'refetched-unchanged',
                    f"op {self.i}: {installed_before['version']} -> {version} "
                    f'downloaded unchanged intact files {wasted[:4]}',
                )
            if len(fetched) != len(set(fetched)):
                res.violate('L07', 'fetched-twice', f'op {self.i}: {fetched}')
        if self.tampered and sha in self.maybe \
                and not op['no_cache'] and self.exact(sha):
            # allowed: an unchanged revision is not re-verified; damage remains
            keep = set(self.tampered)
            self.success(sha, version, recorded=clean)
            self.tampered = keep
        else:
            self.success(sha, version, recorded=not op['no_cache'] or had_cache)
        if op['no_cache'] and not had_cache:
            self.version_known = False
        if self.tag_lookup_failed():
            # the release named a branch: no commit is recorded
            self.cache_ok = False

    def compare_usable(self, a: str, b: str) -> bool:
        _, obj = self.hub.compare(f'{a}...{b}')
        if not isinstance(obj, dict) or 'status' not in obj or obj['status'] == 'diverged':
            return False
        if obj['status'] == 'behind':
            _, obj = self.hub.compare(f'{b}...{a}')
        return len(obj['files']) < 300

    def tag_lookup_failed(self) -> bool:
        return any('/git/' in url for url, _ in self.net.op_fired)

    def branch_fallback(self) -> bool:
        """The tag lookup was broken and the release only names a branch."""
        hit = self.tag_lookup_failed()
        rel = [r for r in self.hub.releases if r['target'] == 'main']
        return hit and bool(rel) and (
            len(set(self.heads)) > 1 or not self.exact(self.heads[0])
        )

    def op_import(self, op) -> None:  # noqa: C901, PLR0912, PLR0915
        res = self.res
        self._target = 'latest'
        self._targets = [self.resolve('latest')]
        self.begin(op)
        present = 'model_files.txt' in self.before
        start = self.clock.now

        def body() -> None:
            importlib.import_module('pelicun')

        outcome, error = self.process(['script.py'], body)
        release_queries = [
            e for e in self.net.op_log if e['url'].endswith('/releases/latest')
        ]
        res.event(self.i, 'import', outcome, self.net.n, self.disk.n, bool(self.warned))
        res.stats[f'import.{outcome}'] += 1
        self.check_token()
        if outcome == 'runaway':
            res.violate('L04' if present else 'L03', 'runaway', error)
            return
        if outcome == 'crash':
            self.interrupted()
            self.last_query = max(filter(None, [self.last_query, self.clock.now]))
            return
        if not self.ever or not present:
            self._import_install(op, outcome, error, present)
            self.last_query = max(filter(None, [self.last_query, self.clock.now]))
            return
        # --- an installed library: the check must never be in the way
        if outcome == 'fail':
            res.violate('L04', 'import-blocked',
                        f'op {self.i}: import failed although the library is installed: {error}')
            return
        res.stats['import.with-library'] += 1
        if self.data_only(self.disk.tree(self.lib)) != self.data_only(self.before):
            res.violate('L04', 'import-changed-library',
                        f'op {self.i}: the version check changed the installed files')
        asked = len(self.net.op_log)
        if self.checked_at is not None and _dt.timedelta(0) <= start - self.checked_at < _dt.timedelta(days=1):
            res.stats['daily.suppressed'] += 1
            if asked:
                res.violate('L05', 'asked-again-within-a-day',
                            f'op {self.i}: {asked} request(s) {start - self.checked_at} after the last check')
        if self.last_query is not None and start - self.last_query >= _dt.timedelta(days=1):
            res.stats['daily.due'] += 1
            if not release_queries:
                res.violate('L05', 'check-skipped',
                            f'op {self.i}: no check although {start - self.last_query} passed since the last contact')
        if asked > 1:
            res.violate('L05', 'more-than-one-request', f'op {self.i}: {asked} requests for one check')
        # --- the notice
        installed = self.installed
        latest = self.hub.latest_release()
        latest_tag = latest['tag'] if latest else None
        ok_answer = bool(release_queries) and not self.net.op_fired and not self.net.offline
        certain = installed is not None and self.version_known and not self.dirty
        if certain:
            if ok_answer and not self.disk.op_fired:
                expect = latest_tag is not None and newer(latest_tag, installed['version'])
                res.stats[f'notice.{"due" if expect else "none"}'] += 1
                if expect != bool(self.warned):
                    res.violate(
                        'L06', 'missing-notice' if expect else 'false-notice',
                        f"op {self.i}: installed {installed['version']}, latest release {latest_tag}, "
                        f'notice shown: {bool(self.warned)}',
                    )
            if release_queries and (self.net.op_fired or self.net.offline) and self.warned:
                res.violate('L06', 'notice-after-failed-check', f'op {self.i}: {self.warned}')
            if not release_queries and self.checked_at is not None \
                    and not self.update_since_check and self.last_found is not None:
                expect = self.last_found[1]
                res.stats['notice.repeat'] += 1
                if expect != bool(self.warned):
                    res.violate('L06', 'repeat-differs',
                                f'op {self.i}: the check of {self.checked_at} found update={expect}, '
                                f'notice now: {bool(self.warned)}')
            for w in self.warned:
                m = re.search(r'Current version: (.*?), Latest version: (.*?)\. ', w)
                if m:
                    cur, lat = m.group(1), m.group(2)
                    tags = {r['tag'] for r in self.hub.releases}
                    if cur != installed['version'] or lat not in tags or not newer(lat, cur):
                        res.violate('L06', 'wrong-notice',
                                    f"op {self.i}: {w!r} while {installed['version']} is installed")
            if len(self.warned) > 1:
                res.violate('L06', 'notice-repeated', f'op {self.i}: {len(self.warned)} notices')
        # --- bookkeeping
        if asked:
            self.last_query = max(filter(None, [self.last_query, self.clock.now]))
            if self.disk.op_fired or self.disk.readonly or self.disk.full:
                self.checked_at = None
                self.last_found = None
                if self.disk.tree(self.lib).get('.dlml_cache.json') != self.before.get('.dlml_cache.json'):
                    self.cache_ok = False
                    self.version_known = False
            else:
                self.checked_at = start
                self.update_since_check = False
                self.last_found = (latest_tag, bool(self.warned)) if ok_answer else (None, False)

    def _import_install(self, op, outcome, error, present) -> None:  # noqa: ARG002
        """Import while no complete installation has ever been reported."""
        res = self.res
        targets = [t for t in self._targets if t]
        if outcome == 'fail':
            if targets and not self.hard():
                res.violate('L03', 'install-fails-without-fault', f'op {self.i}: {error}')
            if 'ImportError' not in error:
                res.violate('L03', 'wrong-error', f'op {self.i}: import raised {error}')
            self.interrupted()
            return
        if present:
            # an earlier operation left this library; it must be whole
            if not self.complete():
                res.violate('L03', 'incomplete-library-accepted',
                            f'op {self.i}: import accepted a library that no revision matches')
            self.unsure()
            return
        if not targets:
            res.violate('L03', 'import-without-library',
                        f'op {self.i}: import succeeded, nothing was ever installed and nothing is published')
            return
        sha, version, _ = targets[0]
        bad = self.exact(sha)
        if bad and self.branch_fallback():
            res.known.append({'property': 'L01', 'what': 'branch-fallback'})
            self.finding_branch = True
            self.unsure()
            return
        res.stats['import.installed'] += 1
        if bad:
            res.violate('L03', 'incomplete-library-accepted',
                        f'op {self.i}: import succeeded with {len(bad)} file(s) missing or wrong: {bad[:4]}')
        self.success(sha, version, recorded=True)
        if self.tag_lookup_failed():
            self.cache_ok = False


def newer(latest: str, current: str) -> bool:
    """Reference comparison of a release tag with the installed version."""
    if current.startswith('commit-'):
        return True

    def key(tag):
        m = re.fullmatch(r'v?(\d+(?:\.\d+)*)(?:-?(rc|beta)\.?(\d+)|\.(post)(\d+))?', tag)
        if not m:
            return None
        release = [int(x) for x in m.group(1).split('.')]
        # beta, release candidate, final, post release
        stage = {'beta': 0, 'rc': 1, None: 2, 'post': 3}[m.group(2) or m.group(4)]
        return (*release, *[0] * (4 - len(release)), stage, int(m.group(3) or m.group(5) or 0))

    a, b = key(latest), key(current)
    if a is None or b is None:
        return latest != current
    return a > b

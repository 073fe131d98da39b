"""
Try planted bugs: plant.py [--no-tests] [--checks L01,L02] ID...

For each /verif/seeded/ID: demo passes on the clean tree; with the patch the build and the stable
tests pass, the demo fails, and the named checks (default: the bug's property) report it.
/repo is restored afterwards.
"""

import argparse
import json
import os
import subprocess
import sys
from pathlib import Path

SEEDED = Path('/verif/seeded')


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='*')
    ap.add_argument('--no-tests', action='store_true')
    ap.add_argument('--checks')
    a = ap.parse_args()
    ids = a.ids or sorted(p.name for p in SEEDED.iterdir())
    assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo is not clean'
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i in ids:
        d = SEEDED / i
        meta = json.loads((d / 'meta.json').read_text())
        out = [i, meta['property']]
        clean = sh(f'bash {d}/demo.sh', cwd='/repo', timeout=300)
        out.append(f'demo-clean={clean.returncode}')
        if clean.returncode:
            print(clean.stdout[-800:], clean.stderr[-1500:])
        ap_ = sh(f'git -C /repo apply {d}/patch.diff')
        if ap_.returncode:
            print(i, 'DOES NOT APPLY', ap_.stderr)
            continue
        try:
            if not a.no_tests:
                b = sh('bash /opt/vp/build.sh')
                t = sh('bash /opt/vp/test.sh /tmp/plant.json')
                res = json.load(open('/tmp/plant.json'))
                miss = stable - set(res['passed'])
                out.append(f'build={b.returncode} tests-broken={len(miss)}')
                if miss:
                    print(sorted(miss)[:5])
            bug = sh(f'bash {d}/demo.sh', cwd='/repo', timeout=300)
            out.append(f'demo-bug={bug.returncode}')
            for c in (a.checks or meta['property']).split(','):
                env = {**os.environ, 'DST_REPLAY_DIR': '/tmp/plant-replays', 'VERIF_SEED': '1', 'DST_EVIDENCE': '/tmp/plant-evidence'}
                r = sh(f'/opt/venv/bin/python dst/check.py --property {c} --tier quick', cwd='/verif', env=env)
                hit = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                out.append(f'{c}:rc={r.returncode} {"CAUGHT" if hit and r.returncode == 1 else "MISSED"}')
                kinds = [l.strip()[:160] for l in r.stdout.splitlines() if l.startswith('  ')]
                out += kinds[:1]
                if r.returncode not in (0, 1):
                    print(r.stdout[-1500:], r.stderr[-1500:])
        finally:
            sh('git -C /repo checkout -- .')
        print(' | '.join(out), flush=True)


sys.exit(main())

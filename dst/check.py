"""
Command line of the simulator.

    check.py --property L01 --tier quick      decide one property
    check.py --replay replays/L01-1-17.json   repeat one recorded violation
"""

from __future__ import annotations

import argparse
import os
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent

#: every process of a check runs under this environment
ENV = {
    'PYTHONHASHSEED': '0',
    'PYTHONDONTWRITEBYTECODE': '1',
    'OMP_NUM_THREADS': '1',
    'OPENBLAS_NUM_THREADS': '1',
    'MKL_NUM_THREADS': '1',
    'NUMEXPR_NUM_THREADS': '1',
    'MPLBACKEND': 'Agg',
    'TZ': 'UTC',
}


def main() -> int:
    if os.environ.get('DST_REEXEC') != '1':
        env = {**os.environ, **ENV, 'DST_REEXEC': '1'}
        os.execve(sys.executable, [sys.executable, *sys.argv], env)
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    args = ap.parse_args()
    sys.path.insert(0, str(HERE.parent))
    from dst import boot, core, registry  # noqa: PLC0415

    boot.prepare()
    if args.replay:
        return core.replay(registry.worlds(), args.replay)
    spec = registry.SPECS[args.property]
    world = registry.worlds()[spec['world']]
    return core.check(world, args.property, spec, args.tier, args.seed)


if __name__ == '__main__':
    sys.path.insert(0, str(HERE.parent))
    from dst.core import main_guard

    main_guard(main)

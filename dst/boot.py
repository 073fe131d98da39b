"""Process environment shared by every check: run before importing pelicun."""

from __future__ import annotations

import datetime
import os
import sys
import tempfile

REPO = os.environ.get('DST_REPO', '/repo')


def prepare() -> str:
    """Make ``import pelicun`` work offline from /repo's working tree."""
    for k in (
        'GITHUB_TOKEN',
        'PELICUN_GITHUB_API_URL',
        'PELICUN_GITHUB_RAW_URL',
        'DLML_REPO_OWNER',
        'DLML_REPO_NAME',
    ):
        os.environ.pop(k, None)
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.dont_write_bytecode = True
    base = '/dev/shm' if os.path.isdir('/dev/shm') else None
    scratch = tempfile.mkdtemp(prefix='dst-', dir=base)
    os.environ['DST_SCRATCH'] = scratch
    lib = os.path.join(scratch, 'lib')
    os.mkdir(lib)
    with open(os.path.join(lib, 'model_files.txt'), 'w') as f:
        f.write('')
    with open(os.path.join(lib, '.dlml_cache.json'), 'w') as f:
        f.write(
            '{"update_available": false, "last_version_check": "%s"}'
            % datetime.datetime.now().isoformat()
        )
    os.environ['DLML_DATA_DIR'] = lib
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import atexit
    import shutil

    pid = os.getpid()

    def clean() -> None:
        if os.getpid() == pid:
            shutil.rmtree(scratch, ignore_errors=True)

    atexit.register(clean)
    return lib

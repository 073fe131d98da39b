"""Write properties.jsonl and MANIFEST.json from one table (keeps them in step)."""

from __future__ import annotations

import json
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
PY = '/opt/venv/bin/python'
TECH = 'deterministic simulation with fault injection: seeded search over plans, '
PROPS: list[dict] = []
NA: list[tuple[str, str]] = []


def prop(pid, title, statement, over, text, why, files, mech, *, tech='', note='', na=None,
         state=None, observe=None, hook=None):
    anchors = {
        'files': files,
        'mechanism': [{'name': n, 'where': w} for n, w in mech],
    }
    if state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        anchors['observe_at'] = observe
    if hook:
        anchors['hook_needed'] = hook
    PROPS.append({
        'row': {
            'id': pid, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why, 'anchors': anchors,
        },
        'tech': tech, 'note': note,
    })
    if na:
        NA.append((pid, na))


for part in sorted((VERIF / 'tools').glob('props_*.py')):
    exec(compile(part.read_text(), str(part), 'exec'))  # noqa: S102

rows = [p['row'] for p in PROPS]
ids = [r['id'] for r in rows]
assert len(ids) == len(set(ids))
for r in rows:
    assert len(r['title']) <= 80, r['id']
    assert r['statement'].count('. ') <= 2, (r['id'], r['statement'])
(VERIF / 'properties.jsonl').write_text(
    ''.join(json.dumps(r, ensure_ascii=False) + '\n' for r in rows)
)
na = {p for p, _ in NA}
manifest = {
    'version': 1,
    'setup_cmd': f'{PY} -m compileall -q dst >/dev/null 2>&1; {PY} -c "import numpy, pandas, scipy, requests, tqdm"',
    'hooks': {
        'guard': 'PELICUN_DST_BATCH_SIZE',
        'enable': 'The regional checks set PELICUN_DST_BATCH_SIZE to the chunk size of the simulated run '
        '(unset: 1000, as shipped). Every other seam is one the code or its libraries already have '
        '(transport adapter, data directory variable, joblib backend, module-level open/os/time/random names).',
        'source_commits': ['f29f8fa2996afce5b7f9c729410c8e431fe0fefd'],
    },
    'checks': [
        {
            'property': p['row']['id'],
            'quick_cmd': f"{PY} dst/check.py --property {p['row']['id']} --tier quick",
            'thorough_cmd': f"{PY} dst/check.py --property {p['row']['id']} --tier thorough",
            'technique': TECH + p['tech'],
            'level': 'exploration',
            'level_note': p['note'],
        }
        for p in PROPS
        if p['row']['id'] not in na
    ],
    'not_applicable': [{'property': p, 'reason': r} for p, r in NA],
}
(VERIF / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1, ensure_ascii=False) + '\n')
print(len(rows), 'properties,', len(manifest['checks']), 'checks,', len(NA), 'not applicable')

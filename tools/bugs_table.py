"""Write the table of planted bugs into DESIGN.md (run where seeded/ is present)."""

import json
import re
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
#: caught only after the check had been strengthened
MISSED_FIRST = {
    'R03-resume-parts', 'R03-skip-unreadable', 'C02-quick-cleanup', 'A01-parsed-once', 'A03-resume-batches',
    'A04-first-limits', 'A05-settings-merged', 'A06-free-variables', 'A07-correlation-reused',
    'A08-variables-reused',
    *(VERIF / 'tools' / 'missed_first.txt').read_text().split(),
}
rows = ['| bug | property | needs | first | now |', '|---|---|---|---|---|']
for d in sorted((VERIF / 'seeded').iterdir()):
    meta = json.loads((d / 'meta.json').read_text())
    rows.append(f"| {d.name} | {meta['property']} | {meta['needs']} | "
                f"{'missed' if d.name in MISSED_FIRST else 'caught'} | caught |")
path = VERIF / 'DESIGN.md'
text = path.read_text()
table = '<!-- BUGS -->\n' + '\n'.join(rows) + '\n<!-- /BUGS -->'
if '<!-- /BUGS -->' in text:
    text = re.sub(r'<!-- BUGS -->.*<!-- /BUGS -->', lambda m: table, text, flags=re.S)
else:
    text = text.replace('<!-- BUGS -->', table)
path.write_text(text)

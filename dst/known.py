"""Known findings: defects recorded, not repaired (see known_findings.txt)."""

from __future__ import annotations

from dst.core import VERIF


def entries() -> list[tuple[str, str, str]]:
    """(property, key, text) of each recorded finding."""
    out = []
    path = VERIF / 'known_findings.txt'
    if not path.exists():
        return out
    for line in path.read_text().splitlines():
        if line.startswith('known: '):
            rest = line[len('known: ') :]
            prop, key, text = rest.split(' ', 2)
            out.append((prop.removeprefix('property='), key, text))
    return out


def is_known(prop: str, key: str) -> bool:
    return any(p == prop and k == key for p, k, _ in entries())


def lines_for(prop: str, counts) -> list[str]:
    return [
        f'KNOWN-FINDING: property={p} {key}: {text}'
        f' (seen in {counts.get(f"{p} {key}", 0)} runs)'
        for p, key, text in entries()
        if p == prop
    ]

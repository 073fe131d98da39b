"""
Network seam and a model of the GitHub service the library is fetched from.

The seam is ``requests.adapters.HTTPAdapter.send``: everything above it
(``requests`` sessions, redirects, status handling, body streaming and
``urllib3``'s content-length enforcement) is the real code.
"""

from __future__ import annotations

import contextlib
import io
import json
import re
from collections import Counter
from urllib.parse import unquote, urlsplit

import requests
import urllib3
from requests.adapters import HTTPAdapter
from requests.structures import CaseInsensitiveDict

from dst.core import SimRunaway

NET_KINDS = (
    'refuse',
    'timeout',
    'readtimeout',
    'http403',
    'http404',
    'http429',
    'http500',
    'http502',
    'truncate',
    'reset',
    'crash',
    'crashbody',
)
API_ONLY = ('html200', 'nondict200', 'empty200', 'missing200')


class _Body(io.RawIOBase):
    """Response body that can stop short, break or kill the process."""

    def __init__(self, data: bytes, limit: int | None = None, on_end=None) -> None:
        super().__init__()
        self.data, self.pos = data, 0
        self.limit, self.on_end = limit, on_end

    def readable(self) -> bool:
        return True

    def read(self, n=-1):
        end = len(self.data) if self.limit is None else self.limit
        if self.pos >= end:
            if self.on_end is not None:
                self.on_end()
            return b''
        if n is None or n < 0:
            n = end - self.pos
        # small segments, so that chunk boundaries never line up with files
        n = min(n, 3000)
        out = self.data[self.pos : min(self.pos + n, end)]
        self.pos += len(out)
        return out

    def read1(self, n=-1):
        return self.read(n)

    def readinto(self, b):
        out = self.read(len(b))
        b[: len(out)] = out
        return len(out)


class Network:
    """Delivers requests to a simulated server under a fault plan."""

    def __init__(self, server, clock, kill) -> None:
        self.server, self.clock, self.kill = server, clock, kill
        self.log: list[dict] = []
        self.fired: Counter = Counter()
        self.offline = False
        self.total = 0
        self.reset_op()

    def reset_op(self, faults=None, events=None) -> None:
        self.n = 0
        self.op_log: list[dict] = []
        self.op_fired: list = []
        self.faults = {
            f['n']: f for f in (faults or []) if f.get('at') == 'net'
        }
        self.match_faults = [f for f in (faults or []) if f.get('at') == 'url']
        self.events = {e['n']: e for e in (events or [])}

    def send(self, adapter, request, stream=False, timeout=None, verify=True,
             cert=None, proxies=None):  # noqa: ARG002, C901
        self.total += 1
        if self.total > 20_000:
            msg = 'more than 20000 requests'
            raise SimRunaway(msg)
        n = self.n
        self.n += 1
        event = self.events.pop(n, None)
        if event is not None:
            self.server.remote_event(event)
        url = request.url
        entry = {
            'n': n,
            'url': url,
            'auth': request.headers.get('Authorization'),
            'headers': dict(request.headers),
            'kind': None,
        }
        self.op_log.append(entry)
        self.log.append(entry)
        self.clock.advance(0.2)
        fault = self.faults.get(n)
        if fault is None:
            for f in self.match_faults:
                if f['match'] in url:
                    fault = f
                    break
        if fault is None and self.offline:
            fault = {'kind': 'refuse', 'standing': True}
        kind = fault['kind'] if fault else None
        is_api = self.server.is_api(url)
        if kind in API_ONLY and not is_api:
            kind = 'http502'
        entry['kind'] = kind
        if kind:
            self.fired[f'net.{kind}'] += 1
            self.op_fired.append((url, kind))
        if kind == 'refuse':
            raise requests.exceptions.ConnectionError('simulated: connection refused')
        if kind == 'timeout':
            self.clock.advance(10)
            raise requests.exceptions.ConnectTimeout('simulated: connect timeout')
        if kind == 'readtimeout':
            self.clock.advance(60)
            raise requests.exceptions.ReadTimeout('simulated: read timeout')
        if kind == 'crash':
            self.kill()
        status, body, ctype = self.server.handle(request.method, url)
        declared = len(body)
        limit = None
        on_end = None
        if kind and kind.startswith('http'):
            status = int(kind[4:])
            body = b'{"message": "simulated failure"}' if is_api else b'<html>error</html>'
            declared = len(body)
        elif kind == 'html200':
            status, body, ctype = 200, b'<html>Sign in to the network</html>', 'text/html'
            declared = len(body)
        elif kind == 'nondict200':
            status, body = 200, b'[]' if b'[' != body[:1] else b'{}'
            declared = len(body)
        elif kind == 'empty200':
            status, body = 200, b''
            declared = 0
        elif kind == 'missing200':
            status, body = 200, b'{}'
            declared = 2
        elif kind == 'truncate':
            limit = int(len(body) * fault.get('frac', 0.5))
            if limit >= len(body):
                limit = max(0, len(body) - 1)
        elif kind == 'reset':
            limit = int(len(body) * fault.get('frac', 0.5))

            def on_end() -> None:
                raise ConnectionResetError(104, 'simulated: connection reset by peer')
        elif kind == 'crashbody':
            limit = int(len(body) * fault.get('frac', 0.5))
            on_end = self.kill
        entry['status'] = status
        raw = urllib3.HTTPResponse(
            body=_Body(body, limit, on_end),
            headers={'Content-Length': str(declared), 'Content-Type': ctype},
            status=status,
            preload_content=False,
            enforce_content_length=True,
            request_method=request.method,
        )
        response = requests.Response()
        response.status_code = status
        response.headers = CaseInsensitiveDict(raw.headers)
        response.encoding = requests.utils.get_encoding_from_headers(response.headers)
        response.raw = raw
        response.reason = str(status)
        response.url = url
        response.request = request
        response.connection = adapter
        if not stream:
            _ = response.content
        return response

    @contextlib.contextmanager
    def installed(self):
        real = HTTPAdapter.send
        net = self

        def send(adapter, request, **kw):
            return net.send(adapter, request, **kw)

        HTTPAdapter.send = send
        try:
            yield self
        finally:
            HTTPAdapter.send = real


class GitHub:
    """A repository with commits, branches, tags and releases."""

    OWNER, REPO = 'NHERI-SimCenter', 'DamageAndLossModelLibrary'
    API, RAW = 'https://api.github.com', 'https://raw.githubusercontent.com'

    def __init__(self) -> None:
        self.commits: dict[str, dict] = {}  # sha -> {tree, parent}
        self.branches: dict[str, str] = {}
        self.tags: dict[str, tuple[str, str]] = {}  # tag -> (kind, sha)
        self.tag_objects: dict[str, str] = {}
        self.releases: list[dict] = []
        self.apply_event = None

    def is_api(self, url: str) -> bool:
        return url.startswith(self.API + '/')

    # --- content -----------------------------------------------------------

    def commit(self, sha: str, parent: str | None, tree: dict[str, bytes],
               branch: str | None = 'main') -> None:
        self.commits[sha] = {'tree': dict(tree), 'parent': parent}
        if branch:
            self.branches[branch] = sha

    def ancestors(self, sha: str) -> list[str]:
        out = []
        cur: str | None = sha
        while cur:
            out.append(cur)
            cur = self.commits[cur]['parent']
        return out

    def resolve(self, ref: str) -> str | None:
        if ref in self.commits:
            return ref
        if ref in self.branches:
            return self.branches[ref]
        if ref in self.tags:
            return self.tags[ref][1]
        if re.fullmatch(r'[0-9a-fA-F]{7,39}', ref):
            hits = [s for s in self.commits if s.startswith(ref.lower())]
            if len(hits) == 1:
                return hits[0]
        return None

    def latest_release(self) -> dict | None:
        return self.releases[-1] if self.releases else None

    def remote_event(self, event) -> None:
        if self.apply_event is not None:
            self.apply_event(event)

    # --- HTTP --------------------------------------------------------------

    def handle(self, method: str, url: str):  # noqa: ARG002
        parts = urlsplit(url)
        base = f'{parts.scheme}://{parts.netloc}'
        path = unquote(parts.path)
        prefix = f'/{self.OWNER}/{self.REPO}'
        if base == self.RAW and path.startswith(prefix + '/'):
            ref, _, name = path[len(prefix) + 1 :].partition('/')
            sha = self.resolve(ref)
            if sha and name in self.commits[sha]['tree']:
                return 200, self.commits[sha]['tree'][name], 'text/plain'
            return 404, b'404: Not Found', 'text/plain'
        if base == self.API and path.startswith('/repos' + prefix):
            status, obj = self.api(path[len('/repos' + prefix) :])
            return status, json.dumps(obj).encode(), 'application/json'
        return 404, b'{"message": "Not Found"}', 'application/json'

    def api(self, path: str):
        missing = (404, {'message': 'Not Found'})
        if path == '/releases/latest':
            rel = self.latest_release()
            return (200, self.release_json(rel)) if rel else missing
        if path.startswith('/releases/tags/'):
            tag = path[len('/releases/tags/') :]
            rel = next((r for r in self.releases if r['tag'] == tag), None)
            return (200, self.release_json(rel)) if rel else missing
        if path.startswith('/git/refs/tags/') or path.startswith('/git/ref/tags/'):
            tag = path.split('/tags/', 1)[1]
            if tag not in self.tags:
                return missing
            kind, sha = self.tags[tag]
            if kind == 'tag':
                obj = next(o for o, c in self.tag_objects.items() if c == sha)
                return 200, {'ref': f'refs/tags/{tag}', 'object': {'sha': obj, 'type': 'tag'}}
            return 200, {'ref': f'refs/tags/{tag}', 'object': {'sha': sha, 'type': 'commit'}}
        if path.startswith('/git/tags/'):
            obj = path[len('/git/tags/') :]
            if obj not in self.tag_objects:
                return missing
            return 200, {'sha': obj, 'object': {'sha': self.tag_objects[obj], 'type': 'commit'}}
        if path == '/commits':
            return 200, [{'sha': s} for s in self.ancestors(self.branches['main'])]
        if path.startswith('/commits/'):
            sha = self.resolve(path[len('/commits/') :])
            return (200, {'sha': sha}) if sha else missing
        if path.startswith('/compare/'):
            return self.compare(path[len('/compare/') :])
        return missing

    def release_json(self, rel: dict) -> dict:
        return {
            'tag_name': rel['tag'],
            'target_commitish': rel['target'],
            'name': rel['tag'],
            'draft': False,
        }

    def compare(self, spec: str):
        base, _, head = spec.partition('...')
        b, h = self.resolve(base), self.resolve(head)
        if b is None or h is None:
            return 404, {'message': 'Not Found'}
        anc_b, anc_h = self.ancestors(b), self.ancestors(h)
        merge = next((s for s in anc_h if s in anc_b), None)
        if merge is None:
            return 404, {'message': 'No common ancestor'}
        if b == h:
            status = 'identical'
        elif merge == b:
            status = 'ahead'
        elif merge == h:
            status = 'behind'
        else:
            status = 'diverged'
        t0, t1 = self.commits[merge]['tree'], self.commits[h]['tree']
        files = []
        gone = {p for p in t0 if p not in t1}
        for p in sorted(set(t0) | set(t1)):
            if p in t1 and t0.get(p) != t1[p]:
                src = next((g for g in sorted(gone) if t0[g] == t1[p]), None)
                if p not in t0 and src is not None:
                    gone.discard(src)
                    files.append(
                        {'filename': p, 'status': 'renamed', 'previous_filename': src}
                    )
                else:
                    files.append(
                        {'filename': p, 'status': 'modified' if p in t0 else 'added'}
                    )
        files.extend({'filename': p, 'status': 'removed'} for p in sorted(gone))
        files.sort(key=lambda f: f['filename'])
        return 200, {
            'status': status,
            'ahead_by': max(0, anc_h.index(merge)),
            'behind_by': max(0, anc_b.index(merge)),
            'merge_base_commit': {'sha': merge},
            'files': files[:300],
        }

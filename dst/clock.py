"""Clock seam: wall-clock reads and sleeps come from the simulator."""

from __future__ import annotations

import contextlib
import datetime as _dt
import sys
import time as _time

REAL_DATETIME = _dt.datetime


class Clock:
    def __init__(self, start: str = '2025-03-10T09:00:00') -> None:
        self.now = REAL_DATETIME.fromisoformat(start)
        self.slept = 0.0
        self.reads = 0

    def advance(self, seconds: float) -> None:
        self.now = self.now + _dt.timedelta(seconds=seconds)

    def make(self):
        clock = self

        class Meta(type):
            def __instancecheck__(cls, obj) -> bool:
                return isinstance(obj, REAL_DATETIME)

            def __subclasscheck__(cls, sub) -> bool:
                return issubclass(sub, REAL_DATETIME)

        class SimDateTime(REAL_DATETIME, metaclass=Meta):
            @classmethod
            def now(cls, tz=None):
                clock.reads += 1
                if tz is not None:
                    return clock.now.replace(tzinfo=_dt.timezone.utc).astimezone(tz)
                return clock.now

            @classmethod
            def utcnow(cls):
                clock.reads += 1
                return clock.now

            @classmethod
            def today(cls):
                clock.reads += 1
                return clock.now

        return SimDateTime

    @contextlib.contextmanager
    def installed(self, prefixes=('pelicun',)):
        """Replace the clock in the ``datetime``/``time`` modules and in pelicun."""
        sim = self.make()
        saved = []

        def patch(obj, attr, value) -> None:
            saved.append((obj, attr, getattr(obj, attr)))
            setattr(obj, attr, value)

        patch(_dt, 'datetime', sim)
        patch(_time, 'time', lambda: self.now.timestamp())

        def sleep(s) -> None:
            self.slept += s
            self.advance(s)

        patch(_time, 'sleep', sleep)
        for name, mod in list(sys.modules.items()):
            if mod is None or not name.startswith(prefixes):
                continue
            for attr, value in list(vars(mod).items()):
                if value is REAL_DATETIME:
                    patch(mod, attr, sim)
        try:
            yield self
        finally:
            for obj, attr, value in reversed(saved):
                setattr(obj, attr, value)

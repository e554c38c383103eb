"""Make zigpy's wall clock follow the virtual loop clock."""
from __future__ import annotations

import datetime as _dt
import sys

REAL = _dt.datetime
BASE = REAL(2030, 1, 1, tzinfo=_dt.timezone.utc)
_now = [lambda: 0.0]


class _Meta(type(REAL)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, REAL)


class Fake(REAL, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        v = BASE + _dt.timedelta(seconds=round(_now[0](), 3))
        return v.astimezone(tz) if tz is not None else v.replace(tzinfo=None)

    @classmethod
    def utcnow(cls):
        return cls.now()


def install(now):
    """now() -> seconds since BASE.  Every zigpy module that imported `datetime` gets the virtual one."""
    _now[0] = now
    for name, mod in list(sys.modules.items()):
        if name == "zigpy" or name.startswith("zigpy."):
            if getattr(mod, "datetime", None) is REAL:
                mod.datetime = Fake


def ms(when):
    """datetime (or posix seconds) -> milliseconds since BASE, 0 for anything before"""
    if when is None:
        return 0
    s = when if isinstance(when, (int, float)) else when.timestamp()
    return max(0, round((s - BASE.timestamp()) * 1000))

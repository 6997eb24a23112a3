"""Stand-ins the checks can switch on; installed before the code under test is imported, so that it does not matter how
it refers to them.  Switched off they are the real functions."""

import json
import time

JSON = None  # an object with loads and dumps
CLOCK = None  # a function giving the current moment


def install():
    if getattr(json.loads, "_hook", False):
        return
    for mod, names, pick in ((json, ("loads", "dumps"), _json), (time, ("perf_counter", "monotonic", "time"), _clock)):
        for n in names:
            setattr(mod, n, pick(n, getattr(mod, n)))


def _json(name, real):
    def f(*a, **k):
        return real(*a, **k) if JSON is None else getattr(JSON, name)(*a)

    f._hook, f.real = True, real
    return f


def _clock(name, real):
    def f():
        return real() if CLOCK is None else CLOCK()

    f._hook, f.real = True, real
    return f

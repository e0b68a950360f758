"""Sessions about epochs, elapsed times and sidereal times."""

import math

from . import orbits
from .core import F, ulps

LIMIT = 2.0 ** 63 / 60e9   # minutes


def model_sessions(run, purpose, count=None):
    listed = sorted(run.model("Times", None, {"PURPOSE": purpose}), key=repr)
    if count is not None and count < len(listed):
        listed = run.rng("times", purpose).sample(listed, count)
    return [run.session(ops, "model instants, " + purpose) for ops in listed]


def element(rng, dt):
    return {"op": "elem", "e": 1, "el": dict(orbits.element_set(rng, "near"), dt=dt)}


def epoch_sessions(run, count):
    rng = run.rng("epochs")
    sessions = []
    for _ in range(count):
        ops = []
        for _ in range(8):
            dt = orbits.datetime(rng, *rng.choice([(1901, 2099), (1999, 2000), (1995, 2010)]))
            ops += [{"op": "epoch", "dt": dt}, element(rng, dt), {"op": "eepoch", "e": 1}]
        sessions.append(run.session(ops, "random epochs"))
    return sessions


def minutes(rng):
    kind = rng.randrange(8)
    sign = rng.choice([1, -1])
    if kind == 0:
        return rng.choice([math.nan, math.inf, -math.inf, 0.0, -0.0, 1e308, -1e308, 5e-324, LIMIT, -LIMIT,
                           2 * LIMIT, -2 * LIMIT])
    if kind == 1:
        return sign * ulps(LIMIT, rng.randint(-40, 40))
    if kind == 2:
        return sign * rng.uniform(0.9, 1.1) * LIMIT
    if kind == 3:
        return sign * rng.randrange(10 ** 6) / 60e9 + rng.choice([0, 0.5, 0.499]) / 60e9
    if kind == 4:
        return sign * float(rng.randrange(10 ** 7))
    return sign * 10 ** rng.uniform(-11, 9)


def instant(rng):
    kind = rng.randrange(8)
    if kind == 0:
        return orbits.datetime(rng, 1600, 2400)
    if kind == 1:
        return orbits.datetime(rng, -200000, 200000)
    return orbits.datetime(rng, 1901, 2099)


def conversion_sessions(run, count):
    rng = run.rng("conversions")
    sessions = []
    for _ in range(count):
        origin = orbits.datetime(rng)
        if rng.randrange(12) == 0:
            origin = orbits.datetime(rng, *rng.choice([(262100, 262140), (-262140, -262100), (1, 300)]))
        ops = [element(rng, origin)]
        for _ in range(8):
            to = instant(rng)
            if rng.randrange(3) == 0:
                to = dict(origin, n=rng.randrange(10 ** 9), s=rng.randrange(86400))
            ops += [{"op": "d2m", "e": 1, "dt": to}, {"op": "back", "e": 1, "dt": to},
                    {"op": "m2d", "e": 1, "t": F(minutes(rng))}]
        sessions.append(run.session(ops, "random conversions"))
    return sessions


def sidereal_sessions(run, count):
    rng = run.rng("sidereal")
    sessions = []
    for _ in range(count):
        ops = []
        for _ in range(24):
            y = rng.choice([rng.uniform(-43, 57), rng.uniform(-43, 57), float(rng.randint(-43, 56)),
                            rng.randint(-15705, 20800) / 365.25, rng.uniform(-1e-3, 1e-3),
                            rng.uniform(-1000, 1000), rng.choice([1, -1]) * 10 ** rng.uniform(-12, 3)])
            ops.append({"op": "sid", "y": F(y)})
        sessions.append(run.session(ops, "random sidereal times"))
    return sessions

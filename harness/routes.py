"""Sessions that take different routes to the predictions of the same element sets."""

import datetime

from . import objects, omms, states, tles
from .core import F

FIRST = datetime.date(1, 1, 1).toordinal()


def element_set(rng, resonant):
    """Two lines and the instant of their epoch in nanoseconds."""
    l1, l2 = tles.random_tle(rng)
    family = rng.choice(["oneday", "halfday"] if resonant else ["near", "deep"])
    n, ecc = {"near": (rng.uniform(11, 16), rng.choice([rng.uniform(0, 0.05), 0.0, 1e-6, 1e-4])),
              "deep": (rng.uniform(2.5, 6), rng.uniform(0, 0.6)),
              "oneday": (rng.uniform(0.82, 1.18), rng.uniform(0, 0.7)),
              "halfday": (rng.uniform(1.91, 2.1), rng.uniform(0.51, 0.75))}[family]
    incl = rng.choice([rng.uniform(0, 180), rng.uniform(0, 15), rng.uniform(50, 75)])
    l2 = l2[:8] + b"%8.4f" % incl + l2[16:26] + b"%07d" % int(ecc * 1e7) + l2[33:52] + b"%11.8f" % n + l2[63:]
    if rng.randrange(5):
        l1 = l1[:53] + b"%s%05d-%d" % (rng.choice([b" ", b"-"]), rng.randrange(100000), rng.randint(3, 6)) + l1[61:]
    l1, l2 = tles.fixed(l1), tles.fixed(l2)
    year = int(l1[18:20])
    year += 1900 if year >= 57 else 2000
    day = datetime.date(year, 1, 1).toordinal() + int(l1[20:23]) - 1 - FIRST
    return {"l1": l1, "l2": l2, "ns": day * 86400 * 10 ** 9 + int(l1[24:32]) * 864000, "family": family}


def date(ns):
    seconds, ns = divmod(ns, 10 ** 9)
    day, seconds = divmod(seconds, 86400)
    day = datetime.date.fromordinal(day + FIRST)
    return {"y": day.year, "o": day.timetuple().tm_yday, "s": seconds, "n": ns}


class Clock:
    """Minutes for the model's moments (quarters of a step), off the steps by more than rounding."""

    def __init__(self, rng):
        first = rng.choice([1, 2, 3, 7, 7, 30, 400])
        self.known = {}
        for t in (-9, -5, 3, 5, 9):
            steps = [0, first, first + rng.choice([1, 1, 2, 9, 150])][abs(t) // 4]
            minutes = 720.0 * steps + rng.uniform(10, 700)
            if rng.randrange(4) == 0:
                minutes = float(round(minutes))
            self.known[t] = -minutes if t < 0 else minutes

    def minutes(self, t):
        return self.known[t]


def listing(rng, sets, number, kind):
    """A listing in which the element set is the nth; what else it lists does not matter."""
    many = rng.choice([0, 1, 1, 2, 2, 5, 12, 40]) if kind != "omms" else rng.choice([0, 1, 2, 5])
    others = [sets[rng.randrange(len(sets))] if rng.randrange(3) else element_set(rng, bool(rng.randrange(2)))
              for _ in range(many)]
    nth = rng.randint(0, len(others))
    entries = others[:nth] + [sets[number]] + others[nth:]
    if kind == "omms":
        return nth + 1, "[" + ",".join(objects.message(rng, one["l1"], one["l2"], tles.ABSENT) for one in entries) + "]"
    end = rng.choice(["\n", "\r\n"])
    lines = []
    for one in entries:
        if kind == "p3":
            lines.append(rng.choice(["ISS (ZARYA)", "0 VANGUARD 1", "x", "1 first", "2 second", "Cosmos é 2251"]))
        lines += [one["l1"].decode(), one["l2"].decode()]
    return nth + 1, end.join(lines) + (end if rng.randrange(2) else "")


def read(rng, sets, number, kind, e):
    one = sets[number]
    if kind == "tle":
        op = tles.tle(one["l1"], one["l2"], tles.names(rng), e)
    elif kind == "omm":
        op = dict(omms.op(objects.message(rng, one["l1"], one["l2"], tles.names(rng))), e=e)
    else:
        nth, content = listing(rng, sets, number, kind)
        op = {"op": kind, "text": list(content.encode()), "e": e, "nth": nth}
    return dict(op, set=number + 1)


def route(rng, sets, number, clock, base, one):
    """The operations of a route of the model; handles from base on."""
    ops = [read(rng, sets, number, one["format"], base)]
    e = base
    if one["stored"]:
        ops.append({"op": "rtelem", "e": base, "to": base + 1})
        e = base + 1
    ops.append({"op": one["way"], "e": e, "c": base + 1, "afspc": one["afspc"]})
    made = 0
    asked = []
    if not any(call["dated"] for call in one["ops"]) and rng.randrange(2):
        # on a step, or next to one: no rounding of dates in the way
        clock = states.Clock(rng)
    for call in one["ops"]:
        c = base + call["c"]
        if call["k"] == "clone" or call["k"] == "rtconst":
            ops.append({"op": call["k"], "c": base + 1, "to": base + 2})
        elif call["k"] == "state":
            made += 1
            ops.append({"op": "state", "c": c, "s": base + made})
        elif call["k"] == "copy":
            made += 1
            ops.append({"op": "copy", "s": base + 1, "to": base + made, "clone": bool(rng.randrange(2))})
        else:
            minutes = clock.minutes(call["t"])
            afspc = one["afspc"] if rng.randrange(6) else not one["afspc"]
            if not call["dated"] and call["s"] != -1:
                asked.append({"op": "prop", "c": base + rng.randint(1, call["c"]), "t": F(minutes), "afspc": afspc})
            if call["dated"]:
                ops.append({"op": "at", "e": e, "c": c, "s": {-1: -2, 0: -1}.get(call["s"], base + call["s"]),
                            "dt": date(sets[number]["ns"] + round(minutes * 6e10)), "afspc": afspc})
            elif call["s"] == -1:
                ops.append({"op": "prop", "c": c, "t": F(minutes), "afspc": afspc})
            else:
                ops.append({"op": "pfs", "c": c, "s": base + call["s"] if call["s"] else -1, "t": F(minutes),
                            "afspc": afspc})
    return ops + asked


def direct(rng, number, sets, clock, base, way):
    """The shortest route, to all moments."""
    ops = [read(rng, sets, number, "tle", base)]
    for afspc in (False, True):
        ops.append({"op": way, "e": base, "c": base + int(afspc), "afspc": afspc})
        for t in (-5, 3, 5, 9):
            ops.append({"op": "prop", "c": base + int(afspc), "t": F(clock.minutes(t)), "afspc": afspc})
    return ops


def interleaved(rng, lists):
    lists = [list(one) for one in lists]
    found = []
    while lists:
        one = rng.choice(lists)
        found.append(one.pop(0))
        if not one:
            lists.remove(one)
    return found


def kind(one):
    """What a route has to do with states and copies of constants."""
    calls = one["ops"]
    through = len([call for call in calls if call["k"] == "ask" and call["s"] > 0])
    return (one["resonant"], min(through, 2), "clone" if any(call["k"] == "clone" for call in calls) else
            "restored" if any(call["k"] == "rtconst" for call in calls) else "",
            any(call["k"] == "copy" for call in calls), len({call["c"] for call in calls if call["k"] == "ask"}) > 1)


def chosen(rng, listed, count):
    """As many of each kind."""
    kinds = {}
    for one in sorted(listed, key=repr):
        kinds.setdefault(kind(one), []).append(one)
    found = []
    for _, some in sorted(kinds.items(), key=lambda item: len(item[1])):
        share = (count - len(found)) // len(kinds)
        found += rng.sample(some, min(share, len(some)))
        kinds = {key: value for key, value in kinds.items() if value is not some}
    return found


def sessions(run, count):
    """Routes of the model, several at a time, for two element sets."""
    rng = run.rng("routes")
    found = []
    listed = []
    for config, share in (("Routes", count // 3), ("RoutesLong", count - count // 3)):
        some = chosen(rng, run.model("Routes", config), share)
        if config == "RoutesLong":
            # the formats are independent of what follows
            some = [dict(one, format=rng.choice(["tle", "p2", "p3", "omm", "omms"])) for one in some]
        listed += some
    rng.shuffle(listed)
    by = {flag: [one for one in listed if one["resonant"] == flag] for flag in (False, True)}
    while by[False] or by[True]:
        kinds = [rng.choice([flag for flag in by if by[flag]]), rng.choice([False, True])]
        sets = [element_set(rng, flag) for flag in kinds]
        clocks = [Clock(rng) for _ in sets]
        lists = [direct(rng, number, sets, clocks[number], 10 * number + 1, rng.choice(["from", "from", "compose"]))
                 for number in (0, 1)]
        for place in range(rng.randint(5, 8)):
            number = rng.choice([0, 0, 1])
            if by[kinds[number]]:
                lists.append(route(rng, sets, number, clocks[number], 10 * (place + 3), by[kinds[number]].pop()))
        found.append(run.session(interleaved(rng, lists), "routes, %s and %s" % tuple(one["family"] for one in sets)))
    return found

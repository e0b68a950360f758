"""Sessions about orbits and predictions: those the model enumerates, and random ones."""

import math
import os
import re

from .core import F, G, REPO, ulps

TWO_PI = 2.0 * math.pi
KE = {"wgs84": 0.07436685316871385, "wgs72": 0.07436691613317342}
AE = {"wgs84": 6378.137, "wgs72": 6378.135}


def literals():
    """Numbers written in the implementation: as inputs, they sit on its case distinctions."""
    found = set()
    directory = os.path.join(REPO, "src")
    for name in sorted(os.listdir(directory)):
        if not name.endswith(".rs"):
            continue
        with open(os.path.join(directory, name), errors="replace") as file:
            for line in file:
                line = line.split("//")[0]
                for text in re.findall(r"(?<![A-Za-z_0-9.])\d[\d_]*(?:\.\d+)?(?:[eE][-+]?\d+)?", line):
                    try:
                        found.add(float(text.replace("_", "")))
                    except ValueError:
                        pass
    return sorted(x for x in found if math.isfinite(x))


def model_sessions(run, family, count, sanity="modes"):
    """The orbits of the Orbits model (all of them, or a random choice of count)."""
    listed = run.model("Orbits", None, {"FAMILY": family, "SANITY": sanity})
    listed.sort(key=repr)
    if count is not None and count < len(listed):
        listed = run.rng("model", family).sample(listed, count)
    return [run.session(ops, "model orbit, " + family) for ops in listed]


def orbit(incl, raan, ecc, argp, m, n):
    return {"incl": F(incl), "raan": F(raan), "ecc": F(ecc), "argp": F(argp), "m": F(m), "n": F(n)}


def angle(rng):
    kind = rng.randrange(8)
    if kind == 0:
        return rng.choice([0.0, math.pi / 2, math.pi, 3 * math.pi / 2, TWO_PI, -1.0, 7.5])
    if kind == 1:
        return rng.uniform(-20.0, 20.0)
    return rng.uniform(0.0, TWO_PI)


def sidereal(rng):
    """What a sidereal time function of the caller may return."""
    return rng.choice([rng.uniform(0.0, TWO_PI), rng.uniform(-20.0, 20.0), 0.0])


def years(rng):
    """An epoch in years since J2000: mostly those that two digits can tell, sometimes any."""
    kind = rng.randrange(8)
    if kind == 0:
        return rng.uniform(-300, 400)
    if kind == 1:
        return rng.uniform(-100, 100)
    return rng.uniform(-43, 56)


def inclination(rng):
    kind = rng.randrange(8)
    if rng.randrange(24) == 0:
        return rng.uniform(-7.0, 7.0)
    if kind == 0:
        return rng.choice([0.0, math.pi, math.pi / 2, math.acos(math.sqrt(0.2)),
                           math.pi - 1e-6, math.pi - 1.7e-6, math.pi - 1e-4])
    if kind == 1:
        return rng.choice([0.2, 5.2359877e-2, math.pi - 5.2359877e-2]) * (1 + rng.uniform(-1, 1) * 10 ** rng.uniform(-8, -1))
    if kind <= 3:
        return rng.uniform(0.0, 0.25)
    return rng.uniform(0.0, math.pi)


def drag(rng):
    kind = rng.randrange(6)
    if kind == 0:
        return 0.0
    if rng.randrange(20) == 0:
        return rng.choice([1, -1]) * 10 ** rng.uniform(-2.3, 0.5)
    return rng.choice([1, 1, 1, -1]) * 10 ** rng.uniform(-7, -2.3)


def gravity(rng):
    kind = rng.randrange(5)
    if kind < 2:
        return {"name": "wgs84"}
    if kind < 4:
        return {"name": "wgs72"}
    # another planet-like model, so that no constant can hide in the code
    return {"name": "other",
            "ae": F(rng.uniform(6300, 6450)), "ke": F(rng.uniform(0.0735, 0.0752)),
            "j2": F(rng.uniform(5e-4, 2e-3)), "j3": F(-rng.uniform(1e-6, 4e-6)),
            "j4": F(-rng.uniform(1e-6, 3e-6))}


def constants_of(g):
    if g["name"] in KE:
        return KE[g["name"]], AE[g["name"]]
    return G(g["ke"]), G(g["ae"])


def pick_orbit(rng, family, g, mined):
    ke, ae = constants_of(g)
    incl = inclination(rng)
    while True:
        if family == "near":
            ecc = rng.choice([0.0, 1e-4, 10 ** rng.uniform(-6, -3), 10 ** rng.uniform(-4, -0.7),
                              rng.uniform(0, 0.45)])
            perigee = rng.choice([rng.uniform(80, 260), rng.uniform(200, 1500),
                                  rng.choice([98.0, 156.0, 220.0]) + rng.uniform(-1, 1),
                                  rng.uniform(0, 120), rng.uniform(1000, 5500)])
            if rng.randrange(20) == 0:
                # through the ground
                ecc, perigee = rng.uniform(0.1, 0.95), -rng.uniform(0, 0.9) * ae
            a = (1 + perigee / ae) / (1 - ecc)
            n = ke / a ** 1.5
            if n <= TWO_PI / 225:
                continue
        elif family == "deep":
            n = rng.choice([rng.uniform(9.3e-3, TWO_PI / 225), rng.uniform(5.3e-3, 8.2e-3),
                            10 ** rng.uniform(-4, -2.5), rng.uniform(8.26e-3, 9.24e-3)])
            ecc = rng.choice([rng.uniform(0, 0.1), rng.uniform(0, 0.9), 10 ** rng.uniform(-6, -1),
                              0.0])
            if 0.0034906585 < n < 0.0052359877 or (8.26e-3 <= n <= 9.24e-3 and ecc >= 0.5):
                continue
        elif family == "oneday":
            n = rng.choice([rng.uniform(0.0034907, 0.0052358), rng.uniform(0.00435, 0.0044)])
            ecc = rng.choice([10 ** rng.uniform(-6, -1), rng.uniform(0, 0.3), rng.uniform(0, 0.85)])
        else:
            n = rng.choice([rng.uniform(8.26e-3, 9.24e-3), rng.uniform(8.7e-3, 8.8e-3)])
            ecc = rng.choice([rng.uniform(0.5, 0.66), rng.uniform(0.64, 0.72), rng.uniform(0.7, 0.75),
                              rng.uniform(0.5, 0.92)])
        if rng.randrange(12) == 0:
            near = [x for x in mined if 0.0 <= x < 1.0]
            ecc = rng.choice(near) if near else ecc
        break
    return orbit(incl, angle(rng), ecc, angle(rng), angle(rng), n)


def times(rng, count, mined, longest):
    found = []
    for _ in range(count):
        kind = rng.randrange(10)
        if kind == 0:
            t = rng.choice([0.0, 720.0, 1440.0, 720.0 * rng.randrange(1, 40),
                            ulps(720.0 * rng.randrange(1, 5), rng.choice([-1, 1])), -0.0])
        elif kind == 1:
            t = rng.choice(mined)
        elif kind == 2:
            t = rng.uniform(0, longest)
        elif kind == 3:
            t = 10 ** rng.uniform(-1, math.log10(longest))
        else:
            t = 10 ** rng.uniform(-1, min(5.2, math.log10(longest)))
        if rng.randrange(2):
            t = -t
        if abs(t) <= longest:
            found.append(t)
    return found


def random_sessions(run, family, count, requests, longest, salt=""):
    rng = run.rng("random", family, salt)
    mined = literals()
    sessions = []
    for _ in range(count):
        g = gravity(rng)
        o = pick_orbit(rng, family, g, mined)
        ops = [{"op": "new", "c": 1, "g": g, "sid": rng.choice(["iau", "afspc", "given"]),
                "theta": F(sidereal(rng)), "y": F(years(rng)),
                "bstar": F(drag(rng)), "o": o}]
        for t in times(rng, requests, mined, longest):
            ops.append({"op": "prop", "c": 1, "t": F(t), "afspc": bool(rng.randrange(2))})
        sessions.append(run.session(ops, "random orbit, " + family))
    return sessions


def dictionary_sessions(run, family, longest):
    """Every number written in the implementation, as a time and as one of the arguments."""
    rng = run.rng("dictionary", family)
    mined = literals()
    sessions = []
    for x in mined:
        g = gravity(rng)
        o = pick_orbit(rng, family, g, mined)
        op = {"op": "new", "c": 1, "g": g, "sid": rng.choice(["iau", "afspc", "given"]),
              "theta": F(sidereal(rng)), "y": F(years(rng)),
              "bstar": F(drag(rng)), "o": o}
        for _ in range(20):
            changed = dict(o)
            where = rng.choice(["incl", "raan", "argp", "m", "ecc", "n", "bstar", "theta", "y"])
            if where in ("incl", "raan", "argp", "m") and x <= 7:
                changed[where] = F(x)
            elif where == "bstar" and x <= 0.01:
                op["bstar"] = F(rng.choice([-x, x]))
            elif where == "theta" and x < TWO_PI:
                op["sid"], op["theta"] = "given", F(x)
            elif where == "y" and x <= 56:
                op["y"] = F(x if x > 43 else rng.choice([-x, x]))
            elif where in ("ecc", "n") and x < 1:
                changed[where] = F(ulps(x, rng.choice([-1, 0, 1])) if x > 0 else x)
            else:
                continue
            if family_of(changed) == family:
                op["o"] = changed
                break
        ops = [op]
        for t in [x, -x, x + rng.uniform(-1, 1)] + times(rng, 2, mined, longest):
            if abs(t) <= longest:
                ops.append({"op": "prop", "c": 1, "t": F(t), "afspc": bool(rng.randrange(2))})
        sessions.append(run.session(ops, "dictionary, " + family))
    return sessions


def far_sessions(run, family, count, longest):
    """Resonant orbits after thousands of integration steps."""
    rng = run.rng("far", family)
    sessions = []
    for _ in range(count):
        g = gravity(rng)
        ops = [{"op": "new", "c": 1, "g": g, "sid": rng.choice(["iau", "afspc", "given"]),
                "theta": F(sidereal(rng)), "y": F(years(rng)),
                "bstar": F(rng.choice([0.0, 10 ** rng.uniform(-9, -6)])), "o": pick_orbit(rng, family, g, [0.0])},
               {"op": "prop", "c": 1, "t": F(rng.choice([1, -1]) * 10 ** rng.uniform(5.5, math.log10(longest))),
                "afspc": bool(rng.randrange(2))}]
        sessions.append(run.session(ops, "far orbit, " + family))
    return sessions


def family_of(o):
    n, ecc = G(o["n"]), G(o["ecc"])
    if not 0 <= ecc < 1 or not n > 1e-5 or n > 0.1:
        return None
    if 0.0034906585 < n < 0.0052359877:
        return "oneday"
    if 8.26e-3 <= n <= 9.24e-3 and ecc >= 0.5:
        return "halfday"
    return "near" if n > TWO_PI / 225 else "deep"


# element sets -----------------------------------------------------------------------------------

ABSENT = {"some": False, "b": []}


def text(value):
    return {"some": True, "b": list(value.encode())}


def digits(value):
    return [int(digit) for digit in str(value)]


def leap(year):
    return (year % 4 == 0 and year % 100 != 0) or year % 400 == 0


def datetime(rng, first=1957, last=2056):
    kind = rng.randrange(6)
    year = rng.randint(first, last)
    length = 366 if leap(year) else 365
    day = rng.choice([1, 59, 60, 61, length - 1, length]) if kind == 0 else rng.randint(1, length)
    second = rng.choice([0, 1, 43199, 43200, 43201, 86399]) if kind == 1 else rng.randrange(86400)
    nano = rng.choice([0, 1, 499999999, 500000000, 999999999]) if kind == 2 else rng.randrange(10 ** 9)
    return {"y": year, "o": day, "s": second, "n": nano}


def degrees(rng):
    """An angle as a message may give it: any number of turns either way."""
    return rng.uniform(-720, 1080) if rng.randrange(5) == 0 else rng.uniform(0, 360)


def element_set(rng, family=None):
    family = family or rng.choice(["near", "near", "deep", "oneday", "halfday"])
    if family == "near":
        n, ecc = rng.uniform(6.5, 16.4), rng.choice([10 ** rng.uniform(-6, -1), rng.uniform(0, 0.2)])
    elif family == "deep":
        n, ecc = rng.choice([rng.uniform(2.2, 6.3), rng.uniform(0.1, 0.75)]), rng.uniform(0, 0.8)
    elif family == "oneday":
        n, ecc = rng.uniform(0.82, 1.18), rng.choice([10 ** rng.uniform(-6, -1), rng.uniform(0, 0.7)])
    else:
        n, ecc = rng.uniform(1.9, 2.1), rng.uniform(0.5, 0.76)
    incl = rng.choice([rng.uniform(0, 12), rng.uniform(0, 180), rng.uniform(50, 100)])
    if rng.randrange(4) == 0:
        # what a message may hold besides: none of it enters the constants
        unusual = {"name": text("SAT"), "intl": text("1998-067A"), "norad": digits(rng.getrandbits(64)),
                   "cls": rng.choice("CS"), "mmd": F(rng.uniform(-1, 1)), "mmdd": F(rng.uniform(-1, 1)),
                   "elset": digits(rng.getrandbits(64)), "rev": digits(rng.getrandbits(64)),
                   "eph": rng.randrange(256)}
        unusual = {key: unusual[key] for key in sorted(rng.sample(sorted(unusual), rng.randint(1, len(unusual))))}
    else:
        unusual = {}
    return {
        "name": ABSENT, "intl": ABSENT, "norad": digits(rng.randint(1, 99999)), "cls": "U",
        "dt": datetime(rng, *rng.choice([(1957, 2056), (1957, 2056), (1901, 2099)])), "mmd": F(rng.uniform(-1e-4, 1e-4)), "mmdd": F(0.0),
        "bstar": F(drag(rng)), "elset": digits(rng.randint(0, 999)), "incl": F(incl),
        "raan": F(degrees(rng)), "ecc": F(ecc), "argp": F(degrees(rng)),
        "m": F(degrees(rng)), "n": F(n), "rev": digits(rng.randint(0, 99999)),
        "eph": rng.randrange(3), **unusual}


def element_model(run, purpose, count=None):
    listed = run.model("ElementSets", None, {"PURPOSE": purpose})
    listed.sort(key=repr)
    if count is not None and count < len(listed):
        listed = run.rng("elements", purpose).sample(listed, count)
    return [run.session(ops, "model elements, " + purpose) for ops in listed]


def element_sessions(run, count, requests, both=True, salt=""):
    """Random element sets through both constructors."""
    rng = run.rng("element sessions", salt)
    mined = literals()
    sessions = []
    for _ in range(count):
        ops = [{"op": "elem", "e": 1, "el": element_set(rng)},
               {"op": "from", "e": 1, "c": 1, "afspc": False},
               {"op": "from", "e": 1, "c": 2, "afspc": True}]
        for t in times(rng, requests, mined, 4e5):
            mode = rng.randrange(2)
            ops.append({"op": "prop", "c": mode + 1, "t": F(t), "afspc": bool(mode)})
        sessions.append(run.session(ops, "random elements"))
    return sessions


def element_epochs(run, count):
    """Resonant element sets followed until a mix-up shows: close to J2000, where the epochs of the two
    expressions differ most from each other compared with rounding, and centuries later, where the two
    sidereal times do."""
    rng = run.rng("element epochs")
    sessions = []
    for _ in range(count):
        el = element_set(rng, rng.choice(["oneday", "halfday", "halfday"]))
        el["dt"] = {"y": 2000, "o": rng.randint(1, 3), "s": rng.randrange(86400), "n": rng.randrange(10 ** 9)}
        if rng.randrange(4) == 0:
            el["dt"] = datetime(rng, 2300, 3900)
        el["bstar"] = F(0.0)
        ops = [{"op": "elem", "e": 1, "el": el},
               {"op": "from", "e": 1, "c": 1, "afspc": False},
               {"op": "from", "e": 1, "c": 2, "afspc": True}]
        t = rng.choice([1, -1]) * 10 ** rng.uniform(5, 6.3)
        for mode in (0, 1):
            ops.append({"op": "prop", "c": mode + 1, "t": F(t), "afspc": bool(mode)})
        sessions.append(run.session(ops, "elements that tell the expressions apart"))
    return sessions


def element_dictionary(run, requests):
    """Every number written in the implementation, as one of the elements and as a time."""
    rng = run.rng("element dictionary")
    mined = literals()
    sessions = []
    for x in mined:
        el = element_set(rng)
        for _ in range(20):
            where = rng.choice(["incl", "raan", "argp", "m", "ecc", "n", "bstar"])
            if (x <= 180 if where == "incl" else x <= 360 if where in ("raan", "argp", "m")
                    else x < 1 if where == "ecc" else 0.05 < x < 17 if where == "n" else x < 0.1):
                el[where] = F(x)
                break
        ops = [{"op": "elem", "e": 1, "el": el},
               {"op": "from", "e": 1, "c": 1, "afspc": False},
               {"op": "from", "e": 1, "c": 2, "afspc": True}]
        for t in [x, -x] + times(rng, requests, mined, 4e5):
            if abs(t) <= 4e5:
                mode = rng.randrange(2)
                ops.append({"op": "prop", "c": mode + 1, "t": F(t), "afspc": bool(mode)})
        sessions.append(run.session(ops, "dictionary elements"))
    return sessions


def validation_sessions(run, count):
    """Random decisions about Kozai elements and eccentricities."""
    rng = run.rng("validation")
    sessions = []
    for _ in range(count):
        ops = []
        for _ in range(8):
            g = gravity(rng)
            ecc = rng.choice([rng.uniform(-0.01, 1.01), rng.uniform(0.9, 1), 10 ** rng.uniform(-9, 0),
                              1 - 10 ** rng.uniform(-16, -1), -10 ** rng.uniform(-300, 0), rng.uniform(1, 5)])
            n = rng.choice([rng.uniform(-0.1, 0.1), 10 ** rng.uniform(-8, 2), rng.uniform(0.01, 0.08),
                            -10 ** rng.uniform(-300, 2), rng.choice([5e-324, 1e-310, -5e-324, 1e-300])])
            o = orbit(inclination(rng), angle(rng), ecc, angle(rng), angle(rng), n)
            ops.append({"op": "kozai", "g": g, "o": o})
            o = dict(o, n=F(abs(n)))
            ops.append({"op": "new", "c": 1, "g": g, "sid": "iau", "theta": F(0.0), "y": F(20.0),
                        "bstar": F(0.0), "o": o})
            el = element_set(rng)
            el["ecc"], el["n"] = F(ecc), F(n * 720 / math.pi)
            ops.append({"op": "elem", "e": 1, "el": el})
            ops.append({"op": "from", "e": 1, "c": 2, "afspc": bool(rng.randrange(2))})
        sessions.append(run.session(ops, "random validation"))
    return sessions


def extreme_sessions(run, count):
    """Random accepted orbits and times at the edges of what can be propagated."""
    rng = run.rng("extreme")
    sessions = []
    for _ in range(count):
        g = gravity(rng)
        ecc = rng.choice([rng.uniform(0, 1), 1 - 10 ** rng.uniform(-15, -1), 10 ** rng.uniform(-9, 0) * 0.999, 0.0])
        n = rng.choice([10 ** rng.uniform(-6, 0.5), rng.uniform(0.02, 0.1), rng.uniform(0.0035, 0.0095)])
        o = orbit(rng.choice([inclination(rng), rng.uniform(-7, 7)]), rng.uniform(-20, 20), ecc,
                  rng.uniform(-20, 20), rng.uniform(-20, 20), n)
        resonant = 0.0034906585 < n < 0.0052359877 or (8.26e-3 <= n <= 9.24e-3 and ecc >= 0.5)
        ops = [{"op": "new", "c": 1, "g": g, "sid": "iau", "theta": F(0.0),
                "y": F(years(rng)),
                "bstar": F(rng.choice([0.0, drag(rng), rng.uniform(-1, 1), 10 ** rng.uniform(-2, 4)])), "o": o}]
        longest = 5.4 if resonant else 8.18
        for _ in range(6):
            t = rng.choice([1, -1]) * 10 ** rng.uniform(0, longest)
            if resonant and rng.randrange(10) == 0:
                t = rng.choice([1, -1]) * 10 ** rng.uniform(6.5, 8.18)
            if rng.randrange(12) == 0:
                t = rng.choice([math.nan, math.inf, -math.inf])
            ops.append({"op": "prop", "c": 1, "t": F(t), "afspc": bool(rng.randrange(2))})
        sessions.append(run.session(ops, "random extreme orbit"))
    return sessions

"""Sessions that write objects as JSON and read them back."""

import copy

from . import omms, orbits, tles
from .core import F


def model_sessions(run):
    listed = sorted(run.model("Objects"), key=repr)
    ops = [op for one in listed for op in one]
    return tles.grouped(run, ops, "model objects", 16)


def real(rng):
    kind = rng.randrange(6)
    if kind == 0:
        return rng.choice([0.0, -0.0, 1.0, -1.0, 0.1, 1e-5, 1e16, 1e17, 123456789.0, 2.0 ** 53, 2.0 ** 63])
    if kind == 1:
        return rng.uniform(-1, 1) * 10 ** rng.randint(-290, 290)
    if kind == 2:
        return float(rng.randint(-10 ** 18, 10 ** 18))
    if kind == 3:
        return round(rng.uniform(-400, 400), rng.randint(0, 9))
    return rng.uniform(-1, 1) * 10 ** rng.uniform(-12, 6)


def name(rng):
    return rng.choice([orbits.ABSENT] + [orbits.text(one) for one in omms.NAMES])


def random_sessions(run, count):
    rng = run.rng("objects")
    ops = []
    for _ in range(count):
        kind = rng.randrange(8)
        if kind < 4:
            el = orbits.element_set(rng)
            if rng.randrange(2):
                for field in ("mmd", "mmdd", "bstar", "incl", "raan", "ecc", "argp", "m", "n"):
                    el[field] = F(real(rng))
            el["name"], el["intl"], el["cls"] = name(rng), name(rng), rng.choice("UCS")
            el["dt"] = orbits.datetime(rng, 1000, 9999)
            el["eph"] = rng.randrange(256)
            for field in ("norad", "elset", "rev"):
                el[field] = orbits.digits(int(omms.count(rng)))
            ops += [{"op": "elem", "e": 1, "el": el}, {"op": "rtelem", "e": 1}]
        elif kind < 6:
            ops.append({"op": "rtorbit", "o": orbits.orbit(*(real(rng) for _ in range(6)))})
        elif kind < 7:
            ops.append({"op": "rtgeo", "g": rng.choice([
                {"name": "wgs84"}, {"name": "wgs72"},
                dict({"name": "other"}, **{field: F(real(rng)) for field in ("ae", "ke", "j2", "j3", "j4")})])})
        else:
            ops.append({"op": "rtpred", "pos": [F(real(rng)) for _ in range(3)],
                        "vel": [F(real(rng)) for _ in range(3)]})
    return tles.grouped(run, ops, "random objects", 16)


def restored(run, sessions):
    """The same sessions with all constants written and read back before they are used."""
    found = []
    for one in sessions:
        ops = []
        for op in one["ops"]:
            op = copy.deepcopy(op)
            if op["op"] == "prop":
                op["c"] += 10
            ops.append(op)
            if op["op"] in ("new", "from", "compose"):
                ops.append({"op": "rtconst", "c": op["c"], "to": op["c"] + 10})
        found.append(run.session(ops, one["label"] + ", restored"))
    return found


# the same element set in both formats -------------------------------------------------------------

def twin_model(run, count):
    listed = sorted(run.model("Twins"), key=repr)
    if count is not None and count < len(listed):
        listed = run.rng("twins").sample(listed, count)
    return [run.session(ops, "model element set in both formats") for ops in listed]


def plain(text):
    """A decimal of a TLE as JSON writes it."""
    text = text.strip()
    sign = "-" if text.startswith("-") else ""
    text = text.lstrip("+-").lstrip("0") or "0"
    if text.startswith("."):
        text = "0" + text
    return sign + text


def exponential(text):
    sign, digits, exponent = text[0], text[1:6], text[6:8]
    return ("-" if sign == "-" else "") + "0." + digits + "e" + exponent.replace("+", "")


def message(rng, l1, l2, name):
    """The OMM text of a well-formed pair of lines."""
    l1, l2 = l1.decode(), l2.decode()
    year = int(l1[18:20])
    year += 1900 if year >= 57 else 2000
    day = int(l1[20:23])
    micro = int(l1[24:32]) * 864
    lengths = [31, 29 if orbits.leap(year) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    month = 1
    while day > lengths[month - 1]:
        day -= lengths[month - 1]
        month += 1
    second, micro = divmod(micro, 10 ** 6)
    epoch = "%04d-%02d-%02dT%02d:%02d:%02d.%06d" % (year, month, day, second // 3600, second // 60 % 60,
                                                    second % 60, micro)
    style = rng.choice(["numbers", "strings", "mixed"])

    def numeric(text):
        quoted = style == "strings" or (style == "mixed" and rng.randrange(2))
        return '"%s"' % text if quoted else text

    listed = [("EPOCH", '"%s"' % epoch), ("CLASSIFICATION_TYPE", '"%s"' % l1[7])]
    for key, value in (("MEAN_MOTION", plain(l2[52:63])), ("ECCENTRICITY", plain("." + l2[26:33])),
                       ("INCLINATION", plain(l2[8:16])), ("RA_OF_ASC_NODE", plain(l2[17:25])),
                       ("ARG_OF_PERICENTER", plain(l2[34:42])), ("MEAN_ANOMALY", plain(l2[43:51])),
                       ("NORAD_CAT_ID", plain(l1[2:7])), ("ELEMENT_SET_NO", plain(l1[64:68])),
                       ("REV_AT_EPOCH", plain(l2[63:68])), ("EPHEMERIS_TYPE", plain(l1[62])),
                       ("BSTAR", exponential(l1[53:61])), ("MEAN_MOTION_DDOT", exponential(l1[44:52])),
                       ("MEAN_MOTION_DOT", plain(l1[33:43]))):
        listed.append((key, numeric(value)))
    if name["some"]:
        listed.append(("OBJECT_NAME", omms.written(rng, bytes(name["b"]).decode())))
    elif rng.randrange(2):
        listed.append(("OBJECT_NAME", "null"))
    if l1[9:17].strip():
        launched = int(l1[9:11])
        launched += 1900 if launched >= 57 else 2000
        listed.append(("OBJECT_ID", '"%d-%s"' % (launched, l1[11:17].strip())))
    elif rng.randrange(2):
        listed.append(("OBJECT_ID", "null"))
    rng.shuffle(listed)
    return "{" + ",".join('"%s":%s' % one for one in listed) + "}"


def twin_sessions(run, count, requests, longest):
    rng = run.rng("random twins")
    mined = orbits.literals()
    sessions = []
    for _ in range(count):
        l1, l2 = tles.random_tle(rng, plain=True)
        name = tles.names(rng)
        ops = [tles.tle(l1, l2, name, 1), dict(omms.op(message(rng, l1, l2, name)), e=2)]
        for e in (1, 2):
            for afspc in (False, True):
                ops.append({"op": "from", "e": e, "c": 2 * e + int(afspc), "afspc": afspc})
        for t in orbits.times(rng, requests, mined, longest):
            afspc = bool(rng.randrange(2))
            for e in (1, 2):
                ops.append({"op": "prop", "c": 2 * e + int(afspc), "t": F(t), "afspc": afspc})
        sessions.append(run.session(ops, "random element set in both formats"))
    return sessions


# several builds ------------------------------------------------------------------------------------

def merged(recordings, texts):
    """One trace out of the recordings of several builds, operation by operation.

    What was asked is left out, and so are predictions: those of each build have been compared with the model."""
    names = list(recordings)
    found = []
    for together in zip(*(recordings[name] for name in names)):
        events = []
        for at in range(min(len(one["ev"]) for one in together)):
            if together[0]["ev"][at]["op"] == "prop":
                continue
            for name, one in zip(names, together):
                events.append({"op": one["ev"][at]["op"], "r": one["ev"][at]["r"], "cfg": name,
                               "names": texts[name], "first": name == names[0]})
        found.append({"sid": together[0]["sid"], "ev": events})
    return found

"""Sessions about orbit mean-elements messages."""

import json

from . import orbits

REALS = ["MEAN_MOTION_DOT", "MEAN_MOTION_DDOT", "BSTAR", "INCLINATION", "RA_OF_ASC_NODE", "ECCENTRICITY",
         "ARG_OF_PERICENTER", "MEAN_ANOMALY", "MEAN_MOTION"]
COUNTS = ["NORAD_CAT_ID", "ELEMENT_SET_NO", "REV_AT_EPOCH", "EPHEMERIS_TYPE"]


def escaped(c):
    data = c.encode("utf-16-be")
    return "".join("\\u%02x%02x" % (data[j], data[j + 1]) for j in range(0, len(data), 2))


def op(content, kind="omm"):
    return {"op": kind, "text": list(content.encode()), "e": 1}


def model_ops(run, purpose, depth="one", count=None):
    listed = sorted(run.model("Omms", None, {"PURPOSE": purpose, "DEPTH": depth}), key=repr)
    if count is not None and count < len(listed):
        listed = run.rng("omms", purpose).sample(listed, count)
    return [{"op": "omms" if one["what"] == "list" else "omm", "text": one["text"], "e": 1} for one in listed]


def decimal(rng, low, high, places):
    return "%.*f" % (rng.randint(0, places), rng.uniform(low, high))


def real(rng):
    """The notation of a real number."""
    kind = rng.randrange(8)
    if kind == 0:
        return repr(rng.uniform(-1, 1) * 10 ** rng.randint(-300, 300))
    if kind == 1:
        return "%d" % rng.randint(-10 ** rng.randint(1, 25), 10 ** rng.randint(1, 25))
    if kind == 2:
        return "%d%s%s%d" % (rng.randrange(10), rng.choice("eE"), rng.choice(["", "+", "-"]), rng.randrange(330))
    if kind == 3:
        return "%d.%s" % (rng.randrange(400), "".join(rng.choice("0123456789") for _ in range(rng.randint(1, 24))))
    if kind == 4:
        return rng.choice(["0", "-0", "0.0", "-0.0", "1", "360"])
    return decimal(rng, -400, 400, 9)


def count(rng, small=False):
    if small:
        return str(rng.choice([0, 1, 2, 4, 9, 127, 128, 254, 255]))
    return str(rng.choice([rng.randrange(100000), rng.randrange(10 ** 9), rng.getrandbits(32), rng.getrandbits(64),
                           2 ** 64 - 1, 2 ** 63, 2 ** 53 + 1, 0]))


def epoch(rng, digits=None):
    dt = orbits.datetime(rng, 1901, 2099)
    day, month = dt["o"], 1
    lengths = [31, 29 if orbits.leap(dt["y"]) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    while day > lengths[month - 1]:
        day -= lengths[month - 1]
        month += 1
    digits = rng.choice([0, 1, 3, 6, 6, 6, 9]) if digits is None else digits
    fraction = ("%09d" % dt["n"])[:digits]
    return "%04d-%02d-%02dT%02d:%02d:%02d%s" % (dt["y"], month, day, dt["s"] // 3600, dt["s"] // 60 % 60,
                                                dt["s"] % 60, "." + fraction if digits else "")


NAMES = ["ISS (ZARYA)", "", " x ", "\"quoted\"", "back\\slash", "é€🛰", "tab\tnew\nline", "1998-067A", "null", " "]


def written(rng, value):
    """A JSON string, with random escapes."""
    plain = json.dumps(value, ensure_ascii=bool(rng.randrange(2)))
    if rng.randrange(6) == 0 and value.isascii():
        return '"' + "".join(escaped(c) if rng.randrange(3) == 0 or c in '"\\' or c < " " else c for c in value) + '"'
    return plain


def members(rng, bad=0):
    """Key and value texts of a message; bad: how many fields get something unfit."""
    style = rng.choice(["numbers", "strings", "mixed"])

    def numeric(text):
        quoted = style == "strings" or (style == "mixed" and rng.randrange(2))
        return '"%s"' % text if quoted else text

    listed = [[key, numeric(real(rng))] for key in REALS]
    listed += [[key, numeric(count(rng, key == "EPHEMERIS_TYPE"))] for key in COUNTS]
    listed += [["CLASSIFICATION_TYPE", '"%s"' % rng.choice("UCS")], ["EPOCH", '"%s"' % epoch(rng)]]
    for key in ("OBJECT_NAME", "OBJECT_ID"):
        choice = rng.randrange(4)
        if choice == 0:
            continue
        listed.append([key, "null" if choice == 1 else written(rng, rng.choice(NAMES))])
    for _ in range(bad):
        one = rng.choice(listed)
        one[1] = rng.choice(["null", "true", "[]", "{}", '""', '"abc"', "-1", '"-1"', "1.5", '"1.5"', "256", '"256"',
                             "18446744073709551616", '"1e3"', "1e400", '"x1"', "[1]", '"U "', '"0x1"', "-1e5"])
    if rng.randrange(6) == 0:
        listed.remove(rng.choice(listed))
    for _ in range(rng.choice([0, 0, 1, 3])):
        listed.append([rng.choice(["COMMENT", "PERIOD", "epoch", "TLE_LINE0", "", "EPOCH ", "GP_ID"]),
                       rng.choice(["null", "1", '"EPOCH"', "[1,2,{}]", '{"BSTAR":null}', "-1.5e3", "false"])])
    rng.shuffle(listed)
    return listed


def message(rng, bad=0):
    pad = rng.choice(["", "", " ", "\n  ", "\t"])
    inner = (pad + "," + pad).join(written(rng, key) + pad + ":" + pad + value for key, value in members(rng, bad))
    return "{" + pad + inner + pad + "}"


def random_ops(run, count):
    rng = run.rng("messages")
    return [op(message(rng, rng.choice([0, 0, 0, 1, 1, 2]))) for _ in range(count)]


def mutated_ops(run, count):
    rng = run.rng("mutated messages")
    ops = []
    for _ in range(count):
        content = message(rng)
        for _ in range(rng.choice([1, 1, 2])):
            at = rng.randrange(len(content))
            kind = rng.randrange(3)
            new = rng.choice('",:{}[]-+.0123456789eE tfnu')
            if kind == 0:
                content = content[:at] + content[at + 1:]
            elif kind == 1:
                content = content[:at] + new + content[at:]
            else:
                content = content[:at] + new + content[at + 1:]
        ops.append(op(content))
    return ops


def list_ops(run, count):
    rng = run.rng("lists of messages")
    ops = []
    for _ in range(count):
        items = [message(rng, 1 if rng.randrange(8) == 0 else 0) for _ in range(rng.randrange(7))]
        if rng.randrange(10) == 0:
            items.insert(rng.randint(0, len(items)), rng.choice(["null", "1", "{}", '"x"']))
        content = "[" + ",".join(items) + "]"
        ops.append(op(content, "omms"))
    return ops

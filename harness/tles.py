"""Sessions about two-line element sets and listings of them."""

import math

from . import orbits
from .orbits import ABSENT, text

FIELDS = {1: [(2, 7), (7, 8), (9, 11), (11, 17), (18, 20), (20, 32), (33, 43), (44, 50), (50, 52),
              (53, 59), (59, 61), (62, 63), (64, 68)],
          2: [(2, 7), (8, 16), (17, 25), (26, 33), (34, 42), (43, 51), (52, 63), (63, 68)]}
NUMERIC = b"0123456789 .+-eE"


def fixed(line):
    """The line with its checksum put right."""
    total = sum(byte - 48 if 48 <= byte <= 57 else 1 if byte == 45 else 0 for byte in line[:68])
    return line[:68] + bytes([48 + total % 10])


def tle(l1, l2, name=ABSENT, e=1):
    return {"op": "tle", "name": name, "l1": list(l1), "l2": list(l2), "e": e}


def grouped(run, ops, label, size=24):
    return [run.session(ops[k:k + size], label) for k in range(0, len(ops), size)]


def model_ops(run, purpose, depth, count=None):
    listed = run.model("Tles", None, {"PURPOSE": purpose, "DEPTH": depth})
    listed = sorted(listed, key=repr)
    if count is not None and count < len(listed):
        listed = run.rng("tles", purpose).sample(listed, count)
    return [tle(one["l1"], one["l2"]) for one in listed]


def number(rng, width, decimals, low, high, zeros):
    value = rng.choice([rng.uniform(low, high), rng.uniform(low, high), low, high])
    content = "%.*f" % (decimals, value)
    content = content.rjust(width, "0" if zeros and value >= 0 else " ")
    return content[-width:]


def exponential(rng):
    sign = rng.choice([" ", " ", "-", "+"])
    digits = rng.choice(["00000", "%05d" % rng.randrange(100000), "%05d" % rng.randrange(100)])
    return sign + digits + rng.choice(["-0", "+0", "-%d" % rng.randrange(10), "+%d" % rng.randrange(3)])


def random_tle(rng, plain=False):
    """A well-formed pair of lines."""
    norad = rng.choice([rng.randrange(100000), rng.randrange(100), 99999, 0])
    catalog = ("%05d" if rng.randrange(3) else "%5d") % norad
    catalog2 = ("%05d" if rng.randrange(3) else "%5d") % norad
    launch = rng.choice(["        ", "%02d%03d%-3s" % (rng.randrange(100), rng.randrange(1000),
                                                     rng.choice(["A", "B", "ZZ", "AAB", ""]))])
    year = rng.randrange(100)
    full = 2000 + year if year < 57 else 1900 + year
    length = 366 if orbits.leap(full) else 365
    day = rng.choice([rng.randint(1, length), rng.randint(1, length), 1, length, 59, 60])
    fraction = rng.choice(["%08d" % rng.randrange(10 ** 8), "00000000", "99999999", "50000000"])
    epoch = "%02d%s.%s" % (year, ("%03d" if rng.randrange(4) else "%3d") % day, fraction)
    dot = rng.choice([" ", "-", "+"]) + "." + rng.choice(["%08d" % rng.randrange(10 ** 8), "%08d" % rng.randrange(999)])
    zeros = rng.randrange(3) == 0
    l1 = "1 %s%s %s %s %s %s %s %d %s0" % (
        catalog, rng.choice("UUUCS"), launch, epoch, dot, exponential(rng), exponential(rng),
        rng.choice([0, 0, 0, 2, 4, 9]), ("%04d" if zeros else "%4d") % rng.randrange(10000))
    n = rng.choice([rng.uniform(0.2, 17), rng.uniform(0.9, 1.1), rng.uniform(1.9, 2.1), 15.5])
    l2 = "2 %s %s %s %07d %s %s %s%s0" % (
        catalog2, number(rng, 8, 4, 0, 180, zeros), number(rng, 8, 4, 0, 359.9999, zeros),
        rng.choice([rng.randrange(10 ** 7), rng.randrange(10000), 0, 9999999]),
        number(rng, 8, 4, 0, 359.9999, zeros), number(rng, 8, 4, 0, 359.9999, zeros),
        ("%011.8f" if zeros else "%11.8f") % n, ("%05d" if zeros else "%5d") % rng.randrange(100000))
    l1, l2 = fixed(l1.encode()), fixed(l2.encode())
    assert len(l1) == 69 and len(l2) == 69, (l1, l2)
    return l1, l2


def names(rng):
    return rng.choice([ABSENT, text("ISS (ZARYA)"), text(""), text("  spaces  "), text("Cosmos é 2251"),
                       text("\x00nul\x00"), text("a\tb\r\n"), text("\ufeffmark"), text("0 VANGUARD 1"),
                       text("\"quoted\" \\ \U0001f6f0"), text("long " * 30)])


def well_formed_ops(run, count, salt=""):
    rng = run.rng("well-formed", salt)
    return [tle(*random_tle(rng), name=names(rng)) for _ in range(count)]


def mutated_ops(run, count, salt=""):
    """Well-formed pairs with a few random edits, checksums put right or not."""
    rng = run.rng("mutated", salt)
    ops = []
    for _ in range(count):
        lines = [bytearray(line) for line in random_tle(rng)]
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            which = rng.randrange(2)
            line = lines[which]
            kind = rng.randrange(10)
            if kind <= 4:
                a, b = rng.choice(FIELDS[which + 1])
                if len(line) >= b:
                    at = rng.randrange(a, b)
                    line[at] = rng.choice(NUMERIC)
            elif kind == 5 and line:
                line[rng.randrange(len(line))] = rng.randrange(256)
            elif kind == 6:
                a, b = rng.choice(FIELDS[which + 1])
                if len(line) >= b:
                    for at in range(a, b):
                        line[at] = rng.choice(NUMERIC)
            elif kind == 7:
                line.insert(rng.randint(0, len(line)), rng.choice(NUMERIC))
            elif kind == 8 and line:
                del line[rng.randrange(len(line))]
            else:
                a, b = rng.choice(FIELDS[which + 1])
                if len(line) >= b:
                    content = rng.choice(["1e5", "-.5", "+1", "inf", "nan", "1.", ".", "", "1e-3", "0", "-0",
                                          "12", "7.5"])[:b - a]
                    line[a:b] = content.rjust(b - a).encode()
        if rng.randrange(5):
            lines = [bytearray(fixed(bytes(line))) if len(line) == 69 else line for line in lines]
        ops.append(tle(lines[0], lines[1], name=names(rng)))
    return ops


def noise_ops(run, count):
    """Arbitrary byte strings."""
    rng = run.rng("noise")
    ops = []
    for _ in range(count):
        pair = []
        for which in (1, 2):
            length = rng.choice([69, 69, 69, rng.randrange(0, 140)])
            line = bytearray(rng.choice([rng.randrange(256), rng.choice(NUMERIC)]) for _ in range(length))
            if length == 69 and rng.randrange(2):
                line[0] = 48 + which
                for at in ([1, 8, 17, 32, 43, 52, 61, 63] if which == 1 else [1, 7, 16, 25, 33, 42, 51]):
                    line[at] = 32
                if rng.randrange(2):
                    line[2:7] = b"00012"
                line = bytearray(fixed(bytes(line)))
            pair.append(line)
        ops.append(tle(pair[0], pair[1]))
    return ops


def corrupted_ops(run, count):
    """Random well-formed pairs with one digit replaced, in either line."""
    rng = run.rng("corrupted")
    ops = []
    for _ in range(count):
        lines = [bytearray(line) for line in random_tle(rng)]
        line = rng.choice(lines)
        at = rng.choice([k for k in range(69) if 48 <= line[k] <= 57])
        old = line[at]
        while line[at] == old:
            line[at] = rng.randrange(48, 58)
        kind = rng.randrange(6)
        if kind == 0:
            # a second edit that keeps the checksum wrong or breaks the catalog numbers
            other = rng.choice([k for k in range(2, 7)])
            line[other] = rng.choice(b"0123456789 ")
        elif kind == 1:
            # minus signs count one
            line[at] = rng.choice(b"-+. A")
        ops.append(tle(lines[0], lines[1]))
    return ops


def epoch_ops(run, count):
    rng = run.rng("epochs")
    ops = []
    for _ in range(count):
        l1, l2 = random_tle(rng)
        day = rng.choice([rng.randint(0, 370), rng.choice([0, 1, 60, 365, 366, 367]), rng.randrange(1000)])
        kind = rng.randrange(4)
        if kind == 0:
            content = "%03d.%08d" % (day, rng.randrange(10 ** 8))
        elif kind == 1:
            content = ("%d.%0*d" % (day, rng.randint(1, 8), rng.randrange(10))).rjust(12)
        elif kind == 2:
            whole = str(day)
            content = (whole + "." + "".join(rng.choice("0123456789") for _ in range(11 - len(whole))))
        else:
            seconds = rng.choice([1, 60, 3600, 43200, 86399, rng.randrange(86400)])
            content = "%03d%s" % (day, ("%.8f" % (seconds / 86400.0))[1:])
        line = bytearray(l1)
        line[18:20] = b"%02d" % rng.randrange(100)
        line[20:32] = content.encode()[:12].rjust(12)
        ops.append(tle(fixed(bytes(line)), l2))
    return ops


def batch_sessions(run, depth, count, random_count):
    listed = sorted(run.model("Batches", None, {"DEPTH": depth}), key=repr)
    if count is not None and count < len(listed):
        listed = run.rng("batches").sample(listed, count)
    sessions = []
    for one in listed:
        sessions.append(run.session([{"op": "p2", "text": one["text"]}, {"op": "p3", "text": one["text"]}],
                                    "model listing"))
    rng = run.rng("random batches")
    for number in range(random_count):
        end = rng.choice(["\n", "\r\n"])
        many = number < (12 if run.thorough else 4)
        size = 2 + number % 2 if many else rng.choice([2, 3])
        lines = []
        for _ in range(rng.randrange(300, 600) if many else rng.randrange(9)):
            l1, l2 = random_tle(rng)
            group = [rng.choice(["ISS (ZARYA)", "", "0 VANGUARD 1", "  two  ", "é", l1.decode(), "X\r",
                                 "a\tb", "1", " x", "\x0bv\x0c", "\x85n", "long " * rng.choice([5, 14, 60, 900])])] if size == 3 else []
            group += [l1.decode(), l2.decode()]
            if rng.randrange(14 if number > 20 else 4000) == 0:
                which = rng.randrange(len(group))
                broken = bytearray(group[which].encode())
                if broken:
                    broken[rng.randrange(len(broken))] = rng.choice(NUMERIC)
                group[which] = broken.decode(errors="replace")
            lines += group
        if rng.randrange(3) == 0:
            lines += rng.choice([[""], ["name"], ["", ""], [lines[0]] if lines else [""]])
        if rng.randrange(8) == 0 and lines:
            lines.insert(rng.randrange(len(lines)), "")
        if rng.randrange(20) == 0 and lines:
            lines[0] = rng.choice(["\ufeff", "# ", " ", "\x00", "0 "]) + lines[0]
        body = "".join(line + (end if rng.randrange(10) else "\n") for line in lines)
        if rng.randrange(3) == 0 and not body.endswith("\r\n"):
            body = body[:-1]
        data = list(body.encode())
        sessions.append(run.session([{"op": "p%d" % size, "text": data},
                                     {"op": "p%d" % (5 - size), "text": data}], "random listing"))
    return sessions

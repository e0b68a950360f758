"""Sessions about resonance states and shared constants."""

import math

from . import orbits
from .core import F, G, ulps

RESONANT = ("oneday", "halfday")


def resonant(o):
    n, ecc = G(o["n"]), G(o["ecc"])
    return 0.0034906585 < n < 0.0052359877 or (8.26e-3 <= n <= 9.24e-3 and ecc >= 0.5)


def new(rng, c, family, mined, failing=False):
    """A satellite of the family; a failing one ends in propagation errors at large times."""
    while True:
        op = candidate(rng, c, family, mined, failing)
        if resonant(op["o"]) == (family in RESONANT):
            return op


def candidate(rng, c, family, mined, failing):
    g = orbits.gravity(rng)
    o = orbits.pick_orbit(rng, family, g, mined)
    bstar = orbits.drag(rng)
    if failing:
        bstar = rng.choice([-1, 1]) * 10 ** rng.uniform(-1.5, 1.5)
        if rng.randrange(3) == 0:
            o["ecc"] = F(rng.choice([0.9, 0.95, 0.99, 0.999]))
    return {"op": "new", "c": c, "g": g, "sid": rng.choice(["iau", "afspc", "given"]),
            "theta": F(orbits.sidereal(rng)), "y": F(orbits.years(rng)),
            "bstar": F(bstar), "o": o}


class Clock:
    """Maps the model's times (quarters of a step) to minutes, keeping their order, their step and
    whether they are on a step."""

    def __init__(self, rng):
        self.rng = rng
        first = rng.choice([1, 1, 2, 3, 7, 25])
        self.steps = [0, first, first + rng.choice([1, 1, 2, 5, 40])]
        self.known = {}

    def minutes(self, t):
        if t not in self.known:
            step, rest = divmod(abs(t), 4)
            base = 720.0 * self.steps[step]
            kind = self.rng.randrange(4)
            if rest == 0:
                value = base
            elif rest == 1:
                value = ulps(base, 1) if kind == 0 and base > 0 else base + self.rng.uniform(0.01, 350)
            else:
                value = ulps(base + 720.0, -1) if kind == 0 else base + self.rng.uniform(360, 719.9)
            self.known[t] = math.copysign(value, t)
        return self.known[t]


def choose(run, listed, count, *key):
    listed = sorted(listed, key=repr)
    if count is not None and count < len(listed):
        listed = run.rng("choice", *key).sample(listed, count)
    return listed


def reuses(one):
    """Whether the behaviour makes several requests through states."""
    return len([call for call in one["calls"] if call["op"] == "pfs" and call["s"]]) >= 2


def replayed(run, count, only=lambda one: True):
    """Behaviours of the Integrator model, each with the direct requests it must agree with and a
    shadow: a fresh state given only the requests that are served."""
    run.model("Integrator", "IntegratorLive")
    listed = run.model("Integrator")
    listed = choose(run, [one for one in listed if only(one)], count, "integrator")
    mined = orbits.literals()
    sessions = []
    for number, one in enumerate(listed):
        rng = run.rng("integrator", number)
        clock = Clock(rng)
        family = rng.choice(RESONANT) if one["resonant"] else rng.choice(["near", "deep"])
        failing = rng.randrange(4) == 0
        ops = [new(rng, 1, family, mined, failing)]
        direct, shadow, made = [], [], 0
        chain = {}
        for call in one["calls"]:
            if call["op"] == "state":
                made += 1
                ops.append({"op": "state", "c": 1, "s": made})
                chain[made] = []
            elif call["op"] == "copy":
                made += 1
                ops.append({"op": "copy", "s": call["s"], "to": made, "clone": bool(rng.randrange(2))})
                chain[made] = list(chain[call["s"]])
            else:
                afspc = bool(rng.randrange(2))
                t = F(clock.minutes(call["t"]))
                op = {"op": "pfs", "c": 1, "s": call["s"] or -1, "t": t, "afspc": afspc}
                if call["s"]:
                    op["expect"] = call["r"]
                    if call["r"] == "served":
                        chain[call["s"]].append((t, afspc))
                ops.append(op)
                if call["r"] == "served":
                    direct.append({"op": "prop", "c": 1, "t": t, "afspc": afspc})
        for number_of, served in chain.items():
            shadow.append({"op": "state", "c": 1, "s": 10 + number_of})
            for t, afspc in served:
                shadow.append({"op": "pfs", "c": 1, "s": 10 + number_of, "t": t, "afspc": afspc})
        if rng.randrange(2):
            ops = ops[:1] + direct + ops[1:] + shadow
        else:
            ops = ops + direct + shadow
        sessions.append(run.session(ops, "integrator behaviour, " + family))
    return sessions


def random_sequences(run, count, near, far, failing=0.2):
    """Long random sequences through states, mostly accepted, with copies and refusals."""
    rng = run.rng("sequences")
    mined = orbits.literals()
    sessions = []
    for number in range(count):
        family = rng.choice(RESONANT)
        longest = far if number % 25 == 0 else near
        ops = [new(rng, 1, family, mined, rng.random() < failing)]
        side = {}
        where = {}
        ops.append({"op": "state", "c": 1, "s": 1})
        side[1], where[1] = 0, 0.0
        requests = set()
        for _ in range(rng.randint(4, 14)):
            s = rng.choice(sorted(side))
            kind = rng.randrange(10)
            if kind == 0 and len(side) < 4:
                to = len(side) + 1
                ops.append({"op": "copy", "s": s, "to": to, "clone": bool(rng.randrange(2))})
                side[to], where[to] = side[s], where[s]
                continue
            if kind == 1 and len(side) < 4:
                to = len(side) + 1
                ops.append({"op": "state", "c": 1, "s": to})
                side[to], where[to] = 0, 0.0
                continue
            sign = side[s] or rng.choice([-1, 1])
            if kind == 2:
                t = rng.choice([-sign, sign]) * where[s] * rng.random()
            elif kind == 3:
                # between the integrator time and the previous request
                t = sign * (where[s] // 720 * 720 + rng.choice([0, rng.uniform(0, 719.99)]))
            elif kind == 4:
                t = sign * 720.0 * (where[s] // 720 + rng.randrange(4))
            elif kind == 5:
                t = sign * ulps(720.0 * (where[s] // 720 + rng.randrange(1, 4)), rng.choice([-1, 1]))
            elif kind == 6 and requests:
                # next to an earlier request
                t = rng.choice(sorted(requests))[0]
                t = rng.choice([ulps(t, 1), ulps(t, -1), t * (1 + 10 ** rng.uniform(-15, -4)), t + 1e-3])
            else:
                t = sign * min(longest, where[s] + 10 ** rng.uniform(-1, math.log10(longest)))
            if rng.randrange(30) == 0:
                t = rng.choice([0.0, -0.0, 5e-324, -5e-324])
            afspc = bool(rng.randrange(2))
            if rng.randrange(20) == 0:
                ops.append({"op": "pfs", "c": 1, "s": -1, "t": F(t), "afspc": afspc})
                continue
            ops.append({"op": "pfs", "c": 1, "s": s, "t": F(t), "afspc": afspc})
            requests.add((t, afspc))
            base = where[s] // 720 * 720
            if (base == 0 or (t > 0) == (sign > 0)) and abs(t) >= base:
                where[s] = abs(t)
                if abs(t) >= 720:
                    side[s] = 1 if t > 0 else -1
        direct = [{"op": "prop", "c": 1, "t": F(t), "afspc": afspc}
                  for t, afspc in sorted(requests)]
        rng.shuffle(direct)
        ops = ops[:1] + direct + ops[1:] if rng.randrange(2) else ops + direct
        sessions.append(run.session(ops, "random sequence, " + family))
    return sessions


def refusals(run, count):
    """Wrong kinds of state: none where one is needed, one where none is allowed."""
    rng = run.rng("refusals")
    mined = orbits.literals()
    sessions = []
    for _ in range(count):
        other = rng.choice(["near", "deep"])
        ops = [new(rng, 1, rng.choice(RESONANT), mined), new(rng, 2, other, mined),
               {"op": "state", "c": 1, "s": 1}, {"op": "state", "c": 2, "s": 2}]
        asked = []
        for _ in range(4):
            t = F(rng.choice([0.0, -0.0, 1.0, -1.0, 720.0, -720.0, rng.uniform(-3000, 3000)]))
            afspc = bool(rng.randrange(2))
            kind = rng.randrange(4)
            if kind == 0:
                ops.append({"op": "pfs", "c": 1, "s": -1, "t": t, "afspc": afspc})
            elif kind == 1:
                ops.append({"op": "pfs", "c": 2, "s": 1, "t": t, "afspc": afspc})
            elif kind == 2:
                ops.append({"op": "pfs", "c": 2, "s": -1, "t": t, "afspc": afspc})
            else:
                ops.append({"op": "pfs", "c": 1, "s": 1, "t": t, "afspc": afspc})
                asked.append((t, afspc))
        # what the first state serves must not depend on the refusals
        at = 0.0
        ops.append({"op": "state", "c": 1, "s": 3})
        for t, afspc in asked:
            minutes = G(t)
            step = math.fmod(minutes, 720.0)
            if (at == 0 or (minutes > 0) == (at > 0)) and abs(minutes) >= abs(at):
                at = minutes - step
                ops.append({"op": "pfs", "c": 1, "s": 3, "t": t, "afspc": afspc})
        sessions.append(run.session(ops, "wrong states, " + other))
    return sessions


def shared(run, count):
    """Behaviours of the Sharing model, sequentially in the order of completion and with threads."""
    run.model("Sharing", "SharingLive")
    listed = [("two clients", one) for one in
              choose(run, run.model("Sharing"), count, "sharing")]
    listed += [("three clients", one) for one in
               choose(run, run.model("Sharing", "SharingWide"), count // 2 if count else None, "wide")]
    mined = orbits.literals()
    sessions = []
    for number, (label, log) in enumerate(listed):
        rng = run.rng("sharing", number)
        clock = Clock(rng)
        sign = rng.choice([-1, 1])
        second = rng.choice(["near", "deep"]) if label == "two clients" else rng.choice(RESONANT)
        ops = [new(rng, 1, rng.choice(RESONANT), mined), new(rng, 2, second, mined),
               {"op": "clone", "c": 1, "to": 11}, {"op": "clone", "c": 2, "to": 12}]
        afspc = bool(rng.randrange(2))
        clients = sorted({call["k"] for call in log})
        handles = {}
        for k in clients:
            for a in (1, 2):
                handles[k, a] = 10 * k + a
                ops.append({"op": "state", "c": a, "s": handles[k, a]})
        sequential, programs = [], {k: [] for k in clients}
        for call in log:
            t = F(sign * clock.minutes(call["t"]))
            # half of the sequential requests use the clone
            a = call["a"] + (10 if rng.randrange(2) else 0)
            if call["fs"]:
                sequential.append({"op": "pfs", "c": a, "s": handles[call["k"], call["a"]], "t": t,
                                   "afspc": afspc})
            else:
                sequential.append({"op": "prop", "c": a, "t": t, "afspc": afspc})
            programs[call["k"]].append({"c": call["a"], "t": t, "afspc": afspc, "fs": call["fs"]})
        threads = {"op": "par", "threads": [programs[k] for k in clients] * rng.choice([1, 2, 3])}
        again = [dict(op) for op in sequential if op["op"] == "prop"]
        rng.shuffle(again)
        parts = [sequential, [threads]]
        rng.shuffle(parts)
        sessions.append(run.session(ops + parts[0] + parts[1] + again, "shared, " + label))
    return sessions


def reordered(run, sessions):
    """The same sessions in another order; in each the direct requests come first, in another order."""
    rng = run.rng("reordered")
    again = []
    for one in sessions:
        setup = [op for op in one["ops"] if op["op"] in ("new", "clone", "state")]
        direct = [op for op in one["ops"] if op["op"] == "prop"]
        rest = [op for op in one["ops"] if op["op"] in ("pfs", "par")]
        if len(setup) + len(direct) + len(rest) != len(one["ops"]):
            raise ValueError("unexpected operation")
        rng.shuffle(direct)
        again.append(dict(one, ops=setup + direct + rest))
    rng.shuffle(again)
    return again


def alone(run, again, count):
    """Some of the sessions, each to be the first that a process sees."""
    return run.rng("alone").sample(again, min(count, len(again)))


def crowds(run, count, satellites, requests):
    """Many satellites in one process, requests in random order, each made several times."""
    rng = run.rng("crowds")
    mined = orbits.literals()
    sessions = []
    for _ in range(count):
        ops = []
        families = ["near", "deep", "oneday", "halfday"]
        base = new(rng, 1, rng.choice(families), mined)
        for c in range(1, satellites + 1):
            if rng.randrange(2):
                # close relatives: one argument differs
                op = dict(base, c=c, o=dict(base["o"]))
                which = rng.choice(["bstar", "y", "theta", "raan", "argp", "m", "incl", "g", "ecc", "n"])
                if which == "bstar":
                    op["bstar"] = F(orbits.drag(rng))
                elif which == "y":
                    op["y"] = F(orbits.years(rng))
                elif which == "theta":
                    op["sid"], op["theta"] = "given", F(rng.uniform(0, 6))
                elif which == "g":
                    op["g"] = orbits.gravity(rng)
                elif which in ("ecc", "n", "incl"):
                    op["o"][which] = F(G(op["o"][which]) * (1 + 10 ** rng.uniform(-15, -3)))
                else:
                    op["o"][which] = F(rng.uniform(0, 6))
            else:
                op = new(rng, c, rng.choice(families), mined)
            ops.append(op)
        asked = []
        for _ in range(requests):
            t = rng.choice([0.0, 1440.0, rng.uniform(-1e4, 1e4), rng.uniform(-1e5, 1e5), 10.0])
            if asked and rng.randrange(4) == 0:
                # next to another request, or its mirror
                t = G(rng.choice(asked)["t"])
                t = rng.choice([ulps(t, 1), ulps(t, -1), t * (1 + 10 ** rng.uniform(-15, -4)), t + 1e-3, -t])
            call = {"op": "prop", "c": rng.randint(1, satellites), "t": F(t), "afspc": bool(rng.randrange(2))}
            asked.append(call)
            if rng.randrange(2):
                asked.append(dict(call, afspc=not call["afspc"]))
        asked += [dict(call) for call in asked]
        rng.shuffle(asked)
        pieces = [asked[k::6] for k in range(6)]
        threads = {"op": "par", "threads": [[{"c": call["c"], "t": call["t"], "afspc": call["afspc"],
                                             "fs": False} for call in piece[:requests // 4]]
                                            for piece in pieces]}
        where = rng.choice([0, len(asked)])
        asked.insert(where, threads)
        sessions.append(run.session(ops + asked, "crowd"))
    return sessions


def fresh(run, count, requests):
    """Every request directly, and through a fresh state (or none), in both modes."""
    rng = run.rng("fresh")
    mined = orbits.literals()
    sessions = []
    for _ in range(count):
        family = rng.choice(["near", "deep", "deep", "oneday", "halfday"])
        op = new(rng, 1, family, mined, rng.randrange(8) == 0)
        if rng.randrange(2):
            op["o"]["incl"] = F(rng.choice([rng.uniform(0, 0.25), rng.uniform(0.17, 0.23)]))
        if rng.randrange(3) == 0:
            op["o"]["raan"] = F(-rng.uniform(0, 7))
        ops = [op]
        for t in orbits.times(rng, requests, mined, 2e5 if family in RESONANT else 1.5e8):
            for afspc in (False, True):
                ops.append({"op": "prop", "c": 1, "t": F(t), "afspc": afspc})
                if family in RESONANT:
                    ops.append({"op": "state", "c": 1, "s": 1})
                ops.append({"op": "pfs", "c": 1, "s": 1 if family in RESONANT else -1, "t": F(t),
                            "afspc": afspc})
        sessions.append(run.session(ops, "modes, " + family))
    return sessions

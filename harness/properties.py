"""One function per property: what is enumerated, executed and validated to decide it."""

from . import objects, omms, orbits, routes, states, times, tles
from .core import Unbuildable


def predictions(run, families, model_count, random_count, requests, longest):
    sessions = []
    for family in families:
        sessions += orbits.model_sessions(run, family, model_count, "all" if run.thorough else "modes")
        sessions += orbits.random_sessions(run, family, random_count, requests, longest)
        sessions += orbits.dictionary_sessions(run, family, longest)
        if family in ("oneday", "halfday"):
            sessions += orbits.far_sessions(run, family, 60 if run.thorough else 40, 1e8 if run.thorough else 1e7)
    sessions += orbits.model_sessions(run, "bands", None)
    recorded = run.execute(sessions)
    for one in (recorded[0], recorded[-1]):
        run.sample({"session": one["sid"], "events": one["ev"][:3]})
    run.validate("TracePredictions", recorded, sessions)
    run.assumptions.append(
        "The specification Sgp4.tla is the documented theory; a prediction is accepted within the "
        "rounding spread that four evaluations of the specification show.")


def C01(run):
    if run.thorough:
        predictions(run, ["near"], None, 3000, 12, 1.5e8)
    else:
        predictions(run, ["near"], 500, 700, 8, 1.5e8)


def C02(run):
    if run.thorough:
        predictions(run, ["deep"], None, 3000, 12, 1.5e8)
    else:
        predictions(run, ["deep"], 350, 700, 8, 1.5e8)


def C03(run):
    if run.thorough:
        predictions(run, ["oneday", "halfday"], None, 1500, 10, 2e6)
    else:
        predictions(run, ["oneday", "halfday"], 120, 220, 7, 2e5)


def judged(run, modules, sessions, configuration="default", environment=None):
    """Executes the sessions and has TLC validate what was recorded against trace specifications."""
    recorded = run.execute(sessions, configuration)
    for one in (recorded[0], recorded[-1]):
        run.sample({"session": one["sid"], "events": one["ev"][:3]})
    for number, module in enumerate(modules.split()):
        run.validate(module, recorded, sessions, count=number == 0, environment=environment)
    return recorded


def C08(run):
    sessions = orbits.model_sessions(run, "extreme", None if run.thorough else 700)
    sessions += orbits.model_sessions(run, "edge", None)
    if run.thorough:
        for family in ("near", "deep", "oneday", "halfday"):
            sessions += orbits.model_sessions(run, family, None, "none")
    sessions += orbits.extreme_sessions(run, 4000 if run.thorough else 800)
    judged(run, "TracePredictions", sessions)


def C09(run):
    sessions = orbits.element_model(run, "validation")
    sessions += orbits.validation_sessions(run, 3000 if run.thorough else 500)
    judged(run, "TracePredictions", sessions)


def C10(run):
    sessions = [run.session([{"op": "grav"}], "gravity constants")]
    sessions += orbits.element_model(run, "construction")
    sessions += orbits.element_sessions(run, 4000 if run.thorough else 600, 6)
    sessions += orbits.element_dictionary(run, 3)
    sessions += orbits.element_epochs(run, 1500 if run.thorough else 300)
    judged(run, "TracePredictions", sessions)


def C04(run):
    sessions = states.replayed(run, 12000 if run.thorough else 2000, states.reuses)
    sessions += states.random_sequences(run, 3000 if run.thorough else 800, 1e5, 1.5e8)
    judged(run, "TraceStates", sessions)


def C05(run):
    sessions = states.replayed(run, 6000 if run.thorough else 1000, states.reuses)
    sessions += states.replayed(run, 6000 if run.thorough else 1000)
    sessions += states.random_sequences(run, 3000 if run.thorough else 400, 1e5, 1.5e8)
    sessions += states.refusals(run, 3000 if run.thorough else 400)
    sessions += orbits.model_sessions(run, "deep", None if run.thorough else 200, "none")
    judged(run, "TraceStates", sessions)


def C06(run):
    sessions = states.shared(run, 8000 if run.thorough else 1000)
    sessions += states.crowds(run, 200 if run.thorough else 30, 12, 60)
    # once more in another process, sessions and requests in another order: what a process answers
    # must not depend on what it was asked before, however consistent it is with itself
    again = states.reordered(run, sessions)
    recorded = {one["sid"]: one for one in run.execute(sessions)}
    for one in run.execute(again):
        if one["sid"] in recorded:
            recorded[one["sid"]]["ev"] += one["ev"]
    # and some of them in processes that are asked nothing else
    for single in states.alone(run, again, 120 if run.thorough else 24):
        for one in run.execute([single]):
            if one["sid"] in recorded:
                recorded[one["sid"]]["ev"] += one["ev"]
    recorded = list(recorded.values())
    for one in (recorded[0], recorded[-1]):
        run.sample({"session": one["sid"], "events": one["ev"][:3]})
    run.validate("TraceStates", recorded, [dict(one, rerun=True) for one in sessions])


def C07(run):
    sessions = states.fresh(run, 4000 if run.thorough else 600, 6)
    for family in ("near", "deep", "oneday", "halfday"):
        sessions += orbits.model_sessions(run, family, None if run.thorough else 60)
    judged(run, "TraceStates TracePredictions", sessions)


def parsed(run, ops, label, configuration="default"):
    """Executes parsing operations and validates them against the TLE specification."""
    sessions = tles.grouped(run, ops, label)
    return judged(run, "TraceTle", sessions, configuration, {"TEXT": "yes"})


def C11(run):
    ops = tles.model_ops(run, "fields", "two" if run.thorough else "one", 30000)
    ops += tles.model_ops(run, "bytes", "all" if run.thorough else "few", 60000 if run.thorough else 9000)
    ops += tles.model_ops(run, "lengths", "few")
    ops += tles.well_formed_ops(run, 4000 if run.thorough else 500)
    ops += tles.mutated_ops(run, 40000 if run.thorough else 6000)
    ops += tles.noise_ops(run, 8000 if run.thorough else 1000)
    parsed(run, ops, "lines")


def C12(run):
    ops = tles.model_ops(run, "fields", "two" if run.thorough else "one", 40000)
    ops += tles.model_ops(run, "bytes", "few", None if run.thorough else 3000)
    ops += tles.well_formed_ops(run, 30000 if run.thorough else 5000)
    ops += tles.mutated_ops(run, 20000 if run.thorough else 3000)
    parsed(run, ops, "fields")


def C13(run):
    ops = tles.model_ops(run, "digits", "few")
    ops += tles.corrupted_ops(run, 60000 if run.thorough else 6000)
    ops += tles.mutated_ops(run, 10000 if run.thorough else 1000)
    parsed(run, ops, "corrupted lines")


def C14(run):
    ops = tles.model_ops(run, "epochs", "few")
    ops += tles.epoch_ops(run, 40000 if run.thorough else 5000)
    parsed(run, ops, "epochs")


def C15(run):
    sessions = tles.batch_sessions(run, "all" if run.thorough else "few", 12000 if run.thorough else 2000,
                                   4000 if run.thorough else 600)
    judged(run, "TraceTle", sessions, "default", {"TEXT": "yes"})


def C16(run):
    ops = omms.model_ops(run, "values", "two" if run.thorough else "one", 30000)
    ops += omms.model_ops(run, "shape")
    ops += omms.model_ops(run, "syntax", count=None if run.thorough else 2500)
    ops += omms.model_ops(run, "lists", count=None if run.thorough else 500)
    ops += omms.random_ops(run, 15000 if run.thorough else 2000)
    ops += omms.mutated_ops(run, 8000 if run.thorough else 1000)
    ops += omms.list_ops(run, 1500 if run.thorough else 200)
    judged(run, "TraceOmm", tles.grouped(run, ops, "messages", 12))


def C17(run):
    sessions = objects.model_sessions(run) + objects.random_sessions(run, 20000 if run.thorough else 3000)
    judged(run, "TraceRestored", sessions)
    sessions = orbits.element_model(run, "construction", None if run.thorough else 150)
    for family in ("near", "deep", "oneday", "halfday"):
        sessions += orbits.model_sessions(run, family, 1000 if run.thorough else 60)
        sessions += orbits.random_sessions(run, family, 500 if run.thorough else 60, 6, 2e5)
    judged(run, "TracePredictions", objects.restored(run, sessions))


def C18(run):
    sessions = times.model_sessions(run, "epochs", None if run.thorough else 5000)
    sessions += times.epoch_sessions(run, 10000 if run.thorough else 800)
    judged(run, "TraceTime", sessions)


def C19(run):
    sessions = times.model_sessions(run, "elapsed")
    sessions += times.conversion_sessions(run, 10000 if run.thorough else 1000)
    judged(run, "TraceTime", sessions)


def C21(run):
    sessions = times.model_sessions(run, "sidereal")
    sessions += times.sidereal_sessions(run, 8000 if run.thorough else 600)
    judged(run, "TraceTime", sessions)


def C20(run):
    configurations = ["default", "std", "libm", "libm-alloc", "libm-alloc-serde"]
    ops = tles.model_ops(run, "fields", "one", 3000 if run.thorough else 1500)
    ops += tles.model_ops(run, "bytes", "few", 3000 if run.thorough else 1500)
    ops += tles.model_ops(run, "lengths", "few", 600 if run.thorough else 300)
    ops += tles.model_ops(run, "epochs", "few", 1000 if run.thorough else 500)
    ops += tles.well_formed_ops(run, 1200 if run.thorough else 600)
    ops += tles.mutated_ops(run, 2400 if run.thorough else 1200)
    ops += omms.random_ops(run, 600 if run.thorough else 300)
    parsing = tles.grouped(run, ops, "texts") + tles.batch_sessions(
        run, "few", 400 if run.thorough else 200, 200 if run.thorough else 100)
    flying = orbits.element_model(run, "construction", 80 if run.thorough else 40)
    flying += orbits.element_model(run, "validation", 400 if run.thorough else 200)
    for family in ("near", "deep", "oneday", "halfday", "extreme"):
        flying += orbits.model_sessions(run, family, 50 if run.thorough else 25)
    for family in ("near", "deep", "oneday", "halfday"):
        flying += orbits.random_sessions(run, family, 30 if run.thorough else 15, 5, 2e5)
    parsed, flown = {}, {}
    for name in list(configurations):
        try:
            run.driver(name)
        except Unbuildable as trouble:
            if name == "default":
                raise
            run.log(str(trouble))
            run.violation("the build %s does not compile" % name, dict(run.session([], "builds"), rerun=True),
                          None, 0, "TraceConfigurations")
            configurations.remove(name)
            continue
        parsed[name] = run.execute(parsing, name)
        flown[name] = run.execute(flying, name)
    for text in ("yes", "no"):
        some = {name: parsed[name] for name in configurations if (name == "libm") == (text == "no")}
        if some:
            run.validate("TraceTle", *together(some, parsing), tag="-" + "-".join(some), environment={"TEXT": text})
    some = {name: parsed[name] for name in configurations if name == "libm-alloc-serde"}
    if some:
        run.validate("TraceOmm", *together(some, parsing), tag="-" + "-".join(some), count=False)
    run.validate("TracePredictions", *together(flown, flying))
    recordings = {name: parsed[name] + flown[name] for name in configurations}
    one = recordings[configurations[-1]]
    run.sample({"session": one[0]["sid"], "events": one[0]["ev"][:2]})
    run.sample({"session": one[-1]["sid"], "events": one[-1]["ev"][:2]})
    run.validate("TraceConfigurations", objects.merged(recordings, {name: name != "libm" for name in configurations}),
                 again(parsing + flying), count=False)
    elsewhere(run, configurations[1:])


def again(sessions):
    """To be replayed by the whole check: the sessions do not tell the build."""
    return [dict(one, rerun=True) for one in sessions]


def together(recordings, sessions):
    """The recordings of several builds one after the other, and the sessions they are of."""
    recorded, known = [], []
    for number, (name, some) in enumerate(recordings.items()):
        recorded += [dict(one, sid=one["sid"] * 8 + number) for one in some]
        known += [dict(one, sid=one["sid"] * 8 + number, label="%s, %s" % (one["label"], name))
                  for one in again(sessions)]
    return recorded, known


def elsewhere(run, configurations):
    """What other properties demand of the default build, of the other builds."""
    many = 2 if run.thorough else 1
    clock = times.model_sessions(run, "epochs", 400 * many) + times.epoch_sessions(run, 60 * many)
    clock += times.model_sessions(run, "elapsed", 300 * many) + times.conversion_sessions(run, 100 * many)
    clock += times.model_sessions(run, "sidereal", 300 * many) + times.sidereal_sessions(run, 60 * many)
    reuse = states.replayed(run, 150 * many, states.reuses) + states.random_sequences(run, 60 * many, 1e5, 2e6)
    reuse += states.refusals(run, 60 * many) + states.shared(run, 60 * many)
    modes = states.fresh(run, 80 * many, 6)
    wrong = tles.grouped(run, tles.mutated_ops(run, 300 * many, "wrong"), "lines that fail")
    wrong += times.conversion_sessions(run, 60 * many) + orbits.extreme_sessions(run, 60 * many)
    wrong = said(wrong + orbits.element_model(run, "validation", 100 * many))
    kept = objects.model_sessions(run) + objects.random_sessions(run, 300 * many)
    for module, sessions, owners, able in (
            ("TraceTime", clock, ("C18", "C19", "C21"), configurations),
            ("TraceStates", reuse, ("C04", "C05", "C06"), configurations),
            ("TraceStates", modes, ("C07",), configurations),
            ("TraceMessages", wrong, ("C23",), configurations),
            ("TraceRestored", kept, ("C17",), [name for name in configurations if "serde" in name])):
        recorded, known = together({name: run.execute(sessions, name) for name in able}, sessions)
        for owner in owners:
            if recorded:
                run.validate(module, recorded, known, tag="-" + owner, count=owner == owners[0],
                             environment={"PROP": owner})


def C22(run):
    sessions = objects.twin_model(run, None if run.thorough else 250)
    sessions += objects.twin_sessions(run, 2000 if run.thorough else 250, 4, 2e5)
    judged(run, "TraceInterchange TraceTle TraceOmm TracePredictions", sessions, "default", {"TEXT": "yes"})


def C23(run):
    sessions = [run.session(ops, "errors of the model")
                for ops in sorted(run.model("Failures", None, {"DEPTH": "all" if run.thorough else "few"}), key=repr)]
    ops = tles.model_ops(run, "fields", "one", None if run.thorough else 1500)
    ops += tles.model_ops(run, "bytes", "few", None if run.thorough else 2500)
    ops += tles.model_ops(run, "lengths", "few")
    ops += tles.model_ops(run, "epochs", "few", None if run.thorough else 300)
    ops += tles.mutated_ops(run, 10000 if run.thorough else 800)
    sessions += tles.grouped(run, ops, "lines that fail")
    sessions += tles.batch_sessions(run, "few", 4000 if run.thorough else 300, 1000 if run.thorough else 100)
    sessions += times.model_sessions(run, "elapsed", None if run.thorough else 500)
    sessions += times.conversion_sessions(run, 5000 if run.thorough else 300)
    sessions += orbits.element_model(run, "validation", None if run.thorough else 400)
    sessions += orbits.model_sessions(run, "extreme", None if run.thorough else 300)
    sessions += orbits.extreme_sessions(run, 2000 if run.thorough else 200)
    judged(run, "TraceMessages", said(sessions))


def C24(run):
    judged(run, "TraceRoutes", routes.sessions(run, 10000 if run.thorough else 1500))


def said(sessions):
    """The same sessions, recording the messages of errors."""
    return [dict(session, ops=[dict(op, said=True) for op in session["ops"]]) for session in sessions]

#!/usr/bin/env python3
"""Breaks the specifications one definition at a time and expects TLC to object.

A model that accepts a broken definition proves nothing about that definition.  Each entry names the
module to break, the text and its replacement, the model that must object, and what it must say is
violated.  Works on a copy of the specifications; prints one line per entry, exits 1 if one passed.
"""

import os
import shutil
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from harness import core  # noqa: E402

ENTRIES = [
    # resonance states
    ("Integrator", "/\\ state.t # 0 => Sign(t) = Sign(state.t)\n", "", "Integrator", None, {}, "NeverBeyond PathMatchesTime ReuseIsInvisible Oracle"),
    ("Integrator", "/\\ Mag(t) >= Mag(state.t)", "/\\ Mag(t) + Unit > Mag(state.t)", "Integrator", None, {}, "NeverBeyond ReuseIsInvisible Oracle"),
    ("Integrator", "busy # <<>> /\\ Mag(busy.t - states[busy.s].t) >= Unit\n", "busy # <<>> /\\ Mag(busy.t - states[busy.s].t) > Unit\n", "Integrator", "IntegratorLive", {}, "Answered Temporal Oracle"),
    ("Integrator", "path |-> Append(@.path, dir)", "path |-> <<dir>>", "Integrator", None, {}, "PathMatchesTime Oracle"),
    ("Integrator", "states' = IF resonant THEN Append(states, Fresh) ELSE states", "states' = Append(states, Fresh)", "Integrator", None, {}, "OnlyResonantHaveStates Oracle"),
    ("Integrator", "  /\\ busy' = <<>>\n  /\\ UNCHANGED <<resonant, states>>", "  /\\ busy' = <<>>\n  /\\ states' = [states EXCEPT ![busy.s] = Fresh]\n  /\\ UNCHANGED resonant", "Integrator", "IntegratorLive", {}, "AwayFromEpoch Action property Oracle"),
    ("Integrator", "Mag(busy.t - states[busy.s].t) < Unit\n  /\\ Record", "Mag(busy.t - states[busy.s].t) <= Unit\n  /\\ Record", "Integrator", None, {}, "ServedAtTruncation Oracle"),
    # sharing
    ("Sharing", "st |-> IF fs THEN own[k][a] ELSE Fresh", "st |-> own[CHOOSE x \\in Clients : TRUE][CHOOSE x \\in ResonantSatellites : TRUE]", "Sharing", None, {}, "Pure Atomic"),
    ("Sharing", "own' = IF d.fs THEN [own EXCEPT ![k][d.a] = d.st] ELSE own", "own' = IF d.fs THEN [x \\in Clients |-> [own[x] EXCEPT ![d.a] = d.st]] ELSE own", "Sharing", None, {}, "Separate Atomic"),
    ("Sharing", "path |-> Append(@.path, doing[k].a)", "path |-> Append(@.path, IF Len(log) > 0 THEN log[Len(log)].a ELSE doing[k].a)", "SharingWide", None, {}, "Pure Atomic"),
    ("Sharing", "  /\\ doing[k] # <<>> /\\ Busy(k)\n", "  /\\ doing[k] # <<>> /\\ Busy(k) /\\ \\A x \\in Clients : x # k => ~Busy(x)\n", "Sharing", "SharingLive", {}, "Temporal Atomic"),
    # the refinements alone
    ("Integrator", "answer' = Prediction(states[busy.s], busy.t)", "answer' = Prediction(states[1], busy.t)", "Integrator", "IntegratorLive", {}, "Refines Action Oracle"),
    ("Integrator", "Append(states, states[s])", "Append(states, Fresh)", "Integrator", "IntegratorLive", {}, "Refines Action Oracle"),
    # calendars and time
    ("Calendar", "(y % 4 = 0 /\\ y % 100 # 0) \\/ y % 400 = 0", "y % 4 = 0 /\\ y % 100 # 0", "Times", None, {"PURPOSE": "epochs"}, "Calendars"),
    ("Calendar", "m \\in {4, 6, 9, 11} THEN 30", "m \\in {4, 6, 9} THEN 30", "Times", None, {"PURPOSE": "epochs"}, "Calendars"),
    ("Calendar", "n |-> b.n - a.n + IF borrow THEN 1000000000 ELSE 0", "n |-> b.n - a.n", "Times", None, {"PURPOSE": "elapsed"}, "ElapsedLaws"),
    ("Calendar", "d.n <= 854775807", "d.n < 854775807", "Times", None, {"PURPOSE": "elapsed"}, "Limits64"),
    ("Calendar", "FInt(dt.s - 43200)", "FInt(dt.s)", "Times", None, {"PURPOSE": "elapsed"}, "ElapsedLaws"),
    # TLEs
    ("Tle", "IF y < 57 THEN 2000 + y ELSE 1900 + y", "IF y < 57 THEN 2000 + y ELSE 1800 + y", "Tles", None, {"PURPOSE": "epochs", "DEPTH": "few"}, "EpochsExist"),
    ("Tle", "day \\prec FInt(YearLength(year) + 1)", "day \\prec F(\"367\")", "Tles", None, {"PURPOSE": "epochs", "DEPTH": "few"}, "EpochsExist"),
    ("Tle", "day \\succeq F(\"1\")", "day \\succeq F(\"-1000\")", "Tles", None, {"PURPOSE": "epochs", "DEPTH": "few"}, "NoSuchDay EpochsExist"),
    ("Tle", "Unless(line[LineLength] = 48 + Checksum(line), {D(\"BadChecksum\", name, 68, 69)})", "None", "Tles", None, {"PURPOSE": "digits", "DEPTH": "few"}, "DigitsProtected"),
    ("Tle", "Unless(Revolution(l2).ok, {D(\"ExpectedInteger\", \"Line2\", 63, 68)})", "None", "Tles", None, {"PURPOSE": "fields", "DEPTH": "one"}, "Classified"),
    ("Tle", "Unless(Class(l1) \\in {85, 67, 83}", "Unless(Class(l1) \\in {85, 67, 83, 32}", "Tles", None, {"PURPOSE": "fields", "DEPTH": "one"}, "Classified"),
    # listings
    ("Batch", "IF line # <<>> /\\ line[Len(line)] = CR THEN", "IF FALSE THEN", "Batches", None, {"DEPTH": "few"}, "EndsDoNotMatter"),
    ("Batch", "l2 |-> lines[3 * j]", "l2 |-> lines[3 * j - 1]", "Batches", None, {"DEPTH": "few"}, "CompleteGroups"),
    # messages in JSON
    ("Omm", "IF given = {} THEN (IF IsName(f) THEN OK(Absent) ELSE Refused)", "IF given = {} THEN OK(Absent)", "Omms", None, {"PURPOSE": "shape", "DEPTH": "one"}, "Judged"),
    ("Omm", "IF Cardinality(given) > 1 THEN Free", "IF FALSE THEN Free", "Omms", None, {"PURPOSE": "shape", "DEPTH": "one"}, "Judged"),
    ("Omm", "CHOOSE j \\in given : TRUE", "1", "Omms", None, {"PURPOSE": "shape", "DEPTH": "one"}, "Judged OrderIrrelevant"),
    ("Omm", "o |-> stamp.x.o, s |-> utc", "o |-> stamp.x.o, s |-> local", "Omms", None, {"PURPOSE": "shape", "DEPTH": "one"}, "Clocks"),
    # both formats
    ("Tle", "Drag(l1) == AssumedReal(Columns(l1, 53, 59))", "Drag(l1) == AssumedReal(Columns(l1, 44, 50))", "Twins", None, {}, "SameMeaning"),
    ("Tle", "part \\otimes F(\"8.64e13\")", "part \\otimes F(\"8.64e13\") \\oplus F(\"1000\")", "Twins", None, {}, "SameMeaning"),
    # restoring
    ("Restoring", "[] IsReal1(f) -> FEq(rs[f].x.x, given[f])", "[] IsReal1(f) -> TRUE\n          [] f = \"rev\" -> FALSE", "Objects", None, {}, "Accepted"),
    # messages of errors
    ("Failures", "[] e.k = \"pecc\" -> Eccentricity(e, \"after\")", "[] e.k = \"pecc\" -> Eccentricity(e, \"before\")", "Failures", None, {"DEPTH": "few"}, "Tell"),
    ("Failures", "\\o Bytes(\" and \") \\o Decimals(e.end)", "\\o Bytes(\" and \") \\o Decimals(e.start)", "Failures", None, {"DEPTH": "few"}, "Tell"),
    # routes
    ("Routes", "st.path \\o Steps(c, st.t, t)", "st.path \\o Steps(c, 0, t)", "Routes", "RoutesLong", {}, "RoutesAgree TypeOK"),
    ("Routes", "constants' = Append(constants, constants[1])", "constants' = Append(constants, [constants[1] EXCEPT !.way = \"from\"])", "Routes", "RoutesLong", {}, "OnlyRestoredMix PureAgree"),
    # the theory
    ("Sgp4", "p22mode == IF afspc THEN Mod(p22, TwoPi) ELSE", "p22mode == IF afspc THEN Mod(p22, Pi) ELSE", "Orbits", None, {"FAMILY": "deep", "SANITY": "modes"}, "Sane"),
    ("Sgp4", "m |-> r.p29 \\oplus (s.dm", "m |-> r.p29 \\oplus r.p29 \\oplus (s.dm", "Orbits", None, {"FAMILY": "oneday", "SANITY": "all"}, "Sane"),
    ("Predictions", "IF ~EccentricityAccepted(a.o.ecc) THEN", "IF a.o.ecc \\prec Zero THEN", "ElementSets", None, {"PURPOSE": "validation"}, "Rules"),
    ("Predictions", "IF b.k # \"ok\" THEN [k |-> b.k]", "IF FALSE THEN [k |-> b.k]", "ElementSets", None, {"PURPOSE": "validation"}, "Rules"),
]


def main():
    original = core.SPEC
    run = core.Run("vacuity")
    run.limit = 3600.0
    run.java()
    passed = 0
    for number, (module, old, new, model, config, environment, expected) in enumerate(ENTRIES, 1):
        copy = os.path.join(run.scratch, "spec-%d" % number)
        shutil.copytree(original, copy)
        path = os.path.join(copy, module + ".tla")
        with open(path) as file:
            text = file.read()
        if text.count(old) != 1:
            print("%2d %s: the text to break occurs %d times" % (number, module, text.count(old)))
            passed += 1
            continue
        with open(path, "w") as file:
            file.write(text.replace(old, new))
        core.SPEC = copy
        if model == "SharingWide":
            model, config = "Sharing", "SharingWide"
        _, _, _, code, log = run.tlc(model, config, environment, "vacuity-%d" % number)
        core.SPEC = original
        with open(log, errors="replace") as file:
            said = [line.strip() for line in file if "violated" in line]
        good = any(word in line for line in said for word in expected.split())
        print("%2d %s broken, %s: %s" % (number, module, config or model, said[0] if said else "exit %s" % code), flush=True)
        passed += not good
        shutil.rmtree(copy)
    shutil.rmtree(run.scratch, ignore_errors=True)
    print("%d of %d broken specifications were rejected as expected" % (len(ENTRIES) - passed, len(ENTRIES)))
    return 1 if passed else 0


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

THEORY = ("TLA+ specification of the theory (Sgp4.tla) evaluated by TLC; orbits enumerated by the Orbits "
          "model and random orbits are executed and every recorded prediction is validated as a trace")
THEORY_NOTE = ("Bounded: the model's orbit grid (exhaustive in the thorough tier) plus seeded random "
               "orbits and times. Trusts Java's IEEE arithmetic, TLC and the transcription of the theory, "
               "which was checked against the published test vectors; accepts what four evaluations under "
               "rounding noise allow.")

PROTOCOL = ("TLA+ models of resonance states (Integrator.tla: safety and liveness) and of clients sharing "
            "constants (Sharing.tla), model-checked by TLC; their behaviours are replayed on the "
            "implementation and the recordings validated against TraceStates.tla")
PROTOCOL_NOTE = ("Bounded: up to 4 calls and 2 states per behaviour (3 clients for sharing), abstract times "
                 "mapped to seeded real times on several satellites, plus seeded longer sequences. "
                 "Thread schedules are those the machine happens to produce.")
ERRORS_NOTE = ("Bounded: the model's grid plus seeded random inputs. Outcomes whose decision is within the "
               "rounding margin shown by four noisy evaluations may go either way.")

FORMAT = ("TLA+ specification of two-line element sets (Tle.tla: defects and meaning); pairs of lines enumerated "
          "by the Tles model (invariants checked by TLC) and random ones are parsed and every result validated "
          "as a trace against TraceTle.tla")
FORMAT_NOTE = ("Bounded: the model's field contents, bytes, lengths, digits and epochs (pairs of fields in the "
               "thorough tier) plus seeded random and mutated lines. When a pair of lines has several defects, "
               "any of them may be reported.")

TIME = ("TLA+ specification of dates, elapsed time and sidereal time (Calendar.tla, Sgp4.tla); instants "
        "enumerated by the Times model (laws checked by TLC as invariants) and random ones are executed and "
        "every result validated as a trace against TraceTime.tla")
TIME_NOTE = ("Bounded: the model's instants and distances (leap days, year ends, the 64-bit limits) plus seeded "
             "random ones. Results are accepted within the stated tolerances.")

CHECKS = {
    "C01": (THEORY, THEORY_NOTE),
    "C02": (THEORY, THEORY_NOTE),
    "C03": (THEORY, THEORY_NOTE),
    "C04": (PROTOCOL, PROTOCOL_NOTE),
    "C05": (PROTOCOL, PROTOCOL_NOTE),
    "C06": (PROTOCOL, PROTOCOL_NOTE),
    "C07": (PROTOCOL.replace("TraceStates.tla", "TraceStates.tla, and the modes against Sgp4.tla"),
            PROTOCOL_NOTE),
    "C08": (THEORY.replace("prediction", "outcome"), ERRORS_NOTE),
    "C09": ("TLA+ specification of epoch validation (Sgp4.tla, Predictions.tla); inputs enumerated by the "
            "ElementSets model and random ones are executed and validated as traces", ERRORS_NOTE),
    "C10": ("TLA+ specification of the constructors as compositions (Predictions.tla); element sets "
            "enumerated by the ElementSets model and random ones are executed and validated as traces",
            THEORY_NOTE),
    "C11": (FORMAT, FORMAT_NOTE),
    "C12": (FORMAT, FORMAT_NOTE),
    "C13": (FORMAT, FORMAT_NOTE),
    "C14": (FORMAT, FORMAT_NOTE),
    "C15": (FORMAT.replace("Tle.tla: defects and meaning", "Tle.tla) and of listings (Batch.tla")
            .replace("pairs of lines enumerated by the Tles", "texts enumerated by the Batches"),
            "Bounded: every listing of up to 4 lines (6 in the thorough tier) from 8 kinds of lines and 3 "
            "kinds of line ends, sampled for execution, plus seeded random listings."),
    "C16": ("TLA+ specification of JSON (JsonText.tla) and of mean-elements messages (Omm.tla); messages "
            "enumerated by the Omms model (invariants checked by TLC) and random ones are parsed and every "
            "result validated as a trace against TraceOmm.tla",
            "Bounded: the model's member values, shapes, syntax variants and lists (pairs of members in the "
            "thorough tier) plus seeded random and mutated messages. Forms on which the format is silent "
            "(duplicate keys, blanks inside numeric strings, leap seconds) may go either way."),
    "C17": ("TLA+ specification of restoring (Restoring.tla, on JsonText.tla and Omm.tla); objects enumerated by "
            "the Objects model (invariants checked by TLC) and random ones are written, read back and validated "
            "as traces against TraceRestored.tla; restored constants are validated against Sgp4.tla",
            "Bounded: the model's field values and orbits plus seeded random ones. Numbers may move by the double "
            "rounding of the JSON reader."),
    "C18": (TIME, TIME_NOTE),
    "C19": (TIME, TIME_NOTE),
    "C20": ("Five builds of the implementation execute the same behaviours of the Tles, Batches, ElementSets and "
            "Orbits models and random ones; every recording is validated against TraceTle.tla, TraceOmm.tla and "
            "TracePredictions.tla, and the recordings against one another by TraceConfigurations.tla",
            "Bounded: samples of the models (all of most of them in the thorough tier) plus seeded random inputs; "
            "the five feature sets that compile and differ."),
    "C21": (TIME, TIME_NOTE),
    "C22": ("TLA+ specification of one element set in both formats (Interchange.tla); TLC checks on the Twins model "
            "that Tle.tla and Omm.tla give both texts the same meaning; the texts and random ones are parsed and "
            "propagated and validated against TraceInterchange, TraceTle, TraceOmm and TracePredictions",
            "Bounded: the model's element sets (all in the thorough tier) plus seeded random ones."),
    "C23": ("TLA+ specification of what a message has to tell (Messages.tla); TLC checks on the Failures model that "
            "the documented message of every error tells that error and no other; errors of the model and errors "
            "provoked through the parsers, constructors, conversions and propagations are shown and their messages "
            "validated against TraceMessages.tla",
            "Bounded: the model's kinds, lines, ranges and values plus seeded random failures. The wording is free "
            "except for the words that tell the kinds apart."),
    "C24": ("TLA+ specification of the routes from the text of an element set to a prediction (Routes.tla); TLC checks "
            "on all routes within the bounds that what is answered depends on the moment alone, and bit for bit when "
            "nothing was rounded; routes of the model for random element sets are executed interleaved and validated "
            "against TraceRoutes.tla (equal constants answer equally, everything within the theory)",
            "Bounded: two operations after the constants in all five formats, four in one; a seeded sample of the "
            "routes is executed."),
}

NOT_APPLICABLE = {}


def main():
    with open(os.path.join(VERIF, "properties.jsonl")) as file:
        ids = [json.loads(line)["id"] for line in file if line.strip()]
    manifest = {
        "version": 1,
        "setup_cmd": "python3 check.py --setup",
        "checks": [
            {
                "property": prop,
                "quick_cmd": "python3 check.py " + prop,
                "thorough_cmd": "python3 check.py " + prop,
                "technique": CHECKS[prop][0],
                "level": "model_checking",
                "level_note": CHECKS[prop][1],
            }
            for prop in ids if prop in CHECKS
        ],
        "not_applicable": [
            {"property": prop, "reason": NOT_APPLICABLE.get(prop, "check under construction")}
            for prop in ids if prop not in CHECKS
        ],
        "notes": "The specification is in spec/, the executor of recorded operations in driver/, the "
                 "orchestration in harness/ and check.py. No hooks in /repo: everything goes through the "
                 "public interface. See DESIGN.md.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as file:
        json.dump(manifest, file, indent=1)
        file.write("\n")


main()

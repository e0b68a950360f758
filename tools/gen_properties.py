#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the records stay uniform)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

L, D, N, T, M, X = "src/lib.rs", "src/deep_space.rs", "src/near_earth.rs", "src/tle.rs", "src/model.rs", "src/third_body.rs"
REF33 = ("The integration test propagates 33 fixed element sets in AFSPC mode (WGS72) only; the default mode, custom "
         "gravity models and most branch combinations are never executed with an oracle.")

p("C01", "Near-earth predictions follow the documented SGP4 model",
  "For every accepted epoch orbit with a period below 225 min (mean motion above 2 pi / 225 rad/min), every gravity model, every drag term and every time, "
  "a successful prediction has the position (km) and velocity (km/s) defined by the documented near-earth SGP4 equations, up to floating-point rounding. "
  "This includes the perigee-dependent atmosphere constants, the simplified drag model used below 220 km of perigee, the near-circular case (eccentricity up to 1e-4), retrograde and exactly 180 degree orbits, and both negative and positive times.",
  ["inputs", "configurations"], "all near-earth orbits x gravity models x drag terms x times, default and AFSPC mode", REF33,
  [L, N], [("common initialization and short-period terms", "src/lib.rs Constants::new / propagate_from_state"), ("near-earth secular and drag terms", "src/near_earth.rs")],
  ["Constants::new, Constants::from_elements*, Constants::propagate*"])
p("C02", "Non-resonant deep-space predictions follow the documented model",
  "For every accepted epoch orbit with a period of at least 225 min that is not in a resonance band, every gravity model and every time, "
  "a successful prediction has the position and velocity defined by the documented deep-space SGP4 equations (Sun and Moon secular and long-period terms), up to floating-point rounding. "
  "This includes the low-inclination (below 0.2 rad) Lyddane formulation in its default and AFSPC variants, the suppression of the node drift within 3 degrees of the equator (either sense), and negative times.",
  ["inputs", "configurations"], "all non-resonant deep-space orbits x epochs x gravity models x times x both modes", REF33,
  [L, D, X], [("third-body initialization", "src/third_body.rs"), ("deep-space secular / periodic terms, Lyddane branch", "src/deep_space.rs deep_space_orbital_elements")],
  ["Constants::new, Constants::from_elements*, Constants::propagate*"])
p("C03", "Resonant deep-space predictions follow the documented model",
  "For every accepted epoch orbit in the 24 h band (0.0034906585 < n < 0.0052359877 rad/min) or the 12 h band (8.26e-3 <= n <= 9.24e-3 and eccentricity >= 0.5), every epoch sidereal time, gravity model and time, "
  "a successful prediction has the position and velocity defined by the documented resonance equations integrated with 720 min steps from epoch, up to floating-point rounding. "
  "Band limits and the eccentricity breakpoints 0.5, 0.65, 0.7 and 0.715 are classified exactly as documented, for forward and backward propagation.",
  ["inputs", "configurations"], "all resonant orbits x epochs x gravity models x times in both directions", REF33 + " Only a handful of resonant sets are listed, and few eccentricity intervals are reached.",
  [L, D], [("resonance coefficients", "src/deep_space.rs constants"), ("720 min Euler-Maclaurin integrator", "src/deep_space.rs ResonanceState::integrate")],
  ["Constants::new, Constants::propagate*, Constants::propagate_from_state"])
p("C04", "Reusing a resonance state never changes a prediction",
  "For every resonant orbit and every sequence of propagation times the state accepts, each propagation through a reused (or copied) state returns exactly the same outcome, bit for bit, as a one-shot propagation to the same time. "
  "After each call the integrator time is the multiple of 720 min obtained by truncating the requested time toward the epoch (never beyond it), so along an accepted sequence on one side of the epoch it only moves away from the epoch. "
  "A call that ends in a propagation error leaves a state that satisfies the same guarantees.",
  ["histories", "inputs"], "all accepted call histories on one or several states of one orbit, both directions, including repeats, sub-step moves and exact multiples of 720",
  "No test calls propagate_from_state more than once on a state; only the doc example does, without assertions.",
  [D, L], [("integrator loop", "src/deep_space.rs ResonanceState::integrate")], ["Constants::initial_state, Constants::propagate_from_state, ResonanceState::t"],
  [("integrator state", "time, mean motion, resonance longitude", "src/deep_space.rs ResonanceState")])
p("C05", "Resonance states are demanded, accepted and refused exactly as documented",
  "An orbit has an initial resonance state (at integrator time 0) if and only if it is resonant. Propagating a resonant orbit without a state, a non-resonant orbit with a state, or a state to a time on the other side of the epoch or closer to the epoch than its integrator time, is refused by panicking and leaves the state unchanged; "
  "every other request with a finite time is served without panicking, including any time between the integrator time and the previously requested time.",
  ["histories", "inputs"], "all orbits x presence/absence of a state x all call histories, including refused calls in the middle of a history",
  "No test exercises a refusal, a state left after a refusal, or the sign/zero corner cases of the monotonicity rule.",
  [D, L], [("monotonicity guard", "src/deep_space.rs ResonanceState::integrate"), ("state presence guards", "src/lib.rs propagate_from_state, src/deep_space.rs deep_space_orbital_elements")],
  ["Constants::initial_state, Constants::propagate_from_state"],
  [("integrator state", "time, mean motion, resonance longitude", "src/deep_space.rs ResonanceState")])
p("C06", "Propagation is a pure function that can be shared between threads",
  "The outcome of a propagation depends only on the constants, the requested time, the mode and (for resonant orbits) the given state: repeating a call, reordering calls, interleaving calls for other satellites or other states, cloning the constants, or running calls concurrently from several threads on the same constants always yields bit-identical outcomes.",
  ["schedules", "histories"], "all interleavings of propagations over several satellites, states and threads",
  "The test propagates each satellite once, sequentially, in one thread.",
  [L, D, N], [("constants are immutable", "src/propagator.rs Constants"), ("state is owned by the caller", "src/deep_space.rs ResonanceState")],
  ["Constants::propagate, propagate_afspc_compatibility_mode, propagate_from_state from several threads"])
p("C07", "AFSPC propagation mode differs only on low-inclination deep-space orbits",
  "For every orbit and time, propagate is identical (bit for bit) to propagating a fresh state in default mode and propagate_afspc_compatibility_mode is identical to propagating a fresh state in AFSPC mode; the two modes give bit-identical outcomes unless the orbit is a deep-space orbit whose perturbed inclination at that time is below 0.2 rad. "
  "On those orbits the two modes differ exactly by the documented treatment of the node angle (remainder versus modulus), so they also coincide whenever the secular node angle is not negative.",
  ["inputs", "configurations"], "all orbits x times, both modes, direct and state-based entry points",
  "Tests only use the AFSPC mode; the two modes are never compared.",
  [L, D], [("mode flag", "src/deep_space.rs deep_space_orbital_elements"), ("wrappers", "src/lib.rs propagate*")], ["Constants::propagate*, propagate_from_state"])
p("C08", "Propagation always returns a finite prediction or the right error",
  "For accepted finite orbits and any finite time within 292 years of epoch, one-shot propagation terminates without panicking and returns either a prediction with six finite components or an error. "
  "The error is an out-of-range eccentricity when the eccentricity before third-body terms is outside [-0.001, 1[, an out-of-range perturbed eccentricity when the perturbed deep-space eccentricity is outside [0, 1], and a negative semi-latus rectum otherwise, tested in that order; it carries the requested time and the offending eccentricity. "
  "A NaN or infinite time also terminates, with an error.",
  ["inputs"], "all accepted orbits x all times, including decaying, diverging and degenerate ones and non-finite times",
  "Tests contain three failing propagations; the default mode, the out-of-range eccentricity error and non-finite times are never reached.",
  [L, D, N, "src/gp.rs"], [("range checks", "src/near_earth.rs, src/deep_space.rs, src/lib.rs propagate_from_state")], ["Constants::propagate*"])
p("C09", "Epoch elements are validated exactly",
  "Converting Kozai elements fails with a negative-Kozai-mean-motion error exactly when the given mean motion is not positive, with a negative-Brouwer-mean-motion error exactly when the recovered Brouwer mean motion is not positive, and otherwise returns the documented Brouwer mean motion with the five other elements unchanged. "
  "Building constants fails with an out-of-range-eccentricity error carrying the eccentricity exactly when the eccentricity is outside [0, 1[ (a NaN is outside), and the constructors from parsed elements report these same errors with the mean-motion errors taking precedence.",
  ["inputs"], "all Kozai elements, including zero/negative/tiny mean motions, near-parabolic and out-of-range eccentricities, and all gravity models",
  "No test produces any of the three errors.",
  [L], [("Kozai to Brouwer conversion", "src/lib.rs Orbit::from_kozai_elements"), ("eccentricity guard", "src/lib.rs Constants::new")],
  ["Orbit::from_kozai_elements, Constants::new, Constants::from_elements*"])
p("C10", "High-level constructors are the documented compositions",
  "For every parsed element set, from_elements gives the same constants (same outcomes at every time, same resonance) as the explicit construction from WGS84, the IAU sidereal time, the accurate epoch and the degree/rev-per-day elements converted to radians and rad/min, and from_elements_afspc_compatibility_mode the same with WGS72, the AFSPC sidereal time and the AFSPC epoch. "
  "The published WGS84 and WGS72 gravity constants have their documented values.",
  ["inputs", "configurations"], "all element sets x both modes x all times",
  "The test uses one constructor only, and never compares it with the explicit construction; no test uses WGS84.",
  [L, M], [("constructors", "src/lib.rs Constants::from_elements*"), ("gravity constants", "src/model.rs")], ["Constants::from_elements*, Constants::new, WGS84, WGS72"])
p("C11", "TLE parsing is total and accepts exactly the well-formed element sets",
  "For every pair of byte strings, TLE parsing returns without panicking; it succeeds if and only if both lines have 69 bytes, start with their line number, have blanks between fields, hold the same catalog number, end with their modulo-10 checksums and every field is readable in its documented format (including calendar-valid epoch and U, C or S classification). "
  "When it fails, the reported kind, line and character span designate a defect that is really present in the input.",
  ["inputs"], "all byte strings for both lines, of any length, including non-ASCII bytes",
  "Tests parse a few valid TLEs; no malformed TLE is ever parsed.",
  [T], [("layout, checksum and field checks", "src/tle.rs Elements::from_lines, parse_decimal_point_assumed")], ["Elements::from_tle"])
p("C12", "TLE fields are decoded to the values their columns denote",
  "For every accepted TLE, every field of the result equals the value denoted by its columns: catalog number, classification, international designator (with the 1957 century pivot, absent when blank), mean motion and its derivatives, drag term (assumed decimal point and signed exponent), ephemeris type, element set number, inclination, node, eccentricity (assumed decimal point), perigee, anomaly, revolution number, and the name given by the caller. "
  "Decimal fields are exact to floating-point rounding.",
  ["inputs"], "all accepted TLEs, including signs, exponents, blanks and extreme values in every field",
  "Two TLEs are decoded with assertions; signs, positive exponents, most widths and the century pivot are not covered.",
  [T], [("field decoding", "src/tle.rs Elements::from_lines")], ["Elements::from_tle"])
p("C13", "A corrupted digit in a TLE line is never silently accepted",
  "For every accepted TLE, replacing any one digit anywhere in either line (checksum column included) by a different digit makes parsing fail, and so does replacing, inserting or deleting a character such that a line's length, its modulo-10 checksum (digits count their value, minus signs count one) or the agreement of the two catalog numbers is broken.",
  ["inputs", "fault_sequences"], "all accepted TLEs x all single-character corruptions",
  "No test parses a corrupted TLE.",
  [T], [("checksum and catalog number checks", "src/tle.rs Elements::from_lines")], ["Elements::from_tle, parse_2les, parse_3les"])
p("C14", "The TLE epoch is decoded to the UTC instant it denotes",
  "For every accepted TLE, the epoch is the UTC instant denoted by the two-digit year (57 to 99: 1957 to 1999, 00 to 56: 2000 to 2056) and the fractional day of year, to within 10 ns, for every day of every common and leap year and every fraction; day 366 of a common year, day 0 and days beyond the year are refused.",
  ["inputs"], "all years x days x day fractions",
  "Three epochs are asserted; leap years, the pivot, year ends and carries are not covered.",
  [T], [("epoch decoding", "src/tle.rs Elements::from_lines datetime")], ["Elements::from_tle, Elements::datetime"])
p("C15", "Multi-TLE text is split into exactly the listed element sets",
  "For every text, parsing 2LE (3LE) returns, in order, one element set per complete group of two (three) consecutive lines, each equal to parsing that group alone (for 3LE with the group's first line as the name, for 2LE without a name), ignoring an incomplete last group. "
  "LF and CRLF line ends and a missing final line end give the same result, and if any complete group is malformed the whole call fails with an error of the first malformed group.",
  ["inputs", "histories"], "all texts: any number of groups, line-end conventions, incomplete and malformed groups at any position",
  "One two-element text per function, with only the length asserted.",
  [T], [("line grouping", "src/tle.rs parse_2les, parse_3les")], ["parse_2les, parse_3les"],
  [("line buffer and phase", "pending lines of the current group", "src/tle.rs")])
p("C16", "OMM JSON fields are decoded faithfully or refused",
  "For every OMM JSON object, each numeric field may be given as a JSON number or as a string holding the number, and is decoded to exactly that value; a value the field cannot represent (negative, fractional or too large for an integer field, non-numeric text, wrong JSON type, missing, unknown classification, unreadable epoch) makes deserialization fail rather than yielding a different value. "
  "The object name and designator may be absent or null, unknown keys are ignored, key order is irrelevant, and lists of objects decode element-wise.",
  ["inputs"], "all JSON objects: every field x every JSON type and value range, in any key order",
  "Three well-formed OMMs are decoded; no refusal and no range limit is tested.",
  [T], [("number-or-string deserializers", "src/tle.rs u64_or_string, u8_or_string, f64_or_string"), ("serde renames", "src/tle.rs Elements")], ["serde_json::from_str::<Elements>, Vec<Elements>"])
p("C17", "Serialized objects are restored to equivalent objects",
  "For every element set, orbit, prediction, gravity model and propagation constants with finite values, serializing to JSON and deserializing gives an object with the same field values (to floating-point rounding of the JSON reader), and element sets are serialized under the OMM key names. "
  "Restored constants are resonant exactly when the original was, and predict the same positions and velocities up to the rounding of the JSON reader.",
  ["inputs"], "all values of all serializable types, every propagation regime",
  "No test serializes anything.",
  ["src/propagator.rs", T, M, X], [("serde derives and renames", "src/propagator.rs, src/tle.rs, src/model.rs, src/third_body.rs")], ["serde_json::to_string / from_str"])
p("C18", "Epochs are the Julian years elapsed since J2000",
  "For every UTC datetime from 1901 to 2099, the epoch functions return the number of 365.25-day years elapsed since 2000-01-01 12:00, to floating-point rounding (1e-15 times the number of years, or 1e-15 years if that is more) for the accurate expression and 5e-12 years for the AFSPC expression; the methods on an element set agree with the functions applied to its datetime.",
  ["inputs"], "all datetimes of all days 1901-2099, including leap days, month ends and sub-second parts",
  "Four datetimes are asserted.",
  [T], [("calendar expressions", "src/tle.rs julian_years_since_j2000*")], ["julian_years_since_j2000*, Elements::epoch*"])
p("C19", "Datetimes and minutes since epoch convert into each other",
  "For every element set and datetime, the conversion to minutes since epoch returns the signed elapsed time (leap seconds ignored) to floating-point rounding, or an error exactly when it does not fit in 64-bit nanoseconds; converting back returns the original datetime up to the rounding of the minutes value. "
  "Converting minutes to a datetime returns epoch plus that duration to the nearest nanosecond (up to rounding of the value), or an error exactly when the value is not a number or does not fit in 64-bit nanoseconds; it never panics.",
  ["inputs"], "all epochs x datetimes x minutes, including far past/future, overflow limits and non-finite values",
  "These functions are not tested at all.",
  [T], [("conversions", "src/tle.rs datetime_to_minutes_since_epoch, minutes_since_epoch_to_datetime")], ["Elements::datetime_to_minutes_since_epoch, Elements::minutes_since_epoch_to_datetime"])
p("C20", "Every build configuration behaves the same",
  "With std or with libm, with or without alloc and serde, parsing the same TLE gives the same fields or the same error (without alloc the name and designator do not exist and are not parsed), and propagating the same orbit to the same time gives the same outcome up to floating-point rounding, in both modes. "
  "Every such build compiles, and in each of them the conversions of times, the sidereal times, the resonance states, the error messages and (with serde) the serialized objects obey the same properties as in the default build.",
  ["configurations", "inputs"], "the five feature sets of the CI matrix x all TLEs x orbits x times",
  "The std and no-std test runs use the same 33 vectors; the configurations without alloc are only compiled.",
  [L, D, M, T, "Cargo.toml"], [("feature-gated float functions", "src/deep_space.rs, src/model.rs rem_euclid"), ("feature-gated parsing", "src/tle.rs")], ["all public functions, per feature set"])
p("C21", "Sidereal time follows the documented expressions",
  "For every epoch within a thousand years of J2000, the IAU and AFSPC functions return an angle in [0, 2 pi[ equal to the documented expression modulo 2 pi, up to floating-point rounding (5e-12 rad for every year from J2000, and at least 1.5e-10 rad), for epochs before and after J2000.",
  ["inputs"], "all epochs within a thousand years of J2000",
  "Only the AFSPC function is reached (through two or three resonant vectors); the IAU function is never tested.",
  [M], [("sidereal time expressions", "src/model.rs")], ["iau_epoch_to_sidereal_time, afspc_epoch_to_sidereal_time"])
p("C22", "A TLE and the OMM of the same element set are interchangeable",
  "For every element set expressible in both formats, the element set parsed from the TLE and the one deserialized from the OMM JSON agree field by field (epoch to within 10 ns), and the constants built from either predict the same positions and velocities up to that rounding.",
  ["inputs"], "all element sets expressible in both formats",
  "No test compares the two formats.",
  [T], [("TLE decoding", "src/tle.rs Elements::from_lines"), ("OMM decoding", "src/tle.rs Elements")], ["Elements::from_tle, serde_json::from_str::<Elements>"])
p("C23", "Error messages identify the error",
  "For every error the crate returns or that can be built from its public parts, the message tells the kind of error (no two kinds share a message), "
  "for TLE errors the line and the character range, for propagation and element errors the offending eccentricity and the minutes since epoch, and for conversion errors the datetimes or minutes involved, "
  "with numbers written so that reading them back gives exactly the value. Wrapping an error in ElementsError keeps its kind, value and message.",
  ["inputs"], "all errors of all public functions: every TLE error kind x line x range, every propagation, element and conversion error x every value including non-finite ones",
  "No test looks at a message; the fields of TLE and conversion errors are private, so the message is all a user sees.",
  [T, L, "src/gp.rs"], [("Display implementations", "src/tle.rs Error, DatetimeToMinutesSinceEpochError, MinutesSinceEpochToDatetimeError; src/gp.rs Error; src/lib.rs KozaiElementsError, OutOfRangeEpochEccentricity, ElementsError")],
  ["to_string() of every error"])
p("C24", "Every route to a prediction agrees",
  "Whichever operations of the crate lie between the text of an element set and a prediction, the prediction is that of the element set at that moment. The element set may be read from a TLE, as an entry of a 2LE or 3LE listing, from an OMM or as an entry of a list of OMMs, "
  "and may be written as JSON and read again; its constants may come from from_elements (or its AFSPC form) or be composed from Orbit::from_kozai_elements and Constants::new, be cloned, or be written and read again; the time may be given in minutes or as a datetime converted with the element set; "
  "and the request may be made directly, through no state, through a fresh state, a state that served other requests, a copied state, or a state obtained from another copy (clone or restored) of the same constants. "
  "Predictions of the same constants or of clones at the same minutes are equal bit for bit; all others agree up to the rounding of the decimal and JSON representations.",
  ["histories", "inputs"], "all combinations of these operations, for all element sets expressible in both formats, interleaved with those of other element sets",
  "Tests exercise single functions with fixed inputs; no test combines two ways to the same prediction.",
  [T, L, D], [("reading", "src/tle.rs Elements::from_tle, parse_2les, parse_3les, Deserialize"), ("constants", "src/lib.rs Constants::from_elements*, Constants::new, Clone, Serialize, Deserialize"),
              ("time", "src/tle.rs Elements::datetime_to_minutes_since_epoch"), ("requests", "src/lib.rs Constants::propagate*, propagate_from_state, initial_state")],
  ["Constants::propagate*, Constants::propagate_from_state"],
  [("integrator state", "time, mean motion, resonance longitude", "src/deep_space.rs ResonanceState")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P))

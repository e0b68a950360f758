//! Executes recorded operations on the sgp4 crate and writes down what happened.
//!
//! Input: one session per line, `{"sid": n, "ops": [..]}`. Output: one line per session,
//! `{"sid": n, "ev": [..]}` where each event is the operation plus its result `r`. The driver judges
//! nothing. Numbers are `[hi, lo]` (halves of the bit pattern), byte strings are arrays of integers.

use serde_json::{json, Map, Value};
use sgp4::chrono::{self, Datelike, Timelike};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
#[cfg(feature = "threads")]
use std::sync::Barrier;
use std::sync::{Arc, Mutex};

fn f(value: f64) -> Value {
    let bits = value.to_bits();
    json!([(bits >> 32) as u32 as i32, bits as u32 as i32])
}

fn g(value: &Value) -> f64 {
    let hi = value[0].as_i64().expect("hi") as i32 as u32 as u64;
    let lo = value[1].as_i64().expect("lo") as i32 as u32 as u64;
    f64::from_bits((hi << 32) | lo)
}

fn digits(value: u64) -> Value {
    Value::Array(
        value
            .to_string()
            .bytes()
            .map(|byte| json!(byte - b'0'))
            .collect(),
    )
}

fn undigits(value: &Value) -> u64 {
    value
        .as_array()
        .unwrap()
        .iter()
        .fold(0, |sum, digit| sum * 10 + digit.as_u64().unwrap())
}

fn bytes(value: &Value) -> Vec<u8> {
    value
        .as_array()
        .expect("bytes")
        .iter()
        .map(|byte| byte.as_u64().unwrap() as u8)
        .collect()
}

#[allow(dead_code)]
fn unbytes(value: &[u8]) -> Value {
    Value::Array(value.iter().map(|byte| json!(byte)).collect())
}

#[cfg(feature = "alloc")]
fn opt(value: &Option<String>) -> Value {
    match value {
        Some(value) => json!({"some": true, "b": unbytes(value.as_bytes())}),
        None => json!({"some": false, "b": []}),
    }
}

#[cfg(feature = "alloc")]
fn unopt(value: &Value) -> Option<String> {
    if value["some"].as_bool().unwrap() {
        Some(String::from_utf8(bytes(&value["b"])).unwrap())
    } else {
        None
    }
}

fn dt(value: &chrono::NaiveDateTime) -> Value {
    json!({
        "y": value.year(),
        "o": value.ordinal(),
        "s": value.num_seconds_from_midnight(),
        "n": value.nanosecond(),
    })
}

fn undt(value: &Value) -> chrono::NaiveDateTime {
    chrono::NaiveDate::from_yo_opt(
        value["y"].as_i64().unwrap() as i32,
        value["o"].as_i64().unwrap() as u32,
    )
    .expect("date")
    .and_time(
        chrono::NaiveTime::from_num_seconds_from_midnight_opt(
            value["s"].as_i64().unwrap() as u32,
            value["n"].as_i64().unwrap() as u32,
        )
        .expect("time"),
    )
}

fn elements(value: &sgp4::Elements) -> Value {
    #[cfg(feature = "alloc")]
    let (name, intl) = (
        opt(&value.object_name),
        opt(&value.international_designator),
    );
    #[cfg(not(feature = "alloc"))]
    let (name, intl) = (
        json!({"some": false, "b": []}),
        json!({"some": false, "b": []}),
    );
    json!({
        "name": name,
        "intl": intl,
        "norad": digits(value.norad_id),
        "cls": match value.classification {
            sgp4::Classification::Unclassified => "U",
            sgp4::Classification::Classified => "C",
            sgp4::Classification::Secret => "S",
        },
        "dt": dt(&value.datetime),
        "mmd": f(value.mean_motion_dot),
        "mmdd": f(value.mean_motion_ddot),
        "bstar": f(value.drag_term),
        "elset": digits(value.element_set_number),
        "incl": f(value.inclination),
        "raan": f(value.right_ascension),
        "ecc": f(value.eccentricity),
        "argp": f(value.argument_of_perigee),
        "m": f(value.mean_anomaly),
        "n": f(value.mean_motion),
        "rev": digits(value.revolution_number),
        "eph": value.ephemeris_type,
    })
}

fn unelements(value: &Value) -> sgp4::Elements {
    sgp4::Elements {
        #[cfg(feature = "alloc")]
        object_name: unopt(&value["name"]),
        #[cfg(feature = "alloc")]
        international_designator: unopt(&value["intl"]),
        norad_id: undigits(&value["norad"]),
        classification: match value["cls"].as_str().unwrap() {
            "U" => sgp4::Classification::Unclassified,
            "C" => sgp4::Classification::Classified,
            _ => sgp4::Classification::Secret,
        },
        datetime: undt(&value["dt"]),
        mean_motion_dot: g(&value["mmd"]),
        mean_motion_ddot: g(&value["mmdd"]),
        drag_term: g(&value["bstar"]),
        element_set_number: undigits(&value["elset"]),
        inclination: g(&value["incl"]),
        right_ascension: g(&value["raan"]),
        eccentricity: g(&value["ecc"]),
        argument_of_perigee: g(&value["argp"]),
        mean_anomaly: g(&value["m"]),
        mean_motion: g(&value["n"]),
        revolution_number: undigits(&value["rev"]),
        ephemeris_type: value["eph"].as_u64().unwrap() as u8,
    }
}

// whether to record the messages of errors
static SAID: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn said(error: &dyn std::fmt::Display, result: Value) -> Value {
    let mut result = result;
    if SAID.load(std::sync::atomic::Ordering::Relaxed) {
        result["text"] = unbytes(error.to_string().as_bytes());
    }
    result
}

const TLE_ERRORS: [&str; 13] = [
    "BadChecksum",
    "BadLength",
    "BadFirstCharacter",
    "ExpectedFloatWithAssumedDecimalPoint",
    "FloatWithAssumedDecimalPointTooLong",
    "ExpectedFloat",
    "ExpectedInteger",
    "ExpectedSpace",
    "ExpectedString",
    "NoradIdMismatch",
    "UnknownClassification",
    "FromYoOptFailed",
    "FromNumSecondsFromMidnightFailed",
];

fn tle_error(error: &sgp4::TleError) -> Value {
    // the error's fields are private; its Debug form shows the names of the (public) variants
    // and its message ends with the character range
    let text = format!("{error:?}");
    let message = error.to_string();
    let among = |names: &[&str]| -> String {
        names
            .iter()
            .find(|name| text.contains(*name))
            .unwrap_or(&"")
            .to_string()
    };
    let mut numbers = message
        .rsplit(|character: char| !character.is_ascii_digit())
        .filter_map(|number| number.parse::<i32>().ok());
    let end = numbers.next().unwrap_or(-1);
    let start = numbers.next().unwrap_or(-1);
    let field = |name: &str, otherwise: i32| -> i32 {
        text.split(&format!("{name}: "))
            .nth(1)
            .and_then(|rest| rest.split(|character: char| !character.is_ascii_digit()).next())
            .and_then(|number| number.parse().ok())
            .unwrap_or(otherwise)
    };
    said(
        error,
        json!({
            "k": "err",
            "what": among(&TLE_ERRORS),
            "line": among(&["Line1", "Line2", "Both"]),
            "start": field("start", start),
            "end": field("end", end),
            "shown": !message.is_empty(),
        }),
    )
}

fn geopotential(value: &Value) -> sgp4::Geopotential {
    match value["name"].as_str() {
        Some("wgs84") => sgp4::WGS84,
        Some("wgs72") => sgp4::WGS72,
        _ => sgp4::Geopotential {
            ae: g(&value["ae"]),
            ke: g(&value["ke"]),
            j2: g(&value["j2"]),
            j3: g(&value["j3"]),
            j4: g(&value["j4"]),
        },
    }
}

fn ungeopotential(value: &sgp4::Geopotential) -> Value {
    json!({"ae": f(value.ae), "ke": f(value.ke), "j2": f(value.j2), "j3": f(value.j3), "j4": f(value.j4)})
}

fn orbit(value: &Value) -> sgp4::Orbit {
    sgp4::Orbit {
        inclination: g(&value["incl"]),
        right_ascension: g(&value["raan"]),
        eccentricity: g(&value["ecc"]),
        argument_of_perigee: g(&value["argp"]),
        mean_anomaly: g(&value["m"]),
        mean_motion: g(&value["n"]),
    }
}

fn unorbit(value: &sgp4::Orbit) -> Value {
    json!({
        "incl": f(value.inclination),
        "raan": f(value.right_ascension),
        "ecc": f(value.eccentricity),
        "argp": f(value.argument_of_perigee),
        "m": f(value.mean_anomaly),
        "n": f(value.mean_motion),
    })
}

fn outcome(value: Result<sgp4::Prediction, sgp4::Error>) -> Value {
    match value {
        Ok(prediction) => json!({
            "k": "ok",
            "pos": prediction.position.iter().map(|x| f(*x)).collect::<Vec<_>>(),
            "vel": prediction.velocity.iter().map(|x| f(*x)).collect::<Vec<_>>(),
        }),
        Err(error) => {
            let result = match error {
                sgp4::Error::OutOfRangeEccentricity { eccentricity, t } => {
                    json!({"k": "ecc", "ecc": f(eccentricity), "t": f(t)})
                }
                sgp4::Error::OutOfRangePerturbedEccentricity { eccentricity, t } => {
                    json!({"k": "pecc", "ecc": f(eccentricity), "t": f(t)})
                }
                sgp4::Error::NegativeSemiLatusRectum { t } => json!({"k": "pl", "t": f(t)}),
            };
            said(&error, result)
        }
    }
}

fn elements_error(error: &sgp4::ElementsError) -> Value {
    let result = match error {
        sgp4::ElementsError::KozaiElementsError(
            sgp4::KozaiElementsError::NegativeKozaiMeanMotion,
        ) => json!({"k": "kozai"}),
        sgp4::ElementsError::KozaiElementsError(
            sgp4::KozaiElementsError::NegativeBrouwerMeanMotion,
        ) => json!({"k": "brouwer"}),
        sgp4::ElementsError::OutOfRangeEpochEccentricity(sgp4::OutOfRangeEpochEccentricity(
            eccentricity,
        )) => json!({"k": "epochecc", "ecc": f(*eccentricity)}),
    };
    said(error, result)
}

fn caught<T>(function: impl FnOnce() -> T) -> Result<T, Value> {
    catch_unwind(AssertUnwindSafe(function)).map_err(|payload| {
        let message = payload
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| payload.downcast_ref::<&str>().map(|text| text.to_string()))
            .unwrap_or_default();
        json!({"k": "panic", "msg": message})
    })
}

fn guarded(function: impl FnOnce() -> Value) -> Value {
    caught(function).unwrap_or_else(|panic| panic)
}

#[derive(Default)]
struct Env {
    elements: Vec<Option<sgp4::Elements>>,
    constants: Vec<Option<sgp4::Constants>>,
    states: Vec<Option<sgp4::ResonanceState>>,
}

fn put<T>(slots: &mut Vec<Option<T>>, index: usize, value: Option<T>) {
    while slots.len() <= index {
        slots.push(None);
    }
    slots[index] = value;
}

fn idx(value: &Value) -> usize {
    value.as_u64().expect("index") as usize
}

fn missing() -> Value {
    json!({"k": "missing"})
}

fn propagate(constants: &sgp4::Constants, t: f64, afspc: bool) -> Value {
    guarded(|| {
        outcome(if afspc {
            constants.propagate_afspc_compatibility_mode(sgp4::MinutesSinceEpoch(t))
        } else {
            constants.propagate(sgp4::MinutesSinceEpoch(t))
        })
    })
}

fn propagate_from_state(
    constants: &sgp4::Constants,
    state: Option<&mut sgp4::ResonanceState>,
    t: f64,
    afspc: bool,
) -> Value {
    match state {
        Some(state) => {
            let before = state.t();
            let mut result = guarded(|| {
                outcome(constants.propagate_from_state(
                    sgp4::MinutesSinceEpoch(t),
                    Some(state),
                    afspc,
                ))
            });
            result["before"] = f(before);
            result["after"] = f(state.t());
            result
        }
        None => guarded(|| {
            outcome(constants.propagate_from_state(sgp4::MinutesSinceEpoch(t), None, afspc))
        }),
    }
}

fn created(result: Result<Result<sgp4::Constants, Value>, Value>) -> (Option<sgp4::Constants>, Value) {
    match result {
        Ok(Ok(constants)) => {
            let state = constants.initial_state();
            let result = json!({
                "k": "ok",
                "resonant": state.is_some(),
                "t": f(state.map(|state| state.t()).unwrap_or(0.0)),
            });
            (Some(constants), result)
        }
        Ok(Err(error)) => (None, error),
        Err(panic) => (None, panic),
    }
}

// constants from elements, with the epoch of the elements
fn dated(
    value: &sgp4::Elements,
    op: &Value,
    result: Result<Result<sgp4::Constants, Value>, Value>,
) -> (Option<sgp4::Constants>, Value) {
    let (slot, mut result) = created(result);
    let epoch = caught(|| match op["afspc"].as_bool().unwrap() {
        true => value.epoch_afspc_compatibility_mode(),
        false => value.epoch(),
    });
    match epoch {
        Ok(epoch) => {
            result["y"] = f(epoch);
            (slot, result)
        }
        Err(panic) => (slot, panic),
    }
}

// a list of element sets; the one numbered nth (from 1) is kept if a handle e is given
#[cfg(feature = "alloc")]
fn listed<E>(
    env: &mut Env,
    op: &Value,
    result: Result<Result<Vec<sgp4::Elements>, E>, Value>,
    failure: impl FnOnce(E) -> Value,
) -> Value {
    let (slot, result) = match result {
        Ok(Ok(mut list)) => {
            let result = json!({"k": "ok", "list": list.iter().map(elements).collect::<Vec<_>>()});
            let slot = match op.get("nth").map(idx) {
                Some(nth) if nth <= list.len() => Some(list.swap_remove(nth - 1)),
                _ => None,
            };
            (slot, result)
        }
        Ok(Err(error)) => (None, failure(error)),
        Err(panic) => (None, panic),
    };
    if op.get("nth").is_some() {
        put(&mut env.elements, idx(&op["e"]), slot);
    }
    result
}

fn execute(env: &mut Env, op: &Value) -> Value {
    let text = |name: &str| String::from_utf8(bytes(&op[name])).expect("utf-8");
    SAID.store(op["said"].as_bool().unwrap_or(false), std::sync::atomic::Ordering::Relaxed);
    match op["op"].as_str().expect("op") {
        "tle" => {
            let (line1, line2) = (bytes(&op["l1"]), bytes(&op["l2"]));
            #[cfg(feature = "alloc")]
            let name = unopt(&op["name"]);
            let result = caught(|| {
                #[cfg(feature = "alloc")]
                {
                    sgp4::Elements::from_tle(name, &line1, &line2)
                }
                #[cfg(not(feature = "alloc"))]
                {
                    sgp4::Elements::from_tle(&line1, &line2)
                }
            });
            let (slot, result) = match result {
                Ok(Ok(value)) => {
                    let result = json!({"k": "ok", "el": elements(&value)});
                    (Some(value), result)
                }
                Ok(Err(error)) => (None, tle_error(&error)),
                Err(panic) => (None, panic),
            };
            if let Some(handle) = op.get("e") {
                put(&mut env.elements, idx(handle), slot);
            }
            result
        }
        #[cfg(feature = "alloc")]
        "p2" => {
            let tles = text("text");
            let result = caught(|| sgp4::parse_2les(&tles));
            listed(env, op, result, |error| tle_error(&error))
        }
        #[cfg(feature = "alloc")]
        "p3" => {
            let tles = text("text");
            let result = caught(|| sgp4::parse_3les(&tles));
            listed(env, op, result, |error| tle_error(&error))
        }
        #[cfg(feature = "serde")]
        "omm" => {
            let json_text = text("text");
            let result = caught(|| serde_json::from_str::<sgp4::Elements>(&json_text));
            let (slot, result) = match result {
                Ok(Ok(value)) => {
                    let result = json!({"k": "ok", "el": elements(&value)});
                    (Some(value), result)
                }
                Ok(Err(_)) => (None, json!({"k": "err"})),
                Err(panic) => (None, panic),
            };
            if let Some(handle) = op.get("e") {
                put(&mut env.elements, idx(handle), slot);
            }
            result
        }
        #[cfg(feature = "serde")]
        "omms" => {
            let json_text = text("text");
            let result = caught(|| serde_json::from_str::<Vec<sgp4::Elements>>(&json_text));
            listed(env, op, result, |_| json!({"k": "err"}))
        }
        "elem" => {
            put(
                &mut env.elements,
                idx(&op["e"]),
                Some(unelements(&op["el"])),
            );
            json!({"k": "ok"})
        }
        "epoch" => {
            let datetime = undt(&op["dt"]);
            guarded(|| {
                json!({
                    "k": "ok",
                    "y": f(sgp4::julian_years_since_j2000(&datetime)),
                    "ya": f(sgp4::julian_years_since_j2000_afspc_compatibility_mode(&datetime)),
                })
            })
        }
        // an error built from its public parts
        "show" => {
            let error = &op["err"];
            let number = |name: &str| g(&error[name]);
            let kozai = |value: sgp4::KozaiElementsError| {
                let shown = value.to_string();
                (shown, elements_error(&value.into()))
            };
            guarded(|| {
                let (inner, result) = match error["k"].as_str().expect("kind") {
                    "ecc" => {
                        let (eccentricity, t) = (number("ecc"), number("t"));
                        (None, outcome(Err(sgp4::Error::OutOfRangeEccentricity { eccentricity, t })))
                    }
                    "pecc" => {
                        let (eccentricity, t) = (number("ecc"), number("t"));
                        (
                            None,
                            outcome(Err(sgp4::Error::OutOfRangePerturbedEccentricity { eccentricity, t })),
                        )
                    }
                    "pl" => (
                        None,
                        outcome(Err(sgp4::Error::NegativeSemiLatusRectum { t: number("t") })),
                    ),
                    "kozai" => {
                        let (shown, result) = kozai(sgp4::KozaiElementsError::NegativeKozaiMeanMotion);
                        (Some(shown), result)
                    }
                    "brouwer" => {
                        let (shown, result) = kozai(sgp4::KozaiElementsError::NegativeBrouwerMeanMotion);
                        (Some(shown), result)
                    }
                    "epochecc" => {
                        let value = sgp4::OutOfRangeEpochEccentricity(number("ecc"));
                        (Some(value.to_string()), elements_error(&value.into()))
                    }
                    "minutes" => {
                        let value = sgp4::MinutesSinceEpochToDatetimeError::MinutesToNanoseconds(number("t"));
                        (None, said(&value, json!({"k": "minutes", "t": f(number("t"))})))
                    }
                    "add" => {
                        let value = sgp4::MinutesSinceEpochToDatetimeError::Add {
                            datetime: undt(&error["dt"]),
                            duration: sgp4::chrono::Duration::nanoseconds(error["ns"].as_i64().unwrap()),
                        };
                        (None, said(&value, json!({"k": "add", "dt": error["dt"]})))
                    }
                    other => panic!("unknown error {other}"),
                };
                let mut result = result;
                if let Some(shown) = inner {
                    result["inner"] = unbytes(shown.as_bytes());
                }
                result
            })
        }
        "eepoch" => match env.elements.get(idx(&op["e"])) {
            Some(Some(value)) => guarded(|| {
                json!({"k": "ok", "y": f(value.epoch()), "ya": f(value.epoch_afspc_compatibility_mode())})
            }),
            _ => missing(),
        },
        "d2m" => match env.elements.get(idx(&op["e"])) {
            Some(Some(value)) => guarded(|| {
                match value.datetime_to_minutes_since_epoch(&undt(&op["dt"])) {
                    Ok(minutes) => json!({"k": "ok", "t": f(minutes.0)}),
                    Err(error) => said(&error, json!({"k": "err"})),
                }
            }),
            _ => missing(),
        },
        "m2d" => match env.elements.get(idx(&op["e"])) {
            Some(Some(value)) => guarded(|| {
                match value.minutes_since_epoch_to_datetime(&sgp4::MinutesSinceEpoch(g(&op["t"]))) {
                    Ok(datetime) => json!({"k": "ok", "dt": dt(&datetime)}),
                    Err(error) => said(&error, json!({"k": "err"})),
                }
            }),
            _ => missing(),
        },
        // a datetime to minutes and back
        "back" => match env.elements.get(idx(&op["e"])) {
            Some(Some(value)) => guarded(|| {
                match value.datetime_to_minutes_since_epoch(&undt(&op["dt"])) {
                    Ok(minutes) => match value.minutes_since_epoch_to_datetime(&minutes) {
                        Ok(datetime) => json!({"k": "ok", "dt": dt(&datetime)}),
                        Err(_) => json!({"k": "err"}),
                    },
                    Err(_) => json!({"k": "err"}),
                }
            }),
            _ => missing(),
        },
        "sid" => {
            let epoch = g(&op["y"]);
            guarded(|| {
                json!({
                    "k": "ok",
                    "iau": f(sgp4::iau_epoch_to_sidereal_time(epoch)),
                    "afspc": f(sgp4::afspc_epoch_to_sidereal_time(epoch)),
                })
            })
        }
        "grav" => json!({
            "k": "ok",
            "wgs84": ungeopotential(&sgp4::WGS84),
            "wgs72": ungeopotential(&sgp4::WGS72),
        }),
        "kozai" => {
            let geo = geopotential(&op["g"]);
            let o = orbit(&op["o"]);
            guarded(|| {
                match sgp4::Orbit::from_kozai_elements(
                    &geo,
                    o.inclination,
                    o.right_ascension,
                    o.eccentricity,
                    o.argument_of_perigee,
                    o.mean_anomaly,
                    o.mean_motion,
                ) {
                    Ok(value) => json!({"k": "ok", "o": unorbit(&value)}),
                    Err(sgp4::KozaiElementsError::NegativeKozaiMeanMotion) => json!({"k": "kozai"}),
                    Err(sgp4::KozaiElementsError::NegativeBrouwerMeanMotion) => {
                        json!({"k": "brouwer"})
                    }
                }
            })
        }
        "new" => {
            let geo = geopotential(&op["g"]);
            let epoch = g(&op["y"]);
            let drag_term = g(&op["bstar"]);
            let o = orbit(&op["o"]);
            let result = caught(|| {
                match op["sid"].as_str() {
                    Some("iau") => sgp4::Constants::new(
                        geo,
                        sgp4::iau_epoch_to_sidereal_time,
                        epoch,
                        drag_term,
                        o,
                    ),
                    Some("afspc") => sgp4::Constants::new(
                        geo,
                        sgp4::afspc_epoch_to_sidereal_time,
                        epoch,
                        drag_term,
                        o,
                    ),
                    _ => {
                        let theta = g(&op["theta"]);
                        sgp4::Constants::new(geo, |_| theta, epoch, drag_term, o)
                    }
                }
                .map_err(|error| said(&error, json!({"k": "epochecc", "ecc": f(error.0)})))
            });
            let (slot, result) = created(result);
            put(&mut env.constants, idx(&op["c"]), slot);
            result
        }
        "from" => {
            let (slot, result) = match env.elements.get(idx(&op["e"])) {
                Some(Some(value)) => dated(value, op, caught(|| {
                    if op["afspc"].as_bool().unwrap() {
                        sgp4::Constants::from_elements_afspc_compatibility_mode(value)
                    } else {
                        sgp4::Constants::from_elements(value)
                    }
                    .map_err(|error| elements_error(&error))
                })),
                _ => (None, missing()),
            };
            put(&mut env.constants, idx(&op["c"]), slot);
            result
        }
        // the documented composition of from_elements, through the public low-level interface
        "compose" => {
            let afspc = op["afspc"].as_bool().unwrap();
            let (slot, result) = match env.elements.get(idx(&op["e"])) {
                Some(Some(value)) => dated(value, op, caught(|| {
                    let geo = if afspc { sgp4::WGS72 } else { sgp4::WGS84 };
                    let rad = core::f64::consts::PI / 180.0;
                    let o = sgp4::Orbit::from_kozai_elements(
                        &geo,
                        value.inclination * rad,
                        value.right_ascension * rad,
                        value.eccentricity,
                        value.argument_of_perigee * rad,
                        value.mean_anomaly * rad,
                        value.mean_motion * (core::f64::consts::PI / 720.0),
                    )
                    .map_err(|error| elements_error(&error.into()))?;
                    if afspc {
                        sgp4::Constants::new(
                            geo,
                            sgp4::afspc_epoch_to_sidereal_time,
                            value.epoch_afspc_compatibility_mode(),
                            value.drag_term,
                            o,
                        )
                    } else {
                        sgp4::Constants::new(
                            geo,
                            sgp4::iau_epoch_to_sidereal_time,
                            value.epoch(),
                            value.drag_term,
                            o,
                        )
                    }
                    .map_err(|error| elements_error(&error.into()))
                })),
                _ => (None, missing()),
            };
            put(&mut env.constants, idx(&op["c"]), slot);
            result
        }
        "clone" => {
            let slot = env.constants.get(idx(&op["c"])).cloned().flatten();
            let result = json!({"k": if slot.is_some() { "ok" } else { "missing" }});
            put(&mut env.constants, idx(&op["to"]), slot);
            result
        }
        "state" => {
            let (slot, result) = match env.constants.get(idx(&op["c"])) {
                Some(Some(constants)) => match caught(|| constants.initial_state()) {
                    Ok(Some(state)) => (Some(state), json!({"k": "some", "t": f(state.t())})),
                    Ok(None) => (None, json!({"k": "none"})),
                    Err(panic) => (None, panic),
                },
                _ => (None, missing()),
            };
            put(&mut env.states, idx(&op["s"]), slot);
            result
        }
        "copy" => {
            let states = env.states.get(idx(&op["s"]));
            let slot = if op["clone"] == json!(true) {
                #[allow(clippy::cloned_instead_of_copied)]
                states.cloned().flatten()
            } else {
                states.copied().flatten()
            };
            let result = match &slot {
                Some(state) => json!({"k": "some", "t": f(state.t())}),
                None => json!({"k": "none"}),
            };
            put(&mut env.states, idx(&op["to"]), slot);
            result
        }
        "prop" => match env.constants.get(idx(&op["c"])) {
            Some(Some(constants)) => {
                propagate(constants, g(&op["t"]), op["afspc"].as_bool().unwrap())
            }
            _ => missing(),
        },
        "pfs" => match env.constants.get(idx(&op["c"])) {
            Some(Some(constants)) => {
                // s: a state handle, or -1 to pass no state
                let state = match op["s"].as_i64() {
                    Some(handle) if handle >= 0 => match env.states.get_mut(handle as usize) {
                        Some(Some(state)) => Some(state),
                        _ => return missing(),
                    },
                    _ => None,
                };
                propagate_from_state(
                    constants,
                    state,
                    g(&op["t"]),
                    op["afspc"].as_bool().unwrap(),
                )
            }
            _ => missing(),
        },
        // a request by date: s is a state handle, -1 to pass no state, -2 to ask directly
        "at" => match (env.elements.get(idx(&op["e"])), env.constants.get(idx(&op["c"]))) {
            (Some(Some(value)), Some(Some(constants))) => {
                let minutes = match caught(|| value.datetime_to_minutes_since_epoch(&undt(&op["dt"]))) {
                    Ok(Ok(minutes)) => minutes.0,
                    Ok(Err(_)) => return json!({"k": "err"}),
                    Err(panic) => return panic,
                };
                let afspc = op["afspc"].as_bool().unwrap();
                let mut result = match op["s"].as_i64().unwrap() {
                    -2 => propagate(constants, minutes, afspc),
                    -1 => propagate_from_state(constants, None, minutes, afspc),
                    handle => match env.states.get_mut(handle as usize) {
                        Some(Some(state)) => propagate_from_state(constants, Some(state), minutes, afspc),
                        _ => return missing(),
                    },
                };
                result["minutes"] = f(minutes);
                result
            }
            _ => missing(),
        },
        // threads: per thread a list of {c, t, afspc, fs}; fs: through an own state, reused
        #[cfg(not(feature = "threads"))]
        "par" => json!({"k": "unshared"}),
        #[cfg(feature = "threads")]
        "par" => {
            shareable::<sgp4::Constants>();
            shareable::<sgp4::ResonanceState>();
            shareable::<sgp4::Elements>();
            shareable::<sgp4::Orbit>();
            shareable::<sgp4::Geopotential>();
            shareable::<sgp4::Prediction>();
            let threads = op["threads"].as_array().unwrap();
            let barrier = Barrier::new(threads.len());
            let constants = &env.constants;
            let results: Vec<Value> = std::thread::scope(|scope| {
                let handles: Vec<_> = threads
                    .iter()
                    .map(|calls| {
                        let barrier = &barrier;
                        scope.spawn(move || {
                            let mut own: Vec<Option<Option<sgp4::ResonanceState>>> = Vec::new();
                            barrier.wait();
                            calls
                                .as_array()
                                .unwrap()
                                .iter()
                                .map(|call| {
                                    let c = idx(&call["c"]);
                                    let Some(Some(value)) = constants.get(c) else {
                                        return missing();
                                    };
                                    let afspc = call["afspc"].as_bool().unwrap();
                                    if call["fs"].as_bool().unwrap() {
                                        while own.len() <= c {
                                            own.push(None);
                                        }
                                        let state =
                                            own[c].get_or_insert_with(|| value.initial_state());
                                        propagate_from_state(
                                            value,
                                            state.as_mut(),
                                            g(&call["t"]),
                                            afspc,
                                        )
                                    } else {
                                        propagate(value, g(&call["t"]), afspc)
                                    }
                                })
                                .collect::<Vec<_>>()
                        })
                    })
                    .collect();
                handles
                    .into_iter()
                    .map(|handle| Value::Array(handle.join().unwrap_or_default()))
                    .collect()
            });
            json!({"k": "ok", "threads": results})
        }
        #[cfg(feature = "serde")]
        "rtelem" => {
            let mut slot = None;
            let result = match env.elements.get(idx(&op["e"])) {
                Some(Some(value)) => guarded(|| {
                    let json_text = match serde_json::to_string(value) {
                        Ok(json_text) => json_text,
                        Err(_) => return json!({"k": "sererr"}),
                    };
                    let json_bytes = unbytes(json_text.as_bytes());
                    match serde_json::from_str::<sgp4::Elements>(&json_text) {
                        Ok(value) => {
                            let result = json!({"k": "ok", "el": elements(&value), "text": json_bytes});
                            slot = Some(value);
                            result
                        }
                        Err(_) => json!({"k": "deerr", "text": json_bytes}),
                    }
                }),
                _ => missing(),
            };
            if let Some(handle) = op.get("to") {
                put(&mut env.elements, idx(handle), slot);
            }
            result
        }
        #[cfg(feature = "serde")]
        "rtorbit" => {
            let value = orbit(&op["o"]);
            guarded(|| match serde_json::to_string(&value) {
                Ok(json_text) => match serde_json::from_str::<sgp4::Orbit>(&json_text) {
                    Ok(value) => json!({"k": "ok", "o": unorbit(&value)}),
                    Err(_) => json!({"k": "deerr"}),
                },
                Err(_) => json!({"k": "sererr"}),
            })
        }
        #[cfg(feature = "serde")]
        "rtgeo" => {
            let value = geopotential(&op["g"]);
            guarded(|| match serde_json::to_string(&value) {
                Ok(json_text) => match serde_json::from_str::<sgp4::Geopotential>(&json_text) {
                    Ok(value) => json!({"k": "ok", "g": ungeopotential(&value)}),
                    Err(_) => json!({"k": "deerr"}),
                },
                Err(_) => json!({"k": "sererr"}),
            })
        }
        #[cfg(feature = "serde")]
        "rtpred" => {
            let three = |name: &str| {
                let list = op[name].as_array().unwrap();
                [g(&list[0]), g(&list[1]), g(&list[2])]
            };
            let value = sgp4::Prediction {
                position: three("pos"),
                velocity: three("vel"),
            };
            guarded(|| match serde_json::to_string(&value) {
                Ok(json_text) => match serde_json::from_str::<sgp4::Prediction>(&json_text) {
                    Ok(value) => outcome(Ok(value)),
                    Err(_) => json!({"k": "deerr"}),
                },
                Err(_) => json!({"k": "sererr"}),
            })
        }
        #[cfg(feature = "serde")]
        "rtconst" => {
            let (slot, result) = match env.constants.get(idx(&op["c"])) {
                Some(Some(value)) => created(caught(|| {
                    let json_text =
                        serde_json::to_string(value).map_err(|_| json!({"k": "sererr"}))?;
                    serde_json::from_str::<sgp4::Constants>(&json_text)
                        .map_err(|_| json!({"k": "deerr"}))
                })),
                _ => (None, missing()),
            };
            put(&mut env.constants, idx(&op["to"]), slot);
            result
        }
        _ => {
            let _ = text;
            json!({"k": "unsupported"})
        }
    }
}

#[cfg(feature = "threads")]
fn shareable<T: Send + Sync>() {}

#[derive(Default)]
struct Progress {
    sid: Value,
    done: Vec<Value>,
    current: Option<Value>,
    ticks: u64,
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let arguments: Vec<String> = std::env::args().collect();
    let input = std::io::BufReader::new(std::fs::File::open(&arguments[1]).expect("input"));
    let output = Arc::new(Mutex::new(std::io::BufWriter::new(
        std::fs::OpenOptions::new()
            .append(true)
            .create(true)
            .open(&arguments[2])
            .expect("output"),
    )));
    let skip: usize = arguments[3].parse().expect("skip");
    let patience: u64 = arguments[4].parse().expect("patience in seconds");
    let progress = Arc::new(Mutex::new(Progress::default()));
    {
        let (progress, output) = (progress.clone(), output.clone());
        std::thread::spawn(move || {
            let (mut seen, mut since) = (0, std::time::Instant::now());
            loop {
                std::thread::sleep(std::time::Duration::from_millis(200));
                let mut progress = progress.lock().unwrap();
                if progress.ticks != seen || progress.current.is_none() {
                    seen = progress.ticks;
                    since = std::time::Instant::now();
                } else if since.elapsed().as_secs() >= patience {
                    let mut event = progress.current.take().unwrap();
                    event["r"] = json!({"k": "hang"});
                    progress.done.push(event);
                    let mut output = output.lock().unwrap();
                    writeln!(output, "{}", json!({"sid": progress.sid, "ev": progress.done}))
                        .unwrap();
                    output.flush().unwrap();
                    std::process::exit(3);
                }
            }
        });
    }
    for line in input.lines().skip(skip) {
        let session: Value = serde_json::from_str(&line.expect("line")).expect("session");
        let mut env = Env::default();
        {
            let mut progress = progress.lock().unwrap();
            progress.sid = session["sid"].clone();
            progress.done = Vec::new();
        }
        for op in session["ops"].as_array().expect("ops") {
            {
                let mut progress = progress.lock().unwrap();
                progress.current = Some(op.clone());
                progress.ticks += 1;
            }
            let result = execute(&mut env, op);
            let mut event: Map<String, Value> = op.as_object().unwrap().clone();
            event.insert("r".to_owned(), result);
            let mut progress = progress.lock().unwrap();
            progress.current = None;
            progress.done.push(Value::Object(event));
        }
        let done = std::mem::take(&mut progress.lock().unwrap().done);
        let mut output = output.lock().unwrap();
        writeln!(output, "{}", json!({"sid": session["sid"], "ev": done})).unwrap();
    }
    output.lock().unwrap().flush().unwrap();
}

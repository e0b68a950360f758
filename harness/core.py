"""Builds the driver from /repo, runs it, runs TLC, and keeps the books of one check."""

import json
import os
import random
import shutil
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

CONFIGURATIONS = {
    "default": "std,serde",
    "std": "std",
    "libm": "libm",
    "libm-alloc": "libm,alloc",
    "libm-alloc-serde": "libm,alloc,serde",
}


class Trouble(Exception):
    """Something other than the property failed: the check cannot decide."""


class Unbuildable(Trouble):
    """The driver does not compile with a set of features."""


# numbers ----------------------------------------------------------------------------------------

def F(x):
    """A double as its two signed 32-bit halves."""
    return list(struct.unpack(">ii", struct.pack(">d", x)))


def G(pair):
    return struct.unpack(">d", struct.pack(">ii", pair[0], pair[1]))[0]


def ulps(x, n):
    bits = struct.unpack(">q", struct.pack(">d", x))[0]
    if bits < 0:
        bits = -(bits & 0x7FFFFFFFFFFFFFFF)
    bits += n
    if bits < 0:
        bits = (-bits) | (1 << 63)
        return struct.unpack(">d", struct.pack(">Q", bits))[0]
    return struct.unpack(">d", struct.pack(">q", bits))[0]


# the run ----------------------------------------------------------------------------------------

class Run:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.started = time.time()
        self.limit = 840.0
        self.scratch = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch)
        self.binaries = {}
        self.classes = None
        self.model_states = 0
        self.model_transitions = 0
        self.model_runs = []
        self.models = {}
        self.trace_states = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.labels = {}
        self.violations = []
        self.known = []
        self.assumptions = []
        self.notes = {}
        self.sid = 0

    def rng(self, *key):
        return random.Random("%d/%s/%s" % (self.seed, self.prop, "/".join(map(str, key))))

    def left(self):
        return self.limit - (time.time() - self.started)

    def log(self, text):
        print("[%6.1f s] %s" % (time.time() - self.started, text), flush=True)

    # building -----------------------------------------------------------------------------------

    def driver(self, configuration="default"):
        if configuration in self.binaries:
            return self.binaries[configuration]
        target = os.path.join(BUILD, "target")
        environment = dict(os.environ)
        environment.update(
            PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin",
            RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
            CARGO_NET_OFFLINE="true",
            CARGO_TERM_COLOR="never",
            CARGO_TARGET_DIR=target,
            RUSTC_WRAPPER="",
        )
        environment.setdefault("HOME", "/root")
        environment.pop("RUSTFLAGS", None)
        # cargo goes by mtime; a restored file may be older than the last build
        fingerprints = os.path.join(target, "debug", ".fingerprint")
        if os.path.isdir(fingerprints):
            for name in os.listdir(fingerprints):
                if name.startswith("sgp4-") or name.startswith("driver-"):
                    shutil.rmtree(os.path.join(fingerprints, name), ignore_errors=True)
        # without threads if types cannot be shared, so that everything else can still be judged
        for features in (CONFIGURATIONS[configuration] + ",threads", CONFIGURATIONS[configuration]):
            done = subprocess.run(
                ["cargo", "build", "--offline", "--locked", "--no-default-features",
                 "--features", features],
                cwd=os.path.join(VERIF, "driver"), env=environment,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                timeout=max(30, self.left()))
            if done.returncode == 0 or "between threads safely" not in done.stdout:
                break
        if done.returncode != 0:
            trouble = Unbuildable if "could not compile" in done.stdout else Trouble
            raise trouble("building the driver (%s) failed:\n%s" % (configuration, done.stdout))
        binary = os.path.join(self.scratch, "driver-" + configuration)
        shutil.copy(os.path.join(target, "debug", "driver"), binary)
        self.binaries[configuration] = binary
        self.log("built driver (%s)" % configuration)
        return binary

    def java(self):
        if self.classes is None:
            self.classes = os.path.join(self.scratch, "classes")
            os.makedirs(self.classes)
            sources = [os.path.join(SPEC, "java", name)
                       for name in sorted(os.listdir(os.path.join(SPEC, "java")))
                       if name.endswith(".java")]
            done = subprocess.run(["javac", "-cp", TLA, "-d", self.classes] + sources,
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if done.returncode != 0:
                raise Trouble("javac failed:\n" + done.stdout)
        return self.classes

    # TLC ----------------------------------------------------------------------------------------

    def tlc(self, module, config=None, environment=None, name=None, workers=None):
        """Runs TLC and returns (messages printed by the specification, states, transitions)."""
        name = name or module
        classes = self.java()
        meta = os.path.join(self.scratch, "tlc-" + name)
        env = dict(os.environ)
        env.update(environment or {})
        config_path = os.path.join(SPEC, (config or module) + ".cfg")
        log_path = os.path.join(self.scratch, name + ".log")
        code = None
        with open(log_path, "w") as log:
            try:
                code = subprocess.run(
                    ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m",
                     "-Djava.io.tmpdir=" + self.scratch,
                     "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:Overrides",
                     "-cp", TLA + ":" + classes, "tlc2.TLC", "-noGenerateSpecTE",
                     "-metadir", meta, "-workers", str(workers or os.cpu_count() or 4),
                     "-config", config_path, os.path.join(SPEC, module + ".tla")],
                    cwd=SPEC, env=env, stdout=log, stderr=subprocess.STDOUT,
                    timeout=max(10, self.left())).returncode
            except subprocess.TimeoutExpired:
                self.log("TLC ran out of time on " + name)
        messages = []
        states = transitions = None
        with open(log_path, errors="replace") as log:
            for line in log:
                if line.startswith('"@@') and line.endswith("\n"):
                    messages.append(json.loads(json.loads(line.rstrip("\n"))[2:]))
                elif " states generated, " in line and "distinct states found" in line \
                        and line[0].isdigit():
                    words = line.replace(",", "").split()
                    transitions, states = int(words[0]), int(words[3])
        shutil.rmtree(meta, ignore_errors=True)
        return messages, states, transitions, code, log_path

    def model(self, module, config=None, environment=None, workers=None):
        """Model-checks a specification; its invariants must hold. Returns what it printed."""
        name = config or module
        if environment:
            name += " " + " ".join("%s=%s" % item for item in sorted(environment.items()))
        if name in self.models:
            return self.models[name]
        messages, states, transitions, code, log = self.tlc(
            module, config, environment, "model-%d" % len(self.models), workers)
        if code != 0 or states is None:
            with open(log, errors="replace") as text:
                tail = "".join(text.readlines()[-60:])
            raise Trouble("TLC did not accept the model %s (exit %s):\n%s" % (name, code, tail))
        self.model_states += states
        self.model_transitions += transitions
        self.model_runs.append({"model": name, "states": states, "transitions": transitions})
        self.log("model %s: %d states, %d transitions, %d messages"
                 % (name, states, transitions, len(messages)))
        self.models[name] = messages
        return messages

    # driver -------------------------------------------------------------------------------------

    def session(self, ops, label=None):
        self.sid += 1
        return {"sid": self.sid, "ops": ops, "label": label}

    def execute(self, sessions, configuration="default", patience=10):
        """Executes the sessions on the implementation; returns their recorded events."""
        binary = self.driver(configuration)
        base = os.path.join(self.scratch, "ops-%s-%d" % (configuration, time.time_ns()))
        with open(base + ".in", "w") as file:
            for one in sessions:
                file.write(json.dumps({"sid": one["sid"], "ops": one["ops"]}) + "\n")
        skip, stops = 0, 0
        recorded = []
        while skip < len(sessions):
            out = "%s.%d.out" % (base, stops)
            try:
                done = subprocess.run([binary, base + ".in", out, str(skip), str(patience)],
                                      stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                      timeout=max(10, self.left()))
            except subprocess.TimeoutExpired:
                raise Trouble("the driver ran out of time")
            with open(out) as file:
                lines = [json.loads(line) for line in file if line.endswith("\n")]
            recorded += lines
            skip += len(lines)
            if done.returncode == 0:
                break
            stops += 1
            if done.returncode != 3:
                # the process died: the session it was executing is the culprit
                if done.returncode == 101:
                    raise Trouble("the driver panicked: " + done.stderr.decode()[-2000:])
                one = sessions[skip]
                event = dict(one["ops"][-1])
                event["r"] = {"k": "crash"}
                recorded.append({"sid": one["sid"], "ev": one_missing(one["ops"][:-1]) + [event]})
                skip += 1
            if stops > 12:
                self.log("giving up after %d hangs or crashes" % stops)
                break
        return recorded

    # validating ---------------------------------------------------------------------------------

    def validate(self, module, recorded, sessions, config=None, tag="", count=True, environment=None):
        """Has TLC decide whether the recorded sessions are behaviours of the specification.

        count: whether these sessions have not been counted as validated yet."""
        if not recorded:
            raise Trouble("nothing recorded")
        messages = []
        for some in portions(recorded):
            messages += self.validate_portion(module, some, sessions, config, tag, count, environment)
        return messages

    def validate_portion(self, module, recorded, sessions, config, tag, count, environment):
        path = os.path.join(self.scratch, "trace-%s%s-%d.ndjson" % (module, tag, time.time_ns()))
        with open(path, "w") as file:
            for one in recorded:
                file.write(json.dumps(one) + "\n")
        messages, states, transitions, code, log = self.tlc(
            module, config,
            dict(dict(PROP=self.prop), **dict(environment or {}, TRACE=path)), "trace-%s%s" % (module, tag))
        by_sid = {one["sid"]: one for one in sessions}
        by_recorded = {one["sid"]: one for one in recorded}
        for message in messages:
            sid, index, kind = message[0], message[1], message[2]
            if kind == "REJECT":
                self.violation(message[4] if len(message) > 4 else "rejected",
                               by_sid.get(sid), by_recorded.get(sid), index, module)
            elif kind == "COV":
                key = message[3]
                self.labels[key] = self.labels.get(key, 0) + 1
        if code != 0 or states is None:
            with open(log, errors="replace") as text:
                tail = "".join(text.readlines()[-80:])
            raise Trouble("TLC could not process the trace (%s, exit %s):\n%s"
                          % (module, code, tail))
        events = sum(len(one["ev"]) for one in recorded)
        if states != events + len(recorded):
            raise Trouble("TLC visited %d states for %d events of %d sessions"
                          % (states, events, len(recorded)))
        self.trace_states += states
        if count:
            self.traces += len(recorded)
            self.events += events
        self.log("trace %s%s: %d sessions, %d events, %d rejected so far"
                 % (module, tag, len(recorded), events, len(self.violations)))
        return messages

    def violation(self, why, session, recorded, index, module):
        self.violations.append({
            "property": self.prop, "why": why, "event": index, "module": module,
            "session": session, "recorded": recorded, "seed": self.seed, "tier": self.tier})

    # reporting ----------------------------------------------------------------------------------

    def sample(self, value, limit=4):
        if len(self.samples) < limit:
            self.samples.append(value)

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        known = load_findings(self.prop)
        fresh = []
        for one in self.violations:
            text = describe(one)
            match = next((finding for finding in known if finding in text), None)
            if match is not None:
                self.known.append(match)
            else:
                fresh.append(one)
        evidence = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": self.model_states,
                "transitions": self.model_transitions,
                "traces_validated_against_impl": self.traces,
                "events_validated": self.events,
                "models": self.model_runs,
                "situations": dict(sorted(self.labels.items())),
                "samples": self.samples,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.started, 1),
            "violations": len(fresh),
        }
        evidence["coverage"].update(self.notes)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as file:
            json.dump(evidence, file, indent=1)
            file.write("\n")
        for match in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, match))
        for number, one in enumerate(fresh[:5]):
            path = os.path.join(VERIF, "evidence", "replay-%s-%d.json" % (self.prop, number))
            with open(path, "w") as file:
                json.dump(one, file, indent=1)
                file.write("\n")
            print("  " + describe(one))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        shutil.rmtree(self.scratch, ignore_errors=True)
        if fresh:
            print("%d violations" % len(fresh))
            return 1
        print("%s held: %d model states, %d sessions (%d events) validated, %.0f s"
              % (self.prop, self.model_states, self.traces, self.events,
                 time.time() - self.started))
        return 0


def one_missing(ops):
    return [dict(op, r={"k": "crash"}) for op in ops]


def describe(one):
    """One line: what the specification did not allow."""
    text = "%s: event %s" % (one["why"], one["event"])
    recorded = one.get("recorded")
    if recorded and isinstance(one["event"], int) and one["event"] <= len(recorded["ev"]):
        text += " " + readable(recorded["ev"][one["event"] - 1])
    label = (one.get("session") or {}).get("label")
    if label:
        text += " [%s]" % label
    return text


def readable(value):
    if isinstance(value, dict):
        return "{" + ", ".join("%s: %s" % (key, readable(item))
                               for key, item in value.items()) + "}"
    if isinstance(value, list):
        if len(value) == 2 and all(isinstance(item, int) for item in value) \
                and (abs(value[0]) > 1000000 or value == [0, 0]):
            return repr(G(value))
        if len(value) > 8 and all(isinstance(item, int) and 0 <= item < 256 for item in value):
            return repr(bytes(value))[1:]
        return "[" + ", ".join(readable(item) for item in value) + "]"
    return str(value)


def load_findings(prop):
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    found = []
    if os.path.exists(path):
        with open(path) as file:
            for line in file:
                if line.startswith("finding: property=%s " % prop):
                    found.append(line.split(" ", 2)[2].strip())
    return found


def portions(recorded, limit=25000000):
    """Sessions are independent: TLC need not hold all of a long trace at once."""
    found, size = [[]], 0
    for one in recorded:
        length = len(json.dumps(one))
        if found[-1] and size + length > limit:
            found.append([])
            size = 0
        found[-1].append(one)
        size += length
    return found

------------------------- MODULE TraceConfigurations ------------------------
(***************************************************************************)
(* Reads operations executed by several builds of the implementation, each *)
(* operation once per build, one after the other; the builds must agree.   *)
(* Events carry cfg, the build, and names, whether it knows names and      *)
(* designators.                                                            *)
(*                                                                         *)
(* env: the event of the first build                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Float64, Calendar, TraceBase

Same(a, b) ==
  \/ FEq(a, b)
  \/ IsNaN(a) /\ IsNaN(b)
  \/ Abs(a \ominus b) \preceq (Abs(a) \otimes F("1e-13"))

SameInstant(a, b) == Abs(InNanoseconds(Elapsed(a, b))) \preceq F("10")

Reals == {"mmd", "mmdd", "bstar", "incl", "raan", "ecc", "argp", "m", "n"}
Plain == {"norad", "cls", "eph", "elset", "rev"}

DifferentFields(a, b, text) ==
  {f \in Plain \cup (IF text THEN {"name", "intl"} ELSE {}) : a[f] # b[f]} \cup
  {f \in Reals : ~Same(a[f], b[f])} \cup
  (IF SameInstant(a.dt, b.dt) THEN {} ELSE {"dt"})

(* an error that a build which does not read the designator cannot report  *)
AboutDesignator(r) == r.k = "err" /\ r.line = "Line1" /\ r.start \in {9, 11}

SameParse(a, b, text) ==
  IF ~text /\ AboutDesignator(a) THEN TRUE
  ELSE /\ a.k = b.k
       /\ a.k = "err" => a.what = b.what /\ a.line = b.line /\ a.start = b.start /\ a.end = b.end
       /\ a.k = "ok" => DifferentFields(a.el, b.el, text) = {}

SameListing(a, b) ==
  /\ a.k = b.k
  /\ (a.k = "err" /\ "what" \in DOMAIN a) =>
       a.what = b.what /\ a.line = b.line /\ a.start = b.start /\ a.end = b.end
  /\ a.k = "ok" => /\ Len(a.list) = Len(b.list)
                   /\ \A j \in 1..Len(a.list) : DifferentFields(a.list[j], b.list[j], TRUE) = {}

SameMessage(a, b) == a.k = b.k /\ (a.k = "ok" => DifferentFields(a.el, b.el, TRUE) = {})

(* a construction is refused by all builds or by none, for one reason      *)
SameConstruction(a, b) == a.k = b.k /\ (a.k = "ok" => a.resonant = b.resonant)

Agrees(a, ev) ==
  CASE ev.op = "tle" -> SameParse(a.r, ev.r, ev.names)
    [] ev.op \in {"p2", "p3", "omms"} -> SameListing(a.r, ev.r)
    [] ev.op = "omm" -> SameMessage(a.r, ev.r)
    [] ev.op = "from" -> SameConstruction(a.r, ev.r)
    [] OTHER -> TRUE

Step(ev) ==
  IF ev.first THEN env' = ev
  ELSE
    /\ env' = env
    /\ IF ev.r.k = "unsupported" \/ env.r.k = "unsupported" THEN TRUE
       ELSE IF ev.r.k \in {"panic", "hang", "crash"}
       THEN Judge("C20", "the call did not return normally: " \o ev.r.k, FALSE)
       ELSE /\ Judge("C20", "builds differ: " \o ev.cfg, Agrees(env, ev))
            /\ Cover(ev.cfg \o ": " \o ev.op)

Init == Begin /\ env = <<>>
Next == Reading /\ Step(Sessions[s].ev[i])
Spec == Init /\ [][Next]_<<s, i, env>>
=============================================================================

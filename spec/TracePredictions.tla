-------------------------- MODULE TracePredictions --------------------------
(***************************************************************************)
(* Reads sessions that build constants and propagate them, and judges      *)
(* every construction and prediction against the theory.                   *)
(*                                                                         *)
(* env: el  elements by handle                                             *)
(*      c   constants by handle: the four evaluations of Predictions       *)
(*      by  how they were built, by handle: <<arguments>> or               *)
(*          <<elements, epoch, mode>>                                      *)
(*      m   outcomes recorded, by handle, time and mode                    *)
(***************************************************************************)
EXTENDS Predictions, TraceBase

Start == [el |-> <<>>, c |-> <<>>, by |-> <<>>, m |-> <<>>]

Regimes(cs) == {cs[k].c.c.regime : k \in {j \in Evaluations(cs) : cs[j].k = "ok"}}

(* the property about predictions in a regime                              *)
About(regime) ==
  IF regime = "near" THEN "C01" ELSE IF regime = "deep" THEN "C02" ELSE "C03"

Situation(cs, ps, ev) ==
  LET regime == cs[1].c.c.regime
      c == cs[1].c
      back == IF IsNegative(ev.t) THEN " back" ELSE ""
      detail ==
        CASE regime = "near" ->
               (IF c.method.highAltitude THEN "" ELSE " simplified drag")
               \o (IF c.method.elliptic THEN "" ELSE " near-circular")
          [] OTHER ->
               (IF ps[1].lyddane THEN (IF ev.afspc THEN " lyddane afspc" ELSE " lyddane")
                ELSE "")
      trust ==
        IF ~Settled(ps) THEN " ambiguous"
        ELSE IF ps[1].k # "ok" THEN ""
        ELSE IF ~Converged(ps) THEN " unconverged"
        ELSE IF PositionTolerance(ps) \succ F("1e-2") THEN " loose"
        ELSE ""
  IN regime \o detail \o back \o ": " \o ps[1].k \o trust

(******************************* the events ********************************)
Keep == UNCHANGED env

DoElements(ev) ==
  env' = [env EXCEPT !.el = Put(@, ev.e, ev.el)]

DoParsed(ev) ==
  IF ev.r.k = "ok" THEN env' = [env EXCEPT !.el = Put(@, ev.e, ev.r.el)] ELSE Keep

(* what was built, evaluated with tag k                                    *)
Build(by, k) ==
  IF Len(by) = 1 THEN New(by[1], k) ELSE FromElementsAt(by[1], by[2], by[3], k)

DoConstruction(ev, by) ==
  LET cs == Each(LAMBDA k : Build(by, k))
      allowed == \/ ConstructionAllowed(cs, ev.r)
                 \/ ConstructionAllowed(Again(LAMBDA k : Build(by, k)), ev.r)
  IN /\ Judge("C09", "construction", allowed)
     /\ Judge("C03", "resonance",
              ev.r.k = "ok" => \/ ev.r.resonant \in {Resonant(x) : x \in Regimes(cs)}
                               \/ allowed)
     /\ Judge("C10", "construction", ev.op \in {"from", "compose"} => allowed)
     /\ Judge("C22", "construction", allowed)
     /\ Judge("C20", "construction", allowed)
     /\ env' = [env EXCEPT !.c = Put(@, ev.c, cs), !.by = Put(@, ev.c, by)]

DoNew(ev) == DoConstruction(ev, <<ev>>)

(* from the epoch that the elements report, which the constructors use     *)
DoFrom(ev) ==
  IF Has(env.el, ev.e)
  THEN /\ Judge("C10", "epoch", EpochAllowed(env.el[ev.e], ev.r.y, ev.afspc))
       /\ DoConstruction(ev, <<env.el[ev.e], ev.r.y, ev.afspc>>)
  ELSE Keep

DoRestore(ev) ==
  IF ~Has(env.c, ev.c) \/ ev.r.k = "missing" THEN Keep
  ELSE /\ Judge("C17", "restored constants",
                 ev.r.k = "ok" /\ ConstructionAllowed(env.c[ev.c], ev.r))
       /\ env' = [env EXCEPT !.c = Put(@, ev.to, env.c[ev.c]), !.by = Put(@, ev.to, env.by[ev.c])]

(* whether the two modes may differ: a deep-space orbit whose perturbed    *)
(* inclination is below 0.2 and whose secular node is negative, or may be  *)
ModesMayDiffer(ps) ==
  /\ ps[1].deep
  /\ (\E k \in Evaluations(ps) : ps[k].lyddane) \/ ~Clear(Map(ps, LAMBDA p : p.i), F("0.2"))
  /\ (\E k \in Evaluations(ps) : ~(ps[k].p22 \succeq Zero)) \/ ~Clear(Map(ps, LAMBDA p : p.p22), Zero)

Bits(r) == IF r.k = "ok" THEN <<r.k, r.pos, r.vel>>
           ELSE IF r.k = "pl" THEN <<r.k, r.t>> ELSE <<r.k, r.t, r.ecc>>

Modes(ev, ps, again) ==
  LET other == <<ev.c, ev.t, ~ev.afspc>>
      known == other \in DOMAIN env.m
      same == env.m[other] = Bits(ev.r)
  IN IF Prop # "C07" THEN Keep
     ELSE /\ Judge("C07", "the modes differ",
                   known => (same \/ ModesMayDiffer(ps) \/ ModesMayDiffer(again)))
          /\ IF known THEN Cover(IF ~ps[1].deep THEN "modes: near-earth"
                                 ELSE IF ModesMayDiffer(ps)
                                 THEN IF same THEN "modes: lyddane, negative node, same outcome"
                                      ELSE "modes: lyddane, negative node"
                                 ELSE IF ps[1].lyddane THEN "modes: lyddane, node not negative"
                                 ELSE "modes: deep, inclined")
             ELSE TRUE
          /\ env' = [env EXCEPT !.m = Put(@, <<ev.c, ev.t, ev.afspc>>, Bits(ev.r))]

(* resonances are integrated step by step: so far from the epoch only the  *)
(* form of the outcome is judged                                           *)
TooFar(cs, t) ==
  /\ \E x \in Regimes(cs) : Resonant(x)
  /\ IsFinite(t) /\ Abs(t) \succ F("2e7")

DoFarPropagation(ev) ==
  /\ Judge("C08", "outcome", OutcomeForm(ev.t, ev.r))
  /\ Cover("resonant, years from the epoch: " \o ev.r.k)
  /\ Keep

DoPropagation(ev) ==
  IF ~Has(env.c, ev.c) \/ ev.r.k = "missing" \/ (\E k \in Evaluations(env.c[ev.c]) : env.c[ev.c][k].k # "ok") THEN Keep
  ELSE IF TooFar(env.c[ev.c], ev.t) THEN DoFarPropagation(ev)
  ELSE
    LET cs == env.c[ev.c]
        ps == Outcomes(cs, ev.t, ev.afspc)
        cs2 == Again(LAMBDA k : Build(env.by[ev.c], k))
        ps2 == Outcomes(cs2, ev.t, ev.afspc)
        Twice(P(_)) == \/ P(ps)
                       \/ \E k \in Evaluations(cs2) : cs2[k].k # "ok"
                       \/ P(ps2)
        kind == Twice(LAMBDA x : KindAllowed(x, ev.t, ev.r))
        value == Twice(LAMBDA x : (Kinds(x) = {"ok"} => ev.r.k = "ok") /\ PredictionAllowed(x, ev.r))
        both == Twice(LAMBDA x : KindAllowed(x, ev.t, ev.r) /\ PredictionAllowed(x, ev.r))
        distinct == Cardinality(Regimes(cs)) = 1 /\ (value \/ Cardinality(Regimes(cs2)) = 1)
    IN /\ Judge(About(cs[1].c.c.regime), "prediction", distinct => value)
       /\ Judge("C08", "outcome", kind)
       /\ Judge("C07", "prediction", ps[1].lyddane => value)
       /\ Judge("C10", "prediction", both)
       /\ Judge("C17", "prediction", both)
       /\ Judge("C20", "prediction", both)
       /\ Judge("C22", "prediction", both)
       /\ Cover(Situation(cs, ps, ev))
       /\ Modes(ev, ps, ps2)

DoGravity(ev) ==
  LET Same(a, b) == /\ a.ae = b.ae /\ a.ke = b.ke
                    /\ a.j2 = b.j2 /\ a.j3 = b.j3 /\ a.j4 = b.j4
  IN /\ Judge("C10", "gravity constants", Same(ev.r.wgs84, WGS84) /\ Same(ev.r.wgs72, WGS72))
     /\ Keep

(* Kozai elements: exact decision, mean motion up to rounding, the other   *)
(* elements untouched                                                      *)
DoKozai(ev) ==
  LET Kozai(k) == FromKozai(Gravity(ev.g), Noisy(ev.o.incl, k), Noisy(ev.o.ecc, k), Noisy(ev.o.n, k))
      Near(a, b) == Abs(a \ominus b)
      KindsOf(bs) == {bs[k].k : k \in Evaluations(bs)}
      \* an infinite eccentricity has no mean motion
      MeanMotionAllowed(bs) ==
        (KindsOf(bs) = {"ok"} /\ ~IsNaN(bs[1].n) /\ IsFinite(ev.o.ecc)) =>
          \/ ev.r.o.n = Exactly(bs[1].n)
          \/ Near(ev.r.o.n, bs[1].n) \preceq
             Exactly(Tolerance(Map(bs, LAMBDA b : b.n), Near, Abs(bs[1].n) \otimes F("1e-14")))
      Allowed(bs) ==
        /\ ev.r.k \in KindsOf(bs)
        /\ ev.r.k = "ok" =>
             /\ \A f \in {"incl", "raan", "ecc", "argp", "m"} : ev.r.o[f] = ev.o[f]
             /\ MeanMotionAllowed(bs)
      first == Each(Kozai)
      kinds == KindsOf(first)
  IN /\ Judge("C09", "Kozai conversion", Allowed(first) \/ Allowed(Again(Kozai)))
     /\ Cover("kozai: " \o first[1].k \o (IF Cardinality(kinds) > 1 THEN " ambiguous" ELSE ""))
     /\ Keep

Failed(ev) == ev.r.k \in {"panic", "hang", "crash"}

Step(ev) ==
  IF Failed(ev)
  THEN /\ Judge(Prop, "the call did not return normally: " \o ev.r.k, FALSE)
       /\ Keep
  ELSE
    CASE ev.op = "elem" -> DoElements(ev)
      [] ev.op \in {"tle", "omm"} -> DoParsed(ev)
      [] ev.op = "new" -> DoNew(ev)
      [] ev.op \in {"from", "compose"} -> DoFrom(ev)
      [] ev.op = "rtconst" -> DoRestore(ev)
      [] ev.op = "prop" -> DoPropagation(ev)
      [] ev.op = "grav" -> DoGravity(ev)
      [] ev.op = "kozai" -> DoKozai(ev)
      [] OTHER -> Keep   \* judged by other trace specifications

Init == Begin /\ env = Start
Next == Reading /\ Step(Sessions[s].ev[i])
Spec == Init /\ [][Next]_<<s, i, env>>
=============================================================================

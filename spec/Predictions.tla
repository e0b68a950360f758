---------------------------- MODULE Predictions -----------------------------
(***************************************************************************)
(* When a recorded construction or prediction is one the theory (Sgp4)     *)
(* allows.                                                                 *)
(*                                                                         *)
(* Every expression is evaluated four times: exactly (tag 0) and with      *)
(* three different rounding noises (tags 1 to 3).  The four values bound   *)
(* what another order of evaluation or another mathematical library may    *)
(* return; where a decision (regime, error, Lyddane form) differs between  *)
(* them, any of the decisions taken is accepted.  What the four values do  *)
(* not allow is looked at again with sixteen, as three noises may happen   *)
(* to agree.                                                               *)
(***************************************************************************)
EXTENDS Sgp4, Calendar, FiniteSets, TLC

Each(op(_)) == <<op(0), op(1), op(2), op(3)>>
Again(op(_)) == <<op(0)>> \o [k \in 1..15 |-> op(k + 3)]
Evaluations(x) == 1..Len(x)
TagOf(x, k) == IF k = 1 THEN 0 ELSE IF Len(x) = 4 THEN k - 1 ELSE k + 2
Map(x, op(_)) == <<>> \o [k \in Evaluations(x) |-> op(x[k])]

Amplification == F("24")
PositionFloor == F("2e-8")   \* km
VelocityFloor == F("2e-11")  \* km/s
EccentricityFloor == F("1e-12")

Gravity(g) == IF g.name = "wgs84" THEN WGS84 ELSE IF g.name = "wgs72" THEN WGS72 ELSE g

NoisyOrbit(o, k) ==
  [incl |-> Noisy(o.incl, k), raan |-> Noisy(o.raan, k), ecc |-> Noisy(o.ecc, k),
   argp |-> Noisy(o.argp, k), m |-> Noisy(o.m, k), n |-> Noisy(o.n, k)]

(************************* constants from an orbit *************************)
(* a: the arguments [g, sid, theta, y, bstar, o] of Constants::new         *)
SiderealTime(a, epoch) ==
  IF a.sid = "iau" THEN IauSiderealTime(epoch)
  ELSE IF a.sid = "afspc" THEN AfspcSiderealTime(epoch)
  ELSE a.theta

New(a, k) ==
  IF ~EccentricityAccepted(a.o.ecc) THEN [k |-> "epochecc", ecc |-> a.o.ecc]
  ELSE [k |-> "ok",
        c |-> Constants(Gravity(a.g), LAMBDA epoch: SiderealTime(a, epoch),
                        Noisy(a.y, k), Noisy(a.bstar, k), NoisyOrbit(a.o, k))]

(************************ constants from elements **************************)
(* displacement of the epoch that the accuracy of the epoch functions      *)
(* allows, for tag k                                                       *)
EpochNoise(afspc, k) ==
  (IF afspc THEN F("2e-12") ELSE F("1e-14")) \otimes FInt(<<0, 1, -1, 1>>[(k % 4) + 1])

Degrees(x) == x \otimes (Pi \oslash F("180"))

(* y: the epoch in Julian years                                            *)
FromElementsAt(el, y, afspc, k) ==
  LET g == IF afspc THEN WGS72 ELSE WGS84
      incl == Degrees(Noisy(el.incl, k))
      b == FromKozai(g, incl, Noisy(el.ecc, k),
                     Noisy(el.n, k) \otimes (Pi \oslash F("720")))
      o == [incl |-> incl, raan |-> Degrees(Noisy(el.raan, k)), ecc |-> Noisy(el.ecc, k),
            argp |-> Degrees(Noisy(el.argp, k)), m |-> Degrees(Noisy(el.m, k)), n |-> b.n]
  IN IF b.k # "ok" THEN [k |-> b.k]
     ELSE New([g |-> [name |-> IF afspc THEN "wgs72" ELSE "wgs84"], sid |-> IF afspc THEN "afspc" ELSE "iau",
               y |-> y, bstar |-> el.bstar, o |-> o], k)

FromElements(el, afspc, k) ==
  FromElementsAt(el, JulianYears(el.dt) \oplus EpochNoise(afspc, k), afspc, k)

(* an epoch as accurate as the epoch functions have to be, in the years    *)
(* they are made for                                                       *)
EpochAllowed(el, y, afspc) ==
  el.dt.y \in 1901..2099 =>
  Abs(y \ominus JulianYears(el.dt)) \preceq IF afspc THEN F("5e-12") ELSE F("1e-13")

(* cs: the four constructions; r: what the implementation returned         *)
ConstructionAllowed(cs, r) ==
  \E k \in Evaluations(cs) :
    /\ r.k = cs[k].k
    /\ r.k = "ok" => /\ r.resonant = Resonant(cs[k].c.c.regime)
                     /\ FEq(r.t, Zero)
    /\ r.k = "epochecc" => r.ecc = Exactly(cs[k].ecc) \/ (IsNaN(r.ecc) /\ IsNaN(cs[k].ecc))

(****************************** predictions ********************************)
(* the outcomes at time t of the constants cs                              *)
Outcomes(cs, t, afspc) ==
  <<>> \o [k \in Evaluations(cs) |-> Propagate(cs[k].c, Noisy(t, TagOf(cs, k)), afspc)]

Larger(a, b) == IF a \succ b THEN a ELSE b
Distance(a, b) == Larger(Abs(a[1] \ominus b[1]),
                         Larger(Abs(a[2] \ominus b[2]), Abs(a[3] \ominus b[3])))
Tolerance(x, d(_, _), floor) ==
  LET RECURSIVE Spread(_)
      Spread(k) == IF k = 1 THEN Zero ELSE Larger(d(x[1], x[k]), Spread(k - 1))
  IN floor \oplus Amplification \otimes Spread(Len(x))

(* whether the sign of x - limit is the same for every value rounding may  *)
(* give x                                                                  *)
Clear(x, limit) ==
  LET spread == Exactly(Tolerance(x, LAMBDA a, b : Abs(a \ominus b), Zero))
      nan == {k \in Evaluations(x) : IsNaN(x[k])}
  IN \/ Cardinality(nan) = Len(x)
     \/ /\ nan = {}
        /\ \/ \A k \in Evaluations(x) : ~IsFinite(x[k]) /\ IsNegative(x[k]) = IsNegative(x[1])
           \/ Abs(x[1] \ominus limit) \succ spread

(* the kinds of outcome that rounding allows: each of the three tests is   *)
(* decided the same way by all evaluations, with a margin, or goes both    *)
(* ways.  A resonance that has slowed the satellite down to a negative     *)
(* mean motion leaves it no semi-major axis, whose power of two thirds is  *)
(* undefined when taken as such and positive when taken as the square of a *)
(* cube root: the third test then goes both ways                           *)
Kinds(ps) ==
  LET deep == \E k \in Evaluations(ps) : ps[k].deep
      e31 == Map(ps, LAMBDA p : p.e31)
      pecc == Map(ps, LAMBDA p : p.pecc)
      pl == Map(ps, LAMBDA p : p.pl)
      eccIn == {EccentricityInRange(e31[k]) : k \in Evaluations(ps)} \cup
               IF Clear(e31, F("-0.001")) /\ Clear(e31, F("1")) THEN {} ELSE BOOLEAN
      peccIn == IF ~deep THEN {TRUE}
                ELSE {PerturbedEccentricityInRange(pecc[k]) : k \in Evaluations(ps)} \cup
                     IF Clear(pecc, Zero) /\ Clear(pecc, F("1")) THEN {} ELSE BOOLEAN
      plIn == {SemiLatusRectumInRange(pl[k]) : k \in Evaluations(ps)} \cup
              IF Clear(pl, Zero) /\ \A k \in Evaluations(ps) : ~(ps[k].n \prec Zero)
              THEN {} ELSE BOOLEAN
  IN (IF FALSE \in eccIn THEN {"ecc"} ELSE {}) \cup
     (IF TRUE \notin eccIn THEN {} ELSE
        (IF FALSE \in peccIn THEN {"pecc"} ELSE {}) \cup
        (IF TRUE \notin peccIn THEN {} ELSE
           (IF FALSE \in plIn THEN {"pl"} ELSE {}) \cup
           (IF TRUE \in plIn THEN {"ok"} ELSE {})))

Converged(ps) == \A k \in Evaluations(ps) : ps[k].converged
Settled(ps) == Cardinality(Kinds(ps)) = 1

PositionTolerance(ps) ==
  Exactly(Tolerance(Map(ps, LAMBDA p : p.pos), Distance, PositionFloor))
VelocityTolerance(ps) ==
  Exactly(Tolerance(Map(ps, LAMBDA p : p.vel), Distance, VelocityFloor))

AllFinite(r) == \A j \in 1..3 : IsFinite(r.pos[j]) /\ IsFinite(r.vel[j])

PredictionAllowed(ps, r) ==
  (r.k = "ok" /\ Kinds(ps) = {"ok"} /\ Converged(ps))
    => /\ Distance(r.pos, ps[1].pos) \preceq PositionTolerance(ps)
       /\ Distance(r.vel, ps[1].vel) \preceq VelocityTolerance(ps)

(* what every outcome at time t has to be, whatever the orbit              *)
OutcomeForm(t, r) ==
  /\ r.k \in {"ok", "ecc", "pecc", "pl"}
  /\ ~IsFinite(t) => r.k # "ok"
  /\ r.k = "ok" => AllFinite(r)
  /\ r.k # "ok" => (r.t = t \/ (IsNaN(r.t) /\ IsNaN(t)))
  /\ r.k = "ecc" => ~EccentricityInRange(r.ecc)
  /\ r.k = "pecc" => ~PerturbedEccentricityInRange(r.ecc)

(* a mean motion that is not positive has no semi-major axis: the theory   *)
(* says nothing about such an orbit                                        *)
KindAllowed(ps, t, r) ==
  /\ OutcomeForm(t, r)
  /\ (ps[1].meaningful /\ IsFinite(t)) => r.k \in Kinds(ps)
  /\ (r.k \in {"ecc", "pecc"} /\ ps[1].meaningful /\ Settled(ps) /\ IsFinite(t)) =>
       \/ Abs(r.ecc \ominus ps[1].ecc) \preceq
            Exactly(Tolerance(Map(ps, LAMBDA p : p.ecc), LAMBDA a, b : Abs(a \ominus b),
                      EccentricityFloor \oplus EccentricityFloor \otimes Abs(ps[1].ecc)))
       \/ r.ecc = Exactly(ps[1].ecc)
       \/ (IsNaN(r.ecc) /\ IsNaN(ps[1].ecc))
=============================================================================

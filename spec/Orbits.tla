------------------------------- MODULE Orbits -------------------------------
(***************************************************************************)
(* The epoch orbits a conformance run must visit.                          *)
(*                                                                         *)
(* Each behaviour fixes the parameters of one orbit, dimension by          *)
(* dimension, from values that sit on, next to and between the limits of   *)
(* the theory, then requests predictions at Times in both modes.  TLC      *)
(* enumerates all of them, checks the theory itself at each (Sane), and    *)
(* prints them as sessions for the implementation.                         *)
(***************************************************************************)
EXTENDS Predictions, Json, IOUtils

Family == IOEnv.FAMILY     \* "near", "deep", "oneday", "halfday",
                           \* "bands", "extreme" or "edge"
Sanity == IOEnv.SANITY     \* how much of the theory is checked: "none", "modes" or "all"

VARIABLES pick, done       \* values chosen so far; whether the orbit is complete

Up(x) == NextUp(F(x))
Down(x) == NextDown(F(x))
FromPi(x) == Pi \ominus F(x)

(* each dimension is a sequence of values                                  *)
Perigees == <<F("60"), F("97.9"), F("98.1"), F("120"), F("155.9"), F("156.1"), F("200"),
              F("219.9"), F("220.1"), F("300"), F("800"), F("3000")>>

Dimensions ==
  CASE Family = "near" ->
         << Perigees,
            <<F("0"), F("1e-5"), F("1e-4"), Up("1e-4"), F("0.002"), F("0.05"), F("0.25")>>,
            <<F("0"), F("1e-3"), F("0.6"), F("1.1"), Pi \oslash F("2"), F("2.4"),
              FromPi("2e-6"), FromPi("1e-6"), Pi>>,
            <<F("0"), F("2e-5"), F("-1e-4"), F("5e-3")>> >>
    [] Family = "deep" ->
         << <<TwoPi \oslash F("225"), F("0.02"), Up("9.24e-3"), F("8.8e-3"), Down("8.26e-3"),
              F("0.0052359877"), F("0.0034906585"), F("0.002"), F("3e-4")>>,
            <<F("0"), F("1e-3"), F("0.2"), Down("0.5"), F("0.7"), F("0.95")>>,
            <<F("0"), F("1e-4"), Down("5.2359877e-2"), F("5.2359877e-2"), F("0.19"), F("0.21"),
              F("1.1"), Pi \oslash F("2"), FromPi("5.3e-2"), FromPi("5.2e-2"), Pi>>,
            <<F("0.3"), F("3.5"), F("-2")>> >>
    [] Family = "oneday" ->
         << <<Up("0.0034906585"), F("0.004"), F("0.0043752"), F("0.0048"), Down("0.0052359877")>>,
            <<F("0"), F("1e-4"), F("0.1"), F("0.5"), F("0.75")>>,
            <<F("0"), F("0.02"), F("0.15"), F("0.25"), F("1.1"), F("2.5"), Pi>>,
            <<F("0.3"), F("3.5"), F("-2")>> >>
    [] Family = "halfday" ->
         << <<F("8.26e-3"), F("8.7e-3"), F("8.75e-3"), F("9.24e-3")>>,
            <<F("0.5"), F("0.6"), F("0.65"), Up("0.65"), F("0.69"), Down("0.7"), F("0.7"),
              F("0.71"), Down("0.715"), F("0.715"), F("0.74"), F("0.9")>>,
            <<F("0.1"), F("0.9"), F("1.1"), F("2"), Pi>>,
            <<F("0.3"), F("3.5"), F("-2")>> >>
    (* both sides of every limit between the regimes                        *)
    [] Family = "bands" ->
         << <<Down("0.0034906585"), F("0.0034906585"), Up("0.0034906585"),
              Down("0.0052359877"), F("0.0052359877"), Up("0.0052359877"),
              Down("8.26e-3"), F("8.26e-3"), Up("8.26e-3"), Down("9.24e-3"), F("9.24e-3"), Up("9.24e-3"),
              TwoPi \oslash F("225.000001"), TwoPi \oslash F("225"), TwoPi \oslash F("224.999999")>>,
            <<F("1e-3"), Down("0.5"), F("0.5"), Up("0.5"), F("0.72")>>,
            <<F("0.1"), F("1.1")>>,
            <<F("0.3"), F("-2")>> >>
    [] Family = "extreme" ->
         << <<F("1e-9"), F("1e-5"), F("2e-3"), F("4.4e-3"), F("8.75e-3"), F("0.02"), F("0.05"),
              F("0.074"), F("0.09"), F("0.3"), F("20"), F("0"), F("-0.01")>>,
            <<F("0"), F("1e-4"), F("0.3"), F("0.8"), F("0.98"), F("0.9999"), Down("1")>>,
            <<F("0"), F("0.1"), F("1.2"), Pi, F("-0.5"), F("9")>>,
            <<F("0"), F("1e-3"), F("-1e-2"), F("0.9"), F("-40")>> >>
    [] Family = "edge" ->
         << <<F("0.06"), F("0.073"), F("0.0735"), F("0.0738"), F("0.02"), F("0.012"), F("8.75e-3"),
              F("4.4e-3"), F("0.002")>>,
            <<F("1e-5"), F("3e-4"), F("0.01"), F("0.3"), F("0.72"), F("0.97")>>,
            <<F("0.1"), F("1.2"), F("2.9")>>,
            <<F("1e-4"), F("-1e-3"), F("0.05"), F("-0.3"), F("30")>> >>

(* parameters that vary with the others rather than independently          *)
Mix == (pick[1] * 7 + pick[2] * 3 + pick[3] * 5 + pick[4] * 11)
Among(q, salt) == q[((Mix * salt) % Len(q)) + 1]
Value(d) == Dimensions[d][pick[d]]

GravityModel == [name |-> Among(<<"wgs84", "wgs72">>, 1)]
MeanMotion ==
  IF Family # "near" THEN Value(1)
  ELSE LET g == Gravity(GravityModel)
           a == (F("1") \oplus (Value(1) \oslash g.ae)) \oslash (F("1") \ominus Value(2))
       IN g.ke \oslash Pow(a, F("1.5"))

Orbit == [incl |-> Value(3),
          raan |-> IF Family \in {"near", "extreme", "edge"} THEN Among(<<F("0"), F("2.1"), F("5.9")>>, 3) ELSE Value(4),
          ecc |-> Value(2),
          argp |-> Among(<<F("0"), F("1.3"), F("4.4"), F("-0.7")>>, 5),
          m |-> Among(<<F("0"), F("0.8"), F("3.1"), F("5.5"), F("40")>>, 7),
          n |-> MeanMotion]

Arguments == [g |-> GravityModel,
              sid |-> Among(<<"iau", "afspc", "given">>, 1),
              theta |-> Among(<<F("0"), F("1.9"), F("4.7")>>, 2),
              y |-> Among(<<F("0"), F("-20.31"), F("8.4"), F("23.77")>>, 3),
              bstar |-> IF Family \in {"near", "extreme", "edge"} THEN Value(4)
                        ELSE Among(<<F("0"), F("1e-4"), F("-3e-5")>>, 1),
              o |-> Orbit]

C == New(Arguments, 0).c

(* times at which the eccentricity before third-body terms reaches values  *)
(* around its limits                                                       *)
Targets == <<F("-0.00101"), F("-0.00099"), F("-0.0005"), F("-1e-6"), F("5e-7"), F("2e-6"),
             F("0.9"), F("0.999"), F("0.99999"), F("1.00001"), F("1.01")>>
EdgeTimes ==
  LET rate == IF C.c.regime = "near" THEN C.c.c4 ELSE C.c.c4 \ominus C.method.eccDot
      at(j) == (Value(2) \ominus Targets[j]) \oslash rate
      longest == IF Resonant(C.c.regime) THEN F("3e5") ELSE F("1.53e8")
      near == SelectSeq([j \in 1..Len(Targets) |-> at(j)], LAMBDA t : Abs(t) \preceq longest)
  IN near

Times ==
  IF Family = "edge" THEN EdgeTimes
  ELSE IF Family = "near"
  THEN <<F("0"), F("0.5"), F("-37.25"), F("133"), F("-1440"), F("10000"), F("-43200"), F("525960")>>
  ELSE IF Family = "deep"
  THEN <<F("0"), F("60"), F("-719"), F("2880"), F("-43200"), F("300000"), F("-525960"), F("5e6")>>
  ELSE IF Family = "extreme"
  THEN <<F("0"), F("-1"), F("400"), F("-30000"), F("1e6"), F("NaN"), F("Infinity"), F("-Infinity")>>
       \o (IF Resonant(Regime(MeanMotion, Value(2))) THEN <<>>
           ELSE <<F("1.53e8"), F("-1.53e8"), F("4e7")>>)
  ELSE <<F("0"), F("100"), F("719.9"), F("720"), F("-720"), F("-720.1"), F("1500"), F("-2000"),
         F("43210"), F("-100000")>>

Session ==
  <<[op |-> "new", c |-> 1] @@ Arguments>> \o
  [j \in 1..(2 * Len(Times)) |->
     [op |-> "prop", c |-> 1, t |-> Times[(j + 1) \div 2], afspc |-> j % 2 = 0]]

(******************************* behaviours ********************************)
Init == pick = <<>> /\ done = FALSE

Complete == Len(pick) = Len(Dimensions)

(* an orbit whose mean motion belongs to another family is not visited     *)
Belongs ==
  LET r == Regime(MeanMotion, Value(2))
  IN Family \in {"extreme", "edge", "bands"} \/ r = Family

Next ==
  \/ /\ ~Complete
     /\ \E v \in 1..Len(Dimensions[Len(pick) + 1]) : pick' = Append(pick, v)
     /\ UNCHANGED done
  \/ /\ Complete /\ ~done /\ Belongs
     /\ PrintT("@@" \o ToJson(Session))
     /\ done' = TRUE
     /\ UNCHANGED pick

Spec == Init /\ [][Next]_<<pick, done>>

(************************** the theory is sane *****************************)
(* a prediction is finite, or one of the errors                            *)
Total(p) == p.k \in {"ecc", "pecc", "pl"} \/ (p.k = "ok" /\ AllFinite(p))

(* the modes differ only with the Lyddane form and a negative node         *)
ModesAgree(p, q) ==
  (p.k = q.k /\ p.pos = q.pos /\ p.vel = q.vel) \/ (p.lyddane /\ p.p22 \prec Zero)

(* the velocity is the derivative of the position, within the accuracy of  *)
(* the theory and of a central difference                                  *)
Slow(t, p) ==
  LET h == F("0.05")
      before == Propagate(C, t \ominus h, FALSE)
      after == Propagate(C, t \oplus h, FALSE)
      speed == Larger(Abs(p.vel[1]), Larger(Abs(p.vel[2]), Abs(p.vel[3])))
      rate(j) == (after.pos[j] \ominus before.pos[j]) \oslash (F("120") \otimes h)
  IN (before.k = "ok" /\ after.k = "ok") =>
       \A j \in 1..3 : Abs(rate(j) \ominus p.vel[j]) \preceq (speed \otimes F("0.02"))

(* orbits on which the theory is meant to be accurate                      *)
Ordinary ==
  /\ Value(2) \prec F("0.3")
  /\ Family = "near" => Value(1) \succeq F("200") /\ Abs(Value(4)) \preceq F("1e-4")
                      /\ Value(3) \prec F("3")
  /\ Family # "near" => Sin(Value(3)) \succeq F("1e-3") \/ Value(3) \prec F("0.2")

Sane ==
  done => \/ Sanity = "none"
          \/ \A j \in 1..Len(Times) :
               LET p == Propagate(C, Times[j], FALSE)
                   q == Propagate(C, Times[j], TRUE)
               IN /\ Total(p) /\ Total(q)
                  /\ ModesAgree(p, q)
                  /\ (Sanity = "all" /\ p.k = "ok" /\ Ordinary
                        /\ Abs(Times[j]) \preceq F("50000"))
                       => Slow(Times[j], p)
=============================================================================

-------------------------------- MODULE Sgp4 --------------------------------
(***************************************************************************)
(* The SGP4 theory as the crate documents it (README, "Mathematical        *)
(* expressions"), as executable definitions over Float64.                  *)
(*                                                                         *)
(* Names follow the documentation: k.. are constants kept for propagation, *)
(* p.. are partial expressions.  Where the documentation is at odds with   *)
(* the theory it transcribes (Vallado et al., Revisiting Spacetrack Report *)
(* #3) the theory is followed: k14 includes its J4 term, the high-altitude *)
(* limit is p3 >= 220 / ae + 1, the names near-earth and deep-space are    *)
(* not swapped, cos Il uses cos(Omega_le), delta_r1 and delta_r3 are       *)
(* divided by a0 once.                                                     *)
(*                                                                         *)
(* Records:                                                                *)
(*   gravity model  [ae, ke, j2, j3, j4]                                   *)
(*   orbit          [incl, raan, ecc, argp, m, n]   (rad, rad/min)         *)
(*   constants      see Constants                                          *)
(*   outcome        see Propagate                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, Float64

LOCAL Ext == INSTANCE SequencesExt

Pi == F("pi")
TwoPi == F("2") \otimes Pi
Sq(x) == x \otimes x
Zero == F("0")

(***************************** gravity models ******************************)
WGS84 == [ae |-> F("6378.137"), ke |-> F("0.07436685316871385"),
          j2 |-> F("0.00108262998905"), j3 |-> F("-0.00000253215306"),
          j4 |-> F("-0.00000161098761")]
WGS72 == [ae |-> F("6378.135"), ke |-> F("0.07436691613317342"),
          j2 |-> F("0.001082616"), j3 |-> F("-0.00000253881"),
          j4 |-> F("-0.00000165597")]

(****************************** sidereal time ******************************)
(* epoch: Julian years since J2000                                         *)
IauSiderealTime(epoch) ==
  LET
    c2000 == epoch \oslash F("100")
    theta == ((F("-6.2e-6") \otimes PowI(c2000, 3) \oplus F("0.093104") \otimes Sq(c2000)
             \oplus (F("876600.0") \otimes F("3600.0") \oplus F("8640184.812866")) \otimes
             c2000 \oplus F("67310.54841")) \otimes (Pi \oslash F("180"))) \oslash F("240")
  IN Mod(theta, TwoPi)

AfspcSiderealTime(epoch) ==
  LET
    d1970 == (epoch \oplus F("30")) \otimes F("365.25") \oplus F("1")
    whole == Floor(d1970 \oplus F("1.0e-8"))
    theta == F("1.7321343856509374") \oplus F("1.72027916940703639e-2") \otimes whole \oplus
             (F("1.72027916940703639e-2") \oplus TwoPi) \otimes (d1970 \ominus whole) \oplus
             Sq(d1970) \otimes F("5.07551419432269442e-15")
  IN Mod(theta, TwoPi)

(************************* Kozai to Brouwer elements ***********************)
BrouwerMeanMotion(g, incl, ecc, n) ==
  LET
    a1 == Pow(g.ke \oslash n, F("2.0") \oslash F("3.0"))
    p0 == (F("0.75") \otimes g.j2 \otimes (F("3") \otimes Sq(Cos(incl)) \ominus F("1")))
          \oslash Pow(F("1") \ominus Sq(ecc), F("1.5"))
    d1 == p0 \oslash Sq(a1)
    d0 == p0 \oslash Sq(a1 \otimes (F("1") \ominus Sq(d1) \ominus d1 \otimes ((F("1.0")
          \oslash F("3.0")) \oplus ((F("134") \otimes Sq(d1)) \oslash F("81")))))
  IN n \oslash (F("1") \oplus d0)

(* kind "ok" (with the Brouwer mean motion), "kozai" or "brouwer"          *)
FromKozai(g, incl, ecc, n) ==
  IF n \preceq Zero THEN [k |-> "kozai", n |-> n]
  ELSE LET b == BrouwerMeanMotion(g, incl, ecc, n)
       IN [k |-> IF b \preceq Zero THEN "brouwer" ELSE "ok", n |-> b]

EccentricityAccepted(e) == e \succeq Zero /\ e \prec F("1")

(******************************* regimes ***********************************)
NearEarth(n) == n \succ (TwoPi \oslash F("225"))
Geosynchronous(n) == n \succ F("0.0034906585") /\ n \prec F("0.0052359877")
Molniya(n, e) == n \succeq F("8.26e-3") /\ n \preceq F("9.24e-3") /\ e \succeq F("0.5")

Regime(n, e) ==
  IF NearEarth(n) THEN "near"
  ELSE IF Geosynchronous(n) THEN "oneday"
  ELSE IF Molniya(n, e) THEN "halfday"
  ELSE "deep"

Resonant(regime) == regime \in {"oneday", "halfday"}

(***************************** third bodies ********************************)
SiderealSpeed == F("4.37526908801129966e-3")

Sun == [e |-> F("0.01675"), n |-> F("1.19459e-5"), c |-> F("2.9864797e-6")]
Moon == [e |-> F("0.05490"), n |-> F("1.5835218e-4"), c |-> F("4.7968065e-7")]

(* b: body; sI, cI: sine and cosine of its inclination; sO, cO: of the     *)
(* relative node; sw, cw: of its perigee; m0: its mean anomaly at epoch    *)
ThirdBody(o, b, sI, cI, sO, cO, sw, cw, m0) ==
  LET
    e0 == o.ecc
    ci == Cos(o.incl)
    si == Sin(o.incl)
    cw0 == Cos(o.argp)
    sw0 == Sin(o.argp)
    p2 == F("1") \ominus Sq(e0)
    b0 == Sqrt(p2)
    ax1 == cw \otimes cO \oplus sw \otimes cI \otimes sO
    ax3 == Neg(sw) \otimes cO \oplus cw \otimes cI \otimes sO
    ax7 == Neg(cw) \otimes sO \oplus sw \otimes cI \otimes cO
    ax8 == sw \otimes sI
    ax9 == sw \otimes sO \oplus cw \otimes cI \otimes cO
    ax10 == cw \otimes sI
    ax2 == ax7 \otimes ci \oplus ax8 \otimes si
    ax4 == ax9 \otimes ci \oplus ax10 \otimes si
    ax5 == Neg(ax7) \otimes si \oplus ax8 \otimes ci
    ax6 == Neg(ax9) \otimes si \oplus ax10 \otimes ci
    xx1 == ax1 \otimes cw0 \oplus ax2 \otimes sw0
    xx2 == ax3 \otimes cw0 \oplus ax4 \otimes sw0
    xx3 == Neg(ax1) \otimes sw0 \oplus ax2 \otimes cw0
    xx4 == Neg(ax3) \otimes sw0 \oplus ax4 \otimes cw0
    xx5 == ax5 \otimes sw0
    xx6 == ax6 \otimes sw0
    xx7 == ax5 \otimes cw0
    xx8 == ax6 \otimes cw0
    zx31 == F("12") \otimes Sq(xx1) \ominus F("3") \otimes Sq(xx3)
    zx32 == F("24") \otimes xx1 \otimes xx2 \ominus F("6") \otimes xx3 \otimes xx4
    zx33 == F("12") \otimes Sq(xx2) \ominus F("3") \otimes Sq(xx4)
    zx11 == F("-6") \otimes ax1 \otimes ax5 \oplus Sq(e0) \otimes (F("-24") \otimes xx1
            \otimes xx7 \ominus F("6") \otimes xx3 \otimes xx5)
    zx13 == F("-6") \otimes ax3 \otimes ax6 \oplus Sq(e0) \otimes (F("-24") \otimes xx2
            \otimes xx8 \ominus F("6") \otimes xx4 \otimes xx6)
    zx21 == F("6") \otimes ax2 \otimes ax5 \oplus Sq(e0) \otimes (F("24") \otimes xx1
            \otimes xx5 \ominus F("6") \otimes xx3 \otimes xx7)
    zx23 == F("6") \otimes ax4 \otimes ax6 \oplus Sq(e0) \otimes (F("24") \otimes xx2
            \otimes xx6 \ominus F("6") \otimes xx4 \otimes xx8)
    zx1 == F("2") \otimes (F("3") \otimes (Sq(ax1) \oplus Sq(ax2)) \oplus zx31 \otimes
           Sq(e0)) \oplus p2 \otimes zx31
    zx3 == F("2") \otimes (F("3") \otimes (Sq(ax3) \oplus Sq(ax4)) \oplus zx33 \otimes
           Sq(e0)) \oplus p2 \otimes zx33
    px0 == b.c \oslash o.n
    px1 == (F("-0.5") \otimes px0) \oslash b0
    px2 == px0 \otimes b0
    px3 == F("-15") \otimes e0 \otimes px2
    equatorial == o.incl \prec F("5.2359877e-2") \/ o.incl \succ (Pi \ominus F("5.2359877e-2"))
    nodeDot == IF equatorial THEN Zero ELSE (Neg(b.n) \otimes px1 \otimes (zx21
               \oplus zx23)) \oslash si
  IN [m0 |-> m0,
      k0 |-> F("2") \otimes px3 \otimes (xx2 \otimes xx3 \oplus xx1 \otimes xx4),
      k1 |-> F("2") \otimes px3 \otimes (xx2 \otimes xx4 \ominus xx1 \otimes xx3),
      k2 |-> F("2") \otimes px1 \otimes (F("-6") \otimes (ax1 \otimes ax6 \oplus ax3
             \otimes ax5) \oplus Sq(e0) \otimes (F("-24") \otimes (xx2 \otimes xx7 \oplus
             xx1 \otimes xx8) \ominus F("6") \otimes (xx3 \otimes xx6 \oplus xx4 \otimes
             xx5))),
      k3 |-> F("2") \otimes px1 \otimes (zx13 \ominus zx11),
      k4 |-> F("-2") \otimes px0 \otimes (F("2") \otimes (F("6") \otimes (ax1 \otimes
             ax3 \oplus ax2 \otimes ax4) \oplus zx32 \otimes Sq(e0)) \oplus p2 \otimes
             zx32),
      k5 |-> F("-2") \otimes px0 \otimes (zx3 \ominus zx1),
      k6 |-> F("-2") \otimes px0 \otimes (F("-21") \ominus F("9") \otimes Sq(e0)) \otimes b.e,
      k7 |-> F("2") \otimes px2 \otimes zx32,
      k8 |-> F("2") \otimes px2 \otimes (zx33 \ominus zx31),
      k9 |-> F("-18") \otimes px2 \otimes b.e,
      k10 |-> F("-2") \otimes px1 \otimes (F("6") \otimes (ax4 \otimes ax5 \oplus
              ax2 \otimes ax6) \oplus Sq(e0) \otimes (F("24") \otimes (xx2 \otimes xx5
              \oplus xx1 \otimes xx6) \ominus F("6") \otimes (xx4 \otimes xx7 \oplus xx3
              \otimes xx8))),
      k11 |-> F("-2") \otimes px1 \otimes (zx23 \ominus zx21),
      inclDot |-> px1 \otimes b.n \otimes (zx11 \oplus zx13),
      nodeDot |-> nodeDot,
      eccDot |-> px3 \otimes b.n \otimes (xx1 \otimes xx3 \oplus xx2 \otimes xx4),
      argpDot |-> px2 \otimes b.n \otimes ((zx31 \oplus zx33) \ominus F("6"))
                  \ominus ci \otimes nodeDot,
      mDot |-> Neg(b.n) \otimes px0 \otimes ((zx1 \oplus zx3) \ominus F("14")
               \ominus F("6") \otimes Sq(e0))]

SolarTerms(o, epoch) ==
  LET
    d1900 == F("365.25") \otimes (epoch \oplus F("100"))
  IN ThirdBody(o, Sun, F("0.39785416"), F("0.91744867"), Sin(o.raan), Cos(o.raan),
               F("-0.98088458"), F("0.1945905"),
               Rem(F("6.2565837") \oplus F("0.017201977") \otimes d1900, TwoPi))

LunarTerms(o, epoch) ==
  LET
    d1900 == F("365.25") \otimes (epoch \oplus F("100"))
    node == Rem(F("4.5236020") \ominus F("9.2422029e-4") \otimes d1900, TwoPi)
    cI == F("0.91375164") \ominus F("0.03568096") \otimes Cos(node)
    sI == Sqrt(F("1") \ominus Sq(cI))
    sO == (F("0.089683511") \otimes Sin(node)) \oslash sI
    cO == Sqrt(F("1") \ominus Sq(sO))
    w == (F("5.8351514") \oplus F("0.001944368") \otimes d1900 \oplus Atan2((F("0.39785416")
         \otimes Sin(node)) \oslash sI, cO \otimes Cos(node) \oplus F("0.91744867") \otimes
         sO \otimes Sin(node))) \ominus node
  IN ThirdBody(o, Moon, sI, cI,
               Sin(o.raan) \otimes cO \ominus Cos(o.raan) \otimes sO,
               cO \otimes Cos(o.raan) \oplus sO \otimes Sin(o.raan),
               Sin(w), Cos(w),
               Rem(F("-1.1151842") \oplus F("0.228027132") \otimes d1900, TwoPi))

(* long-period periodic contributions of body b with terms k at time t     *)
Periodic(k, b, t) ==
  LET
    m == k.m0 \oplus b.n \otimes t
    f == m \oplus F("2") \otimes b.e \otimes Sin(m)
    f2 == F("0.5") \otimes Sq(Sin(f)) \ominus F("0.25")
    f3 == F("-0.5") \otimes Sin(f) \otimes Cos(f)
  IN [de |-> k.k0 \otimes f2 \oplus k.k1 \otimes f3,
      di |-> k.k2 \otimes f2 \oplus k.k3 \otimes f3,
      dm |-> k.k4 \otimes f2 \oplus k.k5 \otimes f3 \oplus k.k6 \otimes Sin(f),
      p4 |-> k.k7 \otimes f2 \oplus k.k8 \otimes f3 \oplus k.k9 \otimes Sin(f),
      p5 |-> k.k10 \otimes f2 \oplus k.k11 \otimes f3]

(***************************** resonance terms *****************************)
OneDayTerms(o, a0) ==
  LET
    e0 == o.ecc
    p1 == Cos(o.incl)
    p17 == F("3") \otimes Sq(o.n \oslash a0)
  IN [dr1 |-> (p17 \otimes (F("0.9375") \otimes Sq(Sin(o.incl)) \otimes (F("1")
              \oplus F("3") \otimes p1) \ominus F("0.75") \otimes (F("1") \oplus p1))
              \otimes (F("1") \oplus F("2") \otimes Sq(e0)) \otimes F("2.1460748e-6"))
              \oslash a0,
      dr2 |-> F("2") \otimes p17 \otimes (F("0.75") \otimes Sq(F("1") \oplus p1))
              \otimes (F("1") \oplus Sq(e0) \otimes (F("-2.5") \oplus F("0.8125") \otimes
              Sq(e0))) \otimes F("1.7891679e-6"),
      dr3 |-> (F("3") \otimes p17 \otimes (F("1.875") \otimes PowI(F("1") \oplus p1,
              3)) \otimes (F("1") \oplus Sq(e0) \otimes (F("-6") \oplus F("6.60937") \otimes
              Sq(e0))) \otimes F("2.2123015e-7")) \oslash a0]

Cubic(e, c0, c1, c2, c3) == c0 \oplus c1 \otimes e \oplus c2 \otimes Sq(e) \oplus c3 \otimes
PowI(e, 3)

HalfDayTerms(o, a0) ==
  LET
    e == o.ecc
    p1 == Cos(o.incl)
    si == Sin(o.incl)
    p18 == (F("3") \otimes Sq(o.n)) \oslash Sq(a0)
    p19 == p18 \oslash a0
    p20 == p19 \oslash a0
    p21 == p20 \oslash a0
    f220 == F("0.75") \otimes (F("1") \oplus F("2") \otimes p1 \oplus Sq(p1))
    low == e \preceq F("0.65")
    g211 == IF low THEN Cubic(e, F("3.616"), F("-13.247"), F("16.29"), Zero)
            ELSE Cubic(e, F("-72.099"), F("331.819"), F("-508.738"), F("266.724"))
    g310 == IF low THEN Cubic(e, F("-19.302"), F("117.39"), F("-228.419"), F("156.591"))
            ELSE Cubic(e, F("-346.844"), F("1582.851"), F("-2415.925"), F("1246.113"))
    g322 == IF low THEN Cubic(e, F("-18.9068"), F("109.7927"), F("-214.6334"), F("146.5816"))
            ELSE Cubic(e, F("-342.585"), F("1554.908"), F("-2366.899"), F("1215.972"))
    g410 == IF low THEN Cubic(e, F("-41.122"), F("242.694"), F("-471.094"), F("313.953"))
            ELSE Cubic(e, F("-1052.797"), F("4758.686"), F("-7193.992"), F("3651.957"))
    g422 == IF low THEN Cubic(e, F("-146.407"), F("841.88"), F("-1629.014"), F("1083.435"))
            ELSE Cubic(e, F("-3581.69"), F("16178.11"), F("-24462.77"), F("12422.52"))
    g520 == IF low THEN Cubic(e, F("-532.114"), F("3017.977"), F("-5740.032"), F("3708.276"))
            ELSE IF e \prec F("0.715") THEN Cubic(e, F("1464.74"), F("-4664.75"), F("3763.64"), Zero)
            ELSE Cubic(e, F("-5149.66"), F("29936.92"), F("-54087.36"), F("31324.56"))
    mid == e \prec F("0.7")
    g532 == IF mid THEN Cubic(e, F("-853.666"), F("4690.25"), F("-8624.77"), F("5341.4"))
            ELSE Cubic(e, F("-40023.88"), F("170470.89"), F("-242699.48"), F("115605.82"))
    g521 == IF mid THEN Cubic(e, F("-822.71072"), F("4568.6173"), F("-8491.4146"), F("5337.524"))
            ELSE Cubic(e, F("-51752.104"), F("218913.95"), F("-309468.16"), F("146349.42"))
    g533 == IF mid THEN Cubic(e, F("-919.2277"), F("4988.61"), F("-9064.77"), F("5542.21"))
            ELSE Cubic(e, F("-37995.78"), F("161616.52"), F("-229838.2"), F("109377.94"))
  IN [d2201 |-> p18 \otimes F("1.7891679e-6") \otimes f220 \otimes
                (F("-0.306") \ominus F("0.44") \otimes (e \ominus F("0.64"))),
      d2211 |-> p18 \otimes F("1.7891679e-6") \otimes (F("1.5") \otimes Sq(si)) \otimes g211,
      d3210 |-> p19 \otimes F("3.7393792e-7") \otimes (F("1.875") \otimes si
                \otimes (F("1") \ominus F("2") \otimes p1 \ominus F("3") \otimes Sq(p1)))
                \otimes g310,
      d3222 |-> p19 \otimes F("3.7393792e-7") \otimes (F("-1.875") \otimes si
                \otimes ((F("1") \oplus F("2") \otimes p1) \ominus F("3") \otimes Sq(p1)))
                \otimes g322,
      d4410 |-> F("2") \otimes p20 \otimes F("7.3636953e-9") \otimes (F("35")
                \otimes Sq(si) \otimes f220) \otimes g410,
      d4422 |-> F("2") \otimes p20 \otimes F("7.3636953e-9") \otimes (F("39.375")
                \otimes PowI(si, 4)) \otimes g422,
      d5220 |-> p21 \otimes F("1.1428639e-7") \otimes (F("9.84375") \otimes si
                \otimes (Sq(si) \otimes (F("1") \ominus F("2") \otimes p1 \ominus F("5")
                \otimes Sq(p1)) \oplus F("0.33333333") \otimes (F("-2") \oplus F("4")
                \otimes p1 \oplus F("6") \otimes Sq(p1)))) \otimes g520,
      d5232 |-> p21 \otimes F("1.1428639e-7") \otimes (si \otimes (F("4.92187512")
                \otimes Sq(si) \otimes ((F("-2") \ominus F("4") \otimes p1) \oplus F("10")
                \otimes Sq(p1)) \oplus F("6.56250012") \otimes ((F("1") \oplus F("2")
                \otimes p1) \ominus F("3") \otimes Sq(p1)))) \otimes g532,
      d5421 |-> F("2") \otimes p21 \otimes F("2.1765803e-9") \otimes
                (F("29.53125") \otimes si \otimes ((F("2") \ominus F("8") \otimes p1) \oplus
                Sq(p1) \otimes (F("-12") \oplus F("8") \otimes p1 \oplus F("10") \otimes
                Sq(p1)))) \otimes g521,
      d5433 |-> F("2") \otimes p21 \otimes F("2.1765803e-9") \otimes
                (F("29.53125") \otimes si \otimes ((F("-2") \ominus F("8") \otimes p1)
                \oplus Sq(p1) \otimes ((F("12") \oplus F("8") \otimes p1) \ominus F("10")
                \otimes Sq(p1)))) \otimes g533]

(****************************** initialization *****************************)
(* g: gravity model, theta: epoch -> sidereal time, epoch: years since     *)
(* J2000, bstar: drag term, o: Brouwer orbit accepted by                   *)
(* EccentricityAccepted                                                    *)
Constants(g, theta(_), epoch, bstar, o) ==
  LET
    e0 == o.ecc
    n0 == o.n
    p1 == Cos(o.incl)
    si == Sin(o.incl)
    p2 == F("1") \ominus Sq(e0)
    k6 == F("3") \otimes Sq(p1) \ominus F("1")
    a0 == Pow(g.ke \oslash n0, F("2.0") \oslash F("3.0"))
    p3 == a0 \otimes (F("1") \ominus e0)
    p4 == g.ae \otimes (p3 \ominus F("1"))
    p5 == IF p4 \prec F("98") THEN F("20")
          ELSE IF p4 \prec F("156") THEN p4 \ominus F("78")
          ELSE F("78")
    s == (p5 \oslash g.ae) \oplus F("1")
    p6 == PowI((F("120") \ominus p5) \oslash g.ae, 4)
    xi == F("1") \oslash (a0 \ominus s)
    p7 == p6 \otimes PowI(xi, 4)
    eta == a0 \otimes e0 \otimes xi
    p8 == Abs(F("1") \ominus Sq(eta))
    p9 == p7 \oslash Pow(p8, F("3.5"))
    c1 == bstar \otimes (p9 \otimes n0 \otimes (a0 \otimes (F("1") \oplus F("1.5") \otimes
          Sq(eta) \oplus e0 \otimes eta \otimes (F("4") \oplus Sq(eta))) \oplus ((F("0.375")
          \otimes g.j2 \otimes xi) \oslash p8) \otimes k6 \otimes (F("8") \oplus F("3")
          \otimes Sq(eta) \otimes (F("8") \oplus Sq(eta)))))
    p10 == F("1") \oslash Sq(a0 \otimes p2)
    b0 == Sqrt(p2)
    p11 == F("1.5") \otimes g.j2 \otimes p10 \otimes n0
    p12 == F("0.5") \otimes p11 \otimes g.j2 \otimes p10
    p13 == F("-0.46875") \otimes g.j4 \otimes Sq(p10) \otimes n0
    p14 == Neg(p11) \otimes p1 \oplus (F("0.5") \otimes p12 \otimes (F("4") \ominus F("19")
           \otimes Sq(p1)) \oplus F("2") \otimes p13 \otimes (F("3") \ominus F("7") \otimes
           Sq(p1))) \otimes p1
    k14 == F("-0.5") \otimes p11 \otimes (F("1") \ominus F("5") \otimes Sq(p1)) \oplus
           F("0.0625") \otimes p12 \otimes ((F("7") \ominus F("114") \otimes Sq(p1)) \oplus
           F("395") \otimes PowI(p1, 4)) \oplus p13 \otimes ((F("3") \ominus F("36") \otimes
           Sq(p1)) \oplus F("49") \otimes PowI(p1, 4))
    p15 == n0 \oplus F("0.5") \otimes p11 \otimes b0 \otimes k6 \oplus F("0.0625") \otimes
           p12 \otimes b0 \otimes ((F("13") \ominus F("78") \otimes Sq(p1)) \oplus F("137")
           \otimes PowI(p1, 4))
    c4 == bstar \otimes (F("2") \otimes n0 \otimes p9 \otimes a0 \otimes p2 \otimes ((eta
          \otimes (F("2") \oplus F("0.5") \otimes Sq(eta)) \oplus e0 \otimes (F("0.5")
          \oplus F("2") \otimes Sq(eta))) \ominus ((g.j2 \otimes xi) \oslash (a0 \otimes
          p8)) \otimes (F("-3") \otimes k6 \otimes ((F("1") \ominus F("2") \otimes e0
          \otimes eta) \oplus Sq(eta) \otimes (F("1.5") \ominus F("0.5") \otimes e0 \otimes
          eta)) \oplus F("0.75") \otimes (F("1") \ominus Sq(p1)) \otimes (F("2") \otimes
          Sq(eta) \ominus e0 \otimes eta \otimes (F("1") \oplus Sq(eta))) \otimes Cos(F("2")
          \otimes o.argp))))
    k0 == F("3.5") \otimes p2 \otimes (Neg(p11) \otimes p1) \otimes c1
    k1 == F("1.5") \otimes c1
    regime == Regime(n0, e0)
    common == [g |-> g, o |-> o, regime |-> regime, a0 |-> a0, c1 |-> c1, c4 |-> c4,
               k0 |-> k0, k1 |-> k1]

    (* near earth *)
    highAltitude == p3 \succeq (F("220") \oslash g.ae \oplus F("1"))
    elliptic == e0 \succ F("1.0e-4")
    d2 == F("4") \otimes a0 \otimes xi \otimes Sq(c1)
    p16 == (d2 \otimes xi \otimes c1) \oslash F("3")
    d3 == (F("17") \otimes a0 \oplus s) \otimes p16
    d4 == F("0.5") \otimes p16 \otimes a0 \otimes xi \otimes (F("221") \otimes a0 \oplus
          F("31") \otimes s) \otimes c1
    near == [nodeDot |-> p14, argpDot |-> k14, mDot |-> p15,
             highAltitude |-> highAltitude, elliptic |-> elliptic,
             eta |-> eta, d2 |-> d2, d3 |-> d3, d4 |-> d4,
             c5 |-> bstar \otimes (F("2") \otimes p9 \otimes a0 \otimes p2 \otimes
                    (F("1") \oplus F("2.75") \otimes (Sq(eta) \oplus eta \otimes e0) \oplus
                    e0 \otimes PowI(eta, 3))),
             k7 |-> Sin(o.m),
             k8 |-> d2 \oplus F("2") \otimes Sq(c1),
             k9 |-> F("0.25") \otimes (F("3") \otimes d3 \oplus c1 \otimes (F("12")
                    \otimes d2 \oplus F("10") \otimes Sq(c1))),
             k10 |-> F("0.2") \otimes (F("3") \otimes d4 \oplus F("12") \otimes c1
                     \otimes d3 \oplus F("6") \otimes Sq(d2) \oplus F("15") \otimes Sq(c1)
                     \otimes (F("2") \otimes d2 \oplus Sq(c1))),
             k11 |-> PowI(F("1") \oplus eta \otimes Cos(o.m), 3),
             k12 |-> (F("-2") \otimes bstar \otimes Cos(o.argp) \otimes (g.j3
                     \oslash g.j2) \otimes p7 \otimes xi \otimes n0 \otimes si) \oslash e0,
             k13 |-> ((F("-2.0") \oslash F("3.0")) \otimes p7 \otimes bstar) \oslash
                     (e0 \otimes eta)]

    (* deep space *)
    sun == SolarTerms(o, epoch)
    moon == LunarTerms(o, epoch)
    deepNodeDot == p14 \oplus (sun.nodeDot \oplus moon.nodeDot)
    deepArgpDot == k14 \oplus (sun.argpDot \oplus moon.argpDot)
    deepMDot == p15 \oplus (sun.mDot \oplus moon.mDot)
    deep == [nodeDot |-> deepNodeDot, argpDot |-> deepArgpDot, mDot |-> deepMDot,
             eccDot |-> sun.eccDot \oplus moon.eccDot,
             inclDot |-> sun.inclDot \oplus moon.inclDot,
             sun |-> sun, moon |-> moon]

    (* resonance *)
    theta0 == theta(epoch)
    lambda0 == IF regime = "oneday"
               THEN Rem((o.m \oplus o.raan \oplus o.argp) \ominus theta0, TwoPi)
               ELSE Rem((o.m \oplus o.raan \oplus o.raan) \ominus theta0 \ominus theta0, TwoPi)
    lambdaDot0 == IF regime = "oneday"
                  THEN (((p15 \oplus (k14 \oplus p14)) \ominus SiderealSpeed) \oplus
                  (sun.mDot \oplus moon.mDot) \oplus (sun.argpDot \oplus moon.argpDot)
                  \oplus (sun.nodeDot \oplus moon.nodeDot)) \ominus n0
                  ELSE (p15 \oplus (sun.mDot \oplus moon.mDot) \oplus F("2") \otimes ((p14
                  \oplus (sun.nodeDot \oplus moon.nodeDot)) \ominus SiderealSpeed)) \ominus
                  n0
    resonance == [theta0 |-> theta0, lambda0 |-> lambda0, lambdaDot0 |-> lambdaDot0, k14 |-> k14,
                  terms |-> IF regime = "oneday" THEN OneDayTerms(o, a0) ELSE HalfDayTerms(o, a0)]
  IN [c |-> common,
      method |-> IF regime = "near" THEN near ELSE deep,
      res |-> IF Resonant(regime) THEN resonance ELSE <<>>]

(************************* resonance integrator ****************************)
(* integrator state [t, n, l]: time, mean motion, resonance longitude      *)
Step720 == F("720")
InitialIntegrator(c) == [t |-> Zero, n |-> c.c.o.n, l |-> c.res.lambda0]

(* first and second derivatives of the mean motion, and longitude rate     *)
Rates(c, st) ==
  LET
    d == c.res.terms
    l == st.l
    ldot == st.n \oplus c.res.lambdaDot0
    w == c.c.o.argp \oplus c.res.k14 \otimes st.t
    x1 == l \ominus F("0.13130908")
    x2 == F("2") \otimes (l \ominus F("2.8843198"))
    x3 == F("3") \otimes (l \ominus F("0.37448087"))
    y2201 == (F("2") \otimes w \oplus l) \ominus F("5.7686396")
    y2211 == l \ominus F("5.7686396")
    y3210 == (w \oplus l) \ominus F("0.95240898")
    y3222 == l \ominus w \ominus F("0.95240898")
    y4410 == (F("2") \otimes w \oplus F("2") \otimes l) \ominus F("1.8014998")
    y4422 == F("2") \otimes l \ominus F("1.8014998")
    y5220 == (w \oplus l) \ominus F("1.0508330")
    y5232 == l \ominus w \ominus F("1.0508330")
    y5421 == (w \oplus F("2") \otimes l) \ominus F("4.4108898")
    y5433 == F("2") \otimes l \ominus w \ominus F("4.4108898")
  IN [ldot |-> ldot,
      ndot |->
        IF c.c.regime = "oneday"
        THEN d.dr1 \otimes Sin(x1) \oplus d.dr2 \otimes Sin(x2) \oplus d.dr3 \otimes Sin(x3)
        ELSE d.d2201 \otimes Sin(y2201) \oplus d.d2211 \otimes Sin(y2211) \oplus d.d3210
        \otimes Sin(y3210) \oplus d.d3222 \otimes Sin(y3222) \oplus d.d4410 \otimes
        Sin(y4410) \oplus d.d4422 \otimes Sin(y4422) \oplus d.d5220 \otimes Sin(y5220)
        \oplus d.d5232 \otimes Sin(y5232) \oplus d.d5421 \otimes Sin(y5421) \oplus d.d5433
        \otimes Sin(y5433),
      nddot |->
        IF c.c.regime = "oneday"
        THEN (d.dr1 \otimes Cos(x1) \oplus F("2") \otimes d.dr2 \otimes Cos(x2) \oplus
        F("3") \otimes d.dr3 \otimes Cos(x3)) \otimes ldot
        ELSE (d.d2201 \otimes Cos(y2201) \oplus d.d2211 \otimes Cos(y2211) \oplus d.d3210
        \otimes Cos(y3210) \oplus d.d3222 \otimes Cos(y3222) \oplus d.d5220 \otimes
        Cos(y5220) \oplus d.d5232 \otimes Cos(y5232) \oplus F("2") \otimes (d.d4410 \otimes
        Cos(y4410) \oplus d.d4422 \otimes Cos(y4422) \oplus d.d5421 \otimes Cos(y5421)
        \oplus d.d5433 \otimes Cos(y5433))) \otimes ldot]

(* one 720 min step away from the epoch, dt = +-720                        *)
IntegratorStep(c, st, dt) ==
  LET r == Rates(c, st)
      half == Sq(dt) \oslash F("2")
  IN [t |-> st.t \oplus dt,
      n |-> st.n \oplus r.ndot \otimes dt \oplus r.nddot \otimes half,
      l |-> st.l \oplus r.ldot \otimes dt \oplus r.ndot \otimes half]

(* number of steps a state must have made to serve time t: the integrator  *)
(* stops at the multiple of 720 obtained by truncating t toward zero       *)
TruncateToStep(t) == t \ominus Rem(t, Step720)   \* exact
StepsFor(t) ==
  IF IsFinite(t) THEN ToInt(Abs(TruncateToStep(Exactly(t)) \oslash Step720)) ELSE 0

(* the state after j steps towards t, starting from st                     *)
Advance(c, st, dt, j) == Ext!FoldLeft(LAMBDA x, i : IntegratorStep(c, x, dt), st, [i \in 1..j |-> i])

IntegratorAt(c, t) ==
  Advance(c, InitialIntegrator(c), IF IsNegative(t) THEN F("-720") ELSE F("720"), StepsFor(t))

(* semi-major axis and mean anomaly from a state whose time is at most one *)
(* step before t                                                           *)
FromIntegrator(c, st, t, p22, p23) ==
  LET
    r == Rates(c, st)
    dt == t \ominus st.t
    theta == Rem(c.res.theta0 \oplus t \otimes SiderealSpeed, TwoPi)
    lam == st.l \oplus r.ldot \otimes dt \oplus F("0.5") \otimes r.ndot \otimes Sq(dt)
    n == st.n \oplus r.ndot \otimes dt \oplus F("0.5") \otimes r.nddot \otimes Sq(dt)
  IN [n |-> n,
      p28 |-> Pow(c.c.g.ke \oslash n, F("2.0") \oslash F("3.0")),
      p29 |-> IF c.c.regime = "oneday"
              THEN (lam \ominus p22 \ominus p23) \oplus theta
              ELSE (lam \ominus F("2") \otimes p22) \oplus F("2") \otimes theta]

(****************************** propagation ********************************)
P35(g, incl) ==
  LET
    ci == Cos(incl)
    den == IF Abs(F("1") \oplus ci) \succ F("1.5e-12") THEN F("1") \oplus ci ELSE F("1.5e-12")
  IN (F("-0.25") \otimes (g.j3 \oslash g.j2) \otimes Sin(incl) \otimes (F("3") \oplus
     F("5") \otimes ci)) \oslash den

(* secular and long-period elements at time t:                             *)
(*   e31: eccentricity before third-body terms; e: eccentricity used;      *)
(*   i, raan, argp, m, a; lyddane: whether the low-inclination form is used*)
(*   n: the mean motion that gives the semi-major axis before drag         *)
NearElements(c, t) ==
  LET
    o == c.c.o
    m == c.method
    p22 == o.raan \oplus m.nodeDot \otimes t \oplus c.c.k0 \otimes Sq(t)
    p23 == o.argp \oplus m.argpDot \otimes t
    p24 == o.m \oplus m.mDot \otimes t
    p25 == IF m.elliptic THEN m.k13 \otimes (PowI(F("1") \oplus m.eta \otimes
           Cos(p24), 3) \ominus m.k11) \oplus m.k12 \otimes t ELSE Zero
    p26 == p24 \oplus p25
    ecc == o.ecc \ominus (c.c.c4 \otimes t \oplus m.c5 \otimes (Sin(p26) \ominus m.k7))
  IN [i |-> o.incl, raan |-> p22, p22 |-> p22, lyddane |-> FALSE, n |-> o.n,
      argp |-> IF m.highAltitude THEN p23 \ominus p25 ELSE p23,
      m |-> IF m.highAltitude
            THEN p26 \oplus o.n \otimes (c.c.k1 \otimes Sq(t) \oplus m.k8 \otimes PowI(t, 3)
            \oplus PowI(t, 4) \otimes (m.k9 \oplus t \otimes m.k10))
            ELSE p24 \oplus o.n \otimes c.c.k1 \otimes Sq(t),
      a |-> IF m.highAltitude
            THEN c.c.a0 \otimes Sq(F("1") \ominus c.c.c1 \otimes t \ominus m.d2 \otimes
            Sq(t) \ominus m.d3 \otimes PowI(t, 3) \ominus m.d4 \otimes PowI(t, 4))
            ELSE c.c.a0 \otimes Sq(F("1") \ominus c.c.c1 \otimes t),
      e31 |-> IF m.highAltitude THEN ecc ELSE o.ecc \ominus c.c.c4 \otimes t,
      de |-> Zero]

(* st: integrator state for t (ignored unless the orbit is resonant);      *)
(* afspc: AFSPC compatibility mode                                         *)
DeepElements(c, t, st, afspc) ==
  LET
    o == c.c.o
    m == c.method
    p22 == o.raan \oplus m.nodeDot \otimes t \oplus c.c.k0 \otimes Sq(t)
    p23 == o.argp \oplus m.argpDot \otimes t
    r == IF Resonant(c.c.regime) THEN FromIntegrator(c, st, t, p22, p23)
         ELSE [n |-> o.n, p28 |-> c.c.a0, p29 |-> o.m \oplus m.mDot \otimes t]
    s == Periodic(m.sun, Sun, t)
    l == Periodic(m.moon, Moon, t)
    di == s.di \oplus l.di
    p5 == s.p5 \oplus l.p5
    i == o.incl \oplus m.inclDot \otimes t \oplus di
    lyddane == ~(i \succeq F("0.2"))
    si == Sin(i)
    ci == Cos(i)
    p30 == Atan2(si \otimes Sin(p22) \oplus (p5 \otimes Cos(p22) \oplus di \otimes ci
           \otimes Sin(p22)), si \otimes Cos(p22) \oplus (Neg(p5) \otimes Sin(p22) \oplus di
           \otimes ci \otimes Cos(p22)))
    p22rem == Rem(p22, TwoPi)
    lyddaneNode == IF p30 \prec (p22rem \ominus Pi) THEN p30 \oplus TwoPi
                   ELSE IF p30 \succ (p22rem \oplus Pi) THEN p30 \ominus TwoPi
                   ELSE p30
    p22mode == IF afspc THEN Mod(p22, TwoPi) ELSE p22rem
  IN [i |-> i, p22 |-> p22, lyddane |-> lyddane, n |-> r.n,
      raan |-> IF lyddane THEN lyddaneNode ELSE p22 \oplus (p5 \oslash si),
      argp |-> IF lyddane
               THEN (p23 \oplus (s.p4 \oplus l.p4) \oplus ci \otimes (p22rem \ominus
               lyddaneNode)) \ominus di \otimes p22mode \otimes si
               ELSE (p23 \oplus (s.p4 \oplus l.p4)) \ominus ci \otimes (p5 \oslash si),
      m |-> r.p29 \oplus (s.dm \oplus l.dm) \oplus o.n \otimes c.c.k1 \otimes Sq(t),
      a |-> r.p28 \otimes Sq(F("1") \ominus c.c.c1 \otimes t),
      e31 |-> (o.ecc \oplus m.eccDot \otimes t) \ominus c.c.c4 \otimes t,
      de |-> s.de \oplus l.de]

(* Newton iteration of Kepler's equation on E + omega: at most ten         *)
(* corrections, stopping when one is below 1e-12                           *)
RECURSIVE Kepler(_, _, _, _, _)
Kepler(ew, p38, axn, ayn, left) ==
  LET
    delta == (((p38 \ominus ayn \otimes Cos(ew)) \oplus axn \otimes Sin(ew)) \ominus ew)
             \oslash (F("1") \ominus Cos(ew) \otimes axn \ominus Sin(ew) \otimes ayn)
    step == FMax(F("-0.95"), FMin(F("0.95"), delta))
  IN IF left = 0 THEN [ew |-> ew, converged |-> Abs(delta) \prec F("1.0e-9")]
     ELSE IF Abs(delta) \prec F("1.0e-12") THEN [ew |-> ew, converged |-> TRUE]
     ELSE Kepler(ew \oplus step, p38, axn, ayn, left - 1)

(* outcome: [k |-> kind, ecc, pos, vel, ..] with kind                      *)
(*   "ok"   pos (km) and vel (km/s) are the prediction                     *)
(*   "ecc"  the eccentricity ecc before third-body terms is out of range   *)
(*   "pecc" the perturbed eccentricity ecc is out of range                 *)
(*   "pl"   the semi-latus rectum is negative (or undefined)               *)
EccentricityInRange(e) == e \succeq F("-0.001") /\ e \prec F("1")
PerturbedEccentricityInRange(e) == e \succeq Zero /\ e \preceq F("1")
SemiLatusRectumInRange(pl) == pl \succeq Zero

Observe(c, x) ==
  LET
    g == c.c.g
    deep == c.c.regime # "near"
    eccOk == EccentricityInRange(x.e31)
    ecc == FMax(x.e31, F("1.0e-6"))
    pecc == IF deep THEN ecc \oplus x.de ELSE ecc
    peccOk == ~deep \/ PerturbedEccentricityInRange(pecc)
    i == x.i
    a == x.a
    ci == Cos(i)
    si == Sin(i)
    n == g.ke \oslash Pow(a, F("1.5"))
    p32 == F("-0.5") \otimes (g.j3 \oslash g.j2) \otimes si
    p33 == F("1") \ominus Sq(ci)
    p34 == F("7") \otimes Sq(ci) \ominus F("1")
    p35 == P35(g, i)
    p36 == F("3") \otimes Sq(ci) \ominus F("1")
    p37 == F("1") \oslash (a \otimes (F("1") \ominus Sq(pecc)))
    axn == pecc \otimes Cos(x.argp)
    ayn == pecc \otimes Sin(x.argp) \oplus p37 \otimes p32
    p38 == Rem(x.m \oplus x.argp \oplus p37 \otimes p35 \otimes axn, TwoPi)
    kepler == Kepler(p38, p38, axn, ayn, 10)
    ew == kepler.ew
    p39 == Sq(axn) \oplus Sq(ayn)
    pl == a \otimes (F("1") \ominus p39)
    p40 == axn \otimes Sin(ew) \ominus ayn \otimes Cos(ew)
    r == a \otimes (F("1") \ominus (axn \otimes Cos(ew) \oplus ayn \otimes Sin(ew)))
    rdot == (Sqrt(a) \otimes p40) \oslash r
    b == Sqrt(F("1") \ominus p39)
    p41 == p40 \oslash (F("1") \oplus b)
    p42 == (a \oslash r) \otimes (Sin(ew) \ominus ayn \ominus axn \otimes p41)
    p43 == (a \oslash r) \otimes ((Cos(ew) \ominus axn) \oplus ayn \otimes p41)
    u == Atan2(p42, p43)
    p44 == F("2") \otimes p43 \otimes p42
    p45 == F("1") \ominus F("2") \otimes Sq(p42)
    p46 == ((F("0.5") \otimes g.j2) \oslash pl) \oslash pl
    rk == r \otimes (F("1") \ominus F("1.5") \otimes p46 \otimes b \otimes p36) \oplus
          F("0.5") \otimes ((F("0.5") \otimes g.j2) \oslash pl) \otimes p33 \otimes p45
    uk == u \ominus F("0.25") \otimes p46 \otimes p34 \otimes p44
    ik == i \oplus F("1.5") \otimes p46 \otimes ci \otimes si \otimes p45
    ok == x.raan \oplus F("1.5") \otimes p46 \otimes ci \otimes p44
    rkdot == rdot \ominus ((n \otimes ((F("0.5") \otimes g.j2) \oslash pl) \otimes p33
             \otimes p44) \oslash g.ke)
    rfkdot == (Sqrt(pl) \oslash r) \oplus ((n \otimes ((F("0.5") \otimes g.j2) \oslash pl)
              \otimes (p33 \otimes p45 \oplus F("1.5") \otimes p36)) \oslash g.ke)
    so == Sin(ok)
    co == Cos(ok)
    su == Sin(uk)
    cu == Cos(uk)
    cik == Cos(ik)
    sik == Sin(ik)
    u0 == Neg(so) \otimes cik \otimes su \oplus co \otimes cu
    u1 == co \otimes cik \otimes su \oplus so \otimes cu
    u2 == sik \otimes su
    speed == (g.ae \otimes g.ke) \oslash F("60")
    x0 == rk \otimes u0 \otimes g.ae
    x1 == rk \otimes u1 \otimes g.ae
    x2 == rk \otimes u2 \otimes g.ae
    v0 == (rkdot \otimes u0 \oplus rfkdot \otimes (Neg(so) \otimes cik \otimes cu \ominus co
          \otimes su)) \otimes speed
    v1 == (rkdot \otimes u1 \oplus rfkdot \otimes (co \otimes cik \otimes cu \ominus so
          \otimes su)) \otimes speed
    v2 == (rkdot \otimes u2 \oplus rfkdot \otimes (sik \otimes cu)) \otimes speed
    Out(k, e, pos, vel, conv) == [k |-> k, ecc |-> e, pos |-> pos, vel |-> vel,
                                  converged |-> conv, lyddane |-> x.lyddane, p22 |-> x.p22,
                                  deep |-> deep, i |-> i, e31 |-> x.e31, pecc |-> pecc, pl |-> pl,
                                  n |-> x.n, meaningful |-> c.c.o.n \succ Zero]
  IN IF ~eccOk THEN Out("ecc", x.e31, <<>>, <<>>, TRUE)
     ELSE IF ~peccOk THEN Out("pecc", pecc, <<>>, <<>>, TRUE)
     ELSE IF ~SemiLatusRectumInRange(pl) THEN Out("pl", Zero, <<>>, <<>>, TRUE)
     ELSE Out("ok", Zero, <<x0, x1, x2>>, <<v0, v1, v2>>, kepler.converged)

(* prediction from an integrator state st that serves t                    *)
PropagateFrom(c, t, st, afspc) ==
  Observe(c, IF c.c.regime = "near" THEN NearElements(c, t) ELSE DeepElements(c, t, st, afspc))

(* one-shot prediction                                                     *)
Propagate(c, t, afspc) ==
  PropagateFrom(c, t, IF Resonant(c.c.regime) THEN IntegratorAt(c, t) ELSE <<>>, afspc)
=============================================================================

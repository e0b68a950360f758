---------------------------- MODULE ElementSets -----------------------------
(***************************************************************************)
(* The element sets a conformance run must visit: valid ones in every      *)
(* regime and, for Purpose = "validation", ones on both sides of every     *)
(* validity limit.  TLC enumerates them, checks the validation rules       *)
(* themselves, and prints sessions for the implementation.                 *)
(***************************************************************************)
EXTENDS Predictions, Json, IOUtils

Purpose == IOEnv.PURPOSE   \* "construction" or "validation"

VARIABLES pick, done

Up(x) == NextUp(F(x))
Down(x) == NextDown(F(x))

Datetimes == <<[y |-> 2000, o |-> 1, s |-> 43200, n |-> 0],
               [y |-> 1999, o |-> 365, s |-> 86399, n |-> 999999999],
               [y |-> 2024, o |-> 366, s |-> 1, n |-> 500000000],
               [y |-> 1961, o |-> 60, s |-> 70000, n |-> 123456789],
               [y |-> 2055, o |-> 200, s |-> 12345, n |-> 1]>>

(* mean motion in revolutions per day                                      *)
Dimensions ==
  IF Purpose = "construction"
  THEN << <<F("16.3"), F("15.2"), F("13"), F("6.41"), F("6.39"), F("3.1"), F("2.0057"),
            F("1.9"), F("1.0027"), F("0.85"), F("0.3")>>,
          <<F("0"), F("0.0001"), F("0.013"), F("0.55"), F("0.69"), F("0.73")>>,
          <<F("0.03"), F("4.1"), F("28.5"), F("63.43"), F("98.2"), F("178")>> >>
  ELSE << <<F("-Infinity"), F("-3"), F("-1e-300"), F("-0.0"), F("0"), F("1e-300"), F("1e-8"),
            F("0.4"), F("1.003"), F("2.006"), F("15"), F("60"), F("300"), F("1000"), F("5000")>>,
          <<F("-Infinity"), F("-1"), F("-1e-300"), F("-0.0"), F("0"), F("5e-324"), F("0.5"),
            F("0.97"), F("0.9999"), Down("1"), F("1"), Up("1"), F("2"), F("NaN"), F("Infinity")>>,
          <<F("0"), F("54"), F("55"), F("90"), F("126"), F("180")>> >>

Mix == (pick[1] * 7 + pick[2] * 3 + pick[3] * 5)
Among(q, salt) == q[((Mix * salt) % Len(q)) + 1]
Value(d) == Dimensions[d][pick[d]]

Absent == [some |-> FALSE, b |-> <<>>]

ElementSet ==
  [name |-> Absent, intl |-> Absent, norad |-> <<2, 5, 5, 4, 4>>, cls |-> "U",
   dt |-> Among(Datetimes, 1), mmd |-> F("1e-5"), mmdd |-> F("0"),
   bstar |-> Among(<<F("0"), F("1e-4"), F("-2e-5")>>, 1),
   elset |-> <<9, 9, 9>>, incl |-> Value(3), raan |-> Among(<<F("0"), F("40.5"), F("339.1")>>, 2),
   ecc |-> Value(2), argp |-> Among(<<F("0"), F("101.5"), F("270"), F("350.9")>>, 3),
   m |-> Among(<<F("0"), F("33.3"), F("180"), F("290.1"), F("359.9999")>>, 1), n |-> Value(1),
   rev |-> <<1, 2, 3, 4>>, eph |-> 0]

Times == <<F("0"), F("-123.4"), F("5000"), F("200000"), F("-100000")>>

(* the same element set through both constructors, and given to the        *)
(* low-level interface                                                     *)
Converted(g) ==
  [op |-> "kozai", g |-> g,
   o |-> [incl |-> Degrees(Value(3)), raan |-> F("1"), ecc |-> Value(2), argp |-> F("-2"),
          m |-> F("50"), n |-> Value(1) \otimes (Pi \oslash F("720"))]]

Direct == [op |-> "new", c |-> 3, g |-> [name |-> "wgs84"], sid |-> "iau", theta |-> Zero,
           y |-> F("20"), bstar |-> F("1e-5"),
           o |-> [incl |-> Degrees(Value(3)), raan |-> F("1"), ecc |-> Value(2), argp |-> F("-2"),
                  m |-> F("50"), n |-> F("0.06")]]

Session ==
  <<[op |-> "elem", e |-> 1, el |-> ElementSet],
    [op |-> "from", e |-> 1, c |-> 1, afspc |-> FALSE],
    [op |-> "from", e |-> 1, c |-> 2, afspc |-> TRUE]>>
  \o IF Purpose = "construction"
     THEN [j \in 1..(2 * Len(Times)) |->
             [op |-> "prop", c |-> IF j % 2 = 0 THEN 1 ELSE 2, t |-> Times[(j + 1) \div 2],
              afspc |-> j % 2 = 1]]
     ELSE <<Converted([name |-> "wgs84"]), Converted([name |-> "wgs72"]), Direct>>

Init == pick = <<>> /\ done = FALSE

Complete == Len(pick) = Len(Dimensions)

Next ==
  \/ /\ ~Complete
     /\ \E v \in 1..Len(Dimensions[Len(pick) + 1]) : pick' = Append(pick, v)
     /\ UNCHANGED done
  \/ /\ Complete /\ ~done
     /\ PrintT("@@" \o ToJson(Session))
     /\ done' = TRUE
     /\ UNCHANGED pick

Spec == Init /\ [][Next]_<<pick, done>>

(* the rules decide every element set, mean motion first                   *)
Rules ==
  done =>
    \A afspc \in BOOLEAN :
      LET r == FromElements(ElementSet, afspc, 0)
      IN /\ r.k \in {"ok", "kozai", "brouwer", "epochecc"}
         /\ (r.k = "kozai") <=> (Value(1) \preceq Zero)
         /\ r.k = "ok" => /\ Value(2) \succeq Zero /\ Value(2) \prec F("1")
                          /\ r.c.c.o.n \succ Zero
         /\ Purpose = "construction" => r.k = "ok"
=============================================================================

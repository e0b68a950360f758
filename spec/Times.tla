------------------------------- MODULE Times --------------------------------
(***************************************************************************)
(* The instants a conformance run must visit, and the laws of the          *)
(* calendar.                                                               *)
(*                                                                         *)
(* PURPOSE epochs    every year from 1901 to 2099, days around months and  *)
(*                   leap days                                             *)
(*         elapsed   pairs of instants, up to and beyond 64-bit            *)
(*                   nanoseconds                                           *)
(*         sidereal  epochs from 1957 to 2056                              *)
(***************************************************************************)
EXTENDS Predictions, Json, IOUtils

Purpose == IOEnv.PURPOSE

VARIABLES
  a,      \* the origin
  b,      \* the instant
  off,    \* how the instant was chosen, counted from the origin
  done

vars == <<a, b, off, done>>

Date(y, o, s, n) == [y |-> y, o |-> o, s |-> s, n |-> n]

Seconds == <<0, 1, 3599, 43199, 43200, 43201, 59400, 86399>>
Fractions == <<0, 1, 500000000, 999999999, 123456789>>

MonthEnds(y) == {DaysBeforeMonth(y, m) + e : m \in 1..12, e \in {1, 2}} \cup
                {DaysBeforeMonth(y, m) : m \in 2..12} \cup {YearLength(y) - 1, YearLength(y)}

Origins == {Date(1957, 277, 70114, 0), Date(2000, 1, 43200, 0), Date(1999, 365, 86399, 999999999),
            Date(2024, 60, 1, 1), Date(2055, 366 - 1, 0, 500000000), Date(1901, 1, 0, 0), Date(2000, 366, 86399, 1)}

(* the latest and earliest instants 2^63 ns away from an origin are about  *)
(* 292 years and 99 to 100 days away: search around by days and seconds    *)
FarDays == {106750, 106751, 106752, -106751, -106752, -106753}

(* the datetime so many days after                                         *)
RECURSIVE Normal(_, _)
Normal(y, o) ==
  IF o < 1 THEN Normal(y - 1, o + YearLength(y - 1))
  ELSE IF o > YearLength(y) THEN Normal(y + 1, o - YearLength(y)) ELSE <<y, o>>
Later(dt, days) == LET yo == Normal(dt.y, dt.o + days) IN [dt EXCEPT !.y = yo[1], !.o = yo[2]]

(* 2^63 ns is 106751 days, 85636 s and 854775807 ns (one more backwards)   *)
Plus1(dt, days, seconds, nanos) ==
  LET n == dt.n + nanos
      s == dt.s + seconds + (n \div 1000000000)
      d == Later(dt, days + (s \div 86400))
  IN [d EXCEPT !.s = s % 86400, !.n = n % 1000000000]

Near64 ==
  {<<106751, 85636, x>> : x \in {854775806, 854775807, 854775808}} \cup
  {<<-106752, 763, x>> : x \in {145224191, 145224192, 145224193}} \cup
  {<<d, 0, 0>> : d \in FarDays} \cup {<<106751, 85636, 0>>, <<106751, 85637, 0>>, <<-106752, 763, 0>>, <<-106752, 764, 0>>}

Small ==
  {<<d, s, n>> : d \in {0, 1, -1, 30, -30, 365, -366, 3653, 36525, -36525}, s \in {0, 1, 59, 60, 43201},
                 n \in {0, 1, 999999999, 123456789}}

Init == /\ done = FALSE /\ off = <<>>
        /\ a \in CASE Purpose = "epochs" -> {Date(y, 1, 0, 0) : y \in 1901..2099}
                   [] Purpose = "elapsed" -> Origins
                   [] Purpose = "sidereal" -> {Date(y, 1, 0, 0) : y \in 1957..2056}
        /\ b = a

Element(dt) ==
  [name |-> [some |-> FALSE, b |-> <<>>], intl |-> [some |-> FALSE, b |-> <<>>], norad |-> <<5>>, cls |-> "U",
   dt |-> dt, mmd |-> Zero, mmdd |-> Zero, bstar |-> Zero, elset |-> <<1>>, incl |-> F("51"), raan |-> Zero,
   ecc |-> F("0.01"), argp |-> Zero, m |-> Zero, n |-> F("15"), rev |-> <<1>>, eph |-> 0]

Ops ==
  CASE Purpose = "epochs" ->
         <<[op |-> "epoch", dt |-> b], [op |-> "elem", e |-> 1, el |-> Element(b)], [op |-> "eepoch", e |-> 1]>>
    [] Purpose = "elapsed" ->
         <<[op |-> "elem", e |-> 1, el |-> Element(a)], [op |-> "d2m", e |-> 1, dt |-> b],
           [op |-> "back", e |-> 1, dt |-> b],
           [op |-> "m2d", e |-> 1, t |-> InMinutes(Elapsed(a, b))],
           [op |-> "m2d", e |-> 1, t |-> NextUp(InMinutes(Elapsed(a, b)))],
           [op |-> "m2d", e |-> 1, t |-> NextDown(InMinutes(Elapsed(a, b)))]>>
    [] Purpose = "sidereal" ->
         [j \in 1..3 |-> [op |-> "sid", y |-> JulianYears(b) \oplus (F("1e-6") \otimes FInt(j - 2))]]

Show == ~done /\ off # <<>> /\ PrintT("@@" \o ToJson(Ops)) /\ done' = TRUE /\ UNCHANGED <<a, b, off>>

Go ==
  /\ ~done /\ off = <<>>
  /\ CASE Purpose = "elapsed" ->
            \E x \in Near64 \cup Small : off' = x /\ b' = Plus1(a, x[1], x[2], x[3])
       [] Purpose = "epochs" ->
            \E o \in MonthEnds(a.y) : \E k \in {0, 3} :
              /\ off' = <<o, k>>
              /\ b' = Date(a.y, o, Seconds[((o + a.y + k) % Len(Seconds)) + 1],
                           Fractions[((o + 2 * a.y + k) % Len(Fractions)) + 1])
       [] Purpose = "sidereal" ->
            \E o \in {2, 60, 181, 182, 183, 300, 365} : \E k \in 1..Len(Seconds) :
              /\ off' = <<o, k>>
              /\ b' = Date(a.y, o, Seconds[k], Fractions[((o + k) % Len(Fractions)) + 1])
  /\ UNCHANGED <<a, done>>

Next == Show \/ Go
Spec == Init /\ [][Next]_vars

(********************************* the laws ********************************)
Valid(dt) == dt.o \in 1..YearLength(dt.y) /\ dt.s \in 0..86399 /\ dt.n \in 0..999999999

Calendars ==
  /\ Valid(a) /\ Valid(b)
  /\ YearStart(a.y + 1) - YearStart(a.y) = YearLength(a.y)
  /\ DaysBeforeMonth(a.y, 12) + 31 = YearLength(a.y)
  /\ Days(Later(b, 1)) = Days(b) + 1

(* elapsed time is additive, and changes sign with direction               *)
ElapsedLaws ==
  LET d == Elapsed(a, b)
      e == Elapsed(b, a)
      noon == Date(2000, 1, 43200, 0)
  IN /\ d.n \in 0..999999999
     /\ FEq(d.s \oplus e.s, FInt(IF d.n = 0 THEN 0 ELSE -1)) /\ (d.n + e.n) % 1000000000 = 0
     /\ FEq(JulianYears(noon), Zero)
     /\ Abs(JulianYears(b) \ominus (InNanoseconds(Elapsed(noon, b)) \oslash F("3.15576e16")))
          \preceq (F("3e-14") \oplus (Abs(JulianYears(b)) \otimes F("3e-16")))

(* the two sidereal times agree to a few arc seconds, and turn forward     *)
SiderealLaws ==
  LET y == JulianYears(b)
      iau == IauSiderealTime(y)
      afspc == AfspcSiderealTime(y)
      minute == IauSiderealTime(y \oplus F("1.9013e-6"))    \* a minute later
      Round(x) == Abs(Mod(x \oplus Pi, TwoPi) \ominus Pi)
  IN Purpose = "sidereal" =>
       /\ iau \succeq Zero /\ iau \prec TwoPi /\ afspc \succeq Zero /\ afspc \prec TwoPi
       /\ Round(iau \ominus afspc) \prec F("2e-5")
       /\ Round((minute \ominus iau) \ominus F("0.0043752")) \prec F("1e-6")

(* exactly the offsets up to 2^63 - 1 and down to -2^63 fit                *)
Limits64 ==
  (Purpose = "elapsed" /\ off # <<>>) =>
    (FitsIn64Bits(Elapsed(a, b)) <=>
       \/ off[1] = 106751 /\ (off[2] < 85636 \/ (off[2] = 85636 /\ off[3] <= 854775807))
       \/ off[1] \in -106751..106750
       \/ off[1] = -106752 /\ (off[2] > 763 \/ (off[2] = 763 /\ off[3] >= 145224192)))
=============================================================================

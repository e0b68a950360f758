------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* Gregorian calendar and UTC instants, on integers.                       *)
(*                                                                         *)
(* A datetime is a record [y, o, s, n]: year, day of the year (from 1),    *)
(* second of the day, nanosecond.                                          *)
(***************************************************************************)
EXTENDS Integers, Float64

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
YearLength(y) == IF Leap(y) THEN 366 ELSE 365

(* days from 1 January 2000 to 1 January y                                 *)
YearStart(y) ==
  365 * (y - 2000) + (((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400)) - 484

Days(dt) == YearStart(dt.y) + dt.o - 1

(* Julian years (365.25 days) since 2000-01-01T12:00:00                    *)
JulianYears(dt) ==
  (((((FInt(dt.n) \oslash F("1e9")) \oplus FInt(dt.s - 43200)) \oslash F("86400"))
    \oplus FInt(Days(dt))) \oslash F("365.25"))

(* month and day of the month                                              *)
MonthLength(y, m) ==
  IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
  ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
RECURSIVE DaysBeforeMonth(_, _)
DaysBeforeMonth(y, m) == IF m = 1 THEN 0 ELSE DaysBeforeMonth(y, m - 1) + MonthLength(y, m - 1)

(* the time from a to b in seconds (a real, exact) and nanoseconds, the    *)
(* latter in 0..999999999                                                  *)
Elapsed(a, b) ==
  LET borrow == b.n < a.n
  IN [s |-> (FInt(Days(b) - Days(a)) \otimes F("86400")) \oplus FInt(b.s - a.s - IF borrow THEN 1 ELSE 0),
      n |-> b.n - a.n + IF borrow THEN 1000000000 ELSE 0]

(* 2^63 - 1 and -2^63 nanoseconds                                          *)
FitsIn64Bits(d) ==
  /\ \/ d.s \prec F("9223372036")
     \/ FEq(d.s, F("9223372036")) /\ d.n <= 854775807
  /\ \/ d.s \succ F("-9223372037")
     \/ FEq(d.s, F("-9223372037")) /\ d.n >= 145224192

(* rounded, unless below 2^53                                              *)
InNanoseconds(d) == (d.s \otimes F("1e9")) \oplus FInt(d.n)
InMinutes(d) == InNanoseconds(d) \oslash F("6e10")

(* how far rounding may move a number of nanoseconds                       *)
NanosecondRounding(x) == Abs(x) \otimes F("5e-16")
=============================================================================

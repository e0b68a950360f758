----------------------------- MODULE Interchange ----------------------------
(***************************************************************************)
(* The same element set in both formats: how its decimal digits are laid   *)
(* out in two lines and in a message, and when two element sets agree.     *)
(*                                                                         *)
(* A set is given by the digits of its fields:                             *)
(*   norad (5), cls (byte), intl: [some, year (2), piece (bytes <= 6)],    *)
(*   year (2), day (3), fraction (8), mmd: [neg, d (8)],                   *)
(*   mmdd, bstar: [neg, d (5), neg exponent, exponent (1)], eph (1),       *)
(*   elset (4), incl, raan, argp, m: [w (3), p (4)], ecc (7),              *)
(*   n: [w (2), p (8)], rev (5)                                            *)
(***************************************************************************)
EXTENDS JsonText, Calendar

T == INSTANCE Tle
O == INSTANCE Omm

Chars(d) == [j \in 1..Len(d) |-> 48 + d[j]]

(* leading zeros as blanks, keeping the last digit                         *)
RECURSIVE Blanked(_)
Blanked(d) ==
  IF Len(d) > 1 /\ Head(d) = 0 THEN <<32>> \o Blanked(Tail(d)) ELSE Chars(d)

Sign(negative) == IF negative THEN <<45>> ELSE <<32>>

(********************************* two lines *******************************)
Close(line) ==
  LET full == Append(line, 48) IN Append(line, 48 + T!Checksum(full))

PieceField(piece) == piece \o [j \in 1..(6 - Len(piece)) |-> 32]

Exponential(x) == Sign(x.neg) \o Chars(x.d) \o (IF x.eneg THEN <<45>> ELSE <<43>>) \o Chars(<<x.e>>)

(* blanks: leading zeros are written as blanks                             *)
Field(d, blanks) == IF blanks THEN Blanked(d) ELSE Chars(d)
AngleField(x, blanks) == Field(x.w, blanks) \o <<46>> \o Chars(x.p)

Line1(x, blanks) ==
  Close(Bytes("1 ") \o Field(x.norad, blanks) \o <<x.cls>> \o <<32>> \o
        (IF x.intl.some THEN Chars(x.intl.year) \o PieceField(x.intl.piece) ELSE Bytes("        ")) \o <<32>> \o
        Chars(x.year) \o Field(x.day, blanks) \o <<46>> \o Chars(x.fraction) \o <<32>> \o
        Sign(x.mmd.neg) \o <<46>> \o Chars(x.mmd.d) \o <<32>> \o
        Exponential(x.mmdd) \o <<32>> \o Exponential(x.bstar) \o <<32>> \o Chars(<<x.eph>>) \o <<32>> \o
        Field(x.elset, blanks))

Line2(x, blanks) ==
  Close(Bytes("2 ") \o Field(x.norad, blanks) \o <<32>> \o AngleField(x.incl, blanks) \o <<32>> \o
        AngleField(x.raan, blanks) \o <<32>> \o Chars(x.ecc) \o <<32>> \o AngleField(x.argp, blanks) \o <<32>> \o
        AngleField(x.m, blanks) \o <<32>> \o Field(x.n.w, blanks) \o <<46>> \o Chars(x.n.p) \o
        Field(x.rev, blanks))

(********************************* message *********************************)
(* nanoseconds of the day: the fraction counts 864000 ns                   *)
FractionNumber(x) == Number(x.fraction)      \* < 10^8
Microseconds(x) == (FractionNumber(x) % 3125) * 864     \* of the seconds left below
(* 10^8 units a day: 3125 units are 2.7 s; all in integers below 2^31      *)
SecondsOfDay(x) ==
  LET units == FractionNumber(x)
      tenths == (units \div 3125) * 27                 \* tenths of a second
  IN [s |-> tenths \div 10 + ((tenths % 10) * 100000 + Microseconds(x)) \div 1000000,
      us |-> ((tenths % 10) * 100000 + Microseconds(x)) % 1000000]

MonthOf(y, o) == CHOOSE m \in 1..12 : DaysBeforeMonth(y, m) < o /\ o <= DaysBeforeMonth(y, m) + MonthLength(y, m)
RECURSIVE Wide(_, _)
Wide(n, width) == IF width = 0 THEN <<>> ELSE Wide(n \div 10, width - 1) \o <<48 + (n % 10)>>

EpochText(x) ==
  LET y == T!Century(Number(x.year))
      o == Number(x.day)
      mo == MonthOf(y, o)
      t == SecondsOfDay(x)
  IN Wide(y, 4) \o <<45>> \o Wide(mo, 2) \o <<45>> \o Wide(o - DaysBeforeMonth(y, mo), 2) \o <<84>> \o
     Wide(t.s \div 3600, 2) \o <<58>> \o Wide((t.s \div 60) % 60, 2) \o <<58>> \o Wide(t.s % 60, 2) \o
     <<46>> \o Wide(t.us, 6)

Whole(d) == Chars(Strip(d))
SignText(negative) == IF negative THEN <<45>> ELSE <<>>
AngleText(x) == Whole(x.w) \o <<46>> \o Chars(x.p)
ExponentialText(x) ==
  SignText(x.neg) \o Bytes("0.") \o Chars(x.d) \o Bytes("e") \o SignText(x.eneg) \o Chars(<<x.e>>)
DesignatorText(x) ==
  Wide(T!Century(Number(x.intl.year)), 4) \o <<45>> \o x.intl.piece

(* style: numbers as "num" or as "str"                                     *)
MessageOf(x, name, style) ==
  LET N(b) == [t |-> style, b |-> b]
      S(b) == [t |-> "str", b |-> b]
      M(k, v) == [k |-> Bytes(k), v |-> v]
  IN [t |-> "obj", m |->
      << M("OBJECT_NAME", IF name.some THEN S(name.b) ELSE [t |-> "null"]),
         M("OBJECT_ID", IF x.intl.some THEN S(DesignatorText(x)) ELSE [t |-> "null"]),
         M("EPOCH", S(EpochText(x))),
         M("MEAN_MOTION", N(Whole(x.n.w) \o <<46>> \o Chars(x.n.p))),
         M("ECCENTRICITY", N(Bytes("0.") \o Chars(x.ecc))),
         M("INCLINATION", N(AngleText(x.incl))), M("RA_OF_ASC_NODE", N(AngleText(x.raan))),
         M("ARG_OF_PERICENTER", N(AngleText(x.argp))), M("MEAN_ANOMALY", N(AngleText(x.m))),
         M("EPHEMERIS_TYPE", N(Chars(<<x.eph>>))), M("CLASSIFICATION_TYPE", S(<<x.cls>>)),
         M("NORAD_CAT_ID", N(Whole(x.norad))), M("ELEMENT_SET_NO", N(Whole(x.elset))),
         M("REV_AT_EPOCH", N(Whole(x.rev))), M("BSTAR", N(ExponentialText(x.bstar))),
         M("MEAN_MOTION_DOT", N(SignText(x.mmd.neg) \o Bytes("0.") \o Chars(x.mmd.d))),
         M("MEAN_MOTION_DDOT", N(ExponentialText(x.mmdd))) >>]

(******************************** agreement ********************************)
Close2(a, b) ==
  \/ FEq(a, b)
  \/ Abs(a \ominus b) \preceq (Abs(a) \otimes F("1e-13"))

SameInstant(a, b) ==
  LET d == Elapsed(a, b) IN Abs(InNanoseconds(d)) \preceq F("10")

(* the fields in which two element sets differ                             *)
Differences(a, b) ==
  {f \in {"norad", "cls", "intl", "eph", "elset", "rev", "name"} : a[f] # b[f]} \cup
  {f \in {"mmd", "mmdd", "bstar", "incl", "raan", "ecc", "argp", "m", "n"} : ~Close2(a[f], b[f])} \cup
  (IF SameInstant(a.dt, b.dt) THEN {} ELSE {"dt"})
=============================================================================

-------------------------------- MODULE Omm ---------------------------------
(***************************************************************************)
(* Orbit mean-elements messages: JSON objects that denote element sets.    *)
(*                                                                         *)
(* A reading is [k, x]: k = "ok" (the field has value x), "err" (the field *)
(* cannot hold this), "either" (refused, or x), "free" (refused, or        *)
(* anything).                                                              *)
(***************************************************************************)
EXTENDS JsonText, Calendar, FiniteSets

Reals ==
  << <<"mmd", "MEAN_MOTION_DOT">>, <<"mmdd", "MEAN_MOTION_DDOT">>, <<"bstar", "BSTAR">>,
     <<"incl", "INCLINATION">>, <<"raan", "RA_OF_ASC_NODE">>, <<"ecc", "ECCENTRICITY">>,
     <<"argp", "ARG_OF_PERICENTER">>, <<"m", "MEAN_ANOMALY">>, <<"n", "MEAN_MOTION">> >>
Counts ==
  << <<"norad", "NORAD_CAT_ID">>, <<"elset", "ELEMENT_SET_NO">>, <<"rev", "REV_AT_EPOCH">>,
     <<"eph", "EPHEMERIS_TYPE">> >>
Names == << <<"name", "OBJECT_NAME">>, <<"intl", "OBJECT_ID">> >>
Others == << <<"cls", "CLASSIFICATION_TYPE">>, <<"dt", "EPOCH">> >>

Table == Reals \o Counts \o Names \o Others
Fields == {Table[j][1] : j \in 1..Len(Table)}
Rank(f) == CHOOSE j \in 1..Len(Table) : Table[j][1] = f
KeyTable == [j \in 1..Len(Table) |-> Bytes(Table[j][2])]
Key(f) == KeyTable[Rank(f)]
KeyNames == {Table[j][2] : j \in 1..Len(Table)}

IsReal1(f) == \E j \in 1..Len(Reals) : Reals[j][1] = f
IsCount(f) == \E j \in 1..Len(Counts) : Counts[j][1] = f
IsName(f) == \E j \in 1..Len(Names) : Names[j][1] = f

OK(x) == [k |-> "ok", x |-> x]
Either(x) == [k |-> "either", x |-> x]
Refused == [k |-> "err"]
Free == [k |-> "free"]

(******************************** reals ************************************)
RealReading(v) ==
  IF v.t = "num"
  THEN LET r == Real(v.b) IN IF IsFinite(r.x) THEN OK([x |-> r.x, text |-> FALSE]) ELSE Refused
  ELSE IF v.t = "str"
  THEN LET q == TrimStart(v.b)
           r == Real(v.b)
       IN IF r.ok THEN (IF IsFinite(r.x) THEN OK([x |-> r.x, text |-> TRUE]) ELSE Refused)
          ELSE IF q # v.b \/ (v.b # <<>> /\ Blank(v.b[Len(v.b)])) THEN Free  \* blanks around a number
          ELSE Refused
  ELSE Refused

(* JSON readers may round twice                                            *)
RealMatches(r, expected) ==
  \/ IsReal(r, expected.x)
  \/ /\ ~expected.text
     /\ Abs(r \ominus expected.x) \preceq (Abs(expected.x) \otimes F("1e-15"))

(******************************* integers **********************************)
Zero64 == F("0")
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<n>> ELSE Append(DigitsOf(n \div 10), n % 10)

Largest64 == <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>
Largest(f) == IF f = "eph" THEN <<2, 5, 5>> ELSE Largest64

(* whether the number with digits d is at most the one with digits e       *)
AtMost(d, e) ==
  \/ Len(d) < Len(e)
  \/ /\ Len(d) = Len(e)
     /\ \/ d = e
        \/ LET j == CHOOSE j \in 1..Len(d) : d[j] # e[j] /\ \A i \in 1..(j - 1) : d[i] = e[i]
           IN d[j] < e[j]

CountReading(f, v) ==
  IF v.t \notin {"num", "str"} THEN Refused
  ELSE
    LET plain == v.b # <<>> /\ AllIn(v.b, Digit)
        d == Strip(Values(v.b))
        r == Real(v.b)
        padded == v.t = "str" /\ v.b # <<>> /\ (Blank(v.b[1]) \/ Blank(v.b[Len(v.b)]))
    IN IF plain THEN (IF AtMost(d, Largest(f)) THEN OK(d) ELSE Refused)
       ELSE IF padded THEN Free
       ELSE IF ~r.ok THEN Refused
       (* other notations of an integer, like 1.0 or +1                    *)
       ELSE IF ~IsFinite(r.x) \/ r.x \prec Zero64 \/ ~FEq(Floor(r.x), r.x) THEN Refused
       ELSE IF r.x \succ (IF f = "eph" THEN F("255") ELSE F("18446744073709549568")) THEN Refused
       ELSE IF r.x \preceq F("999999999")
       THEN Either(LET n == ToInt(r.x) IN DigitsOf(n))
       ELSE Free

(***************************** names and class *****************************)
NameReading(v) ==
  IF v.t = "null" THEN OK([some |-> FALSE, b |-> <<>>])
  ELSE IF v.t = "str" THEN OK([some |-> TRUE, b |-> v.b])
  ELSE Refused

ClassReading(v) ==
  IF v.t = "str" /\ v.b \in {<<85>>, <<67>>, <<83>>}
  THEN OK(IF v.b = <<85>> THEN "U" ELSE IF v.b = <<67>> THEN "C" ELSE "S")
  ELSE IF v.t = "obj" /\ Len(v.m) = 1 THEN Free   \* the long form of a variant
  ELSE Refused

(********************************* epoch ***********************************)
(* YYYY-MM-DDThh:mm:ss with an optional fraction                           *)
Shaped(b) ==
  /\ Len(b) >= 19
  /\ \A j \in {1, 2, 3, 4, 6, 7, 9, 10, 12, 13, 15, 16, 18, 19} : Digit(b[j])
  /\ b[5] = Minus /\ b[8] = Minus /\ b[11] = 84 /\ b[14] = Colon /\ b[17] = Colon
  /\ Len(b) > 19 => /\ Len(b) > 20 /\ b[20] = Dot
                    /\ \A j \in 21..Len(b) : Digit(b[j])
TwoDigits(b, j) == Number(Values(SubSeq(b, j, j + 1)))
RECURSIVE Padded(_)
Padded(d) == IF Len(d) < 9 THEN Padded(Append(d, 0)) ELSE SubSeq(d, 1, 9)

(* the date and time that a text of the standard shape denotes             *)
Stamp(b) ==
  LET y == Number(Values(SubSeq(b, 1, 4)))
      mo == TwoDigits(b, 6)
      d == TwoDigits(b, 9)
      h == TwoDigits(b, 12)
      mi == TwoDigits(b, 15)
      se == TwoDigits(b, 18)
      n == IF Len(b) = 19 THEN 0 ELSE Number(Padded(Values(SubSeq(b, 21, Len(b)))))
  IN IF mo < 1 \/ mo > 12 \/ h > 23 \/ mi > 59 \/ se > 60 THEN Refused
     ELSE IF d < 1 \/ d > MonthLength(y, mo) THEN Refused
     ELSE IF se = 60 THEN Free                              \* a leap second
     ELSE OK([y |-> y, o |-> DaysBeforeMonth(y, mo) + d,
              s |-> 3600 * h + 60 * mi + se, n |-> n,
              exact |-> Len(b) <= 29])

(* Variants of ISO 8601: a space or "t" between date and time, "Z" or an    *)
(* offset from UTC at the end.  They need not be read; if they are, then    *)
(* as what they denote.                                                    *)
Separated(b) == IF Len(b) >= 11 /\ b[11] \in {32, 116} THEN [b EXCEPT ![11] = 84] ELSE b
Zoned(b) == Len(b) > 19 /\ b[Len(b)] \in {90, 122}
Offset(b) == /\ Len(b) > 24 /\ b[Len(b) - 5] \in {43, Minus} /\ b[Len(b) - 2] = Colon
             /\ \A j \in {0, 1, 3, 4} : Digit(b[Len(b) - j])
             /\ TwoDigits(b, Len(b) - 4) < 24 /\ TwoDigits(b, Len(b) - 1) < 60
Local(b) == IF Zoned(b) THEN SubSeq(b, 1, Len(b) - 1)
            ELSE IF Offset(b) THEN SubSeq(b, 1, Len(b) - 6) ELSE b
East(b) == IF ~Offset(b) THEN 0
           ELSE (IF b[Len(b) - 5] = Minus THEN -60 ELSE 60)
                * (60 * TwoDigits(b, Len(b) - 4) + TwoDigits(b, Len(b) - 1))
Variant(b) ==
  LET stamp == Stamp(Local(b))
      local == stamp.x.s
      utc == local - East(b)
  IN IF stamp.k # "ok" THEN stamp
     ELSE IF utc < 0 \/ utc >= 86400 THEN Free      \* another day
     ELSE Either([y |-> stamp.x.y, o |-> stamp.x.o, s |-> utc, n |-> stamp.x.n, exact |-> stamp.x.exact])

EpochReading(v) ==
  IF v.t # "str" THEN Refused
  ELSE IF Shaped(v.b) THEN Stamp(v.b)
  ELSE IF Shaped(Local(Separated(v.b))) THEN Variant(Separated(v.b))
  (* other ways of writing date and time are neither promised nor ruled out *)
  ELSE IF /\ \A j \in 1..Len(v.b) : Digit(v.b[j]) \/ v.b[j] \in {32, 43, 45, 46, 58, 84, 90, 116, 122}
          /\ \E j \in 1..Len(v.b) : v.b[j] = Colon
          /\ \E j \in 1..Len(v.b) : v.b[j] \in {32, 84, 116}
          /\ Cardinality({j \in 1..Len(v.b) : Digit(v.b[j])}) >= 8
  THEN Free
  ELSE Refused

EpochMatches(dt, x) ==
  /\ dt.y = x.y /\ dt.o = x.o /\ dt.s = x.s
  /\ IF x.exact THEN dt.n = x.n ELSE dt.n \in {x.n, x.n + 1}

(******************************** objects **********************************)
Absent == [some |-> FALSE, b |-> <<>>]

Reading1(f, v) ==
  CASE IsReal1(f) -> RealReading(v)
    [] IsCount(f) -> CountReading(f, v)
    [] IsName(f) -> NameReading(v)
    [] f = "cls" -> ClassReading(v)
    [] f = "dt" -> EpochReading(v)

(* the reading of each field of an object                                  *)
Readings(o) ==
  [f \in Fields |->
     LET given == {j \in 1..Len(o.m) : o.m[j].k = Key(f)}
     IN IF given = {} THEN (IF IsName(f) THEN OK(Absent) ELSE Refused)
        ELSE IF Cardinality(given) > 1 THEN Free     \* a key given twice
        ELSE Reading1(f, o.m[CHOOSE j \in given : TRUE].v)]

(* what deserialization may do: "ok", "err", or "any" of the two           *)
Verdict(rs) ==
  IF \E f \in Fields : rs[f].k = "err" THEN "err"
  ELSE IF \E f \in Fields : rs[f].k # "ok" THEN "any" ELSE "ok"

FieldMatches(f, got, reading) ==
  CASE reading.k \in {"free", "err"} -> TRUE
    [] IsReal1(f) -> RealMatches(got, reading.x)
    [] f = "eph" -> got = Number(reading.x)
    [] f = "dt" -> EpochMatches(got, reading.x)
    [] OTHER -> got = reading.x

WrongOmmFields(el, rs) == {f \in Fields : ~FieldMatches(f, el[f], rs[f])}

(********************************* texts ***********************************)
(* what a text that should hold one object may give                        *)
ObjectVerdict(value) ==
  IF ~value.ok THEN "err"
  ELSE IF value.v.t = "obj" THEN Verdict(Readings(value.v))
  ELSE IF value.v.t = "arr" THEN "any"    \* an object without its keys
  ELSE "err"

ItemVerdict(v) ==
  IF v.t = "obj" THEN Verdict(Readings(v)) ELSE IF v.t = "arr" THEN "any" ELSE "err"

ListVerdict(value) ==
  IF ~value.ok THEN "err"
  ELSE IF value.v.t # "arr" THEN "err"
  ELSE LET verdicts == {ItemVerdict(value.v.q[j]) : j \in 1..Len(value.v.q)}
       IN IF "err" \in verdicts THEN "err" ELSE IF "any" \in verdicts THEN "any" ELSE "ok"
=============================================================================

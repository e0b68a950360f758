------------------------------- MODULE Objects ------------------------------
(***************************************************************************)
(* Objects to be written as JSON and read back: each field takes every     *)
(* value of its list while the others vary along.  TLC checks that the     *)
(* specification of restoring accepts exactly the given objects.           *)
(***************************************************************************)
EXTENDS Restoring, TLC, Json, IOUtils

(* decimal texts, so that the specification can also write them            *)
Numbers ==
  << "0", "-0.0", "1", "-1", "0.1", "123456.789", "-2.5e-8", "0.3333333333333333", "1e21", "1e22", "1e-7",
     "9007199254740993", "2.2250738585072014e-308", "1.7976931348623157e300", "-6378.137", "51.6435",
     "15.48919103", "0.00001", "1e-5", "4.35", "100", "1e100", "-1e-100", "3.141592653589793", "8.26e-3" >>
Integers64 ==
  << <<0>>, <<1>>, <<2, 5, 5, 4, 4>>, <<9, 9, 9, 9, 9>>, <<4, 2, 9, 4, 9, 6, 7, 2, 9, 6>>,
     <<9, 0, 0, 7, 1, 9, 9, 2, 5, 4, 7, 4, 0, 9, 9, 3>>, <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>> >>
Small == <<0, 1, 2, 9, 10, 255>>
Some(b) == [some |-> TRUE, b |-> b]
Texts ==
  << Absent, Some(<<>>), Some(Bytes("ISS (ZARYA)")), Some(Bytes("1998-067A")), Some(Bytes("null")),
     Some(<<34, 92, 47, 9, 10, 13, 8, 12, 1, 31, 127>>), Some(<<195, 169, 226, 130, 172, 240, 159, 155, 176>>),
     Some(<<32, 32, 65, 32>>), Some(Bytes("12345")) >>
Datetimes ==
  << [y |-> 2000, o |-> 1, s |-> 43200, n |-> 0], [y |-> 1999, o |-> 365, s |-> 86399, n |-> 999999999],
     [y |-> 2024, o |-> 366, s |-> 0, n |-> 1], [y |-> 1957, o |-> 277, s |-> 69900, n |-> 120000000],
     [y |-> 2056, o |-> 60, s |-> 3599, n |-> 1000], [y |-> 1901, o |-> 1, s |-> 0, n |-> 999000000],
     [y |-> 2099, o |-> 59, s |-> 60, n |-> 500000] >>
ClassLetters == <<"U", "C", "S">>

VARIABLES kind, field, pick, done

Kinds1 == {"elements", "orbit", "gravity", "prediction"}
FieldsOf(k) ==
  CASE k = "elements" -> Fields
    [] k = "orbit" -> OrbitFields
    [] k = "gravity" -> GravityFields
    [] k = "prediction" -> {"1", "2", "3", "4", "5", "6"}

Choices(k, f) ==
  IF k # "elements" \/ IsReal1(f) THEN Numbers
  ELSE IF f = "eph" THEN Small
  ELSE IF IsCount(f) THEN Integers64
  ELSE IF IsName(f) THEN Texts
  ELSE IF f = "dt" THEN Datetimes
  ELSE ClassLetters

RankOf(k, f) ==
  CASE k = "elements" -> Rank(f)
    [] k = "orbit" -> CHOOSE j \in 1..6 : <<"incl", "raan", "ecc", "argp", "m", "n">>[j] = f
    [] k = "gravity" -> CHOOSE j \in 1..5 : <<"ae", "ke", "j2", "j3", "j4">>[j] = f
    [] k = "prediction" -> CHOOSE j \in 1..6 : <<"1", "2", "3", "4", "5", "6">>[j] = f

(* the value of field f: the one picked, or another one                    *)
Chosen(f) ==
  LET q == Choices(kind, f)
  IN IF f = field THEN q[pick] ELSE q[((pick * 5 + RankOf(kind, f) * 3) % Len(q)) + 1]

IsNumber(f) == kind # "elements" \/ IsReal1(f)
Content(f) == IF IsNumber(f) THEN F(Chosen(f)) ELSE Chosen(f)
Object == [f \in FieldsOf(kind) |-> Content(f)]

Operations ==
  CASE kind = "elements" -> <<[op |-> "elem", e |-> 1, el |-> Object], [op |-> "rtelem", e |-> 1]>>
    [] kind = "orbit" -> <<[op |-> "rtorbit", o |-> Object]>>
    [] kind = "gravity" -> <<[op |-> "rtgeo", g |-> [name |-> "other"] @@ Object]>>
    [] kind = "prediction" -> <<[op |-> "rtpred", pos |-> <<Object["1"], Object["2"], Object["3"]>>,
                                 vel |-> <<Object["4"], Object["5"], Object["6"]>>]>>

Init == /\ kind \in Kinds1 /\ field \in FieldsOf(kind) /\ pick = 0 /\ done = FALSE
Next ==
  /\ ~done
  /\ \E v \in 1..Len(Choices(kind, field)) : pick' = v
  /\ done' = TRUE
  /\ UNCHANGED <<kind, field>>
Spec == Init /\ [][Next]_<<kind, field, pick, done>>

Shown == done => PrintT("@@" \o ToJson(Operations))

(* the message that holds the element set                                  *)
RECURSIVE Wide(_, _)
Wide(n, width) == IF width = 0 THEN <<>> ELSE Wide(n \div 10, width - 1) \o <<48 + (n % 10)>>
MonthOf(y, o) == CHOOSE m \in 1..12 : DaysBeforeMonth(y, m) < o /\ o <= DaysBeforeMonth(y, m) + MonthLength(y, m)
EpochText(d) ==
  LET m == MonthOf(d.y, d.o)
  IN Wide(d.y, 4) \o <<45>> \o Wide(m, 2) \o <<45>> \o Wide(d.o - DaysBeforeMonth(d.y, m), 2) \o <<84>> \o
     Wide(d.s \div 3600, 2) \o <<58>> \o Wide((d.s \div 60) % 60, 2) \o <<58>> \o Wide(d.s % 60, 2) \o
     <<46>> \o Wide(d.n, 9)
Chars(d) == [j \in 1..Len(d) |-> 48 + d[j]]
Member(f) ==
  [k |-> Key(f),
   v |-> IF IsReal1(f) THEN [t |-> "num", b |-> Bytes(Chosen(f))]
         ELSE IF f = "eph" THEN [t |-> "num", b |-> Chars(DigitsOf(Chosen(f)))]
         ELSE IF IsCount(f) THEN [t |-> "num", b |-> Chars(Chosen(f))]
         ELSE IF IsName(f) THEN (IF Chosen(f).some THEN [t |-> "str", b |-> Chosen(f).b] ELSE [t |-> "null"])
         ELSE IF f = "cls" THEN [t |-> "str", b |-> Bytes(Chosen(f))]
         ELSE [t |-> "str", b |-> EpochText(Chosen(f))]]
Message == [t |-> "obj", m |-> [j \in 1..Len(Table) |-> Member(Table[j][1])]]
Without(f) == [t |-> "obj", m |-> SelectSeq(Message.m, LAMBDA x : x.k # Key(f))]

Accepted ==
  (done /\ kind = "elements") =>
    /\ Unwritten(Written(Message, <<>>), Object) = {}
    /\ \A f \in Fields :
         Unwritten(Written(Without(f), <<>>), Object) =
           IF IsName(f) /\ ~Chosen(f).some THEN {} ELSE {f}
    /\ WrongElements(Object, Object) = {}

Distinguished ==
  (done /\ IsNumber(field)) =>
    LET x == Content(field)
    IN /\ SameReal(x, x)
       /\ ~FEq(x, F("0")) => ~SameReal(x \otimes F("1.00000000000001"), x) /\ ~SameReal(Neg(x), x)
=============================================================================

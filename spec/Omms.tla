-------------------------------- MODULE Omms --------------------------------
(***************************************************************************)
(* The messages a conformance run must visit.                              *)
(*                                                                         *)
(* PURPOSE values  alternatives for one field (DEPTH one) or two           *)
(*         shape   order of keys, blanks, unknown, missing, repeated keys  *)
(*         syntax  one byte of a message changed, inserted or removed      *)
(*         lists   lists of messages                                       *)
(***************************************************************************)
EXTENDS Omm, TLC, Json, IOUtils

Purpose == IOEnv.PURPOSE
Depth == IOEnv.DEPTH

Num(text) == [t |-> "num", b |-> Bytes(text)]
Str(text) == [t |-> "str", b |-> Bytes(text)]
Null == [t |-> "null"]
True == [t |-> "true"]
False == [t |-> "false"]
Obj(m) == [t |-> "obj", m |-> m]
Arr(q) == [t |-> "arr", q |-> q]
Member(key, v) == [k |-> Bytes(key), v |-> v]

NumberTexts ==
  << "0", "1", "7", "255", "256", "99999", "18446744073709551615", "18446744073709551616",
     "-1", "-0", "1.0", "1.5", "-0.5", "51.6416", "1e2", "1E+2", "1e-1", "3e-7", "0.000012345678901234567",
     "12345678901234567890123", "1e400", "-1e400", "1e-400", "5e-324", "2.5e-310", "1.7976931348623157e308",
     "9007199254740993", "0.1", "123456789.123456789" >>
OtherTexts ==
  << "", "+3", "0007", "00012.5", ".5", "5.", " 7", "7 ", "abc", "1,5", "0x10", "1_000", "--1", "1e", "e5", "-",
     "+", ".", "NaN", "inf", "-Infinity", "1.2.3", "U", "12a", "null" >>
WrongTypes == << Null, True, False, Arr(<<>>), Arr(<<Num("1")>>), Obj(<<>>), Obj(<<Member("U", Null)>>) >>

Numeric ==
  [j \in 1..Len(NumberTexts) |-> Num(NumberTexts[j])] \o
  [j \in 1..Len(NumberTexts) |-> Str(NumberTexts[j])] \o
  [j \in 1..Len(OtherTexts) |-> Str(OtherTexts[j])] \o WrongTypes

NameTexts == << "", "ISS (ZARYA)", " padded ", "quote\" backslash\\ slash/", "1998-067A", "null", "U" >>
Naming ==
  [j \in 1..Len(NameTexts) |-> Str(NameTexts[j])] \o
  << [t |-> "str", b |-> <<195, 169, 226, 130, 172, 240, 159, 155, 176>>], [t |-> "str", b |-> <<10, 9, 1, 127>>] >> \o
  WrongTypes \o <<Num("0"), Num("25544")>>

ClassTexts == << "U", "C", "S", "", "u", "UU", " U", "X", "Unclassified", "Secret", "0" >>
Classes == [j \in 1..Len(ClassTexts) |-> Str(ClassTexts[j])] \o WrongTypes \o <<Num("0"), Num("1")>>

EpochTexts ==
  << "2020-07-12T01:19:07.402656", "2020-07-12T01:19:07", "2020-02-29T23:59:59.999999999", "2021-02-29T00:00:00",
     "2000-01-01T00:00:00.000000001", "1999-12-31T23:59:59.5", "2100-02-29T00:00:00", "2000-02-29T12:00:00",
     "1957-10-04T19:28:34.0", "2056-12-31T00:00:00", "1900-03-01T01:02:03.123", "2020-13-01T00:00:00",
     "2020-00-10T00:00:00", "2020-04-31T00:00:00", "2020-04-30T24:00:00", "2020-04-30T00:60:00",
     "2020-04-30T00:00:61", "2020-04-30T00:00:60", "2020-04-00T00:00:00", "2020-12-31T23:59:59.1234567891",
     "2020-07-12", "01:19:07", "", "2020-07-12T", "today", "2020-07-12T01:19:07Z", "2020-07-12 01:19:07",
     "20.527186712635", "2020-194T01:19:07", "2020-07-12Q01:19:07", "1", "2020/07/12T01:19:07",
     "2020-07-12T01:19:07.4x", "2020-07-12t01:19:07.25z", "2020-07-12T03:19:07.402656+02:00", "2020-07-12T01:19:07-05:30",
     "2020-07-12T01:19:07.402656+00:00", "2020-13-12T01:19:07Z", "2020-07-12T25:19:07+01:00",
     "1582-10-15T10:00:00", "9999-12-31T23:59:59", "0001-01-01T00:00:00" >>
Epochs == [j \in 1..Len(EpochTexts) |-> Str(EpochTexts[j])] \o WrongTypes \o <<Num("20.5"), Num("1594516747")>>

Alternatives(f) ==
  CASE IsReal1(f) \/ IsCount(f) -> Numeric
    [] IsName(f) -> Naming
    [] f = "cls" -> Classes
    [] f = "dt" -> Epochs

(* two messages as found in the wild                                       *)
Base ==
  [name |-> Str("ISS (ZARYA)"), intl |-> Str("1998-067A"), dt |-> Str("2020-07-12T01:19:07.402656"),
   n |-> Num("15.49560532"), ecc |-> Num("0.0001771"), incl |-> Num("51.6435"), raan |-> Num("225.4004"),
   argp |-> Num("44.9625"), m |-> Num("5.1087"), eph |-> Num("0"), cls |-> Str("U"), norad |-> Num("25544"),
   elset |-> Num("999"), rev |-> Num("23587"), bstar |-> Num("0.0049645"), mmd |-> Num("0.00289036"),
   mmdd |-> Num("0")]
Other ==
  [name |-> Null, intl |-> Str("2003-043A"), dt |-> Str("2056-12-31T23:59:59.000001"),
   n |-> Str("2.00561234"), ecc |-> Str("0.70000001"), incl |-> Str("63.4"), raan |-> Str("-1.5"),
   argp |-> Str("270"), m |-> Str("1e-3"), eph |-> Str("2"), cls |-> Str("S"), norad |-> Str("27939"),
   elset |-> Str("9999"), rev |-> Str("0"), bstar |-> Str("-2.5E-5"), mmd |-> Str("0.0"),
   mmdd |-> Str("1e-9")]
Order == << "name", "intl", "dt", "n", "ecc", "incl", "raan", "argp", "m", "eph", "cls", "norad", "elset",
            "rev", "bstar", "mmd", "mmdd" >>

Message(values, order) == Obj([j \in 1..Len(order) |-> [k |-> Key(order[j]), v |-> values[order[j]]]])

Shapes == {"rotate", "reverse", "swap", "omit", "unknown", "repeat", "rename"}
Turn(order, r) == [j \in 1..Len(order) |-> order[((j + r - 1) % Len(order)) + 1]]
Reversed(order) == [j \in 1..Len(order) |-> order[Len(order) + 1 - j]]
Without(order, j) == SubSeq(order, 1, j - 1) \o SubSeq(order, j + 1, Len(order))
Insert(q, j, x) == SubSeq(q, 1, j - 1) \o <<x>> \o SubSeq(q, j, Len(q))
Swapped(order, j) ==
  LET k == (j % Len(order)) + 1
  IN [i \in 1..Len(order) |-> IF i = j THEN order[k] ELSE IF i = k THEN order[j] ELSE order[i]]

UnknownMembers ==
  << Member("COMMENT", Str("EPOCH")), Member("epoch", Null), Member("", Num("1e5")), Member("TLE_LINE1", Arr(<<Obj(<<>>)>>)),
     Member("MEAN_MOTION ", Str("16")), Member("OBJECT", Obj(<<Member("BSTAR", Num("3"))>>)), Member("object_name", True),
     Member("mean_motion", Num("3")), Member("norad_id", Num("3")) >>

Shaped1(values, shape, j) ==
  CASE shape = "rotate" -> Message(values, Turn(Order, j))
    [] shape = "reverse" -> Message(values, Reversed(Turn(Order, j)))
    [] shape = "swap" -> Message(values, Swapped(Order, j))
    [] shape = "omit" -> Message(values, Without(Order, j))
    [] shape = "unknown" ->
         Obj(Insert(Message(values, Order).m, j, UnknownMembers[(j % Len(UnknownMembers)) + 1]))
    [] shape = "repeat" -> Obj(Message(values, Order).m \o <<Message(values, Order).m[j]>>)
    [] shape = "rename" ->   \* the key in lower case: another key
         Obj([i \in 1..Len(Order) |->
                LET member == Message(values, Order).m[i]
                IN IF i = j THEN [member EXCEPT !.k = Lowercase(@)] ELSE member])

Pads == << <<>>, <<32>>, <<10, 32, 32>>, <<13, 10, 9>> >>

(* lane: a share of the messages, so that TLC enumerates them in parallel  *)
VARIABLES what, value, text, lane

vars == <<what, value, text, lane>>

Init == what = "start" /\ value = Null /\ text = <<>> /\ lane \in 0..15
Mine(j) == j % 16 = lane

Give(how, v, pad) == what' = how /\ value' = v /\ text' = Written(v, pad)

Values1 ==
  \E f \in Fields : \E a \in 1..Len(Alternatives(f)) :
    Mine(a) /\ Give(f, Message([(IF a % 2 = 0 THEN Base ELSE Other) EXCEPT ![f] = Alternatives(f)[a]], Order), <<>>)

(* a second field, among the alternatives of the first                     *)
Values2 ==
  /\ value # Null /\ what \in Fields
  /\ \E g \in Fields : \E a \in 1..Len(Alternatives(g)) :
       /\ Rank(g) > Rank(what) /\ (a + Rank(g)) % 5 = 0
       /\ Give("two", Obj([j \in 1..Len(Order) |->
                IF Order[j] = g THEN [k |-> Key(g), v |-> Alternatives(g)[a]] ELSE value.m[j]]), <<>>)

ShapeStep ==
  \E values \in {Base, Other} : \E shape \in Shapes : \E j \in 1..Len(Order) : \E p \in 1..Len(Pads) :
    Mine(j) /\ Give(shape, Shaped1(values, shape, j), Pads[p])

(* a short message, so that every position is visited                      *)
Short == Written(Message(Other, Order), <<>>)
Replacements == {Quote, Backslash, Comma, Colon, OpenBrace, CloseBracket, Minus, Dot, 32, 48, 101, 10, 117}
Syntax ==
  \E j \in {k \in 1..Len(Short) : Mine(k)} :
    \/ /\ what' = "removed" /\ value' = Null /\ text' = SubSeq(Short, 1, j - 1) \o SubSeq(Short, j + 1, Len(Short))
    \/ /\ what' = "cut" /\ value' = Null /\ text' = SubSeq(Short, 1, j - 1)
    \/ \E b \in Replacements :
         \/ /\ what' = "replaced" /\ value' = Null /\ text' = [Short EXCEPT ![j] = b]
         \/ /\ what' = "inserted" /\ value' = Null /\ text' = SubSeq(Short, 1, j) \o <<b>> \o SubSeq(Short, j + 1, Len(Short))

Good == <<Message(Base, Order), Message(Other, Reversed(Order))>>
Broken == <<Message([Base EXCEPT !.ecc = Null], Order), Num("1"), Null, Obj(<<>>), Str("{}"),
            Message([Other EXCEPT !.norad = Num("-1")], Order)>>
Items == Good \o Broken
Lists ==
  \/ \E p \in 1..Len(Pads) : \E n \in 0..3 : \E q \in [1..n -> 1..Len(Items)] :
       Mine(p + 4 * n + (IF n = 0 THEN 0 ELSE q[1] + 8 * q[n])) /\ Give("list", Arr([j \in 1..n |-> Items[q[j]]]), Pads[p])
  \/ \E j \in 1..Len(Items) : Mine(j) /\ Give("list", Items[j], <<>>)

Start == what = "start"
Next ==
  /\ UNCHANGED lane
  /\ \/ Start /\ Purpose = "values" /\ Values1
     \/ Purpose = "values" /\ Depth = "two" /\ Values2
     \/ Start /\ Purpose = "shape" /\ ShapeStep
     \/ Start /\ Purpose = "syntax" /\ Syntax
     \/ Start /\ Purpose = "lists" /\ Lists

Spec == Init /\ [][Next]_vars

(********************************* checks **********************************)
Shown == what # "start" => PrintT("@@" \o ToJson([text |-> text, what |-> what]))

Denoted == Value(text)

(* reading inverts writing                                                 *)
RoundTrip == (what # "start" /\ Purpose # "syntax") => Denoted.ok /\ Denoted.v = value

Judged ==
  (what # "start" /\ value.t = "obj" /\ what # "list") =>
    LET rs == Readings(value)
        verdict == Verdict(rs)
    IN /\ what \in {"rotate", "reverse", "swap"} => verdict = "ok"
       /\ what = "unknown" => verdict = "ok"
       /\ what = "repeat" => verdict = "any"
       /\ what \in {"omit", "rename"} =>
            (verdict = "ok") = (\E f \in Fields : IsName(f) /\ ~\E j \in 1..Len(value.m) : value.m[j].k = Key(f))
       (* exactly the changed field decides                                *)
       /\ (what \in Fields /\ Purpose = "values") => \A f \in Fields \ {what} : rs[f].k = "ok"

(* the same moment written in several ways                                 *)
Moment(said) == EpochReading(Str(said))
Clocks ==
  what = "start" =>
    LET plain == Moment("2020-07-12T01:19:07.402656")
    IN /\ plain.k = "ok" /\ plain.x.o = 194 /\ plain.x.s = 4747 /\ plain.x.n = 402656000
       /\ \A said \in {"2020-07-12T01:19:07.402656Z", "2020-07-12 01:19:07.402656", "2020-07-12t01:19:07.402656z",
                        "2020-07-12T03:19:07.402656+02:00", "2020-07-12T00:49:07.402656-00:30",
                        "2020-07-12 01:19:07.402656+00:00"} : Moment(said) = Either(plain.x)
       /\ \A said \in {"2020-07-32T01:19:07Z", "2020-07-12T24:19:07+02:00", "2020-07-12T01:19:07Q"} :
            Moment(said) = Refused

(* order does not matter                                                   *)
OrderIrrelevant ==
  (what # "start" /\ value.t = "obj" /\ what # "list") =>
    Readings(value) = Readings(Obj([j \in 1..Len(value.m) |-> value.m[Len(value.m) + 1 - j]]))
=============================================================================

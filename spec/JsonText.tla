------------------------------ MODULE JsonText ------------------------------
(***************************************************************************)
(* JSON texts (RFC 8259) as byte strings: which value a text denotes.      *)
(*                                                                         *)
(* A value is one of                                                       *)
(*   [t |-> "num", b |-> notation]     [t |-> "str", b |-> its bytes]      *)
(*   [t |-> "obj", m |-> sequence of [k |-> key, v |-> value]]             *)
(*   [t |-> "arr", q |-> sequence of values]                               *)
(*   [t |-> "null"]  [t |-> "true"]  [t |-> "false"]                       *)
(***************************************************************************)
EXTENDS Text

Quote == 34
Backslash == 92
Comma == 44
Colon == 58
OpenBrace == 123
CloseBrace == 125
OpenBracket == 91
CloseBracket == 93

Bad == [ok |-> FALSE]
(* a value, and where the text goes on after it                            *)
Got(v, at) == [ok |-> TRUE, v |-> v, at |-> at]

At(q, j) == IF j <= Len(q) THEN q[j] ELSE -1

RECURSIVE SkipBlanks(_, _)
SkipBlanks(q, j) == IF At(q, j) \in {9, 10, 13, 32} THEN SkipBlanks(q, j + 1) ELSE j

RECURSIVE SkipDigits(_, _)
SkipDigits(q, j) == IF At(q, j) >= 48 /\ At(q, j) <= 57 THEN SkipDigits(q, j + 1) ELSE j

(******************************* numbers ***********************************)
(* the end of the number starting at j, or 0                               *)
NumberEnd(q, j) ==
  LET a == IF At(q, j) = Minus THEN j + 1 ELSE j
      b == SkipDigits(q, a)
      whole == b > a /\ (At(q, a) = 48 => b = a + 1)
      c == IF At(q, b) = Dot THEN SkipDigits(q, b + 1) ELSE b
      part == At(q, b) = Dot => c > b + 1
      e == At(q, c) \in {69, 101}
      d == IF e THEN (IF At(q, c + 1) \in {Plus, Minus} THEN c + 2 ELSE c + 1) ELSE c
      end == IF e THEN SkipDigits(q, d) ELSE d
  IN IF whole /\ part /\ (e => end > d) THEN end ELSE 0

NumberAt(q, j) ==
  LET end == NumberEnd(q, j)
  IN IF end = 0 THEN Bad ELSE Got([t |-> "num", b |-> SubSeq(q, j, end - 1)], end)

(******************************* strings ***********************************)
HexDigit(b) ==
  IF b >= 48 /\ b <= 57 THEN b - 48
  ELSE IF b >= 97 /\ b <= 102 THEN b - 87
  ELSE IF b >= 65 /\ b <= 70 THEN b - 55 ELSE -1
(* the unit of \uXXXX with its digits from j, or -1                        *)
Unit(q, j) ==
  IF \E d \in 0..3 : HexDigit(At(q, j + d)) < 0 THEN -1
  ELSE ((HexDigit(q[j]) * 16 + HexDigit(q[j + 1])) * 16 + HexDigit(q[j + 2])) * 16 + HexDigit(q[j + 3])
HighSurrogate(u) == u >= 55296 /\ u < 56320
LowSurrogate(u) == u >= 56320 /\ u < 57344

(* the escape starting at the backslash j: its bytes and what follows      *)
Escape(q, j) ==
  LET b == At(q, j + 1)
      u == Unit(q, j + 2)
      low == IF At(q, j + 6) = Backslash /\ At(q, j + 7) = 117 THEN Unit(q, j + 8) ELSE -1
  IN CASE b \in {Quote, Backslash, 47} -> Got(<<b>>, j + 2)
       [] b = 98 -> Got(<<8>>, j + 2)
       [] b = 102 -> Got(<<12>>, j + 2)
       [] b = 110 -> Got(<<10>>, j + 2)
       [] b = 114 -> Got(<<13>>, j + 2)
       [] b = 116 -> Got(<<9>>, j + 2)
       [] b = 117 ->
            IF u < 0 \/ LowSurrogate(u) THEN Bad
            ELSE IF ~HighSurrogate(u) THEN Got(Encoded(u), j + 6)
            ELSE IF LowSurrogate(low)
            THEN Got(Encoded(65536 + (u - 55296) * 1024 + (low - 56320)), j + 12)
            ELSE Bad
       [] OTHER -> Bad

(* the first byte from j on that is not an ordinary character              *)
RECURSIVE SkipCharacters(_, _)
SkipCharacters(q, j) ==
  IF At(q, j) < 32 \/ At(q, j) \in {Quote, Backslash} THEN j ELSE SkipCharacters(q, j + 1)

(* j: just after the opening quote; so far: the bytes read                 *)
RECURSIVE StringFrom(_, _, _)
StringFrom(q, j, sofar) ==
  LET end == SkipCharacters(q, j)
      read == sofar \o SubSeq(q, j, end - 1)
  IN CASE At(q, end) = Quote -> Got([t |-> "str", b |-> read], end + 1)
       [] At(q, end) = Backslash ->
            LET escape == Escape(q, end)
            IN IF escape.ok THEN StringFrom(q, escape.at, read \o escape.v) ELSE Bad
       [] OTHER -> Bad

(******************************** values ***********************************)
Word(q, j, word, v) ==
  IF SubSeq(q, j, IF j + Len(word) - 1 > Len(q) THEN Len(q) ELSE j + Len(word) - 1) = word
  THEN Got(v, j + Len(word)) ELSE Bad

RECURSIVE ValueAt(_, _)
RECURSIVE MembersFrom(_, _, _)
RECURSIVE ItemsFrom(_, _, _)

(* members from j (not blank), after a brace or a comma                    *)
MembersFrom(q, j, sofar) ==
  IF At(q, j) # Quote THEN Bad
  ELSE
    LET key == StringFrom(q, j + 1, <<>>)
        colon == SkipBlanks(q, key.at)
        value == ValueAt(q, SkipBlanks(q, colon + 1))
        next == SkipBlanks(q, value.at)
        members == Append(sofar, [k |-> key.v.b, v |-> value.v])
    IN IF ~key.ok THEN Bad
       ELSE IF At(q, colon) # Colon THEN Bad
       ELSE IF ~value.ok THEN Bad
       ELSE IF At(q, next) = CloseBrace THEN Got([t |-> "obj", m |-> members], next + 1)
       ELSE IF At(q, next) = Comma THEN MembersFrom(q, SkipBlanks(q, next + 1), members)
       ELSE Bad

ItemsFrom(q, j, sofar) ==
  LET value == ValueAt(q, j)
      next == SkipBlanks(q, value.at)
      items == Append(sofar, value.v)
  IN IF ~value.ok THEN Bad
     ELSE IF At(q, next) = CloseBracket THEN Got([t |-> "arr", q |-> items], next + 1)
     ELSE IF At(q, next) = Comma THEN ItemsFrom(q, SkipBlanks(q, next + 1), items)
     ELSE Bad

ValueAt(q, j) ==
  LET b == At(q, j)
      inside == SkipBlanks(q, j + 1)
  IN CASE b = OpenBrace ->
            IF At(q, inside) = CloseBrace THEN Got([t |-> "obj", m |-> <<>>], inside + 1)
            ELSE MembersFrom(q, inside, <<>>)
       [] b = OpenBracket ->
            IF At(q, inside) = CloseBracket THEN Got([t |-> "arr", q |-> <<>>], inside + 1)
            ELSE ItemsFrom(q, inside, <<>>)
       [] b = Quote -> StringFrom(q, j + 1, <<>>)
       [] b = 110 -> Word(q, j, Bytes("null"), [t |-> "null"])
       [] b = 116 -> Word(q, j, Bytes("true"), [t |-> "true"])
       [] b = 102 -> Word(q, j, Bytes("false"), [t |-> "false"])
       [] b = Minus \/ (b >= 48 /\ b <= 57) -> NumberAt(q, j)
       [] OTHER -> Bad

(* the value a text denotes: exactly one value, blanks around it           *)
Value(q) ==
  LET value == ValueAt(q, SkipBlanks(q, 1))
  IN IF value.ok /\ SkipBlanks(q, value.at) = Len(q) + 1 THEN value ELSE Bad

(******************************* writing ***********************************)
RECURSIVE Quoted(_)
Quoted(b) ==
  IF b = <<>> THEN <<>>
  ELSE (CASE Head(b) \in {Quote, Backslash} -> <<Backslash, Head(b)>>
          [] Head(b) = 10 -> Bytes("\\n")
          [] Head(b) < 32 ->
               Bytes("\\u00") \o <<48 + Head(b) \div 16,
                                  LET low == Head(b) % 16 IN IF low < 10 THEN 48 + low ELSE 87 + low>>
          [] OTHER -> <<Head(b)>>) \o Quoted(Tail(b))
InQuotes(b) == <<Quote>> \o Quoted(b) \o <<Quote>>

RECURSIVE Joined(_, _)
Joined(parts, separator) ==
  IF parts = <<>> THEN <<>>
  ELSE IF Len(parts) = 1 THEN parts[1]
  ELSE parts[1] \o separator \o Joined(Tail(parts), separator)

(* pad: blanks put between tokens                                          *)
RECURSIVE Written(_, _)
Written(v, pad) ==
  CASE v.t = "num" -> v.b
    [] v.t = "str" -> InQuotes(v.b)
    [] v.t = "obj" ->
         <<OpenBrace>> \o pad \o
         Joined([j \in 1..Len(v.m) |-> InQuotes(v.m[j].k) \o pad \o <<Colon>> \o pad \o Written(v.m[j].v, pad)],
                pad \o <<Comma>> \o pad)
         \o pad \o <<CloseBrace>>
    [] v.t = "arr" ->
         <<OpenBracket>> \o pad \o
         Joined([j \in 1..Len(v.q) |-> Written(v.q[j], pad)], pad \o <<Comma>> \o pad) \o pad \o <<CloseBracket>>
    [] OTHER -> Bytes(v.t)
=============================================================================

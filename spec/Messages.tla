------------------------------ MODULE Messages ------------------------------
(***************************************************************************)
(* What the message of an error has to tell: which error it is, where in   *)
(* the lines it was found, and the values involved, to the last digit.     *)
(* The wording is free otherwise.                                          *)
(*                                                                         *)
(* An error is a record; k is its kind and the other fields its values:    *)
(*   tle       what, line, start, end                                      *)
(*   ecc, pecc ecc, t          pl        t                                 *)
(*   kozai, brouwer            epochecc  ecc                               *)
(*   overflow  from, to        minutes   t         add  dt                 *)
(***************************************************************************)
EXTENDS Text, Calendar

(****************************** words of a text ****************************)
Contains(q, p) == \E j \in 0..(Len(q) - Len(p)) : \A k \in 1..Len(p) : q[j + k] = p[k]

Letter(b) == (b >= 65 /\ b <= 90) \/ (b >= 97 /\ b <= 122)
InWord(b) == Letter(b) \/ Digit(b) \/ b \in {Plus, Minus, Dot, 58}

(* maximal runs of letters, digits, signs, points and colons               *)
RECURSIVE WordsFrom(_, _, _)
WordsFrom(q, j, word) ==
  IF j > Len(q) THEN (IF word = <<>> THEN <<>> ELSE <<word>>)
  ELSE IF InWord(q[j]) THEN WordsFrom(q, j + 1, Append(word, q[j]))
  ELSE (IF word = <<>> THEN <<>> ELSE <<word>>) \o WordsFrom(q, j + 1, <<>>)
Words(q) == WordsFrom(q, 1, <<>>)

(* a word is the number x, or the integer n                                *)
SameReal(a, b) == FEq(a, b) \/ (IsNaN(a) /\ IsNaN(b))
Writes(word, x) == LET r == Real(word) IN r.ok /\ SameReal(r.x, x)
WritesInteger(word, n) == LET r == Unsigned(word) IN r.ok /\ Number(r.d) = n

(****************************** datetimes **********************************)
Padded(n, width) ==
  LET RECURSIVE Of(_, _)
      Of(m, w) == IF w = 0 THEN <<>> ELSE Of(m \div 10, w - 1) \o <<48 + (m % 10)>>
  IN Of(n, width)

Month(dt) == CHOOSE m \in 1..12 :
  /\ DaysBeforeMonth(dt.y, m) < dt.o
  /\ DaysBeforeMonth(dt.y, m) + MonthLength(dt.y, m) >= dt.o

(* years of four digits without sign, others with it                       *)
YearText(y) ==
  IF y >= 0 /\ y <= 9999 THEN Padded(y, 4)
  ELSE LET a == IF y < 0 THEN -y ELSE y
       IN (IF y < 0 THEN <<Minus>> ELSE <<Plus>>) \o Padded(a, IF a > 99999 THEN 6 ELSE IF a > 9999 THEN 5 ELSE 4)

DateText(dt) ==
  YearText(dt.y) \o <<Minus>> \o Padded(Month(dt), 2) \o <<Minus>>
  \o Padded(dt.o - DaysBeforeMonth(dt.y, Month(dt)), 2)

TimeText(dt) ==
  Padded(dt.s \div 3600, 2) \o <<58>> \o Padded((dt.s \div 60) % 60, 2) \o <<58>> \o Padded(dt.s % 60, 2)
  \o (IF dt.n = 0 THEN <<>>
      ELSE <<Dot>> \o (IF dt.n % 1000000 = 0 THEN Padded(dt.n \div 1000000, 3)
                       ELSE IF dt.n % 1000 = 0 THEN Padded(dt.n \div 1000, 6)
                       ELSE Padded(dt.n, 9)))

(* the date, one separator (a space or T) and the time, not followed by    *)
(* further digits; the position after it, or 0                             *)
DatetimeEnds(q, dt) ==
  LET date == DateText(dt)
      time == TimeText(dt)
      n == Len(date) + 1 + Len(time)
  IN {j + n + 1 : j \in {j \in 0..(Len(q) - n) :
        /\ SubSeq(q, j + 1, j + Len(date)) = date
        /\ q[j + Len(date) + 1] \in {Space, 84}
        /\ SubSeq(q, j + Len(date) + 2, j + n) = time
        /\ j = 0 \/ ~(Digit(q[j]) \/ q[j] \in {Plus, Minus})
        /\ j + n = Len(q) \/ ~(Digit(q[j + n + 1]) \/ q[j + n + 1] = Dot)}}
Mentions(q, dt) == DatetimeEnds(q, dt) # {}

(***************************** the messages ********************************)
(* words that tell a kind of TLE error from the others                     *)
Telling ==
  [BadChecksum |-> {"checksum"}, BadLength |-> {"length"}, BadFirstCharacter |-> {"first character"},
   ExpectedFloat |-> {"float"},
   ExpectedFloatWithAssumedDecimalPoint |-> {"float", "assumed decimal point"},
   ExpectedInteger |-> {"integer"}, ExpectedSpace |-> {"space"}, ExpectedString |-> {"string"},
   FloatWithAssumedDecimalPointTooLong |-> {"float", "assumed decimal point", "more than 16"},
   NoradIdMismatch |-> {"norad"}, UnknownClassification |-> {"classification"},
   FromYoOptFailed |-> {"date", "year"}, FromNumSecondsFromMidnightFailed |-> {"date", "seconds"}]
AllTelling == UNION {Telling[k] : k \in DOMAIN Telling}

(* the telling words of the kind and no other ones                         *)
NamesKind(text, what) ==
  {w \in AllTelling : Contains(text, Bytes(w))} = Telling[what]

NamesLine(text, line) ==
  /\ Contains(text, Bytes("line 1")) <=> (line = "Line1")
  /\ Contains(text, Bytes("line 2")) <=> (line = "Line2")

(* the message ends with the character range                               *)
NamesRange(text, start, end) ==
  LET w == Words(text)
      n == {j \in 1..Len(w) : Unsigned(w[j]).ok}
      last == CHOOSE j \in n : \A k \in n : k <= j
      rest == n \ {last}
      before == CHOOSE j \in rest : \A k \in rest : k <= j
  IN /\ n # {} /\ rest # {}
     /\ WritesInteger(w[before], start) /\ WritesInteger(w[last], end)

(* t minutes                                                               *)
NamesTime(w, t) == \E j \in 1..(Len(w) - 1) : Writes(w[j], t) /\ Lowercase(w[j + 1]) = Bytes("minutes")
(* a number that is not followed by minutes                                *)
NamesValue(w, x) ==
  \E j \in 1..Len(w) : Writes(w[j], x) /\ (j = Len(w) \/ Lowercase(w[j + 1]) # Bytes("minutes"))

Tells(error, message) ==
  LET text == Lowercase(message)
      w == Words(message)
      Has(word) == Contains(text, Bytes(word))
  IN CASE error.k = "tle" ->
            /\ NamesKind(text, error.what)
            /\ NamesLine(text, error.line)
            /\ NamesRange(text, error.start, error.end)
       [] error.k \in {"ecc", "pecc"} ->
            /\ Has("propagated eccentricity")
            /\ Has("before") = (error.k = "ecc") /\ Has("after adding") = (error.k = "pecc")
            /\ NamesTime(w, error.t) /\ NamesValue(w, error.ecc)
       [] error.k = "pl" ->
            Has("semi-latus rectum") /\ NamesTime(w, error.t)
       [] error.k = "kozai" -> Has("kozai") /\ ~Has("brouwer")
       [] error.k = "brouwer" -> Has("brouwer") /\ ~Has("kozai")
       [] error.k = "epochecc" -> Has("epoch eccentricity") /\ NamesValue(w, error.ecc)
       [] error.k = "overflow" ->
            /\ Has("overflow") /\ Has(" - ")
            /\ \E a \in DatetimeEnds(message, error.to), b \in DatetimeEnds(message, error.from) : a < b
       [] error.k = "minutes" -> Has("overflow") /\ NamesValue(w, error.t)
       [] error.k = "add" -> Has("overflow") /\ Has(" + ") /\ Mentions(message, error.dt)
=============================================================================

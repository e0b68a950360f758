-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Byte strings and the notations of numbers in them.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Float64

LOCAL Ext == INSTANCE SequencesExt

Bytes(text) == CHOOSE q : TRUE    \* the bytes of a literal (Java)

Digit(b) == b >= 48 /\ b <= 57
Plus == 43
Minus == 45
Dot == 46
Space == 32
LF == 10
CR == 13

Blank(b) == b \in {9, 10, 12, 13, 32}

AllIn(q, Test(_)) == \A j \in 1..Len(q) : Test(q[j])

RECURSIVE TrimStart(_)
TrimStart(q) == IF q # <<>> /\ Blank(Head(q)) THEN TrimStart(Tail(q)) ELSE q

(* characters from column a (from 0) up to but excluding column b          *)
Columns(line, a, b) == SubSeq(line, a + 1, b)

(* the length of the longest prefix made of digits                         *)
RECURSIVE Span(_)
Span(q) == IF q # <<>> /\ Digit(Head(q)) THEN 1 + Span(Tail(q)) ELSE 0

Values(q) == [j \in 1..Len(q) |-> q[j] - 48]

(* digits of a number, without leading zeros                               *)
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ Head(d) = 0 THEN Strip(Tail(d)) ELSE d

RECURSIVE Number(_)
Number(d) == IF d = <<>> THEN 0 ELSE 10 * Number(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)]

(****************************** integers ***********************************)
Unreadable == [ok |-> FALSE]

(* digits, optionally after a plus sign                                    *)
Unsigned(q) ==
  LET d == IF q # <<>> /\ Head(q) = Plus THEN Tail(q) ELSE q
  IN IF d # <<>> /\ AllIn(d, Digit) THEN [ok |-> TRUE, d |-> Strip(Values(d))] ELSE Unreadable

(* digits, optionally after a sign; few enough for an integer              *)
Signed(q) ==
  LET sign == q # <<>> /\ Head(q) \in {Plus, Minus}
      d == IF sign THEN Tail(q) ELSE q
  IN IF d # <<>> /\ AllIn(d, Digit)
     THEN [ok |-> TRUE, n |-> IF sign /\ Head(q) = Minus THEN -Number(Values(d)) ELSE Number(Values(d))]
     ELSE Unreadable

(******************************* reals *************************************)
Lower(b) == IF b >= 65 /\ b <= 90 THEN b + 32 ELSE b
Lowercase(q) == [j \in 1..Len(q) |-> Lower(q[j])]

(* the exponent part: nothing, or e, an optional sign and digits           *)
Exponent(q) ==
  IF q = <<>> THEN [ok |-> TRUE, n |-> 0]
  ELSE IF Lower(Head(q)) # 101 THEN Unreadable
  ELSE
    LET rest == Tail(q)
        sign == rest # <<>> /\ Head(rest) \in {Plus, Minus}
        d == IF sign THEN Tail(rest) ELSE rest
        v == Strip(Values(d))
        n == IF Len(v) > 6 THEN 999999 ELSE Number(v)
    IN IF d = <<>> \/ ~AllIn(d, Digit) THEN Unreadable
       ELSE [ok |-> TRUE, n |-> IF sign /\ Head(rest) = Minus THEN -n ELSE n]

(* decimal notation; whole and part are the digits before and after the    *)
(* point                                                                   *)
Decimal(negative, q) ==
  LET whole == Span(q)
      point == Len(q) > whole /\ q[whole + 1] = Dot
      afterPoint == IF point THEN SubSeq(q, whole + 2, Len(q)) ELSE <<>>
      part == Span(afterPoint)
      exponent == Exponent(IF point THEN SubSeq(afterPoint, part + 1, Len(afterPoint))
                           ELSE SubSeq(q, whole + 1, Len(q)))
      w == Values(SubSeq(q, 1, whole))
      p == Values(SubSeq(afterPoint, 1, part))
  IN IF whole + part = 0 \/ ~exponent.ok THEN Unreadable
     ELSE [ok |-> TRUE, whole |-> w, part |-> p, exponent |-> exponent.n, negative |-> negative,
           plain |-> exponent.n = 0,
           x |-> FDecimal(negative, w \o p, exponent.n - part)]

(* a real number as any program reads it: decimal notation, or the names   *)
(* of infinity and not-a-number in any case                                *)
Real(q) ==
  LET sign == q # <<>> /\ Head(q) \in {Plus, Minus}
      negative == sign /\ Head(q) = Minus
      body == IF sign THEN Tail(q) ELSE q
      name == Lowercase(body)
      Special(x) == [ok |-> TRUE, plain |-> FALSE, negative |-> negative,
                     x |-> IF negative THEN Neg(x) ELSE x]
  IN IF name \in {Bytes("inf"), Bytes("infinity")} THEN Special(F("Infinity"))
     ELSE IF name = Bytes("nan") THEN Special(F("NaN"))
     ELSE Decimal(negative, body)

(* a real number whose decimal point is assumed before the first digit     *)
AssumedReal(field) ==
  LET q == TrimStart(field)
      sign == q # <<>> /\ Head(q) \in {Plus, Minus}
      body == IF sign THEN Tail(q) ELSE q
  IN IF body = <<>> THEN Unreadable
     ELSE Decimal(sign /\ Head(q) = Minus, <<Dot>> \o body)

(* a recorded number is the real x, up to one unit in the last place       *)
IsReal(r, x) ==
  r = x \/ (IsNaN(r) /\ IsNaN(x)) \/ FEq(r, x) \/ r = NextUp(x) \/ r = NextDown(x)

(******************************* UTF-8 *************************************)
(* code points of a byte string, or <<-1>> if it is not UTF-8              *)
Continuation(b) == b >= 128 /\ b < 192
RECURSIVE CodePoints(_)
CodePoints(q) ==
  IF q = <<>> THEN <<>>
  ELSE
    LET b == q[1]
        Tails(n) == Len(q) > n /\ \A j \in 2..(n + 1) : Continuation(q[j])
        After(n, c) ==
          LET rest == CodePoints(SubSeq(q, n + 2, Len(q)))
          IN IF rest # <<>> /\ rest[1] = -1 THEN <<-1>> ELSE <<c>> \o rest
        c2 == (b - 192) * 64 + (q[2] - 128)
        c3 == (b - 224) * 4096 + (q[2] - 128) * 64 + (q[3] - 128)
        c4 == (b - 240) * 262144 + (q[2] - 128) * 4096 + (q[3] - 128) * 64 + (q[4] - 128)
    IN IF b < 128 THEN After(0, b)
       ELSE IF b >= 192 /\ b < 224 /\ Tails(1) /\ c2 >= 128 THEN After(1, c2)
       ELSE IF b >= 224 /\ b < 240 /\ Tails(2) /\ c3 >= 2048 /\ ~(c3 >= 55296 /\ c3 < 57344)
            THEN After(2, c3)
       ELSE IF b >= 240 /\ b < 248 /\ Tails(3) /\ c4 >= 65536 /\ c4 < 1114112 THEN After(3, c4)
       ELSE <<-1>>

IsUtf8(q) == LET c == CodePoints(q) IN c = <<>> \/ c[1] # -1

Encoded(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Encode(_)
Encode(c) == IF c = <<>> THEN <<>> ELSE Encoded(Head(c)) \o Encode(Tail(c))

(* Unicode white space                                                     *)
White(c) ==
  \/ (c >= 9 /\ c <= 13) \/ c \in {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288}
  \/ (c >= 8192 /\ c <= 8202)
RECURSIVE TrimWhiteStart(_)
TrimWhiteStart(c) == IF c # <<>> /\ White(Head(c)) THEN TrimWhiteStart(Tail(c)) ELSE c
RECURSIVE TrimWhite(_)
TrimWhite(c) ==
  LET d == TrimWhiteStart(c)
  IN IF d # <<>> /\ White(d[Len(d)]) THEN TrimWhite(SubSeq(d, 1, Len(d) - 1)) ELSE d
=============================================================================

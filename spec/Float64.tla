------------------------------ MODULE Float64 ------------------------------
(***************************************************************************)
(* IEEE-754 binary64 arithmetic.                                           *)
(*                                                                         *)
(* A number is a pair <<hi, lo>>, the signed 32-bit halves of its bit      *)
(* pattern, so that numbers recorded from the implementation are compared  *)
(* without any loss.  TLC evaluates the operators below with the Java      *)
(* class Float64; the right-hand sides given here are placeholders.        *)
(*                                                                         *)
(* Noisy(x, k), k > 0, is x with a tag: every operation on a tagged number *)
(* gives a tagged result displaced by up to two units in the last place,   *)
(* pseudo-randomly.  Evaluating an expression on Noisy inputs with a few   *)
(* different tags measures how far rounding may move its value.            *)
(***************************************************************************)

F(decimal) == CHOOSE x : TRUE            \* literal: F("0.25"), F("pi")
FInt(n) == CHOOSE x : TRUE               \* the integer n
Noisy(x, k) == CHOOSE y : TRUE
Exactly(x) == CHOOSE y : TRUE            \* x without its tag

a \oplus b == CHOOSE x : TRUE
a \ominus b == CHOOSE x : TRUE
a \otimes b == CHOOSE x : TRUE
a \oslash b == CHOOSE x : TRUE
Neg(a) == CHOOSE x : TRUE
Abs(a) == CHOOSE x : TRUE

a \prec b == CHOOSE x \in BOOLEAN : TRUE     \* <  (false if either is NaN)
a \preceq b == CHOOSE x \in BOOLEAN : TRUE   \* <=
a \succ b == CHOOSE x \in BOOLEAN : TRUE     \* >
a \succeq b == CHOOSE x \in BOOLEAN : TRUE   \* >=
FEq(a, b) == CHOOSE x \in BOOLEAN : TRUE     \* numerically equal
IsNaN(a) == CHOOSE x \in BOOLEAN : TRUE
IsFinite(a) == CHOOSE x \in BOOLEAN : TRUE
IsNegative(a) == CHOOSE x \in BOOLEAN : TRUE \* sign bit

FMax(a, b) == CHOOSE x : TRUE             \* ignores NaN
FMin(a, b) == CHOOSE x : TRUE
Sqrt(a) == CHOOSE x : TRUE
Sin(a) == CHOOSE x : TRUE
Cos(a) == CHOOSE x : TRUE
Atan2(a, b) == CHOOSE x : TRUE
Pow(a, b) == CHOOSE x : TRUE             \* real exponent
PowI(a, n) == CHOOSE x : TRUE            \* integer exponent
Rem(a, b) == CHOOSE x : TRUE             \* remainder, sign of a
Mod(a, b) == CHOOSE x : TRUE             \* modulus, never negative
Floor(a) == CHOOSE x : TRUE
Trunc(a) == CHOOSE x : TRUE
ToInt(a) == CHOOSE n : TRUE

(* correctly rounded decimal, and exact comparison with a decimal: the     *)
(* decimal is (-1)^negative * digits * 10^exponent                         *)
FDecimal(negative, digits, exponent) == CHOOSE x : TRUE
FCompareDecimal(a, negative, digits, exponent) == CHOOSE x : TRUE

NextUp(a) == CHOOSE x : TRUE             \* the neighbouring numbers
NextDown(a) == CHOOSE x : TRUE

FStr(a) == CHOOSE s : TRUE               \* for messages only
=============================================================================

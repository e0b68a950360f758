------------------------------ MODULE Failures ------------------------------
(***************************************************************************)
(* Errors of every kind with values of every class.  TLC compares every    *)
(* error with every other one: the documented message of an error tells    *)
(* that error and no other (the requirement of Messages can be met, and it *)
(* tells errors apart), and prints sessions that show the errors that can  *)
(* be built from their public parts.                                       *)
(***************************************************************************)
EXTENDS Messages, Json, TLC, IOUtils

Depth == IOEnv.DEPTH   \* "few" or "all" values

VARIABLES error, other

(* values with the texts that denote them                                  *)
Values64 == <<"0", "1", "-1", "0.1", "-0.00000000000012", "1.0000000000000002", "123456789.125",
              "-98765.43209876543", "720", "NaN", "inf", "-inf">>
Number64(j) == Real(Bytes(Values64[j])).x

Instants == <<[y |-> 2000, o |-> 1, s |-> 43200, n |-> 0], [y |-> 2024, o |-> 366, s |-> 86399, n |-> 999999999],
              [y |-> 1957, o |-> 60, s |-> 3661, n |-> 5000000], [y |-> 2400, o |-> 60, s |-> 0, n |-> 1000],
              [y |-> -1, o |-> 365, s |-> 59, n |-> 0], [y |-> 12345, o |-> 1, s |-> 0, n |-> 120]>>

Kinds == DOMAIN Telling
Lines == {"Line1", "Line2", "Both"}
Ranges == IF Depth = "few" THEN {<<1, 2>>, <<2, 1>>, <<16, 69>>}
          ELSE {<<0, 69>>, <<1, 2>>, <<2, 1>>, <<16, 16>>, <<0, 0>>, <<68, 69>>, <<0, 12345>>}

Chosen == IF Depth = "few" THEN {1, 5, 6, 8, 10, 12} ELSE 1..Len(Values64)

Errors ==
  {[k |-> "tle", what |-> w, line |-> l, start |-> r[1], end |-> r[2]] : w \in Kinds, l \in Lines, r \in Ranges}
  \cup {[k |-> k, ecc |-> a, t |-> b] : k \in {"ecc", "pecc"}, a \in Chosen, b \in Chosen}
  \cup {[k |-> k, t |-> a] : k \in {"pl", "minutes"}, a \in Chosen}
  \cup {[k |-> "epochecc", ecc |-> a] : a \in Chosen}
  \cup {[k |-> "kozai"], [k |-> "brouwer"]}
  \cup {[k |-> "overflow", from |-> a, to |-> b] : a \in 1..Len(Instants), b \in 1..Len(Instants)}
  \cup {[k |-> "add", dt |-> a] : a \in 1..Len(Instants)}

(* values in place of their positions                                      *)
Meant(e) ==
  [f \in DOMAIN e |->
     IF f \in {"ecc", "t"} THEN Number64(e[f])
     ELSE IF f \in {"from", "to", "dt"} THEN Instants[e[f]]
     ELSE e[f]]

(************************ the documented messages **************************)
Decimals(n) == IF n < 10 THEN <<48 + n>> ELSE
  LET RECURSIVE Of(_)
      Of(m) == IF m = 0 THEN <<>> ELSE Of(m \div 10) \o <<48 + (m % 10)>>
  IN Of(n)
DatetimeText(dt) == DateText(dt) \o <<Space>> \o TimeText(dt)

Phrase ==
  [BadChecksum |-> "Bad line checksum", BadLength |-> "Bad line length", BadFirstCharacter |-> "Bad first character",
   ExpectedFloat |-> "Parsing a float field failed",
   ExpectedFloatWithAssumedDecimalPoint |->
     "Parsing a float field failed (special TLE float representation with assumed decimal point)",
   ExpectedInteger |-> "Parsing an integer field failed",
   ExpectedSpace |-> "Found a non-space character between fields",
   ExpectedString |-> "Parsing a string field failed",
   FloatWithAssumedDecimalPointTooLong |->
     "Tried to parse a float (special TLE float representation with assumed decimal point) with more than 16 ASCII characters",
   NoradIdMismatch |-> "NORAD mismatch between TLE lines", UnknownClassification |-> "Unknown classification code",
   FromYoOptFailed |-> "Date generation failed due to an error in the year",
   FromNumSecondsFromMidnightFailed |-> "Date generation failed due to an error in the seconds from midnight"]
Place == [Line1 |-> " on TLE line 1", Line2 |-> " on TLE line 2", Both |-> " (TLE lines mismatch)"]

Eccentricity(e, stage) ==
  Bytes("The propagated eccentricity (") \o Bytes(Values64[e.ecc]) \o Bytes(") is outside the range [0, 1[ ")
  \o Bytes(Values64[e.t]) \o Bytes(" minutes after epoch (") \o Bytes(stage)
  \o Bytes(" adding third-body perturbations)")

Documented(e) ==
  CASE e.k = "tle" -> Bytes("TLE parse error: ") \o Bytes(Phrase[e.what]) \o Bytes(Place[e.line])
                      \o Bytes(" between characters ") \o Decimals(e.start) \o Bytes(" and ") \o Decimals(e.end)
    [] e.k = "ecc" -> Eccentricity(e, "before")
    [] e.k = "pecc" -> Eccentricity(e, "after")
    [] e.k = "pl" -> Bytes("The propagated semi-latus rectum is negative ") \o Bytes(Values64[e.t])
                     \o Bytes(" minutes after epoch")
    [] e.k = "kozai" -> Bytes("The Kozai mean motion calculated from epoch elements is negative")
    [] e.k = "brouwer" -> Bytes("The Brouwer mean motion calculated from epoch elements is negative")
    [] e.k = "epochecc" -> Bytes("The epoch eccentricity (") \o Bytes(Values64[e.ecc])
                           \o Bytes(") is outside the range [0, 1[")
    [] e.k = "overflow" -> Bytes("Nanoseconds overflow when calculating ") \o DatetimeText(Instants[e.to])
                           \o Bytes(" - ") \o DatetimeText(Instants[e.from])
    [] e.k = "minutes" -> Bytes("Nanoseconds overflow when calculating ") \o Bytes(Values64[e.t]) \o Bytes(" * 60e9")
    [] e.k = "add" -> Bytes("Nanoseconds overflow when calculating ") \o DatetimeText(Instants[e.dt])
                      \o Bytes(" + PT1S")

(****************************** behaviours *********************************)
Shown(e) ==
  [op |-> "show", said |-> TRUE,
   err |-> Meant(e) @@ (IF e.k = "add" THEN [ns |-> 1000000000] ELSE <<>>)]

Buildable(e) == e.k \notin {"tle", "overflow"}

(* one error of every kind that has values                                 *)
Representatives ==
  {[k |-> "tle", what |-> w, line |-> "Line1", start |-> 1, end |-> 2] : w \in Kinds}
  \cup {[k |-> k, ecc |-> 8, t |-> 8] : k \in {"ecc", "pecc"}}
  \cup {[k |-> k, t |-> 8] : k \in {"pl", "minutes"}}
  \cup {[k |-> "epochecc", ecc |-> 8], [k |-> "kozai"], [k |-> "brouwer"],
        [k |-> "overflow", from |-> 1, to |-> 2], [k |-> "add", dt |-> 2]}

Nothing == [k |-> "nothing"]

Init == error \in Errors /\ other = Nothing
Next ==
  /\ other = Nothing
  /\ IF Buildable(error) THEN PrintT("@@" \o ToJson(<<Shown(error)>>)) ELSE TRUE
  /\ other' \in {e \in Errors : e.k = error.k} \cup Representatives
  /\ UNCHANGED error
Spec == Init /\ [][Next]_<<error, other>>

(* numbers that occur in the wording itself, which do not tell values      *)
Wording == {1, 2}

Distinct(a, b) ==
  /\ a # b
  /\ a.k \in {"ecc", "pecc", "epochecc"} => a.ecc \notin Wording

Tell ==
  /\ Tells(Meant(error), Documented(error))
  /\ other # Nothing /\ Distinct(error, other) =>
       ~Tells(Meant(error), Documented(other))
=============================================================================

------------------------------ MODULE Batches -------------------------------
(***************************************************************************)
(* The listings a conformance run must visit: texts built line by line     *)
(* from well-formed and malformed lines, names and empty lines, with every *)
(* kind of line end.                                                       *)
(***************************************************************************)
EXTENDS Batch, TLC, Json, IOUtils

MaxLines == IF IOEnv.DEPTH = "all" THEN 6 ELSE 4

VARIABLES lines, ends, last, done

vars == <<lines, ends, last, done>>

(* a name may look like anything, even like a first line                   *)
Alphabet ==
  << Bytes("ISS (ZARYA)"),
     Bytes("1 25544U 98067A   08264.51782528 -.00002182  00000-0 -11606-4 0  2927"),
     Bytes("2 25544  51.6416 247.4627 0006703 130.5360 325.0288 15.72125391563537"),
     Bytes("1 11801U          80230.29629788  .01431103  00000-0  14311-1 0    13"),
     Bytes("2 11801  46.7916 230.4354 7318036  47.4722  10.4117  2.28537848    13"),
     Bytes("2 25544  51.6416 247.4627 0006703 130.5360 325.0288 15.72125391563538"),
     <<>>,
     Bytes("  PADDED NAME  ") >>

(* how lines end: always LF, always CR LF, or alternating                  *)
Ends == {"lf", "crlf", "mixed"}
EndOf(j) == IF ends = "lf" \/ (ends = "mixed" /\ j % 2 = 1) THEN <<LF>> ELSE <<CR, LF>>

RECURSIVE Joined(_)
Joined(j) ==
  IF j > Len(lines) THEN <<>>
  ELSE Alphabet[lines[j]] \o (IF j = Len(lines) /\ ~last THEN <<>> ELSE EndOf(j)) \o Joined(j + 1)
Text == Joined(1)

Init == lines = <<>> /\ ends \in Ends /\ last \in BOOLEAN /\ done = FALSE

Add ==
  /\ ~done /\ Len(lines) < MaxLines
  /\ \E a \in 1..Len(Alphabet) : lines' = Append(lines, a)
  /\ UNCHANGED <<ends, last, done>>

Show ==
  /\ ~done
  /\ PrintT("@@" \o ToJson([text |-> Text, n |-> Len(lines)]))
  /\ done' = TRUE
  /\ UNCHANGED <<lines, ends, last>>

Next == Add \/ Show
Spec == Init /\ [][Next]_vars

(* an empty last line that does not end is no line                         *)
Listed ==
  IF lines # <<>> /\ ~last /\ Alphabet[lines[Len(lines)]] = <<>>
  THEN SubSeq(lines, 1, Len(lines) - 1) ELSE lines

EndsDoNotMatter == Lines(Text) = [j \in 1..Len(Listed) |-> Alphabet[Listed[j]]]

CompleteGroups ==
  \A size \in {2, 3} :
    LET groups == Groups(Text, size)
    IN /\ Len(groups) = Len(Listed) \div size
       /\ \A j \in 1..Len(groups) :
            /\ groups[j].l2 = Alphabet[Listed[size * j]]
            /\ groups[j].name.some = (size = 3)
=============================================================================

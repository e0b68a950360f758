------------------------------- MODULE Batch --------------------------------
(***************************************************************************)
(* Texts that list many element sets: lines, taken two by two or three by  *)
(* three.                                                                  *)
(***************************************************************************)
EXTENDS Tle, FiniteSets

(* positions of line feeds                                                 *)
Feeds(text) == SelectSeq([j \in 1..Len(text) |-> j], LAMBDA j : text[j] = LF)

(* a line ends with LF or CR LF, neither being part of it; the last line   *)
(* need not end                                                            *)
WithoutReturn(line) ==
  IF line # <<>> /\ line[Len(line)] = CR THEN SubSeq(line, 1, Len(line) - 1) ELSE line

Lines(text) ==
  LET feeds == Feeds(text)
      ended == [j \in 1..Len(feeds) |->
                  WithoutReturn(SubSeq(text, IF j = 1 THEN 1 ELSE feeds[j - 1] + 1, feeds[j] - 1))]
      last == IF feeds = <<>> THEN text ELSE SubSeq(text, feeds[Len(feeds)] + 1, Len(text))
  IN IF last = <<>> THEN ended ELSE Append(ended, last)

Absent == [some |-> FALSE, b |-> <<>>]
Named(b) == [some |-> TRUE, b |-> b]

Groups(text, size) ==
  LET lines == Lines(text)
  IN [j \in 1..(Len(lines) \div size) |->
        IF size = 2
        THEN [name |-> Absent, l1 |-> lines[2 * j - 1], l2 |-> lines[2 * j]]
        ELSE [name |-> Named(lines[3 * j - 2]), l1 |-> lines[3 * j - 1], l2 |-> lines[3 * j]]]

Incomplete(text, size) == Len(Lines(text)) % size # 0

GroupDefects(group) == Defects(group.l1, group.l2, TRUE)
Malformed(groups) == {j \in 1..Len(groups) : GroupDefects(groups[j]) # {}}
First(indices) == CHOOSE j \in indices : \A k \in indices : j <= k
=============================================================================

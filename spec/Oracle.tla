------------------------------- MODULE Oracle -------------------------------
(***************************************************************************)
(* What reuse of resonance states must look like: nothing is integrated,   *)
(* every request is answered with what one-shot propagation gives, and all *)
(* that a state shows is its time.  Integrator refines this.               *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Unit, Times

VARIABLES resonant, at, busy, calls, answer

vars == <<resonant, at, busy, calls, answer>>

Size(x) == IF x < 0 THEN -x ELSE x
Side(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Last(t) == Side(t) * Unit * (Size(t) \div Unit)
Direct(t) == <<[j \in 1..(Size(t) \div Unit) |-> Side(t)], t - Last(t)>>

Within(time, t) == (time # 0 => Side(t) = Side(time)) /\ Size(t) >= Size(time)

Init == resonant \in BOOLEAN /\ at = <<>> /\ busy = <<>> /\ calls = <<>> /\ answer = <<>>

Entry(op, s, t, r, after) ==
  calls' = Append(calls, [op |-> op, s |-> s, t |-> t, r |-> r, after |-> after])

Give ==
  \/ /\ at' = IF resonant THEN Append(at, 0) ELSE at
     /\ Entry("state", Len(at) + 1, 0, IF resonant THEN "some" ELSE "none", 0)
  \/ \E s \in 1..Len(at) : at' = Append(at, at[s]) /\ Entry("copy", s, 0, "some", at[s])

Refuse ==
  /\ \E s \in 0..Len(at), t \in Times :
       /\ IF s = 0 THEN resonant ELSE ~Within(at[s], t)
       /\ Entry("pfs", s, t, "refused", IF s = 0 THEN 0 ELSE at[s])
  /\ UNCHANGED at

Accept ==
  \E s \in 1..Len(at), t \in Times :
    /\ Within(at[s], t)
    /\ busy' = [s |-> s, t |-> t]
    /\ at' = [at EXCEPT ![s] = Last(t)]

Answer ==
  /\ Entry("pfs", busy.s, busy.t, "served", Last(busy.t))
  /\ answer' = Direct(busy.t)
  /\ busy' = <<>>

AnswerDirectly ==
  /\ ~resonant
  /\ \E t \in Times : Entry("pfs", 0, t, "served", 0) /\ answer' = <<<<>>, t>>

Next ==
  /\ resonant' = resonant
  /\ \/ busy = <<>> /\ (Give \/ Refuse) /\ UNCHANGED <<busy, answer>>
     \/ busy = <<>> /\ Accept /\ UNCHANGED <<calls, answer>>
     \/ busy = <<>> /\ AnswerDirectly /\ UNCHANGED <<at, busy>>
     \/ busy # <<>> /\ Answer /\ UNCHANGED at

Spec == Init /\ [][Next]_vars
=============================================================================

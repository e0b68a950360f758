------------------------------- MODULE Routes -------------------------------
(***************************************************************************)
(* The ways from the text of an element set to a prediction.               *)
(*                                                                         *)
(* The text is read in one of five formats, possibly written as JSON and   *)
(* read again, and turned into constants, by the constructor or by hand.   *)
(* Constants are cloned, written and read again; states are created,       *)
(* copied and handed from one copy of the constants to another; requests   *)
(* are made directly, through no state or through a state, in minutes or   *)
(* by a date.                                                              *)
(*                                                                         *)
(* Numbers are abstracted: constants are known by their origin, a state by *)
(* the steps it has made and by the constants that made each step.  What a *)
(* prediction means is left when the origins are erased.  That it depends  *)
(* on the moment alone, and on nothing at all but the origin when nothing  *)
(* on the way was rounded, are theorems that TLC checks on all routes      *)
(* within the bounds.                                                      *)
(*                                                                         *)
(* Completed routes are printed for replay on the implementation.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Unit,       \* times per step (4)
  Moments,    \* the times that may be requested
  Formats,    \* the formats the element set may be read from
  MaxOps,     \* operations after the constants were built
  Exporting   \* whether completed routes are printed

VARIABLES
  resonant,   \* whether the orbit is resonant
  element,    \* the element set: [format, stored], or <<>>
  constants,  \* sequence of [element, afspc, way, restored]
  states,     \* sequence of [t, path], path being <<constants, direction>>
  ops,        \* the operations so far
  answers     \* what was answered: [c, t, path, rest]

vars == <<resonant, element, constants, states, ops, answers>>

AllFormats == {"tle", "p2", "p3", "omm", "omms"}
OneFormat == {"tle"}
SomeMoments == {-5, 3, 9}
LaterMoments == {5, 9}

Mag(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Truncate(t) == Sign(t) * Unit * (Mag(t) \div Unit)

Accepts(st, t) ==
  /\ st.t # 0 => Sign(t) = Sign(st.t)
  /\ Mag(t) >= Mag(st.t)

(* the steps that constants c make from time a to the last step before t   *)
Steps(c, a, t) == [j \in 1..((Mag(t) - Mag(a)) \div Unit) |-> <<c, Sign(t)>>]

(* what a state becomes when it serves t for constants c                   *)
Moved(c, st, t) == [t |-> Truncate(t), path |-> st.path \o Steps(c, st.t, t)]
Fresh == [t |-> 0, path |-> <<>>]

Answered(c, st, t) == [c |-> c, t |-> t, path |-> st.path, rest |-> t - st.t]
OneShot(c, t) == Answered(c, IF resonant THEN Moved(c, Fresh, t) ELSE Fresh, t)

Init ==
  /\ resonant \in BOOLEAN
  /\ element = <<>> /\ constants = <<>> /\ states = <<>> /\ ops = <<>> /\ answers = <<>>

Do(op) == ops' = Append(ops, op)
Op(k, c, s, t, dated) == [k |-> k, c |-> c, s |-> s, t |-> t, dated |-> dated]

Read ==
  /\ element = <<>>
  /\ \E f \in Formats, stored \in {0, 1} : element' = [format |-> f, stored |-> stored]
  /\ UNCHANGED <<resonant, constants, states, ops, answers>>

Build ==
  /\ element # <<>> /\ constants = <<>>
  /\ \E afspc \in BOOLEAN, way \in {"from", "compose"} :
       constants' = <<[element |-> element, afspc |-> afspc, way |-> way, restored |-> 0]>>
  /\ UNCHANGED <<resonant, element, states, ops, answers>>

(* routes end with an answer                                               *)
Ready == constants # <<>> /\ Len(ops) < MaxOps
Preparing == Ready /\ Len(ops) < MaxOps - 1

Clone ==
  /\ Preparing /\ Len(constants) = 1
  /\ constants' = Append(constants, constants[1])
  /\ Do(Op("clone", 1, 2, 0, FALSE))
  /\ UNCHANGED <<resonant, element, states, answers>>

Restore ==
  /\ Preparing /\ Len(constants) = 1
  /\ constants' = Append(constants, [constants[1] EXCEPT !.restored = @ + 1])
  /\ Do(Op("rtconst", 1, 2, 0, FALSE))
  /\ UNCHANGED <<resonant, element, states, answers>>

Create ==
  /\ Preparing /\ resonant /\ Len(states) < 2
  /\ \E c \in 1..Len(constants) :
       /\ states' = Append(states, Fresh)
       /\ Do(Op("state", c, Len(states) + 1, 0, FALSE))
  /\ UNCHANGED <<resonant, element, constants, answers>>

Copy ==
  /\ Preparing /\ Len(states) = 1
  /\ states' = Append(states, states[1])
  /\ Do(Op("copy", 1, 2, 0, FALSE))
  /\ UNCHANGED <<resonant, element, constants, answers>>

(* directly (s = -1), or through no state (s = 0) if there is none         *)
Ask ==
  /\ Ready
  /\ \E c \in 1..Len(constants), t \in Moments, dated \in BOOLEAN,
        s \in {-1} \cup (IF resonant THEN {} ELSE {0}) :
       /\ answers' = Append(answers, OneShot(constants[c], t))
       /\ Do(Op("ask", c, s, t, dated))
  /\ UNCHANGED <<resonant, element, constants, states>>

AskThrough ==
  /\ Ready
  /\ \E c \in 1..Len(constants), s \in 1..Len(states), t \in Moments, dated \in BOOLEAN :
       /\ Accepts(states[s], t)
       /\ states' = [states EXCEPT ![s] = Moved(constants[c], @, t)]
       /\ answers' = Append(answers, Answered(constants[c], states'[s], t))
       /\ Do(Op("ask", c, s, t, dated))
  /\ UNCHANGED <<resonant, element, constants>>

Next == Read \/ Build \/ Clone \/ Restore \/ Create \/ Copy \/ Ask \/ AskThrough
Spec == Init /\ [][Next]_vars

(******************************** theorems *********************************)
TypeOK ==
  /\ Len(constants) <= 2 /\ Len(states) <= 2 /\ Len(ops) <= MaxOps
  /\ \A j \in 1..Len(constants) : constants[j].element = element /\ constants[j].restored \in {0, 1}
  /\ \A j \in 1..Len(states) : Mag(states[j].t) = Unit * Len(states[j].path)

(* what is left of an answer when it is forgotten where numbers came from  *)
Meaning(a) ==
  [afspc |-> a.c.afspc, t |-> a.t, steps |-> [j \in 1..Len(a.path) |-> a.path[j][2]], rest |-> a.rest]

Canonical(afspc, t) ==
  [afspc |-> afspc, t |-> t,
   steps |-> IF resonant THEN [j \in 1..(Mag(t) \div Unit) |-> Sign(t)] ELSE <<>>,
   rest |-> IF resonant THEN t - Truncate(t) ELSE t]

(* whichever route was taken, the answer is that of the element set at the *)
(* moment                                                                  *)
RoutesAgree ==
  \A j \in 1..Len(answers) : Meaning(answers[j]) = Canonical(answers[j].c.afspc, answers[j].t)

(* an answer to which the same constants, or clones of them, contributed   *)
(* every step is, to the last bit, their direct answer                     *)
Pure(a) == \A j \in 1..Len(a.path) : a.path[j][1] = a.c
PureAgree == \A j \in 1..Len(answers) : Pure(answers[j]) => answers[j] = OneShot(answers[j].c, answers[j].t)

(* only constants that were written and read again can mix                 *)
OnlyRestoredMix ==
  (\A j \in 1..Len(constants) : constants[j].restored = 0) => \A j \in 1..Len(answers) : Pure(answers[j])

(******************************** export ***********************************)
Export ==
  (Exporting /\ Len(ops) = MaxOps /\ (MaxOps <= 2 \/ (resonant /\ states # <<>>) \/ (~resonant /\ Len(constants) = 2)))
    => PrintT("@@" \o ToJson([resonant |-> resonant, format |-> element.format, stored |-> element.stored,
                              afspc |-> constants[1].afspc, way |-> constants[1].way, ops |-> ops]))
=============================================================================

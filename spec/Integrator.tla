----------------------------- MODULE Integrator -----------------------------
(***************************************************************************)
(* Resonance states and the requests made through them.                    *)
(*                                                                         *)
(* The numerical integration is abstracted: a state has a time and a path, *)
(* the sequence of steps made since the epoch, which determines its mean   *)
(* motion and longitude.  A prediction is determined by the path and the   *)
(* remaining time.  Times are in units of a quarter of the step (180 min). *)
(* The mechanism (one step at a time, until less than a step remains) and  *)
(* the rule for accepting requests are those of the documentation; that    *)
(* reuse never changes a prediction is then a theorem about them, which    *)
(* TLC checks on all behaviours within the bounds, as invariants and as    *)
(* the refinement of a service without integration (Oracle).               *)
(*                                                                         *)
(* Completed behaviours are printed for replay on the implementation.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Unit,       \* times per step (4)
  Times,      \* the times that may be requested
  MaxCalls,   \* length of a behaviour
  MaxHandles, \* states that may exist
  Exporting      \* whether completed behaviours are printed

VARIABLES
  resonant,   \* whether the orbit is resonant
  states,     \* the resonance states that exist: sequence of [t, path]
  busy,       \* the request being served: [s, t], or <<>>
  calls,      \* the history: [op, s, t, r, after]
  answer      \* the last prediction returned

AllTimes == {-9, -8, -5, -4, -1, 0, 1, 3, 4, 5, 8, 9}
FewTimes == {-9, -4, -1, 0, 3, 4, 9}

vars == <<resonant, states, busy, calls, answer>>

Mag(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

(* truncation toward the epoch, to a multiple of the step                  *)
Truncate(t) == Sign(t) * Unit * (Mag(t) \div Unit)

Fresh == [t |-> 0, path |-> <<>>]

(* the prediction that one-shot propagation to t gives                     *)
OneShot(t) == <<[j \in 1..(Mag(t) \div Unit) |-> Sign(t)], t - Truncate(t)>>
Prediction(state, t) == <<state.path, t - state.t>>

(* the rule: same side of the epoch and not closer to it                   *)
Accepts(state, t) ==
  /\ state.t # 0 => Sign(t) = Sign(state.t)
  /\ Mag(t) >= Mag(state.t)

Init ==
  /\ resonant \in BOOLEAN
  /\ states = <<>>
  /\ busy = <<>>
  /\ calls = <<>>
  /\ answer = <<>>

Record(c) == calls' = Append(calls, c)
Idle == busy = <<>> /\ Len(calls) < MaxCalls

(* asking for an initial state gives one exactly when the orbit is resonant *)
Create ==
  /\ Idle /\ Len(states) < MaxHandles
  /\ states' = IF resonant THEN Append(states, Fresh) ELSE states
  /\ Record([op |-> "state", s |-> Len(states) + 1, t |-> 0,
             r |-> IF resonant THEN "some" ELSE "none", after |-> 0])
  /\ UNCHANGED <<resonant, busy, answer>>

Copy ==
  /\ Idle /\ Len(states) < MaxHandles
  /\ \E s \in 1..Len(states) :
       /\ states' = Append(states, states[s])
       /\ Record([op |-> "copy", s |-> s, t |-> 0, r |-> "some", after |-> states[s].t])
  /\ UNCHANGED <<resonant, busy, answer>>

(* s = 0 stands for passing no state                                       *)
Refuse ==
  /\ Idle
  /\ \E s \in 0..Len(states), t \in Times :
       /\ IF s = 0 THEN resonant ELSE ~Accepts(states[s], t)
       /\ Record([op |-> "pfs", s |-> s, t |-> t, r |-> "refused",
                  after |-> IF s = 0 THEN 0 ELSE states[s].t])
  /\ UNCHANGED <<resonant, states, busy, answer>>

ServeWithoutState ==
  /\ Idle /\ ~resonant
  /\ \E t \in Times :
       /\ Record([op |-> "pfs", s |-> 0, t |-> t, r |-> "served", after |-> 0])
       /\ answer' = <<<<>>, t>>
  /\ UNCHANGED <<resonant, states, busy>>

Start ==
  /\ Idle
  /\ \E s \in 1..Len(states), t \in Times :
       Accepts(states[s], t) /\ busy' = [s |-> s, t |-> t]
  /\ UNCHANGED <<resonant, states, calls, answer>>

Step ==
  /\ busy # <<>> /\ Mag(busy.t - states[busy.s].t) >= Unit
  /\ LET dir == Sign(busy.t - states[busy.s].t)
     IN states' = [states EXCEPT ![busy.s] = [t |-> @.t + dir * Unit, path |-> Append(@.path, dir)]]
  /\ UNCHANGED <<resonant, busy, calls, answer>>

Finish ==
  /\ busy # <<>> /\ Mag(busy.t - states[busy.s].t) < Unit
  /\ Record([op |-> "pfs", s |-> busy.s, t |-> busy.t, r |-> "served",
             after |-> states[busy.s].t])
  /\ answer' = Prediction(states[busy.s], busy.t)
  /\ busy' = <<>>
  /\ UNCHANGED <<resonant, states>>

Next == Create \/ Copy \/ Refuse \/ ServeWithoutState \/ Start \/ Step \/ Finish

Fairness == WF_vars(Step) /\ WF_vars(Finish)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fairness

(****************************** properties *********************************)
TypeOK ==
  /\ Len(states) <= MaxHandles /\ Len(calls) <= MaxCalls
  /\ \A s \in 1..Len(states) : states[s].t % Unit = 0

(* a state is where its path says, and a path never turns back             *)
PathMatchesTime ==
  \A s \in 1..Len(states) :
    /\ Mag(states[s].t) = Unit * Len(states[s].path)
    /\ \A j \in 1..Len(states[s].path) : states[s].path[j] = Sign(states[s].t)

(* reuse never changes a prediction                                        *)
ReuseIsInvisible ==
  busy # <<>> /\ Mag(busy.t - states[busy.s].t) < Unit
    => Prediction(states[busy.s], busy.t) = OneShot(busy.t)

(* the state never runs beyond the request                                 *)
NeverBeyond == busy # <<>> => Mag(states[busy.s].t) <= Mag(busy.t)

ServedAtTruncation ==
  \A j \in 1..Len(calls) :
    calls[j].op = "pfs" /\ calls[j].r = "served" /\ calls[j].s # 0
      => calls[j].after = Truncate(calls[j].t)

OnlyResonantHaveStates == states # <<>> => resonant

(* between two steps of the system a state moves away from the epoch, or   *)
(* not at all                                                              *)
AwayFromEpoch ==
  [][\A s \in 1..Len(states) :
       Mag(states'[s].t) >= Mag(states[s].t) /\
       (states[s].t # 0 => Sign(states'[s].t) = Sign(states[s].t))]_vars

(* every accepted request is answered                                      *)
Answered == (busy # <<>>) ~> (busy = <<>>)

(* the service without integration: a state being moved is where it will   *)
(* end                                                                     *)
Simple == INSTANCE Oracle WITH
  at <- [s \in 1..Len(states) |->
           IF busy # <<>> /\ busy.s = s THEN Truncate(busy.t) ELSE states[s].t]
Refines == Simple!Spec

(******************************** export ***********************************)
Export ==
  Exporting/\ busy = <<>> /\ Len(calls) = MaxCalls
    => PrintT("@@" \o ToJson([resonant |-> resonant, calls |-> calls]))
=============================================================================

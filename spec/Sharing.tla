------------------------------ MODULE Sharing -------------------------------
(***************************************************************************)
(* Several clients share the constants of several satellites.              *)
(*                                                                         *)
(* A client makes requests one after the other, directly or through states *)
(* of its own; requests of different clients overlap in every possible     *)
(* way.  Constants are never written.  A request moves its state one step  *)
(* at a time, so that another client's steps fall in between.              *)
(*                                                                         *)
(* TLC checks that what a request returns is a function of the request     *)
(* alone, on every interleaving; each completed behaviour is printed, as   *)
(* the order in which requests finished and the program of each client,    *)
(* to be replayed sequentially and with threads.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Clients, Satellites, ResonantSatellites, Times, Unit, MaxCalls, Exporting

VARIABLES
  own,    \* own[k][a]: client k's state for satellite a: [t, path]
  doing,  \* doing[k]: the request client k is making, or <<>>
  log     \* finished requests, in order: [k, a, t, fs, result]

vars == <<own, doing, log>>

Fresh == [t |-> 0, path |-> <<>>]
Steps(t) == t \div Unit
Path(a, n) == [j \in 1..n |-> a]

(* the value a request must have: its satellite's path to the last step    *)
(* before t                                                                *)
Value(a, t) == IF a \in ResonantSatellites THEN <<a, Path(a, Steps(t)), t % Unit>> ELSE <<a, <<>>, t>>

CallsOf(k) == SelectSeq(log, LAMBDA x : x.k = k)
Made(k) == Len(CallsOf(k)) + IF doing[k] = <<>> THEN 0 ELSE 1

Init ==
  /\ own = [k \in Clients |-> [a \in ResonantSatellites |-> Fresh]]
  /\ doing = [k \in Clients |-> <<>>]
  /\ log = <<>>

(* a direct request works on a state of its own, discarded afterwards      *)
Ask(k) ==
  /\ doing[k] = <<>> /\ Made(k) < MaxCalls
  /\ \E a \in Satellites, t \in Times, fs \in BOOLEAN :
       /\ fs => a \in ResonantSatellites /\ own[k][a].t <= t
       /\ doing' = [doing EXCEPT ![k] = [a |-> a, t |-> t, fs |-> fs,
                                         st |-> IF fs THEN own[k][a] ELSE Fresh]]
  /\ UNCHANGED <<own, log>>

Busy(k) == doing[k] # <<>> /\ doing[k].a \in ResonantSatellites
           /\ doing[k].t - doing[k].st.t >= Unit

Work(k) ==
  /\ doing[k] # <<>> /\ Busy(k)
  /\ doing' = [doing EXCEPT ![k].st = [t |-> @.t + Unit, path |-> Append(@.path, doing[k].a)]]
  /\ UNCHANGED <<own, log>>

Return(k) ==
  /\ doing[k] # <<>> /\ ~Busy(k)
  /\ LET d == doing[k]
         result == IF d.a \in ResonantSatellites THEN <<d.a, d.st.path, d.t - d.st.t>>
                   ELSE <<d.a, <<>>, d.t>>
     IN /\ log' = Append(log, [k |-> k, a |-> d.a, t |-> d.t, fs |-> d.fs, result |-> result])
        /\ own' = IF d.fs THEN [own EXCEPT ![k][d.a] = d.st] ELSE own
  /\ doing' = [doing EXCEPT ![k] = <<>>]

Next == \E k \in Clients : Ask(k) \/ Work(k) \/ Return(k)
Spec == Init /\ [][Next]_vars

Pure == \A j \in 1..Len(log) : log[j].result = Value(log[j].a, log[j].t)

(* clients do not affect each other's states                               *)
Separate ==
  \A k \in Clients, a \in ResonantSatellites :
    LET mine == SelectSeq(log, LAMBDA x : x.k = k /\ x.a = a /\ x.fs)
    IN own[k][a].t = IF mine = <<>> THEN 0 ELSE Unit * Steps(mine[Len(mine)].t)

(* requests might as well have happened one at a time                      *)
OneAtATime == INSTANCE Atomic
Refines == OneAtATime!Spec

(* every request returns                                                   *)
Fairness == \A k \in Clients : WF_vars(Work(k)) /\ WF_vars(Return(k))
FairSpec == Spec /\ Fairness
Returned == \A k \in Clients : doing[k] # <<>> ~> doing[k] = <<>>

Export ==
  Exporting /\ Len(log) = MaxCalls * Cardinality(Clients)
    => PrintT("@@" \o ToJson([j \in 1..Len(log) |->
                [k |-> log[j].k, a |-> log[j].a, t |-> log[j].t, fs |-> log[j].fs]]))
=============================================================================

------------------------------- MODULE Atomic -------------------------------
(***************************************************************************)
(* What sharing must look like: requests happen one at a time, and each    *)
(* returns the value of its satellite and time.  Sharing refines this,     *)
(* with the return of a request as the moment at which it happens.         *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Clients, Satellites, ResonantSatellites, Times, Unit

VARIABLE log

Whole(a, t) ==
  IF a \in ResonantSatellites
  THEN <<a, [j \in 1..(t \div Unit) |-> a], t % Unit>> ELSE <<a, <<>>, t>>

Init == log = <<>>
Next ==
  \E k \in Clients, a \in Satellites, t \in Times, fs \in BOOLEAN :
    log' = Append(log, [k |-> k, a |-> a, t |-> t, fs |-> fs, result |-> Whole(a, t)])
Spec == Init /\ [][Next]_log
=============================================================================

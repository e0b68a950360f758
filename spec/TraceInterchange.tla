--------------------------- MODULE TraceInterchange -------------------------
(***************************************************************************)
(* Reads sessions that give the same element set as two lines and as a     *)
(* message; both results must be the same element set.                     *)
(*                                                                         *)
(* env: element sets by handle                                             *)
(***************************************************************************)
EXTENDS Interchange, TraceBase

DoParse(ev) ==
  /\ Judge("C22", "refused", ev.r.k = "ok")
  /\ IF ev.r.k # "ok" THEN env' = env
     ELSE /\ env' = Put(env, ev.e, ev.r.el)
          /\ IF ev.e = 2 /\ Has(env, 1)
             THEN LET wrong == Differences(env[1], ev.r.el)
                  IN /\ Judge("C22", "the formats differ in " \o ToString(wrong), wrong = {})
                     /\ Cover("both formats")
             ELSE TRUE

Step(ev) ==
  IF ev.r.k \in {"panic", "hang", "crash"}
  THEN Judge(Prop, "the call did not return normally: " \o ev.r.k, FALSE) /\ UNCHANGED env
  ELSE IF ev.op \in {"tle", "omm"} THEN DoParse(ev)
  ELSE UNCHANGED env

Init == Begin /\ env = <<>>
Next == Reading /\ Step(Sessions[s].ev[i])
Spec == Init /\ [][Next]_<<s, i, env>>
=============================================================================

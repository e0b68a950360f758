---------------------------- MODULE TraceMessages ---------------------------
(***************************************************************************)
(* Reads sessions with operations that fail, and judges the messages of    *)
(* the errors.                                                             *)
(*                                                                         *)
(* env: el  datetimes of element sets by handle                            *)
(***************************************************************************)
EXTENDS Messages, TraceBase

(* the error an event reports; the conversions do not say more than that   *)
(* they failed                                                             *)
Reported(ev) ==
  CASE ev.op \in {"tle", "p2", "p3"} ->
         [k |-> "tle", what |-> ev.r.what, line |-> ev.r.line, start |-> ev.r.start, end |-> ev.r.end]
    [] ev.op = "d2m" -> [k |-> "overflow", from |-> env.el[ev.e], to |-> ev.dt]
    [] ev.op = "m2d" -> [k |-> "minutes", t |-> ev.t]
    [] OTHER -> ev.r

(* adding a duration that fits to a datetime at the end of the calendar    *)
AtTheEnd(ev) == [k |-> "add", dt |-> env.el[ev.e]]

Fails(ev) == "text" \in DOMAIN ev.r

Step(ev) ==
  IF ev.r.k \in {"panic", "hang", "crash"}
  THEN /\ Judge(Prop, "the call did not return normally: " \o ev.r.k, FALSE)
       /\ UNCHANGED env
  ELSE
    /\ IF ~Fails(ev) THEN TRUE
       ELSE
         /\ Judge("C23", "message",
                  \/ Tells(Reported(ev), ev.r.text)
                  \/ ev.op = "m2d" /\ Tells(AtTheEnd(ev), ev.r.text))
         /\ Judge("C23", "message of the error inside",
                  "inner" \in DOMAIN ev.r => ev.r.inner = ev.r.text)
         /\ Judge("C23", "value",
                  ev.op = "show" =>
                    \A f \in {"ecc", "t"} \cap DOMAIN ev.err :
                      ev.r[f] = ev.err[f] \/ (IsNaN(ev.r[f]) /\ IsNaN(ev.err[f])))
         /\ Cover(ev.op \o ": " \o (IF ev.r.k = "err" /\ "what" \in DOMAIN ev.r
                                    THEN ev.r.what \o " " \o ev.r.line ELSE ev.r.k))
    /\ env' = IF ev.op = "elem" THEN [env EXCEPT !.el = Put(@, ev.e, ev.el.dt)] ELSE env

Init == Begin /\ env = [el |-> <<>>]
Next == Reading /\ Step(Sessions[s].ev[i])
Spec == Init /\ [][Next]_<<s, i, env>>
=============================================================================

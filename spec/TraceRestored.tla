---------------------------- MODULE TraceRestored ---------------------------
(***************************************************************************)
(* Reads sessions that write objects as JSON and read them back.           *)
(*                                                                         *)
(* env: elements by handle                                                 *)
(***************************************************************************)
EXTENDS Restoring, TraceBase

Keep == UNCHANGED env

DoElements(ev) == env' = Put(env, ev.e, ev.el)
DoParsed(ev) == IF ev.r.k = "ok" THEN env' = Put(env, ev.e, ev.r.el) ELSE Keep

DoRestoredElements(ev) ==
  IF ~Has(env, ev.e) \/ ev.r.k = "missing" THEN Keep
  ELSE LET given == env[ev.e]
       IN /\ Judge("C17", "an element set was not restored", ev.r.k = "ok")
          /\ IF ev.r.k \in {"ok", "deerr"} /\ Prop = "C17"
             THEN LET lost == Unwritten(ev.r.text, given)
                  IN Judge("C17", "the message does not hold " \o ToString(lost), lost = {})
             ELSE TRUE
          /\ IF ev.r.k = "ok" /\ Prop = "C17"
             THEN LET wrong == WrongElements(ev.r.el, given)
                  IN Judge("C17", "restored elements differ in " \o ToString(wrong), wrong = {})
             ELSE TRUE
          /\ Cover("element set"
                   \o (IF given.name.some THEN ", named" ELSE "")
                   \o (IF given.intl.some THEN ", designated" ELSE ""))
          /\ Keep

DoRestored(ev, got, given, fields, what) ==
  /\ Judge("C17", what \o " was not restored", ev.r.k = "ok")
  /\ IF ev.r.k = "ok" /\ Prop = "C17"
     THEN LET wrong == WrongReals(ev.r[got], given, fields)
          IN Judge("C17", what \o " differs in " \o ToString(wrong), wrong = {})
     ELSE TRUE
  /\ Cover(what)
  /\ Keep

DoPrediction(ev) ==
  /\ Judge("C17", "a prediction was not restored", ev.r.k = "ok")
  /\ Judge("C17", "a prediction differs",
           ev.r.k = "ok" => \A j \in 1..3 : SameReal(ev.r.pos[j], ev.pos[j]) /\ SameReal(ev.r.vel[j], ev.vel[j]))
  /\ Cover("prediction")
  /\ Keep

Theory == INSTANCE Sgp4
Named(g) == IF g.name = "wgs84" THEN Theory!WGS84 ELSE IF g.name = "wgs72" THEN Theory!WGS72 ELSE g

Step(ev) ==
  IF ev.r.k \in {"panic", "hang", "crash"}
  THEN Judge(Prop, "the call did not return normally: " \o ev.r.k, FALSE) /\ Keep
  ELSE CASE ev.op = "elem" -> DoElements(ev)
         [] ev.op \in {"tle", "omm"} -> DoParsed(ev)
         [] ev.op = "rtelem" -> DoRestoredElements(ev)
         [] ev.op = "rtorbit" -> DoRestored(ev, "o", ev.o, OrbitFields, "an orbit")
         [] ev.op = "rtgeo" -> DoRestored(ev, "g", Named(ev.g), GravityFields, "a gravity model")
         [] ev.op = "rtpred" -> DoPrediction(ev)
         [] OTHER -> Keep

Init == Begin /\ env = <<>>
Next == Reading /\ Step(Sessions[s].ev[i])
Spec == Init /\ [][Next]_<<s, i, env>>
=============================================================================

------------------------------ MODULE TraceOmm ------------------------------
(***************************************************************************)
(* Reads sessions that deserialize orbit mean-elements messages and judges *)
(* results against Omm.                                                    *)
(***************************************************************************)
EXTENDS Omm, TraceBase

DoObject(ev) ==
  LET value == Value(ev.text)
      verdict == ObjectVerdict(value)
      object == value.ok /\ value.v.t = "obj"
      rs == Readings(value.v)
      wrong == WrongOmmFields(ev.r.el, rs)
  IN IF Prop \in {"C16", "C20", "C22"}
     THEN /\ Judge(Prop, "acceptance", verdict = "any" \/ ev.r.k = verdict)
          /\ Judge(Prop, "fields", (object /\ ev.r.k = "ok" /\ verdict # "err") => wrong = {})
          /\ Cover("object: " \o verdict \o
                   (IF ~object \/ verdict = "ok" THEN "" ELSE
                      LET bad == {f \in Fields : rs[f].k # "ok"}
                      IN IF Cardinality(bad) = 1 THEN " " \o CHOOSE f \in bad : TRUE ELSE " (several)"))
     ELSE TRUE

DoList(ev) ==
  LET value == Value(ev.text)
      verdict == ListVerdict(value)
      items == value.v.q
  IN IF Prop \in {"C16", "C20"}
     THEN /\ Judge(Prop, "acceptance of a list", verdict = "any" \/ ev.r.k = verdict)
          /\ Judge(Prop, "list",
                   (ev.r.k = "ok" /\ verdict # "err") =>
                     /\ Len(ev.r.list) = Len(items)
                     /\ \A j \in 1..Len(items) :
                          items[j].t = "obj" => WrongOmmFields(ev.r.list[j], Readings(items[j])) = {})
          /\ Cover("list: " \o verdict \o
                   (IF value.ok /\ value.v.t = "arr"
                    THEN (IF Len(items) = 0 THEN ", empty" ELSE IF Len(items) = 1 THEN ", one" ELSE ", several")
                    ELSE ""))
     ELSE TRUE

Step(ev) ==
  /\ env' = env
  /\ IF ev.r.k \in {"panic", "hang", "crash"}
     THEN Judge(Prop, "the call did not return normally: " \o ev.r.k, FALSE)
     ELSE IF ev.op = "omm" THEN DoObject(ev)
     ELSE IF ev.op = "omms" THEN DoList(ev)
     ELSE TRUE

Init == Begin /\ env = <<>>
Next == Reading /\ Step(Sessions[s].ev[i])
Spec == Init /\ [][Next]_<<s, i, env>>
=============================================================================

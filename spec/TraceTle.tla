------------------------------ MODULE TraceTle ------------------------------
(***************************************************************************)
(* Reads sessions that parse element sets, one pair of lines or many, and  *)
(* judges results against Tle.                                             *)
(*                                                                         *)
(* env: nothing is remembered                                              *)
(***************************************************************************)
EXTENDS Batch, TraceBase

(* whether the build under test reads names and designators                *)
HasText == IOEnv.TEXT = "yes"

Reported(r) == [what |-> r.what, line |-> r.line, start |-> r.start, end |-> r.end]

(* which defects a situation is about, for the books                       *)
Situation(defects) ==
  IF defects = {} THEN "well-formed"
  ELSE IF Cardinality(defects) > 1 THEN "several defects"
  ELSE LET d == CHOOSE x \in defects : TRUE IN d.what \o " " \o d.line

DoTle(ev) ==
  LET text == HasText
      defects == Defects(ev.l1, ev.l2, text)
      sound == defects = {} /\ ev.r.k = "ok"
      wrong == WrongFields(ev.r.el, ev.name, ev.l1, ev.l2, text)
  IN /\ Judge("C11", "acceptance", ev.r.k = IF defects = {} THEN "ok" ELSE "err")
     /\ Judge("C11", "reported defect",
              (ev.r.k = "err" /\ defects # {}) => Reported(ev.r) \in defects /\ ev.r.shown)
     /\ IF Prop \in {"C12", "C20", "C22"}
        THEN Judge(Prop, "fields " \o ToString(wrong), sound => wrong = {}) ELSE TRUE
     /\ Judge("C13", "a broken line was accepted", IntegrityBroken(ev.l1, ev.l2) => ev.r.k # "ok")
     /\ IF Prop \in {"C14", "C20", "C22"}
        THEN Judge(Prop, "epoch", sound => EpochMatches(ev.r.el.dt, ev.l1)) ELSE TRUE
     /\ Judge("C14", "day of the year",
              (ev.r.k = "ok" /\ Complete(ev.l1) /\ EpochYear(ev.l1).ok /\ EpochDay(ev.l1).ok)
                => DayExists(Century(Number(EpochYear(ev.l1).d)), EpochDay(ev.l1).x))
     /\ Judge("C14", "a day that exists was refused",
              defects = {} => ev.r.k = "ok")
     /\ Judge("C20", "acceptance", ev.r.k = IF defects = {} THEN "ok" ELSE "err")
     /\ Judge("C20", "reported defect",
              (ev.r.k = "err" /\ defects # {}) => Reported(ev.r) \in defects)
     /\ Cover(Situation(defects))

DoBatch(ev) ==
  LET groups == Groups(ev.text, IF ev.op = "p2" THEN 2 ELSE 3)
      bad == Malformed(groups)
  IN /\ Judge("C15", "acceptance", ev.r.k = IF bad = {} THEN "ok" ELSE "err")
     /\ Judge("C15", "reported defect",
              (bad # {} /\ ev.r.k = "err") => Reported(ev.r) \in GroupDefects(groups[First(bad)]))
     /\ Judge("C15", "element sets",
              (bad = {} /\ ev.r.k = "ok") =>
                /\ Len(ev.r.list) = Len(groups)
                /\ \A j \in 1..Len(groups) :
                     /\ WrongFields(ev.r.list[j], groups[j].name, groups[j].l1, groups[j].l2, TRUE) = {}
                     /\ EpochMatches(ev.r.list[j].dt, groups[j].l1))
     /\ Cover(ev.op \o (IF bad = {} THEN ": accepted" ELSE ": refused")
              \o (IF Len(groups) > 1 THEN ", several groups"
                  ELSE IF Len(groups) = 1 THEN ", one group" ELSE ", no group")
              \o (IF Incomplete(ev.text, IF ev.op = "p2" THEN 2 ELSE 3) THEN ", incomplete group" ELSE ""))

Step(ev) ==
  /\ env' = env
  /\ IF ev.r.k \in {"panic", "hang", "crash"}
     THEN Judge(Prop, "the call did not return normally: " \o ev.r.k, FALSE)
     ELSE IF ev.r.k = "unsupported" THEN TRUE
     ELSE IF ev.op = "tle" THEN DoTle(ev)
     ELSE IF ev.op \in {"p2", "p3"} THEN DoBatch(ev)
     ELSE TRUE

Init == Begin /\ env = <<>>
Next == Reading /\ Step(Sessions[s].ev[i])
Spec == Init /\ [][Next]_<<s, i, env>>
=============================================================================

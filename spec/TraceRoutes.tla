---------------------------- MODULE TraceRoutes -----------------------------
(***************************************************************************)
(* Reads sessions that take different routes (Routes) to the predictions   *)
(* of the same element sets.                                               *)
(*                                                                         *)
(* Constants are known by the numbers of the element set they were built   *)
(* from, the mode, the way and how often they were written and read again: *)
(* what equal ones answer must be equal bit for bit.  Everything else has  *)
(* to be what the theory says of the element set, up to rounding.          *)
(*                                                                         *)
(* env: set   the first reading of each element set                        *)
(*      el    elements by handle: [set, el]                                *)
(*      c     constants by handle: [key, by, cs, resonant]                 *)
(*      st    states by handle: [keys, t], the constants that made it what *)
(*            it is                                                        *)
(*      seen  outcomes by constants, time and mode                         *)
(***************************************************************************)
EXTENDS Predictions, TraceBase

X == INSTANCE Interchange

Start == [set |-> <<>>, el |-> <<>>, c |-> <<>>, st |-> <<>>, seen |-> <<>>]
Keep == UNCHANGED env

Outcome(r) ==
  IF r.k = "ok" THEN <<"ok", r.pos, r.vel>>
  ELSE IF r.k \in {"ecc", "pecc"} THEN <<r.k, r.ecc, r.t>>
  ELSE <<r.k, r.t, r.t>>

Answer(r) == r.k \in {"ok", "ecc", "pecc", "pl"}

(**************************** reading and storing **************************)
(* what was read, the name aside: a listing of pairs has none              *)
Have(ev, handle, number, el) ==
  /\ LET wrong == IF Has(env.set, number) THEN X!Differences(env.set[number], el) \ {"name"} ELSE {}
     IN Judge("C24", "the routes read different element sets: " \o ToString(wrong), wrong = {})
  /\ env' = [env EXCEPT !.el = Put(@, handle, [set |-> number, el |-> el]),
                        !.set = IF Has(@, number) THEN @ ELSE Put(@, number, el)]

DoRead(ev) ==
  IF ev.r.k # "ok" \/ (ev.op \in {"p2", "p3", "omms"} /\ Len(ev.r.list) < ev.nth)
  THEN Judge("C24", "not read", FALSE) /\ Keep
  ELSE Have(ev, ev.e, ev.set, IF ev.op \in {"p2", "p3", "omms"} THEN ev.r.list[ev.nth] ELSE ev.r.el)

DoStored(ev) ==
  IF ~Has(env.el, ev.e) THEN Keep
  ELSE IF ev.r.k # "ok" THEN Judge("C24", "not restored", FALSE) /\ Keep
  ELSE Have(ev, ev.to, env.el[ev.e].set, ev.r.el)

(******************************** constants ********************************)
Numbers(el) == <<el.dt, el.incl, el.raan, el.ecc, el.argp, el.m, el.n, el.bstar>>

DoBuild(ev) ==
  IF ~Has(env.el, ev.e) THEN Keep
  ELSE
    LET el == env.el[ev.e].el
        cs == Each(LAMBDA k : FromElementsAt(el, ev.r.y, ev.afspc, k))
    IN /\ Judge("C24", "epoch", EpochAllowed(el, ev.r.y, ev.afspc))
       /\ Judge("C24", "construction",
                ConstructionAllowed(cs, ev.r) \/
                ConstructionAllowed(Again(LAMBDA k : FromElementsAt(el, ev.r.y, ev.afspc, k)), ev.r))
       /\ IF ev.r.k = "ok" /\ \A k \in Evaluations(cs) : cs[k].k = "ok"
          THEN env' = [env EXCEPT !.c = Put(@, ev.c,
                         [key |-> <<Numbers(el), ev.afspc, ev.op, 0>>, by |-> <<el, ev.r.y, ev.afspc>>,
                          cs |-> cs, resonant |-> ev.r.resonant])]
          ELSE Keep

DoCloned(ev) ==
  IF ~Has(env.c, ev.c) THEN Keep
  ELSE /\ Judge("C24", "not cloned", ev.r.k = "ok")
       /\ env' = [env EXCEPT !.c = Put(@, ev.to, @[ev.c])]

DoRestored(ev) ==
  IF ~Has(env.c, ev.c) THEN Keep
  ELSE /\ Judge("C24", "constants were not restored",
                ev.r.k = "ok" /\ ev.r.resonant = env.c[ev.c].resonant)
       /\ env' = [env EXCEPT !.c = Put(@, ev.to, [@[ev.c] EXCEPT !.key = <<@[1], @[2], @[3], @[4] + 1>>])]

(********************************* states **********************************)
DoState(ev) ==
  IF ~Has(env.c, ev.c) THEN Keep
  ELSE /\ Judge("C24", "no state", ev.r.k = "some" /\ FEq(ev.r.t, Zero))
       /\ IF ev.r.k = "some"
          THEN env' = [env EXCEPT !.st = Put(@, ev.s, [keys |-> {env.c[ev.c].key}, t |-> Zero])]
          ELSE Keep

DoCopy(ev) ==
  IF ~Has(env.st, ev.s) THEN Keep
  ELSE /\ Judge("C24", "a copy is where the original is", ev.r.k = "some" /\ FEq(ev.r.t, env.st[ev.s].t))
       /\ env' = [env EXCEPT !.st = Put(@, ev.to, @[ev.s])]

(******************************** requests *********************************)
(* t: the minutes; keys: the constants that contributed; how: the route    *)
Asked(ev, t, keys, how, states) ==
  LET c == env.c[ev.c]
      q == <<c.key, t, ev.afspc>>
      pure == keys = {c.key}
      ps == Outcomes(c.cs, t, ev.afspc)
      again == Outcomes(Again(LAMBDA k : FromElementsAt(c.by[1], c.by[2], c.by[3], k)), t, ev.afspc)
      Allowed(x) == KindAllowed(x, t, ev.r) /\ PredictionAllowed(x, ev.r)
  IN IF ~Answer(ev.r)
     THEN Judge("C24", "not answered: " \o ev.r.k, FALSE) /\ Keep
     ELSE /\ Judge("C24", "routes without rounding disagree",
                   (pure /\ q \in DOMAIN env.seen) => env.seen[q] = Outcome(ev.r))
          /\ Judge("C24", "not the prediction of the element set", Allowed(ps) \/ Allowed(again))
          /\ Cover(how \o (IF c.key[4] > 0 THEN ", restored" ELSE "")
                   \o (IF pure THEN (IF q \in DOMAIN env.seen THEN ", again" ELSE "") ELSE ", mixed")
                   \o (IF ev.r.k = "ok" THEN "" ELSE ": " \o ev.r.k))
          /\ env' = [env EXCEPT !.st = states,
                                !.seen = IF pure THEN Put(@, q, Outcome(ev.r)) ELSE @]

AskedThrough(ev, t, how) ==
  LET c == env.c[ev.c]
      st == env.st[ev.s]
      keys == IF FEq(TruncateToStep(t), st.t) THEN st.keys ELSE st.keys \cup {c.key}
  IN /\ Judge("C24", "integrator time",
              Answer(ev.r) => FEq(ev.r.before, st.t) /\ FEq(ev.r.after, TruncateToStep(t)))
     /\ Asked(ev, t, keys \cup {c.key}, how \o " through a state" \o (IF FEq(st.t, Zero) THEN "" ELSE " that moved"),
              IF Answer(ev.r) THEN Put(env.st, ev.s, [keys |-> keys, t |-> ev.r.after]) ELSE env.st)

DoRequest(ev, t, how) ==
  IF ~Has(env.c, ev.c) \/ ev.r.k = "missing" THEN Keep
  ELSE IF ev.op = "prop" THEN Asked(ev, t, {env.c[ev.c].key}, how, env.st)
  ELSE IF ev.s = -2 THEN Asked(ev, t, {env.c[ev.c].key}, how, env.st)
  ELSE IF ev.s = -1 THEN Asked(ev, t, {env.c[ev.c].key}, how \o " through no state", env.st)
  ELSE IF ~Has(env.st, ev.s) THEN Keep
  ELSE AskedThrough(ev, t, how)

DoDated(ev) ==
  IF ~Has(env.el, ev.e) \/ ev.r.k = "missing" THEN Keep
  ELSE IF ~Answer(ev.r) THEN Judge("C24", "not answered by date: " \o ev.r.k, FALSE) /\ Keep
  ELSE LET x == InMinutes(Elapsed(env.el[ev.e].el.dt, ev.dt))
       IN /\ Judge("C24", "minutes of the date", Abs(ev.r.minutes \ominus x) \preceq Exactly(Abs(x) \otimes F("5e-16")))
          /\ DoRequest(ev, ev.r.minutes, "dated")

Step(ev) ==
  IF ev.r.k \in {"panic", "hang", "crash"}
  THEN Judge(Prop, "the call did not return normally: " \o ev.r.k, FALSE) /\ Keep
  ELSE
    CASE ev.op \in {"tle", "p2", "p3", "omm", "omms"} -> DoRead(ev)
      [] ev.op = "rtelem" -> DoStored(ev)
      [] ev.op \in {"from", "compose"} -> IF ev.r.k = "missing" THEN Keep ELSE DoBuild(ev)
      [] ev.op = "clone" -> DoCloned(ev)
      [] ev.op = "rtconst" -> DoRestored(ev)
      [] ev.op = "state" -> DoState(ev)
      [] ev.op = "copy" -> DoCopy(ev)
      [] ev.op \in {"prop", "pfs"} -> DoRequest(ev, ev.t, "asked")
      [] ev.op = "at" -> DoDated(ev)

Init == Begin /\ env = Start
Next == Reading /\ Step(Sessions[s].ev[i])
Spec == Init /\ [][Next]_<<s, i, env>>
=============================================================================

---------------------------- MODULE TraceStates -----------------------------
(***************************************************************************)
(* Reads sessions that propagate constants directly and through resonance  *)
(* states, and judges them against the protocol of states: which requests  *)
(* are served, where the integrator ends up, and that a prediction depends *)
(* on nothing but the constants, the time and the mode.                    *)
(*                                                                         *)
(* The predictions themselves are uninterpreted here; equal requests must  *)
(* have equal outcomes, bit for bit.                                       *)
(*                                                                         *)
(* env: el    elements by handle                                           *)
(*      c     constants by handle: [key, resonant, known], key being the   *)
(*            arguments they were built from                               *)
(*      st    states by handle: [c, t, served, refused], served being the  *)
(*            requests it has served since it was created                  *)
(*      seen  outcomes by request                                          *)
(***************************************************************************)
EXTENDS Predictions, TraceBase

Start == [el |-> <<>>, c |-> <<>>, st |-> <<>>, seen |-> <<>>]

(* the outcome of a request, as a value                                    *)
Outcome(r) ==
  IF r.k = "ok" THEN <<"ok", r.pos, r.vel>>
  ELSE IF r.k \in {"ecc", "pecc"} THEN <<r.k, r.ecc, r.t>>
  ELSE IF r.k = "pl" THEN <<"pl", r.t, r.t>>
  ELSE <<r.k>>

Answer(r) == r.k \in {"ok", "ecc", "pecc", "pl"}
Keep == UNCHANGED env

(****************************** the protocol *******************************)
(* an integrator at time st.t may serve t: same side of the epoch and not  *)
(* closer to it                                                            *)
Accepts(st, t) ==
  /\ FEq(st.t, Zero) \/ (IsNegative(t) = IsNegative(st.t))
  /\ Abs(t) \succeq Abs(st.t)

(* requests are remembered per property: what must coincide differs        *)
(*   C04  through any state or directly                                    *)
(*   C06  through states with the same past, or directly                   *)
(*   C07  through a fresh state or directly                                *)
Requests(c, past, t, afspc) ==
  (IF c.resonant THEN {<<"C04", c.key, t, afspc>>} ELSE {}) \cup
  {<<"C06", c.key, t, afspc, past>>} \cup
  (IF past \in {<<"direct">>, <<"state">>} THEN {<<"C07", c.key, t, afspc>>} ELSE {})

Same(requests, r) ==
  \A q \in requests :
    q[1] = Prop /\ q \in DOMAIN env.seen => env.seen[q] = Outcome(r)

Remember(seen, requests, r) ==
  IF Answer(r)
  THEN [q \in {x \in requests : x[1] \in {Prop} \/ (Prop = "C05" /\ x[1] = "C06")} |-> Outcome(r)] @@ seen
  ELSE seen

(******************************** events ***********************************)
Built(ev, key, cs) ==
  LET regimes == {cs[k].c.c.regime : k \in {j \in Evaluations(cs) : cs[j].k = "ok"}}
  IN IF ev.r.k # "ok" THEN Keep
     ELSE /\ Judge("C05", "the orbit is resonant or not, against the documented bands",
                   /\ ev.r.resonant \in {Resonant(x) : x \in regimes}
                   /\ FEq(ev.r.t, Zero))
          /\ env' = [env EXCEPT !.c = Put(@, ev.c, [key |-> key, resonant |-> ev.r.resonant])]

DoNew(ev) ==
  Built(ev, <<ev.g, ev.sid, ev.theta, ev.y, ev.bstar, ev.o>>, Each(LAMBDA k : New(ev, k)))

DoFrom(ev) ==
  Built(ev, <<env.el[ev.e], ev.afspc>>,
        Each(LAMBDA k : FromElements(env.el[ev.e], ev.afspc, k)))

DoClone(ev) ==
  IF Has(env.c, ev.c) THEN env' = [env EXCEPT !.c = Put(@, ev.to, @[ev.c])] ELSE Keep

DoState(ev) ==
  IF ~Has(env.c, ev.c) THEN Keep
  ELSE
    /\ Judge("C05", "initial state exactly when resonant",
             /\ ev.r.k = IF env.c[ev.c].resonant THEN "some" ELSE "none"
             /\ ev.r.k = "some" => FEq(ev.r.t, Zero))
    /\ IF ev.r.k = "some"
       THEN env' = [env EXCEPT !.st = Put(@, ev.s, [c |-> env.c[ev.c].key, t |-> Zero,
                                                    served |-> <<>>, refused |-> FALSE])]
       ELSE Keep

DoCopy(ev) ==
  IF ~Has(env.st, ev.s) THEN Keep
  ELSE
    /\ Judge("C04", "a copy is where the original is", FEq(ev.r.t, env.st[ev.s].t))
    /\ env' = [env EXCEPT !.st = Put(@, ev.to, @[ev.s])]

DoDirect(ev) ==
  IF ~Has(env.c, ev.c) \/ ~Answer(ev.r) THEN Keep
  ELSE
    LET q == Requests(env.c[ev.c], <<"direct">>, ev.t, ev.afspc)
    IN /\ Judge(Prop, "the same request gave another outcome before", Same(q, ev.r))
       /\ env' = [env EXCEPT !.seen = Remember(@, q, ev.r)]

(* through no state                                                        *)
DoWithout(ev) ==
  LET c == env.c[ev.c]
      q == Requests(c, <<"direct">>, ev.t, ev.afspc)
  IN /\ Judge("C05", "a resonant orbit without a state is refused, any other is served",
              ev.r.k = "panic" <=> c.resonant)
     /\ Cover(IF c.resonant THEN "no state for a resonant orbit: refused" ELSE "no state: served")
     /\ IF Answer(ev.r)
        THEN /\ Judge(Prop, "the same request gave another outcome before", Same(q, ev.r))
             /\ env' = [env EXCEPT !.seen = Remember(@, q, ev.r)]
        ELSE Keep

(* through a state of the same constants                                   *)
DoThrough(ev) ==
  LET c == env.c[ev.c]
      st == env.st[ev.s]
      accepted == Accepts(st, ev.t)
      q == Requests(c, <<"state">> \o st.served, ev.t, ev.afspc)
      past == <<"C06", c.key, ev.t, ev.afspc, <<"state">> \o st.served>>
      after == TruncateToStep(ev.t)
  IN /\ Judge("C05", "refused exactly when the time is closer to or beyond the epoch",
              /\ ev.r.k = "panic" <=> ~accepted
              /\ ~accepted => FEq(ev.r.after, st.t))
     /\ Judge("C04", "integrator time before the call", FEq(ev.r.before, st.t))
     /\ Judge("C05", "a refusal must not change the state",
              (Answer(ev.r) /\ past \in DOMAIN env.seen) => env.seen[past] = Outcome(ev.r))
     /\ IF "expect" \in DOMAIN ev
        THEN Assert(ev.expect = IF accepted THEN "served" ELSE "refused",
                    <<"the model and the trace specification disagree", ev>>)
        ELSE TRUE
     /\ Cover((IF accepted THEN "served" ELSE "refused")
              \o (IF FEq(st.t, Zero) THEN " from the epoch" ELSE " from a later step")
              \o (IF accepted THEN
                    (IF FEq(after, st.t) THEN ", no step" ELSE ", steps")
                    \o (IF IsNegative(ev.t) THEN " back" ELSE " forward")
                    \o (IF ev.r.k = "ok" THEN "" ELSE ", error")
                    \o (IF st.refused THEN ", after a refusal" ELSE "")
                  ELSE IF IsNegative(ev.t) = IsNegative(st.t) THEN ", closer" ELSE ", other side"))
     /\ IF Answer(ev.r)
        THEN /\ Judge(Prop, "the same request gave another outcome before", Same(q, ev.r))
             /\ Judge("C04", "integrator time after the call", FEq(ev.r.after, after))
             /\ env' = [env EXCEPT !.seen = Remember(@, q, ev.r),
                                   !.st = Put(@, ev.s, [st EXCEPT !.t = ev.r.after,
                                                       !.served = Append(@, ev.t)])]
        ELSE env' = [env EXCEPT !.st = Put(@, ev.s, [st EXCEPT !.refused = TRUE])]

(* through a state of other constants: only whether it is refused matters  *)
DoForeign(ev) ==
  LET c == env.c[ev.c]
  IN /\ Judge("C05", "a state for a non-resonant orbit is refused",
              ~c.resonant => ev.r.k = "panic" /\ FEq(ev.r.after, ev.r.before))
     /\ Cover("state for a non-resonant orbit")
     /\ env' = [env EXCEPT !.st = Put(@, ev.s, [@[ev.s] EXCEPT !.refused = TRUE])]

DoRequest(ev) ==
  IF ~Has(env.c, ev.c) \/ ev.r.k = "missing" \/ ~IsFinite(ev.t) THEN Keep
  ELSE IF ev.s = -1 THEN DoWithout(ev)
  ELSE IF ~Has(env.st, ev.s) THEN Keep
  ELSE IF env.st[ev.s].c = env.c[ev.c].key THEN DoThrough(ev)
  ELSE DoForeign(ev)

(* several threads: each thread is a sequence of requests; those made      *)
(* through its own states have the past of that thread                     *)
Past(calls, j) ==
  IF ~calls[j].fs THEN <<"direct">>
  ELSE LET own == SelectSeq(SubSeq(calls, 1, j - 1), LAMBDA x : x.fs /\ x.c = calls[j].c)
       IN <<"state">> \o [k \in 1..Len(own) |-> own[k].t]

ParallelRequests(ev) ==
  {[q |-> Requests(env.c[ev.threads[h][j].c],
                   IF env.c[ev.threads[h][j].c].resonant THEN Past(ev.threads[h], j) ELSE <<"direct">>,
                   ev.threads[h][j].t, ev.threads[h][j].afspc),
    r |-> ev.r.threads[h][j]] :
     <<h, j>> \in UNION {{<<a, b>> : b \in 1..Len(ev.threads[a])} : a \in 1..Len(ev.threads)}}

DoParallel(ev) ==
  LET all == ParallelRequests(ev)
      Mine(x) == {y \in x.q : y[1] = Prop}
      pairs == UNION {{<<y, Outcome(x.r)>> : y \in Mine(x)} : x \in {z \in all : Answer(z.r)}}
  IN /\ Judge("C06", "a thread's request was not answered", \A x \in all : Answer(x.r))
     /\ Judge("C06", "concurrent requests gave another outcome",
              \A x \in all : Same(x.q, x.r))
     /\ Judge("C06", "equal concurrent requests gave different outcomes",
              \A p \in pairs, p2 \in pairs : p[1] = p2[1] => p[2] = p2[2])
     /\ Cover("threads")
     /\ env' = [env EXCEPT !.seen = [y \in {p[1] : p \in pairs} |->
                                       (CHOOSE p \in pairs : p[1] = y)[2]] @@ @]

Step(ev) ==
  IF ev.r.k \in {"hang", "crash"} \/ (ev.r.k = "panic" /\ ev.op # "pfs")
  THEN /\ Judge(Prop, "the call did not return normally: " \o ev.r.k, FALSE)
       /\ Keep
  (* the driver could be built only without its threads                     *)
  ELSE IF ev.r.k = "unshared"
  THEN /\ Judge("C06", "the types cannot be shared between threads", FALSE)
       /\ Keep
  ELSE
    CASE ev.op = "elem" -> env' = [env EXCEPT !.el = Put(@, ev.e, ev.el)]
      [] ev.op = "new" -> DoNew(ev)
      [] ev.op = "from" -> DoFrom(ev)
      [] ev.op = "clone" -> DoClone(ev)
      [] ev.op = "state" -> DoState(ev)
      [] ev.op = "copy" -> DoCopy(ev)
      [] ev.op = "prop" -> DoDirect(ev)
      [] ev.op = "pfs" -> DoRequest(ev)
      [] ev.op = "par" -> DoParallel(ev)

Init == Begin /\ env = Start
Next == Reading /\ Step(Sessions[s].ev[i])
Spec == Init /\ [][Next]_<<s, i, env>>
=============================================================================

----------------------------- MODULE TraceBase ------------------------------
(***************************************************************************)
(* What all trace specifications share: a trace is a list of independent   *)
(* sessions recorded from the implementation; a behaviour reads one        *)
(* session event by event.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP               \* the property being decided

VARIABLES
  s,    \* the session being read
  i,    \* the next event
  env   \* what the specification knows: objects built so far

Say(x) == PrintT("@@" \o ToJson(<<Sessions[s].sid, i>> \o x))
Cover(label) == Say(<<"COV", label>>)

(* the event contradicts property p unless ok; each worker of TLC counts   *)
(* what it has rejected and judges no more once it has rejected enough     *)
Enough == 8
ASSUME TLCSet(1, 0)
Judge(p, what, ok) ==
  IF p # Prop THEN TRUE
  ELSE IF TLCGet(1) >= Enough THEN TRUE
  ELSE IF ok THEN TRUE
  ELSE Say(<<"REJECT", p, what>>) /\ TLCSet(1, TLCGet(1) + 1)

(* extend or replace an entry of a map from handles to values              *)
Put(m, h, v) == (h :> v) @@ m
Has(m, h) == h \in DOMAIN m

(* a trace specification is  Begin /\ env = ..  followed by steps           *)
(* Reading /\ <what event Sessions[s].ev[i] does to env>                   *)
Begin == s \in 1..Len(Sessions) /\ i = 1
Reading == i <= Len(Sessions[s].ev) /\ i' = i + 1 /\ s' = s
=============================================================================

------------------------------ MODULE Restoring -----------------------------
(***************************************************************************)
(* When an object read back from JSON is the object that was written.      *)
(***************************************************************************)
EXTENDS Omm

(* the JSON reader may round a number twice                                *)
SameReal(r, x) == RealMatches(r, [x |-> x, text |-> FALSE])

WrongReals(got, given, fields) == {f \in fields : ~SameReal(got[f], given[f])}

OrbitFields == {"incl", "raan", "ecc", "argp", "m", "n"}
GravityFields == {"ae", "ke", "j2", "j3", "j4"}
RealFields == {f \in Fields : IsReal1(f)}

(* the fields in which the restored element set differs                    *)
WrongElements(got, given) ==
  WrongReals(got, given, RealFields) \cup {f \in Fields \ RealFields : got[f] # given[f]}

(* the fields that the text written for an element set does not hold,      *)
(* read as a mean-elements message                                         *)
Unwritten(text, given) ==
  LET value == Value(text)
      rs == Readings(value.v)
      Holds(f) ==
        CASE rs[f].k = "err" -> FALSE
          [] rs[f].k # "ok" -> TRUE
          [] IsReal1(f) -> FEq(rs[f].x.x, given[f])
          [] f = "eph" -> Number(rs[f].x) = given[f]
          [] f = "dt" -> EpochMatches(given[f], rs[f].x)
          [] OTHER -> rs[f].x = given[f]
  IN IF ~value.ok \/ value.v.t # "obj" THEN Fields
     ELSE {f \in Fields : ~Holds(f)}
=============================================================================

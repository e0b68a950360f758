----------------------------- MODULE TraceTime ------------------------------
(***************************************************************************)
(* Reads sessions about epochs, elapsed times and sidereal times.          *)
(*                                                                         *)
(* env: el  datetimes of element sets by handle                            *)
(*      y   epochs recorded, by datetime                                   *)
(***************************************************************************)
EXTENDS Predictions, TraceBase

Within(a, b, limit) == Abs(a \ominus b) \preceq limit

(********************************* epochs **********************************)
EpochsAllowed(dt, r) ==
  /\ Within(r.y, JulianYears(dt), F("1e-15") \otimes FMax(F("1"), Abs(JulianYears(dt))))
  /\ Within(r.ya, JulianYears(dt), F("5e-12"))

DoEpoch(ev) ==
  /\ Judge("C18", "epoch", EpochsAllowed(ev.dt, ev.r))
  /\ Cover(IF ev.dt.y < 2000 THEN "before 2000" ELSE "from 2000 on")
  /\ env' = [env EXCEPT !.y = Put(@, ev.dt, <<ev.r.y, ev.r.ya>>)]

DoElementsEpoch(ev) ==
  LET dt == env.el[ev.e]
  IN /\ Judge("C18", "epoch of elements", EpochsAllowed(dt, ev.r))
     /\ Judge("C18", "epoch of elements and of their datetime",
              Has(env.y, dt) => env.y[dt] = <<ev.r.y, ev.r.ya>>)
     /\ UNCHANGED env

(******************************* conversions *******************************)
DoToMinutes(ev) ==
  LET d == Elapsed(env.el[ev.e], ev.dt)
      x == InMinutes(d)
  IN /\ Judge("C19", "datetime to minutes, outcome", ev.r.k = IF FitsIn64Bits(d) THEN "ok" ELSE "err")
     /\ Judge("C19", "datetime to minutes",
              ev.r.k = "ok" => Within(ev.r.t, x, Abs(x) \otimes F("5e-16")))
     /\ Cover("to minutes: " \o (IF FitsIn64Bits(d) THEN "ok" ELSE "overflow") \o
              (IF d.s \prec Zero THEN ", back" ELSE ""))
     /\ UNCHANGED env

(* datetimes the calendar library can hold                                 *)
FirstYear == -262143
LastYear == 262142

DoToDatetime(ev) ==
  LET epoch == env.el[ev.e]
      ns == ev.t \otimes F("6e10")
      limit == F("9223372036854775807")
      kinds == IF IsNaN(ev.t) THEN {"err"}
               ELSE IF Within(Abs(ns), limit, NanosecondRounding(limit)) THEN {"ok", "err"}
               ELSE IF Abs(ns) \succ limit THEN {"err"}
               ELSE IF epoch.y > LastYear - 300 \/ epoch.y < FirstYear + 300 THEN {"ok", "err"}
               ELSE {"ok"}
      d == InNanoseconds(Elapsed(epoch, ev.r.dt))
  IN /\ Judge("C19", "minutes to datetime, outcome", ev.r.k \in kinds)
     /\ Judge("C19", "minutes to datetime",
              (ev.r.k = "ok" /\ "ok" \in kinds) =>
                /\ ev.r.dt.n < 1000000000
                /\ Within(d, ns, F("0.5") \oplus NanosecondRounding(ns)))
     /\ Cover("to datetime: " \o (IF Cardinality(kinds) > 1 THEN "limit" ELSE CHOOSE k \in kinds : TRUE) \o
              (IF IsNaN(ev.t) THEN ", NaN" ELSE IF ev.t \prec Zero THEN ", back" ELSE ""))
     /\ UNCHANGED env

(* minutes recorded for a datetime, converted back                         *)
DoBack(ev) ==
  LET epoch == env.el[ev.e]
      d == Elapsed(epoch, ev.dt)
      back == InNanoseconds(Elapsed(ev.dt, ev.r.dt))
      scale == InNanoseconds(d)
  IN /\ Judge("C19", "there and back, outcome",
              FitsIn64Bits(d) =>
                ev.r.k = "ok" \/ (Abs(scale) \oplus NanosecondRounding(scale)) \succeq F("9223372036854775807"))
     /\ Judge("C19", "there and back",
              ev.r.k = "ok" => Abs(back) \preceq (F("0.5") \oplus (F("2") \otimes NanosecondRounding(scale))))
     /\ Cover("there and back: " \o ev.r.k)
     /\ UNCHANGED env

(****************************** sidereal time ******************************)
(* the angle turned in a year is about 2300 rad, so that rounding moves    *)
(* the result in proportion to the years                                   *)
Angle(y, r, expected) ==
  /\ r \succeq Zero /\ r \prec TwoPi
  /\ LET d == Abs(r \ominus expected)
         limit == F("5e-12") \otimes FMax(F("30"), Abs(y))
     IN d \preceq limit \/ Abs(d \ominus TwoPi) \preceq limit

DoSidereal(ev) ==
  /\ Judge("C21", "IAU sidereal time", Angle(ev.y, ev.r.iau, IauSiderealTime(ev.y)))
  /\ Judge("C21", "AFSPC sidereal time", Angle(ev.y, ev.r.afspc, AfspcSiderealTime(ev.y)))
  /\ Cover((IF ev.y \prec Zero THEN "sidereal time, before J2000" ELSE "sidereal time, from J2000 on") \o
           (IF Abs(ev.y) \succ F("60") THEN ", far" ELSE ""))
  /\ UNCHANGED env

Step(ev) ==
  IF ev.r.k \in {"panic", "hang", "crash"}
  THEN /\ Judge(Prop, "the call did not return normally: " \o ev.r.k, FALSE)
       /\ UNCHANGED env
  ELSE
    CASE ev.op = "elem" -> env' = [env EXCEPT !.el = Put(@, ev.e, ev.el.dt)]
      [] ev.op = "epoch" -> DoEpoch(ev)
      [] ev.op = "eepoch" -> DoElementsEpoch(ev)
      [] ev.op = "d2m" -> DoToMinutes(ev)
      [] ev.op = "m2d" -> DoToDatetime(ev)
      [] ev.op = "back" -> DoBack(ev)
      [] ev.op = "sid" -> DoSidereal(ev)

Init == Begin /\ env = [el |-> <<>>, y |-> <<>>]
Next == Reading /\ Step(Sessions[s].ev[i])
Spec == Init /\ [][Next]_<<s, i, env>>
=============================================================================

-------------------------------- MODULE Twins -------------------------------
(***************************************************************************)
(* Element sets in both formats that a conformance run must visit.  TLC    *)
(* checks that the two specifications (Tle, Omm) give both texts the same  *)
(* meaning.                                                                *)
(***************************************************************************)
EXTENDS Interchange, TLC, Json, IOUtils

D(text) == Values(Bytes(text))
Angle3(w, p) == [w |-> D(w), p |-> D(p)]
E5(neg, d, eneg, e) == [neg |-> neg, d |-> D(d), eneg |-> eneg, e |-> e]
Here(year, piece) == [some |-> TRUE, year |-> D(year), piece |-> Bytes(piece)]

(* alternatives of each field; mean motion and eccentricity go together so *)
(* that every regime occurs                                                *)
Shape == << <<"15", "49560532", "0001771">>, <<"06", "40000000", "1000000">>, <<"02", "00561234", "7000001">>,
            <<"01", "00270000", "0002001">>, <<"00", "50000000", "3000000">>, <<"16", "39000000", "0000000">> >>
Incl == <<Angle3("000", "0000"), Angle3("051", "6435"), Angle3("098", "7001"), Angle3("180", "0000"), Angle3("005", "1000")>>
Angles == <<Angle3("000", "0000"), Angle3("359", "9999"), Angle3("044", "9625"), Angle3("180", "0001"), Angle3("007", "0070")>>
Years == <<"57", "99", "00", "56", "24", "20">>
Daysy == <<"001", "059", "060", "061", "100", "365", "366">>
Parts == <<"00000000", "99999999", "50000000", "05492364", "00000001", "33333333", "00003125">>
Dots == <<[neg |-> FALSE, d |-> D("00289036")], [neg |-> TRUE, d |-> D("00002182")], [neg |-> FALSE, d |-> D("00000000")],
          [neg |-> TRUE, d |-> D("99999999")]>>
Exps == <<E5(FALSE, "00000", FALSE, 0), E5(TRUE, "11606", TRUE, 4), E5(FALSE, "49645", TRUE, 2), E5(FALSE, "99999", FALSE, 1),
          E5(TRUE, "10000", TRUE, 9), E5(FALSE, "00123", TRUE, 0)>>
Pieces == <<[some |-> FALSE, year |-> <<0, 0>>, piece |-> <<>>], Here("98", "067A"), Here("57", "001B"), Here("56", "999ZZZ"), Here("03", "7AB")>>
Classes == <<85, 67, 83>>

VARIABLES pick, done

Dims == <<Len(Shape), Len(Years), Len(Daysy), Len(Parts)>>
At1(q, j) == q[(j % Len(q)) + 1]
Mix == pick[1] * 3 + pick[2] * 5 + pick[3] * 7 + pick[4] * 11

Day == IF pick[3] = 7 /\ ~Leap(T!Century(Number(D(Years[pick[2]])))) THEN D("365") ELSE D(Daysy[pick[3]])

Set ==
  [norad |-> At1(<<D("25544"), D("00005"), D("99999"), D("00100")>>, Mix), cls |-> At1(Classes, Mix),
   intl |-> At1(Pieces, Mix), year |-> D(Years[pick[2]]), day |-> Day,
   fraction |-> D(Parts[pick[4]]), mmd |-> At1(Dots, Mix), mmdd |-> At1(Exps, Mix + pick[1]), bstar |-> At1(Exps, Mix + 2 * pick[2]),
   eph |-> At1(<<0, 2, 4, 9>>, Mix), elset |-> At1(<<D("0999"), D("0000"), D("9999"), D("0012")>>, Mix),
   incl |-> At1(Incl, Mix), raan |-> At1(Angles, Mix), argp |-> At1(Angles, Mix + pick[4]), m |-> At1(Angles, Mix + pick[2]),
   ecc |-> D(Shape[pick[1]][3]), n |-> [w |-> D(Shape[pick[1]][1]), p |-> D(Shape[pick[1]][2])],
   rev |-> At1(<<D("23587"), D("00000"), D("99999"), D("00007")>>, Mix)]

Name == At1(<<[some |-> FALSE, b |-> <<>>], [some |-> TRUE, b |-> Bytes("ISS (ZARYA)")], [some |-> TRUE, b |-> <<>>]>>, Mix)
BlankedZeros == Mix % 2 = 0
Style == IF (Mix \div 2) % 2 = 0 THEN "num" ELSE "str"

L1 == Line1(Set, BlankedZeros)
L2 == Line2(Set, BlankedZeros)
Message == MessageOf(Set, Name, Style)

Ops ==
  << [op |-> "tle", e |-> 1, name |-> Name, l1 |-> L1, l2 |-> L2],
     [op |-> "omm", e |-> 2, text |-> Written(Message, <<>>)],
     [op |-> "from", e |-> 1, c |-> 1, afspc |-> FALSE], [op |-> "from", e |-> 2, c |-> 2, afspc |-> FALSE],
     [op |-> "from", e |-> 1, c |-> 3, afspc |-> TRUE], [op |-> "from", e |-> 2, c |-> 4, afspc |-> TRUE] >> \o
  [j \in 1..8 |-> [op |-> "prop", c |-> ((j - 1) % 4) + 1, t |-> IF j > 4 THEN F("-1500") ELSE F("12345.6"),
                   afspc |-> ((j - 1) % 4) > 1]]

Init == pick = <<>> /\ done = FALSE
Complete == Len(pick) = Len(Dims)
Next ==
  \/ /\ ~Complete
     /\ \E v \in 1..Dims[Len(pick) + 1] : pick' = Append(pick, v)
     /\ UNCHANGED done
  \/ /\ Complete /\ ~done
     /\ PrintT("@@" \o ToJson(Ops))
     /\ done' = TRUE /\ UNCHANGED pick
Spec == Init /\ [][Next]_<<pick, done>>

(* both texts are accepted, and mean the same                              *)
SameMeaning ==
  done =>
    LET rs == O!Readings(Message)
        epoch == T!Epoch(L1)
    IN /\ T!WellFormed(L1, L2, TRUE)
       /\ O!Verdict(rs) = "ok"
       /\ Value(Written(Message, <<>>)).v = Message
       /\ rs["norad"].x = T!Catalog(L1).d /\ rs["cls"].x = T!ClassName(T!Class(L1))
       /\ rs["intl"].x = T!Designator(L1)
       /\ rs["eph"].x = T!Ephemeris(L1).d /\ rs["elset"].x = T!ElementSet(L1).d
       /\ rs["rev"].x = T!Revolution(L2).d
       /\ T!EpochDistance(rs["dt"].x, epoch) \preceq F("0.1")
       /\ rs["mmd"].x.x = T!MeanMotionDot(L1).x \/ FEq(rs["mmd"].x.x, T!MeanMotionDot(L1).x)
       /\ FEq(rs["mmdd"].x.x, T!Scaled(T!MeanMotionDdot(L1), T!MeanMotionDdotExponent(L1)))
       /\ FEq(rs["bstar"].x.x, T!Scaled(T!Drag(L1), T!DragExponent(L1)))
       /\ rs["incl"].x.x = T!Inclination(L2).x /\ rs["raan"].x.x = T!Node(L2).x
       /\ rs["ecc"].x.x = T!Eccentricity(L2).x /\ rs["argp"].x.x = T!Perigee(L2).x
       /\ rs["m"].x.x = T!Anomaly(L2).x /\ rs["n"].x.x = T!MeanMotion(L2).x
=============================================================================

-------------------------------- MODULE Tle ---------------------------------
(***************************************************************************)
(* Two-line element sets: which pairs of lines are well-formed, what is    *)
(* wrong with the others, and what the well-formed ones denote.            *)
(*                                                                         *)
(* Columns are numbered from 0; a field [a, b[ is Columns(line, a, b).     *)
(***************************************************************************)
EXTENDS Calendar, Text

LOCAL Ext == INSTANCE SequencesExt

LineLength == 69
Separators == <<{1, 8, 17, 32, 43, 52, 61, 63}, {1, 7, 16, 25, 33, 42, 51}>>

(******************************* checksums *********************************)
Weight(b) == IF b = Minus THEN 1 ELSE IF Digit(b) THEN b - 48 ELSE 0
Sum(q) == Ext!FoldLeft(LAMBDA sum, b : sum + Weight(b), 0, q)
Checksum(line) == Sum(SubSeq(line, 1, LineLength - 1)) % 10

(******************************** fields ***********************************)
(* line, columns and reading of the fields                                 *)
Catalog(line) == Unsigned(TrimStart(Columns(line, 2, 7)))
Class(l1) == l1[8]
LaunchYear(l1) == Unsigned(Columns(l1, 9, 11))
LaunchPiece(l1) == Columns(l1, 11, 17)
NoDesignator(l1) == AllIn(Columns(l1, 9, 17), Blank)
EpochYear(l1) == Unsigned(Columns(l1, 18, 20))
EpochDay(l1) == Real(TrimStart(Columns(l1, 20, 32)))
MeanMotionDot(l1) == Real(TrimStart(Columns(l1, 33, 43)))
MeanMotionDdot(l1) == AssumedReal(Columns(l1, 44, 50))
MeanMotionDdotExponent(l1) == Signed(Columns(l1, 50, 52))
Drag(l1) == AssumedReal(Columns(l1, 53, 59))
DragExponent(l1) == Signed(Columns(l1, 59, 61))
Ephemeris(l1) == Unsigned(TrimStart(Columns(l1, 62, 63)))
ElementSet(l1) == Unsigned(TrimStart(Columns(l1, 64, 68)))
Inclination(l2) == Real(TrimStart(Columns(l2, 8, 16)))
Node(l2) == Real(TrimStart(Columns(l2, 17, 25)))
Eccentricity(l2) == AssumedReal(Columns(l2, 26, 33))
Perigee(l2) == Real(TrimStart(Columns(l2, 34, 42)))
Anomaly(l2) == Real(TrimStart(Columns(l2, 43, 51)))
MeanMotion(l2) == Real(TrimStart(Columns(l2, 52, 63)))
Revolution(l2) == Unsigned(TrimStart(Columns(l2, 63, 68)))

(* two-digit years: 57 to 99 are in the twentieth century                  *)
Century(y) == IF y < 57 THEN 2000 + y ELSE 1900 + y

(* whether day (a real, with its fraction) exists in the year              *)
DayExists(year, day) ==
  day \succeq F("1") /\ day \prec FInt(YearLength(year) + 1)

(******************************** defects **********************************)
(* a defect: its kind, line and columns                                    *)
D(what, line, start, end) == [what |-> what, line |-> line, start |-> start, end |-> end]
None == {}
Unless(ok, defects) == IF ok THEN None ELSE defects

LengthDefects(line, name) ==
  Unless(Len(line) = LineLength, {D("BadLength", name, 0, Len(line))})

(* the defects that spoil a line's integrity, whatever its fields hold     *)
ChecksumDefects(line, name) ==
  Unless(line[LineLength] = 48 + Checksum(line), {D("BadChecksum", name, 68, 69)})

LayoutDefects(line, number, name) ==
  Unless(line[1] = 48 + number, {D("BadFirstCharacter", name, 0, 1)}) \cup
  {D("ExpectedSpace", name, j, j + 1) : j \in {k \in Separators[number] : line[k + 1] # Space}} \cup
  Unless(Catalog(line).ok, {D("ExpectedInteger", name, 2, 7)}) \cup
  ChecksumDefects(line, name)

Kinds(what, name, a, b) == {D(k, name, a, b) : k \in what}
Assumed(field, name, a, b) ==
  Unless(AssumedReal(field).ok,
    {D("ExpectedFloatWithAssumedDecimalPoint", name, a, b)} \cup
    (* a lone sign is also reported as a bad size                          *)
    IF TrimStart(field) \in {<<Plus>>, <<Minus>>}
    THEN {D("FloatWithAssumedDecimalPointTooLong", name, a, b)} ELSE {})

(* text: whether names and designators are read at all                     *)
FieldDefects1(l1, text) ==
  Unless(Class(l1) \in {85, 67, 83}, {D("UnknownClassification", "Line1", 7, 8)}) \cup
  (IF ~text \/ NoDesignator(l1) THEN None ELSE
     Unless(LaunchYear(l1).ok, {D("ExpectedInteger", "Line1", 9, 11)}) \cup
     Unless(IsUtf8(LaunchPiece(l1)), {D("ExpectedString", "Line1", 11, 17)})) \cup
  Unless(EpochYear(l1).ok, Kinds({"ExpectedInteger", "ExpectedFloat"}, "Line1", 18, 20)) \cup
  Unless(EpochDay(l1).ok, {D("ExpectedFloat", "Line1", 20, 32)}) \cup
  (IF ~EpochYear(l1).ok \/ ~EpochDay(l1).ok THEN None ELSE
     Unless(DayExists(Century(Number(EpochYear(l1).d)), EpochDay(l1).x),
            {D("FromYoOptFailed", "Line1", 18, 20), D("FromYoOptFailed", "Line1", 20, 32),
             D("FromYoOptFailed", "Line1", 18, 32)})) \cup
  Unless(MeanMotionDot(l1).ok, {D("ExpectedFloat", "Line1", 33, 43)}) \cup
  Assumed(Columns(l1, 44, 50), "Line1", 44, 50) \cup
  Unless(MeanMotionDdotExponent(l1).ok,
         Kinds({"ExpectedInteger", "ExpectedFloat"}, "Line1", 50, 52)) \cup
  Assumed(Columns(l1, 53, 59), "Line1", 53, 59) \cup
  Unless(DragExponent(l1).ok, Kinds({"ExpectedInteger", "ExpectedFloat"}, "Line1", 59, 61)) \cup
  Unless(Ephemeris(l1).ok, {D("ExpectedInteger", "Line1", 62, 63)}) \cup
  Unless(ElementSet(l1).ok, {D("ExpectedInteger", "Line1", 64, 68)})

FieldDefects2(l2) ==
  Unless(Inclination(l2).ok, {D("ExpectedFloat", "Line2", 8, 16)}) \cup
  Unless(Node(l2).ok, {D("ExpectedFloat", "Line2", 17, 25)}) \cup
  Assumed(Columns(l2, 26, 33), "Line2", 26, 33) \cup
  Unless(Perigee(l2).ok, {D("ExpectedFloat", "Line2", 34, 42)}) \cup
  Unless(Anomaly(l2).ok, {D("ExpectedFloat", "Line2", 43, 51)}) \cup
  Unless(MeanMotion(l2).ok, {D("ExpectedFloat", "Line2", 52, 63)}) \cup
  Unless(Revolution(l2).ok, {D("ExpectedInteger", "Line2", 63, 68)})

Complete(line) == Len(line) = LineLength

CatalogDefects(l1, l2) ==
  IF Complete(l1) /\ Complete(l2) /\ Catalog(l1).ok /\ Catalog(l2).ok
  THEN Unless(Catalog(l1).d = Catalog(l2).d, {D("NoradIdMismatch", "Both", 2, 7)})
  ELSE None

(* everything wrong with a pair of lines                                   *)
Defects(l1, l2, text) ==
  LengthDefects(l1, "Line1") \cup LengthDefects(l2, "Line2") \cup
  (IF Complete(l1) THEN LayoutDefects(l1, 1, "Line1") \cup FieldDefects1(l1, text) ELSE None) \cup
  (IF Complete(l2) THEN LayoutDefects(l2, 2, "Line2") \cup FieldDefects2(l2) ELSE None) \cup
  CatalogDefects(l1, l2)

WellFormed(l1, l2, text) == Defects(l1, l2, text) = None

(* the integrity of the pair: lengths, checksums and catalog numbers       *)
IntegrityBroken(l1, l2) ==
  \/ ~Complete(l1) \/ ~Complete(l2)
  \/ ChecksumDefects(l1, "Line1") # None \/ ChecksumDefects(l2, "Line2") # None
  \/ CatalogDefects(l1, l2) # None

(******************************** meaning **********************************)
Designator(l1) ==
  IF NoDesignator(l1) THEN [some |-> FALSE, b |-> <<>>]
  ELSE LET year == Century(Number(LaunchYear(l1).d))
       IN [some |-> TRUE,
           b |-> <<48 + year \div 1000, 48 + ((year \div 100) % 10), 48 + ((year \div 10) % 10),
                   48 + (year % 10), Minus>> \o Encode(TrimWhite(CodePoints(LaunchPiece(l1))))]

(* the epoch: year, day of the year, and nanoseconds of the day as a real  *)
Epoch(l1) ==
  LET day == EpochDay(l1)
      whole == IF day.plain THEN FDecimal(FALSE, day.whole, 0) ELSE Floor(day.x)
      part == IF day.plain THEN FDecimal(FALSE, day.part, -Len(day.part))
              ELSE day.x \ominus Floor(day.x)
  IN [y |-> Century(Number(EpochYear(l1).d)), o |-> ToInt(whole),
      ns |-> part \otimes F("8.64e13")]

(* the distance in nanoseconds between a recorded datetime and an epoch    *)
EpochDistance(dt, epoch) ==
  Abs(((FInt(dt.s) \otimes F("1e9")) \oplus FInt(dt.n) \ominus epoch.ns) \oplus
      (FInt(Days(dt) - Days(epoch)) \otimes F("8.64e13")))

EpochMatches(dt, l1) ==
  /\ dt.n < 1000000000 /\ dt.s < 86400
  /\ EpochDistance(dt, Epoch(l1)) \preceq F("10")

(* mantissa times a power of ten                                           *)
Scaled(mantissa, exponent) ==
  FDecimal(mantissa.negative, mantissa.part, mantissa.exponent - Len(mantissa.part) + exponent.n)
IsScaled(r, mantissa, exponent) ==
  LET x == Scaled(mantissa, exponent)
  IN IsReal(r, x) \/ Abs(r \ominus x) \preceq (Abs(x) \otimes F("1e-13"))
ClassName(b) == IF b = 85 THEN "U" ELSE IF b = 67 THEN "C" ELSE "S"

(* the fields that do not have the value their columns denote              *)
WrongFields(el, name, l1, l2, text) ==
  {f \in {"name", "intl", "norad", "cls", "mmd", "mmdd", "bstar", "eph", "elset", "incl", "raan",
          "ecc", "argp", "m", "n", "rev"} :
     CASE f = "name" -> text /\ el.name # name
       [] f = "intl" -> text /\ el.intl # Designator(l1)
       [] f = "norad" -> el.norad # Catalog(l1).d
       [] f = "cls" -> el.cls # ClassName(Class(l1))
       [] f = "mmd" -> ~IsReal(el.mmd, MeanMotionDot(l1).x)
       [] f = "mmdd" -> ~IsScaled(el.mmdd, MeanMotionDdot(l1), MeanMotionDdotExponent(l1))
       [] f = "bstar" -> ~IsScaled(el.bstar, Drag(l1), DragExponent(l1))
       [] f = "eph" -> el.eph # Number(Ephemeris(l1).d)
       [] f = "elset" -> el.elset # ElementSet(l1).d
       [] f = "incl" -> ~IsReal(el.incl, Inclination(l2).x)
       [] f = "raan" -> ~IsReal(el.raan, Node(l2).x)
       [] f = "ecc" -> ~IsReal(el.ecc, Eccentricity(l2).x)
       [] f = "argp" -> ~IsReal(el.argp, Perigee(l2).x)
       [] f = "m" -> ~IsReal(el.m, Anomaly(l2).x)
       [] f = "n" -> ~IsReal(el.n, MeanMotion(l2).x)
       [] f = "rev" -> el.rev # Revolution(l2).d}
=============================================================================

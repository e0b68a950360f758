-------------------------------- MODULE Tles --------------------------------
(***************************************************************************)
(* The element sets, well-formed and not, a conformance run must visit.    *)
(*                                                                         *)
(* A behaviour starts from a well-formed pair of lines and edits it:       *)
(*   fields   one or two fields are given another content, good or bad,    *)
(*            and the checksums are put right                              *)
(*   bytes    one byte is replaced, checksums put right or not             *)
(*   lengths  a line is cut, extended, or one byte is deleted or inserted  *)
(*   digits   one digit is replaced by another, or one of each line        *)
(*   epochs   every two-digit year with days around the limits             *)
(* TLC enumerates the edits, checks that Tle classifies them as the table  *)
(* says, and prints them for the implementation.                           *)
(***************************************************************************)
EXTENDS Tle, FiniteSets, TLC, Json, IOUtils

Purpose == IOEnv.PURPOSE

VARIABLES l1, l2, edits, done   \* edits: what was done so far

vars == <<l1, l2, edits, done>>

Bases ==
  << << Bytes("1 25544U 98067A   08264.51782528 -.00002182  00000-0 -11606-4 0  2927"),
        Bytes("2 25544  51.6416 247.4627 0006703 130.5360 325.0288 15.72125391563537") >>,
     << Bytes("1 00005S          56366.00000001 +.00000023  00000+0  28098-4 2    18"),
        Bytes("2     5 034.2682 348.7242 1859667  -1.7664  19.3264 10.82419157413667") >>,
     << Bytes("1 11801C 57123ABC 80230.29629788  .01431103 -12345-9  14311+1 0    13"),
        Bytes("2 11801  46.7916 230.4354 7318036  47.4722  10.4117  2.28537848    13") >> >>

(* columns [a, b[ of the line get another content                          *)
Replace(line, a, b, text) ==
  Columns(line, 0, a) \o text \o Columns(line, b, Len(line))
Fixed(line) ==
  IF Len(line) = LineLength THEN Replace(line, 68, 69, <<48 + Checksum(line)>>) ELSE line

Others == {Fixed(Bases[j][k]) : j \in 1..Len(Bases), k \in 1..2}

(* per field: line, columns, contents that are readable, contents that are *)
(* not; contents are padded with blanks on the left                        *)
RECURSIVE Padded(_, _)
Padded(q, width) == IF Len(q) < width THEN Padded(<<Space>> \o q, width) ELSE q
Texts(q) == [j \in 1..Len(q) |-> Bytes(q[j])]
Field(line, a, b, good, bad) ==
  [line |-> line, a |-> a, b |-> b,
   good |-> [j \in 1..Len(good) |-> Padded(good[j], b - a)],
   bad |-> [j \in 1..Len(bad) |-> Padded(bad[j], b - a)]]

Table ==
  << Field(1, 7, 8, Texts(<<"U", "C", "S">>), Texts(<<" ", "u", "T", "0", "c", "1">>)),
     Field(1, 9, 17,
           Texts(<<"        ", "57001A  ", "56001A  ", "00999ZZZ", "99000   ", "98 67 A ",
                   "+5067A  ", "980   AB", "98      ">>)
           \o <<<<57, 56, 195, 169, 49, 50, 32, 32>>, <<57, 56, 32, 32, 194, 160, 65, 32>>,
                <<57, 56, 226, 128, 131, 65, 11, 32>>, <<57, 56, 48, 240, 159, 155, 176, 32>>,
                <<9, 10, 12, 13, 32, 32, 32, 32>>>>,
           Texts(<<" 8067A  ", "A8067A  ", "  067A  ", "8 067A  ", "-8067A  ", "9.067A  ", "+ 067A  ",
                   "       A">>)
           \o <<<<57, 56, 255, 48, 54, 55, 65, 32>>, <<57, 56, 48, 54, 55, 65, 32, 195>>,
                <<57, 56, 237, 160, 128, 65, 32, 32>>, <<57, 56, 192, 175, 32, 65, 32, 32>>,
                <<57, 56, 65, 32, 244, 144, 128, 128>>, <<32, 32, 32, 11, 32, 32, 32, 32>>>>),
     Field(1, 18, 20, Texts(<<"57", "56", "00", "99", "+5", "04">>),
           Texts(<<" 5", "5 ", "  ", "AB", "-5", "5.", "++">>)),
     Field(1, 20, 32,
           Texts(<<"001.00000000", "365.99999999", "1.00000000", "1.5", "059.25", "+60.12345678",
                   "1.2345678901", "1.25e2", ".36500000e+3", "0000000365.5", "060.", "7",
                   "1.9999999999", "3000000E-04", "00000001e001">>),
           Texts(<<"000.99999999", "367.00000000", "-01.00000000", "", "12 .00000000", "1.2.3",
                   "12,500000000", "inf", "nan", "4294967297.5", "99999999999.", "1e9999999999",
                   "1e-999999999", "1e", "e1", "0x10.00", ".", "+", "-", "1_00.000000",
                   "100.5       ", "1e+", "366.0000000A", "+-1.0000">>)),
     Field(1, 33, 43,
           Texts(<<".00000000", "-.00000001", "+.12345678", "0.12345678", "-1.5e-3", "-0", "1e2",
                   "inf", "-infinity", "NaN", "+NAN", "5.", "-.5", "1234567890", "1e+000005",
                   "1e-9999999", "1e99999999", "0.00000000">>),
           Texts(<<"", ". 123", "1e", "1.2.3", "- .0001", "--", "   .      ", "e1", "infi",
                   "0x1A", "1,00000", ".1       ", "-", "+", "1e5.", "in", "1f", ".e1">>)),
     Field(1, 44, 50,
           Texts(<<" 00000", "-00001", "+99999", "5", "123456", "-7", "12e1", "+0", "-1e-9">>),
           Texts(<<"", "-", "+", " 12 34", " -1-23", " 1.234", "inf", "e", "--", " ABCDE", "12345 ",
                   "-+1234", "1e">>)),
     Field(1, 50, 52, Texts(<<"-0", "+0", "-9", "+9", "00", "12", "-1", "99">>),
           Texts(<<"  ", " 1", "1 ", "--", "-A", "e1", ".1", "+ ">>)),
     Field(1, 53, 59,
           Texts(<<" 00000", "-11606", "+12345", "1", "999999", "+3", "-0">>),
           Texts(<<"", "-", "+", " 1 234", "-12-34", " 12.45", "-  123", "+ABCDE", "1    2">>)),
     Field(1, 59, 61, Texts(<<"-0", "+0", "-9", "+5", "07", "22">>),
           Texts(<<"  ", " 4", "4 ", "++", "-e", "0x">>)),
     Field(1, 62, 63, Texts(<<"0", "2", "9">>), Texts(<<" ", "A", "-", "+", ".">>)),
     Field(1, 64, 68, Texts(<<"0", "9999", "0012", "+7", "123">>),
           Texts(<<"", "-1", "12 4", "1.5", "123A", "+", "999 ", "++1">>)),
     Field(2, 8, 16, Texts(<<"51.6416", "000.0000", "180.0000", "5.5", "-12.3456", "1.5e+2",
                             "9999.99", "12345678">>),
           Texts(<<"", "51. 416", "51..6416", "5 1.6416", "51.64A", "51.64   ">>)),
     Field(2, 17, 25, Texts(<<"0.0000", "359.9999", "000.0001", "12.5", "-10.0000", "1e2">>),
           Texts(<<"", "247 4627", "24-.4627", "2474627 ", ".e1", "..">>)),
     Field(2, 26, 33, Texts(<<"0000000", "9999999", "0000001", "7", "1234", "+123456", "-123456",
                              "12345e1", "1234567">>),
           Texts(<<"", ".123456", "123 567", "     - ", "-", "+", "000067A", "67     ", "-.12345">>)),
     Field(2, 34, 42, Texts(<<"130.5360", "0.0000", "360.0000", "1.5", "-90.000">>),
           Texts(<<"", "130,5360", "13o.5360", "1 2.300", "    -   ">>)),
     Field(2, 43, 51, Texts(<<"325.0288", "0.0001", "000.0000", "1.5e01", "+12.0000">>),
           Texts(<<"", "32 .0288", "325.028o", "325.0.88", "+-1.">>)),
     Field(2, 52, 63, Texts(<<"15.72125391", "1.00270000", "0.00000000", "-1.50000000",
                              "16.99999999", "1.5e-01", "7", "00000000001">>),
           Texts(<<"", "15 72125391", "15.7212539A", "15.72.12539", "-", "15.7212539 ">>)),
     Field(2, 63, 68, Texts(<<"00000", "0", "99999", "1234", "+5", "00012">>),
           Texts(<<"", "12 45", "-1", "1234A", "1.234", "+", "5    ">>)),
     (* both lines: the catalog number                                     *)
     Field(0, 2, 7, Texts(<<"00000", "0", "99999", "12345", "+5", "00012">>),
           Texts(<<"", "12 45", "-1", "1234A", "A1234", "+", "5    ", "1.234", "12-45">>)) >>

ASSUME \A f \in 1..Len(Table) : \A q \in {Table[f].good, Table[f].bad} :
         \A j \in 1..Len(q) : Len(q[j]) = Table[f].b - Table[f].a

(******************************** edits ************************************)
Sweep == {0, 9, 10, 11, 12, 13, 32, 43, 45, 46, 47, 48, 49, 57, 58, 65, 69, 85, 101, 127, 128, 195, 255}
Swept == IF IOEnv.DEPTH = "all" THEN 0..255 ELSE Sweep

Edit(e) == edits' = Append(edits, e)

Start ==
  /\ edits = <<>>
  /\ \E b \in 1..Len(Bases) :
       /\ l1' = Fixed(Bases[b][1]) /\ l2' = Fixed(Bases[b][2])
       /\ Edit(<<"base", b>>)
  /\ UNCHANGED done

(* the base is followed by at most two edits of different fields           *)
EditField ==
  /\ edits # <<>> /\ Len(edits) <= (IF IOEnv.DEPTH = "one" THEN 1 ELSE 2)
  /\ \E f \in 1..Len(Table), good \in BOOLEAN :
       /\ Len(edits) > 1 => f > edits[Len(edits)][2]
       /\ LET t == Table[f]
              q == IF good THEN t.good ELSE t.bad
          IN \E j \in 1..Len(q) :
               /\ l1' = IF t.line = 2 THEN l1 ELSE Fixed(Replace(l1, t.a, t.b, q[j]))
               /\ l2' = IF t.line = 1 THEN l2 ELSE Fixed(Replace(l2, t.a, t.b, q[j]))
               /\ Edit(<<"field", f, good>>)
  /\ UNCHANGED done

SetByte(line, a, v) == Replace(line, a, a + 1, <<v>>)

EditByte ==
  /\ Len(edits) = 1
  /\ \E n \in {1, 2}, a \in 0..68, v \in Swept, fix \in BOOLEAN :
       LET line == IF n = 1 THEN l1 ELSE l2
           new == IF fix /\ a < 68 THEN Fixed(SetByte(line, a, v)) ELSE SetByte(line, a, v)
       IN /\ (a = 68 => ~fix)
          /\ l1' = IF n = 1 THEN new ELSE l1
          /\ l2' = IF n = 2 THEN new ELSE l2
          /\ Edit(<<"byte", n, a, v, fix>>)
  /\ UNCHANGED done

EditLength ==
  /\ Len(edits) = 1
  /\ \E n \in {1, 2} :
       LET line == IF n = 1 THEN l1 ELSE l2
           cut == {SubSeq(line, 1, k) : k \in 0..68}
           extended == {line \o q : q \in {<<32>>, <<48>>, <<13>>, <<10>>, <<32, 32>>,
                                           [j \in 1..31 |-> 32], line, [j \in 1..300 |-> 48]}}
           deleted == {Columns(line, 0, a) \o Columns(line, a + 1, 69) : a \in 0..68}
           inserted == {Columns(line, 0, a) \o <<v>> \o Columns(line, a, 69) :
                          a \in 0..69, v \in {32, 48, 45}}
           shifted == {Columns(line, 0, a) \o <<v>> \o Columns(line, a, 68) :
                          a \in 0..68, v \in {32, 48}}
           late == {<<v>> \o SubSeq(line, 1, 68) : v \in {32, 239}}
       IN \E new \in cut \cup extended \cup deleted \cup inserted \cup shifted \cup late :
            /\ l1' = IF n = 1 THEN new ELSE l1
            /\ l2' = IF n = 2 THEN new ELSE l2
            /\ Edit(<<"length", n>>)
  /\ UNCHANGED done

(* the lines exchanged, doubled, or taken from two sets                    *)
EditPair ==
  /\ Len(edits) = 1
  /\ \E x \in Others, y \in Others : l1' = x /\ l2' = y /\ Edit(<<"pair">>)
  /\ UNCHANGED done

EditDigit ==
  /\ Len(edits) = 1
  /\ \E n \in {1, 2}, a \in 0..68, v \in 48..57 :
       LET line == IF n = 1 THEN l1 ELSE l2
       IN /\ Digit(line[a + 1]) /\ line[a + 1] # v
          /\ l1' = IF n = 1 THEN SetByte(l1, a, v) ELSE l1
          /\ l2' = IF n = 2 THEN SetByte(l2, a, v) ELSE l2
          /\ Edit(<<"digit", n, a, v>>)
  /\ UNCHANGED done

(* the catalog numbers made different with right checksums                 *)
EditCatalog ==
  /\ Len(edits) = 1
  /\ \E n \in {1, 2}, a \in 2..6, v \in {32, 43, 48, 49, 57} :
       /\ l1' = IF n = 1 THEN Fixed(SetByte(l1, a, v)) ELSE l1
       /\ l2' = IF n = 2 THEN Fixed(SetByte(l2, a, v)) ELSE l2
       /\ Edit(<<"catalog", n, a, v>>)
  /\ UNCHANGED done

Two(n) == <<48 + n \div 10, 48 + (n % 10)>>
Three(n) == <<48 + n \div 100>> \o Two(n % 100)
EpochDays == {0, 1, 31, 32, 59, 60, 61, 182, 364, 365, 366, 367, 400, 999}
EpochFractions ==
  Texts(<<".00000000", ".00000001", ".25000000", ".49999999", ".50000001", ".99999999", ".51782528">>)

(* days before the first of the year, however written                      *)
OddDays ==
  Texts(<<"-01.00000000", "-12.50000000", "-99.99999999", "-0.500000000", "-00.00000001", "-366.0000000",
          "  -1.0000000", "000.99999999", "  0.99999999", "   .50000000", "0.0000000001", "000000000000">>)

EditEpoch ==
  /\ \/ /\ Len(edits) = 1
        /\ (IOEnv.DEPTH # "all" => edits[1][2] = 1)
        /\ \E y \in 0..99 : l1' = Fixed(Replace(l1, 18, 32, Two(y) \o Bytes("001.00000000")))
                            /\ Edit(<<"year", y>>)
     \/ /\ Len(edits) = 2
        /\ \E d \in EpochDays, j \in 1..Len(EpochFractions) :
             /\ l1' = Fixed(Replace(l1, 20, 32, Three(d) \o EpochFractions[j]))
             /\ Edit(<<"epoch", edits[2][2], d, j>>)
     \/ /\ Len(edits) = 2 /\ edits[2][2] \in {0, 20, 56, 57, 99}
        /\ \E j \in 1..Len(OddDays) :
             /\ l1' = Fixed(Replace(l1, 20, 32, OddDays[j]))
             /\ Edit(<<"odd", edits[2][2], j>>)
  /\ UNCHANGED <<l2, done>>

Show ==
  /\ ~done /\ Len(edits) > 0
  /\ PrintT("@@" \o ToJson([l1 |-> l1, l2 |-> l2, how |-> edits[Len(edits)][1]]))
  /\ done' = TRUE
  /\ UNCHANGED <<l1, l2, edits>>

Init == l1 = <<>> /\ l2 = <<>> /\ edits = <<>> /\ done = FALSE

Next ==
  /\ ~done
  /\ \/ Start \/ Show
     \/ CASE Purpose = "fields" -> EditField
          [] Purpose = "bytes" -> EditByte
          [] Purpose = "lengths" -> EditLength \/ EditPair
          [] Purpose = "digits" -> EditDigit \/ EditLength \/ EditCatalog
          [] Purpose = "epochs" -> EditEpoch

Spec == Init /\ [][Next]_vars

(************************ the specification is sane ************************)
FieldEdits == {edits[j] : j \in {k \in 1..Len(edits) : edits[k][1] = "field"}}

(* a pair is well-formed exactly when all the contents put in it are       *)
(* readable (day 366 aside, which depends on the year)                     *)
Classified ==
  (edits # <<>> /\ Purpose = "fields") =>
    LET readable == \A e \in FieldEdits : e[3]
        defects == Defects(l1, l2, TRUE)
    IN /\ ~readable => defects # {}
       /\ readable => \A d \in defects : d.what = "FromYoOptFailed"

(* a replaced digit breaks the checksum, whatever the line                 *)
DigitsProtected ==
  (edits # <<>> /\ edits[Len(edits)][1] = "digit") => IntegrityBroken(l1, l2)

(* one edit of the length is never well-formed unless the length is right  *)
LengthsProtected ==
  (Len(l1) # LineLength \/ Len(l2) # LineLength) => ~WellFormed(l1, l2, TRUE)

(* an epoch is accepted exactly when the day exists, and denotes that day  *)
EpochsExist ==
  (edits # <<>> /\ edits[Len(edits)][1] = "epoch") =>
    LET e == edits[Len(edits)]
        exists == e[3] >= 1 /\ e[3] <= YearLength(Century(e[2]))
    IN /\ exists <=> WellFormed(l1, l2, TRUE)
       /\ exists => /\ Epoch(l1).y \in 1957..2056 /\ (Epoch(l1).y % 100) = e[2]
                    /\ Epoch(l1).o = e[3]

NoSuchDay == (edits # <<>> /\ edits[Len(edits)][1] = "odd") => ~WellFormed(l1, l2, TRUE)

(* without the designator nothing new is wrong                             *)
LessTextLessDefects == edits # <<>> => Defects(l1, l2, FALSE) \subseteq Defects(l1, l2, TRUE)
=============================================================================

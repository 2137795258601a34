----------------------------- MODULE GenSyntax ------------------------------
(***************************************************************************)
(* Bounded models of the stream syntax.  Each model M has a set of plans   *)
(* M_Plans, the histories M_H(p) of a plan (a sequence), and a theorem     *)
(* M_T(p) about what the specification makes of them.                      *)
(***************************************************************************)
EXTENDS GenBase

-----------------------------------------------------------------------------
(* marker: every sequence of up to k segments after each prefix of a       *)
(* minimal image.                                                          *)
MkFr == Gray(192, 8, 8)
MkScan == Sos(<<<<1, 0, 0>>>>, 0, 63, 0, 0)
            \o Join_(Intervals(FrameOf(MkFr), DcRow(<<40>>), ScanSeq(<<1>>), 0, <<DcT>>, <<AcTiny>>, 1))
TokBytes ==
  [ SOI  |-> SOI, EOI |-> EOI, Q |-> Dqt8(0, Const64(2)), Ht |-> Seg(mDHT, DhtBody(0, 0, DcT) \o DhtBody(1, 0, AcTiny)),
    F    |-> MkFr, S |-> MkScan, R |-> Dri(1), COM |-> Com(<<255, 217>>), JFIF |-> Jfif, ADO |-> Adobe(1), ADO3 |-> Adobe(3),
    RST0 |-> RST(0), RST5 |-> RST(5), DNL |-> Seg(mDNL, <<0, 8>>), TEM |-> <<255, 1>>, DAC |-> Seg(mDAC, <<0, 16>>),
    DHP  |-> Seg(mDHP, <<8, 0, 8, 0, 8, 1, 1, 17, 0>>), EXP |-> Seg(mEXP, <<0>>), JPG |-> Seg(mJPG, <<>>), RES |-> <<255, 2, 0, 2>>,
    JPGn |-> Seg(240, <<0>>),
    F2 |-> Gray(194, 8, 8), F3 |-> Gray(195, 8, 8), F5 |-> Gray(197, 8, 8), F9 |-> Gray(201, 8, 8), FD |-> Gray(205, 8, 8),
    Fn |-> Sof(192, 8, 8, 8, <<<<1, 1, 1, 0>>, <<2, 1, 1, 0>>>>), F12 |-> Sof(192, 12, 8, 8, C1), Fh |-> Sof(192, 8, 8, 0, C1),
    Qb |-> Dqt8(0, [Q1 EXCEPT ![64] = 0]), Hb |-> Seg(mDHT, <<0>> \o <<3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>> \o <<0, 1, 2>>),
    Len1 |-> <<255, mCOM, 0, 1>>, FILL |-> <<255, 255>>, JUNK |-> <<18, 52>>, NUL |-> <<255, 0>>, AVI1 |-> Avi1,
    App0 |-> Seg(224, <<74, 70>>), App15 |-> Seg(239, <<>>) ]
TokNames == DOMAIN TokBytes
TokGood == {"COM", "JFIF", "ADO", "R", "Q", "Ht", "F", "S", "JUNK", "NUL", "App0", "App15", "FILL"}
Heads == << <<>>, <<"SOI">>, <<"SOI", "Q", "Ht">>, <<"SOI", "Q", "Ht", "F">>, <<"SOI", "Q", "Ht", "F", "S">> >>
(* in quick mode, longer tails are tried after the complete image only *)
marker_Plans ==
  UNION { [head : 1..Len(Heads), t : { <<x>> : x \in TokNames }],
          [head : IF Quick THEN {2, 4, 5} ELSE 1..Len(Heads), t : { <<x, y>> : x, y \in TokNames }],
          IF Quick THEN {} ELSE [head : 3..5, t : { <<x, y, z>> : x, y, z \in TokNames }] }
MkToks(p) == Heads[p.head] \o p.t
MkB(p) == FlattenSeq([i \in 1..Len(MkToks(p)) |-> TokBytes[MkToks(p)[i]]])
marker_H(p) == << D("res,pos,info,px", MkB(p)) >>
(* The grammar, stated over the segments: the first EOI completes an image *)
(* iff only harmless segments precede it, with exactly one frame, and a    *)
(* scan after the frame and the tables.                                    *)
Grammar(t) ==
  LET E == { i \in 1..Len(t) : t[i] = "EOI" }
      e == IF E = {} THEN 0 ELSE CHOOSE i \in E : \A j \in E : i <= j
      at(x) == { i \in 1..(e - 1) : t[i] = x }
      \* restart markers may follow a scan's data, with only stray bytes between
      legalRst(i) == \E s \in at("S") : s < i /\ \A j \in (s + 1)..(i - 1) : t[j] \in {"RST0", "RST5", "JUNK", "NUL", "FILL"}
      \* FILL turns the byte that follows it into a marker code; zero after fill
      \* bytes inside entropy-coded data is nobody's format
      fillBad(i) == t[i + 1] \in {"JUNK"}
      fillNul(i) == \E s \in at("S") : s < i /\ t[i + 1] = "NUL" /\ \A j \in (s + 1)..(i - 1) : t[j] \in {"RST0", "RST5", "JUNK", "NUL", "FILL"}
  IN IF e = 0 \/ t[1] # "SOI" THEN "no"
     ELSE IF \E i \in at("FILL") : fillNul(i) THEN "any"
     ELSE IF /\ \A i \in 2..(e - 1) : t[i] \in TokGood \/ (t[i] \in {"RST0", "RST5"} /\ legalRst(i))
             /\ Cardinality(at("F")) = 1
             /\ at("S") # {}
             /\ \A s \in at("S") : /\ \E f \in at("F") : f < s
                                   /\ \E q \in at("Q") : q < s
                                   /\ \E h \in at("Ht") : h < s
             /\ \A i \in at("FILL") : ~fillBad(i)
          THEN "yes" ELSE "no"
marker_T(p) ==
  LET t == MkToks(p)
      r == RunDecode(MkB(p))
      g == Grammar(t)
  IN (\E i \in 1..Len(t) : t[i] = "AVI1") \/ g = "any" \/ (OkRun(r) <=> g = "yes")

-----------------------------------------------------------------------------
(* edit: base streams with one byte changed, removed or inserted.          *)
BaseBytes == [k \in 1..Len(Bases) |-> Cat_(Bases[k])]
EditVals(b) == IF Quick THEN {0, 1, 2, 4, 15, 17, 63, 127, 128, 255, (b + 1) % 256, (b + 255) % 256, (b + 16) % 256} ELSE 0..255
(* bodies of quantization tables are all alike *)
InDqt(k, i) == \E j \in 1..Len(Bases[k]) :
                 LET s0 == Len(Cat_(SubSeq(Bases[k], 1, j - 1))) IN
                 /\ Bases[k][j][2] = mDQT /\ i > s0 + 8 /\ i <= s0 + Len(Bases[k][j]) - 2
edit_Plans == UNION { UNION { [k : {k}, i : {i}, op : {"set"}, v : EditVals(BaseBytes[k][i]) \ {BaseBytes[k][i]}]
                              \cup [k : {k}, i : {i}, op : {"del"}, v : {0}]
                              \cup [k : {k}, i : {i}, op : {"ins"}, v : {0, 1, 255}]
                              : i \in { i \in 1..Len(BaseBytes[k]) : ~InDqt(k, i) } }
                      : k \in 1..Len(Bases) }
EditB(p) == LET b == BaseBytes[p.k] IN
            CASE p.op = "set" -> [b EXCEPT ![p.i] = p.v]
              [] p.op = "del" -> SubSeq(b, 1, p.i - 1) \o SubSeq(b, p.i + 1, Len(b))
              [] OTHER        -> SubSeq(b, 1, p.i) \o <<p.v>> \o SubSeq(b, p.i + 1, Len(b))
edit_H(p) == << D("res,pos,info,px,meta,size", EditB(p)) >>
edit_T(p) == TRUE

-----------------------------------------------------------------------------
(* trunc: every prefix of the base streams, with each way for the reader   *)
(* to end.                                                                 *)
TruncEnds == IF Quick THEN {EOFERR, "Io:ConnectionReset", "Io:InvalidData"}
             ELSE {EOFERR, "Io:ConnectionReset", "Io:PermissionDenied", "Io:WouldBlock", "Io:TimedOut", "Io:InvalidData", "Io:Other"}
trunc_Plans == UNION { [k : {k}, n : 0..Len(BaseBytes[k]), e : TruncEnds] : k \in 1..Len(Bases) }
TruncB(p) == SubSeq(BaseBytes[p.k], 1, p.n)
trunc_H(p) == << H(p.e, "a", "res,pos,info", "decode", TruncB(p)),
                 H(p.e, IF p.n % 2 = 0 THEN "1" ELSE "i3", "res,pos,info", "read_info;info;decode;decode", TruncB(p)) >>
trunc_T(p) ==
  LET st == MkStream(TruncB(p), p.n, p.e)
      r == RunOp(st, NewDecoder, "decode")
      ri == RunOp(st, NewDecoder, "read_info")
      whole == p.n = Len(BaseBytes[p.k])
      sofEnd == RunOp(MkStream(BaseBytes[p.k], Len(BaseBytes[p.k]), EOFERR), NewDecoder, "read_info").d.pos
  IN /\ OkRun(r) <=> whole
     /\ ~whole => p.e \in r.c.errs
     /\ OkRun(ri) <=> p.n >= sofEnd

-----------------------------------------------------------------------------
(* filler: fill bytes and stray bytes between segments; leftover restart   *)
(* markers and data after scans.                                           *)
Fillers == { <<255>>, <<255, 255, 255>>, <<0>>, <<18, 52>>, <<255, 0>>, <<0, 255>>, <<255, 208>>, <<255, 208, 255, 211, 7>>,
             <<255, 0, 255, 0>>, <<171, 171, 171, 171, 171, 171, 171>> }
             \cup (IF Quick THEN {} ELSE { <<a, b>> : a \in {0, 1, 127, 192, 254, 255}, b \in {0, 1, 208, 215, 255} }
                                           \cup { [i \in 1..n |-> 85] : n \in 1..20 } \cup { [i \in 1..n |-> 255] : n \in 1..20 })
filler_Plans == UNION { [k : {k}, g : 1..Len(Bases[k]), f : Fillers, x : {0}] : k \in 1..Len(Bases) }
                \cup { [k |-> k, g |-> 0, f |-> f, x |-> 0] : k \in 1..Len(Bases), f \in { <<255>>, <<0>>, <<18, 52>> } }
(* g = 0: before SOI (never allowed); g = last: after EOI (never read)     *)
FillB(p) == Cat_(SubSeq(Bases[p.k], 1, p.g)) \o p.f \o Cat_(SubSeq(Bases[p.k], p.g + 1, Len(Bases[p.k])))
filler_H(p) == << D("res,pos,info,px,meta", FillB(p)),
                  H(EOFERR, "i5", "res,pos,info,px,meta", "read_info;decode", FillB(p)) >>
filler_T(p) ==
  LET r0 == RunDecode(BaseBytes[p.k])
      r == RunDecode(FillB(p))
      n == Len(Bases[p.k])
      last == p.g = n
      scanBefore == p.g > 0 /\ p.g < n /\ Bases[p.k][p.g][2] = mSOS
      same == OkRun(r) /\ r.c.planes = r0.c.planes /\ r.d.pos = r0.d.pos + (IF last THEN 0 ELSE Len(p.f))
      rst == p.f \in { <<255, 208>>, <<255, 208, 255, 211, 7>> }
      \* an FF pairs with the next byte, an FF of the next marker
      endsFF == p.f[Len(p.f)] = 255
      pure == \A i \in 1..Len(p.f) : p.f[i] # 255
      stuffed == p.f \in { <<255, 0>>, <<255, 0, 255, 0>> }
      allFF == \A i \in 1..Len(p.f) : p.f[i] = 255
  IN IF p.g = 0 THEN ~OkRun(r)
     ELSE IF last THEN same
     ELSE IF rst THEN (IF scanBefore THEN same ELSE ~OkRun(r))
     ELSE IF pure \/ stuffed \/ allFF \/ endsFF THEN same
     ELSE TRUE

-----------------------------------------------------------------------------
(* icc: every sequence of up to k ICC segments, and other APP segments of  *)
(* the same types that carry no payload of that kind.                      *)
IccN == IF Quick THEN 0..3 ELSE 0..4
IccAlpha == [s : IccN, n : IF Quick THEN 0..3 ELSE 0..4]
icc_Plans == UNION { [c : [1..l -> IccAlpha]] : l \in 0..2 }
             \cup [c : { x \in [1..3 -> IccAlpha] : Cardinality({ x[i].n : i \in 1..3 }) = 1 \/ (~Quick) }]
             \cup (IF Quick THEN {} ELSE [c : { x \in [1..4 -> IccAlpha] : \A i \in 1..4 : x[i].n = 4 /\ x[i].s > 0 }])
IccTail == << Dqt8(0, Const64(2)), Seg(mDHT, DhtBody(0, 0, DcT) \o DhtBody(1, 0, AcTiny)), MkFr, MkScan, EOI >>
IccB(p) == SOI \o FlattenSeq([i \in 1..Len(p.c) |-> Icc(p.c[i].s, p.c[i].n, [j \in 1..i |-> 16 * i + p.c[i].s])]) \o Cat_(IccTail)
icc_H(p) == << D("res,meta", IccB(p)) >>
(* stated again without the definition the decoder uses: a profile exists  *)
(* iff a permutation of the segments carries 1/n, 2/n, .., n/n             *)
icc_T(p) ==
  LET r == RunDecode(IccB(p))
      n == Len(p.c)
      ways == IF n = 0 THEN {} ELSE { f \in Permutations(1..n) : \A k \in 1..n : p.c[f[k]].s = k /\ p.c[f[k]].n = n }
      got == IccProfile(r.d.icc)
  IN /\ OkRun(r)
     /\ got.some <=> ways # {}
     /\ got.some => LET f == CHOOSE f \in ways : TRUE IN
                    got.d = FlattenSeq([k \in 1..n |-> [j \in 1..f[k] |-> 16 * f[k] + k]])

-----------------------------------------------------------------------------
(* meta: sequences of application segments of every kind and near-kind.    *)
MetaAlpha ==
  << Exif(<<1, 2>>), Exif(<<>>), Exif(<<9>>), Seg(225, SubSeq(sExif, 1, 5)), Seg(225, SubSeq(sExif, 1, 5) \o <<1, 7>>), Seg(226, sExif \o <<3>>),
     Xmp(<<60, 62>>), Xmp(<<>>), Seg(225, SubSeq(sXmp, 1, 28)), Seg(225, SubSeq(sXmp, 1, 28) \o <<1, 2>>), Seg(224, sXmp \o <<4>>),
     Icc(1, 1, <<7, 7, 7>>), Icc(1, 1, <<>>), Seg(226, sIcc \o <<1>>), Seg(226, sIcc), Seg(227, sIcc \o <<1, 1, 5>>),
     Jfif, Seg(224, sJFIF), Adobe(0), Adobe(2), Seg(238, sAdobe), Seg(238, SubSeq(sAdobe, 1, 5) \o <<1, 0, 0, 0, 0, 0, 9>>),
     Com(<<>>), Com(sExif), Seg(225, <<>>), Seg(226, <<>>), Seg(224, <<>>), Seg(238, <<>>), Seg(230, sExif \o <<1>>) >>
meta_Plans == UNION { [1..l -> 1..Len(MetaAlpha)] : l \in 0..(IF Quick THEN 2 ELSE 3) }
MetaB(p) == SOI \o FlattenSeq([i \in 1..Len(p) |-> MetaAlpha[p[i]]]) \o Cat_(IccTail)
meta_H(p) == << H(EOFERR, "a", "res,meta,pos", IF Len(p) < 2 THEN "read_info;info;decode" ELSE "decode", MetaB(p)) >>
meta_T(p) == OkRun(RunDecode(MetaB(p)))

-----------------------------------------------------------------------------
(* tables: definitions of tables between the scans of an image.            *)
TbFr == Sof(193, 8, 8, 8, <<<<1, 1, 1, 0>>, <<2, 1, 1, 1>>, <<3, 1, 1, 0>>>>)
DcA == Flat(4, <<0, 1, 2, 3, 4, 5, 6, 7, 8>>)
DcB == Flat(4, <<3, 2, 1, 0, 8, 7, 6, 5, 4>>)
AcA == Flat(2, <<0, 1>>)
AcB == Flat(2, <<1, 0>>)
(* the data of a scan are always the same; the tables give them meaning    *)
TbScan(k) == LET td == IF k = 2 THEN 1 ELSE 0   ta == IF k = 3 THEN 1 ELSE 0 IN
             Sos(<<<<k, td, ta>>>>, 0, 63, 0, 0) \o Pack(<<0, 0, 1, 0, 1, 0, 0, 1, 1, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0>>)
TbDefs ==
  << Dqt8(0, Const64(3)), Dqt16(0, Const64(5)), Dqt8(1, Const64(7)), Seg(mDQT, <<1>> \o Const64(2) \o <<0>> \o Const64(9)),
     Dht(0, 0, DcA), Dht(0, 0, DcB), Dht(0, 1, DcB), Dht(1, 0, AcA), Dht(1, 0, AcB), Dht(1, 1, AcB),
     Seg(mDHT, DhtBody(0, 0, DcB) \o DhtBody(0, 1, DcA) \o DhtBody(0, 0, DcA)), Dqt8(2, Const64(11)), Dht(0, 2, DcB), Dht(1, 3, AcB) >>
TbHeads == << <<SOI>>, <<SOI, Avi1>>,
              <<SOI, Dqt8(0, Const64(2)), Dqt8(1, Const64(4)), Dht(0, 0, DcA), Dht(0, 1, DcA), Dht(1, 0, AcA), Dht(1, 1, AcA)>>,
              <<SOI, Avi1, Dqt8(0, Const64(2)), Dqt8(1, Const64(4)), Dht(0, 0, DcA), Dht(1, 1, AcA)>> >>
(* the definitions are distributed over the gaps before each scan and EOI  *)
tables_Plans ==
  UNION { [h : 1..Len(TbHeads), f : BOOLEAN,
           d : { d \in [1..l -> [g : 0..3, t : 1..Len(TbDefs)]] : \A i \in 1..(l - 1) : d[i].g <= d[i + 1].g }]
          : l \in 0..(IF Quick THEN 2 ELSE 3) }
TbGap(p, g) == FlattenSeq([i \in 1..Len(p.d) |-> IF p.d[i].g = g THEN TbDefs[p.d[i].t] ELSE <<>>])
TbB(p) == Cat_(TbHeads[p.h]) \o (IF p.f THEN TbFr ELSE <<>>) \o TbGap(p, 0) \o (IF p.f THEN <<>> ELSE TbFr)
          \o TbScan(1) \o TbGap(p, 1) \o TbScan(2) \o TbGap(p, 2) \o TbScan(3) \o TbGap(p, 3) \o EOI
TbPick(p) == ~Quick \/ Len(p.d) < 2 \/ (p.f /\ p.h \in {3, 4})
tables_H(p) == IF TbPick(p) THEN << H(EOFERR, "a", "res,px", "set_ct RGB;decode", TbB(p)) >> ELSE <<>>
(* only what is defined before a scan matters to it: dropping all that     *)
(* follows the last scan changes nothing                                   *)
tables_T(p) ==
  TbPick(p) =>
  LET q == [p EXCEPT !.d = SelectSeq(@, LAMBDA x : x.g < 3)]
      r == RunDecode(TbB(p))   s == RunDecode(TbB(q))
  IN OkRun(r) = OkRun(s) /\ (OkRun(r) => r.c.planes = s.c.planes)
=============================================================================

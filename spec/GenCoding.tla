----------------------------- MODULE GenCoding ------------------------------
(***************************************************************************)
(* Bounded models of the coding processes.                                 *)
(***************************************************************************)
EXTENDS GenBase

(* what the decoder must have recovered: the blocks (natural order) the    *)
(* components own                                                          *)
Recovered(r, fr, img) ==
  OkRun(r) /\ \A c \in 1..fr.nc : \A by \in 1..OwnBh(fr, c), bx \in 1..OwnBw(fr, c) :
                r.c.planes[c].rows[by][bx] = Natural(img[c][by][bx])

-----------------------------------------------------------------------------
(* seq: sizes around block boundaries, sampling factors, and every way to  *)
(* distribute the components over scans.                                   *)
SeqFacs == << <<<<1, 1>>, <<1, 1>>, <<1, 1>>>>, <<<<2, 1>>, <<1, 1>>, <<1, 1>>>>, <<<<2, 2>>, <<1, 1>>, <<1, 1>>>>,
              <<<<1, 2>>, <<1, 1>>, <<1, 2>>>>, <<<<1, 1>>, <<2, 2>>, <<2, 1>>>>, <<<<4, 1>>, <<1, 1>>, <<2, 1>>>>,
              <<<<1, 1>>, <<1, 1>>, <<1, 4>>>> >>
SeqGroups == << << <<1, 2, 3>> >>, << <<1>>, <<2>>, <<3>> >>, << <<3>>, <<2>>, <<1>> >>, << <<1, 2>>, <<3>> >>, << <<2>>, <<1, 3>> >>,
                << <<2, 3>>, <<1>> >> >>
SeqDims == IF Quick THEN { <<1, 1>>, <<7, 9>>, <<8, 8>>, <<9, 16>>, <<17, 17>>, <<24, 3>>, <<5, 33>>, <<33, 2>>, <<16, 15>> }
           ELSE { <<a, b>> : a, b \in {1, 2, 7, 8, 9, 15, 16, 17, 24, 25, 31, 32, 33} }
seq_Plans == [d : SeqDims, f : 1..Len(SeqFacs), g : 1..Len(SeqGroups), ri : IF Quick THEN {0} ELSE {0, 1, 3}]
SeqBlk(c, by, bx) == Zz((0 :> ((c * 37 + by * 29 + bx * 53) % 127) - 63)
                        @@ (1 + ((c * 11 + by * 7 + bx * 5) % 15) :> IF (by + bx) % 2 = 0 THEN 9 ELSE -14))
SeqFr(p) == LET f == SeqFacs[p.f] IN
            Sof(193, 8, p.d[1], p.d[2], [i \in 1..3 |-> <<i, f[i][1], f[i][2], i - 1>>])
SeqImg(fr) == [c \in 1..fr.nc |-> TLCEval([by \in 1..PadBh(fr, c) |-> TLCEval([bx \in 1..PadBw(fr, c) |-> TLCEval(SeqBlk(c, by, bx))])])]
AcSeq == Flat(6, <<0>> \o FlattenSeq([r \in 1..15 |-> <<16 * (r - 1) + 3, 16 * (r - 1) + 4>>]))
SeqB(p, fr, img) ==
  SOI \o Dqt8(0, QRamp(5, 7)) \o Dqt8(1, QRamp(2, 11)) \o Dqt8(2, Const64(6)) \o SeqFr(p) \o Dht(0, 1, Flat(5, DcT.vals)) \o Dht(1, 2, AcSeq) \o Dri(p.ri)
  \o FlattenSeq([k \in 1..Len(SeqGroups[p.g]) |->
       LET sel == SeqGroups[p.g][k]   n == Len(sel) IN
       Sos([i \in 1..n |-> <<sel[i], 1, 2>>], 0, 63, 0, 0)
       \o Join_(Intervals(fr, img, ScanSeq(sel), p.ri, [i \in 1..n |-> Flat(5, DcT.vals)], [i \in 1..n |-> AcSeq], 1))])
  \o EOI
seq_H(p) == LET fr == FrameOf(SeqFr(p))   img == TLCEval(SeqImg(fr)) IN
            << H(EOFERR, "a", "res,px,info", "set_ct RGB;decode", SeqB(p, fr, img)) >>
seq_T(p) == LET fr == FrameOf(SeqFr(p))   img == TLCEval(SeqImg(fr)) IN
            Recovered(RunDecode(SeqB(p, fr, img)), fr, img)

-----------------------------------------------------------------------------
(* prog: every legal script of scans of one component up to a length, as a *)
(* state machine over the precision delivered so far of four classes of    *)
(* coefficients (9: nothing yet).                                          *)
PrClass == << <<0, 0>>, <<1, 1>>, <<2, 5>>, <<6, 63>> >>
PrAls == IF Quick THEN {0, 1} ELSE {0, 1, 2}
PrDepth == IF Quick THEN 5 ELSE 7
AcPr == Flat(7, <<0, 240>> \o FlattenSeq([r \in 1..16 |-> <<16 * (r - 1) + 1, 16 * (r - 1) + 2, 16 * (r - 1) + 3>>])
                \o <<16, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224>>)
PrImg == << << << Zz((0 :> 41) @@ (1 :> 7) @@ (2 :> -3) @@ (4 :> 1) @@ (20 :> 1) @@ (40 :> -2) @@ (63 :> 3)),
                  Zz(0 :> -60),
                  Zz((0 :> 5) @@ (1 :> -1) @@ (5 :> 1) @@ (6 :> -6)),
                  Zz((0 :> -2) @@ (6 :> 2) @@ (7 :> -1) @@ (30 :> 5) @@ (62 :> 1)) >> >> >>
PrSof == Gray(194, 32, 8)
PrFr == FrameOf(PrSof)
prog_Plans == [s : { <<>> }, st : { <<9, 9, 9, 9>> }, mr : {1, 32767}, ri : IF Quick THEN {0, 3} ELSE {0, 1, 3}]
PrStep(p, i, j, al) == [p EXCEPT !.s = Append(@, [i |-> i, j |-> j, ah |-> IF p.st[i] = 9 THEN 0 ELSE p.st[i], al |-> al]),
                                 !.st = [k \in 1..4 |-> IF k \in i..j THEN al ELSE @[k]]]
prog_More(p) ==
  IF Len(p.s) >= PrDepth THEN {}
  ELSE LET bands == IF p.st[1] = 9 THEN { <<1, 1>> }
                    ELSE { <<1, 1>> } \cup { b \in (2..4) \X (2..4) : b[1] <= b[2] /\ \A k \in b[1]..b[2] : p.st[k] = p.st[b[1]] }
           next(b) == LET s == p.st[b[1]] IN IF s = 9 THEN PrAls ELSE IF s > 0 THEN {s - 1} ELSE {}
       IN UNION { { PrStep(p, b[1], b[2], al) : al \in next(b) } : b \in bands }
PrB(p) == SOI \o Dqt8(0, QRamp(3, 9)) \o PrSof \o Dht(0, 0, DcT) \o Dht(1, 0, AcPr) \o Dri(p.ri)
          \o FlattenSeq([k \in 1..Len(p.s) |->
               LET x == p.s[k]   ss == PrClass[x.i][1]   se == PrClass[x.j][2] IN
               Sos(<<<<1, 0, 0>>>>, ss, se, x.ah, x.al)
               \o Join_(Intervals(PrFr, PrImg, ProgScan(ss, se, x.ah, x.al, 1), p.ri, <<DcT>>, <<AcPr>>, p.mr))])
          \o EOI
(* the same scripts with table changes, see progq *)
PrKeep(p) == ~Quick \/ p.ri = 0 \/ Len(p.s) \in 2..4
prog_H(p) == IF PrKeep(p) THEN << D("res,px", PrB(p)) >> ELSE <<>>
(* what has been delivered is there, the rest is zero *)
PrWant(p, zz) == [k \in 1..64 |->
   LET cl == CHOOSE c \in 1..4 : k - 1 \in PrClass[c][1]..PrClass[c][2]   al == p.st[cl] IN
   IF al = 9 THEN 0 ELSE (IF k = 1 THEN PtDc(zz[k], al) ELSE PtAc(zz[k], al)) * Pow2(al)]
prog_T(p) ==
  PrKeep(p) =>
  LET r == RunDecode(PrB(p)) IN
  IF p.s = <<>> THEN ~OkRun(r)
  ELSE OkRun(r) /\ \A b \in 1..4 : r.c.planes[1].rows[1][b] = Natural(PrWant(p, PrImg[1][1][b]))

(* progq: the quantization table changes between the scans of such scripts *)
progq_Plans == [s : { <<>> }, st : { <<9, 9, 9, 9>> }, q : { <<>> }]
progq_More(p) ==
  IF Len(p.s) + Len(p.q) >= (IF Quick THEN 5 ELSE 6) THEN {}
  ELSE { [x EXCEPT !.st[4] = @] : x \in
           { y \in { PrStep(p, b[1], b[2], al) : b \in {<<1, 1>>, <<2, 4>>}, al \in {0, 1} } :
                LET s == y.s[Len(y.s)] IN
                /\ (s.ah = 0 => p.st[s.i] = 9) /\ (s.ah # 0 => p.st[s.i] = s.al + 1)
                /\ (p.st[1] = 9 => s.i = 1) } }
       \cup IF Len(p.q) < 2 /\ (p.q = <<>> \/ p.q[Len(p.q)] < Len(p.s)) THEN { [p EXCEPT !.q = Append(@, Len(p.s))] } ELSE {}
ProgqB(p) ==
  SOI \o Dqt8(0, Const64(3)) \o PrSof \o Dht(0, 0, DcT) \o Dht(1, 0, AcPr)
  \o FlattenSeq([k1 \in 1..(Len(p.s) + 1) |-> LET k == k1 - 1 IN
       (IF k = 0 THEN <<>> ELSE
        LET x == p.s[k]   ss == PrClass[x.i][1]   se == PrClass[x.j][2] IN
        Sos(<<<<1, 0, 0>>>>, ss, se, x.ah, x.al)
        \o Join_(Intervals(PrFr, PrImg, ProgScan(ss, se, x.ah, x.al, 1), 0, <<DcT>>, <<AcPr>>, 9)))
       \o FlattenSeq([j \in 1..Len(p.q) |-> IF p.q[j] = k THEN Dqt8(0, Const64(3 + 2 * j)) ELSE <<>>])])
  \o EOI
progq_H(p) == << D("res,px", ProgqB(p)) >>
(* the table in force when the scan that completes the component starts,   *)
(* or at the end of the image                                              *)
ProgqWant(p) ==
  LET deliv(k, cl) == \E j \in 1..k : p.s[j].al = 0 /\ cl \in p.s[j].i..p.s[j].j
      full == { k \in 1..Len(p.s) : \A cl \in 1..4 : deliv(k, cl) }
      at == IF full = {} THEN Len(p.s) + 1 ELSE CHOOSE k \in full : \A j \in full : k <= j
  IN 3 + 2 * Cardinality({ j \in 1..Len(p.q) : p.q[j] < at })
progq_T(p) == LET r == RunDecode(ProgqB(p)) IN
              IF p.s = <<>> THEN ~OkRun(r) ELSE OkRun(r) /\ r.c.planes[1].qt[1] = ProgqWant(p)

(* prog3: three components; the scans of a complete progression, or of a   *)
(* part of it, in every order that starts each component with its DC.      *)
P3Sof == Sof(194, 8, 17, 9, <<<<1, 2, 1, 0>>, <<2, 1, 1, 0>>, <<3, 1, 1, 0>>>>)
P3Fr == FrameOf(P3Sof)
P3Img == [c \in 1..3 |-> TLCEval([by \in 1..PadBh(P3Fr, c) |-> TLCEval([bx \in 1..PadBw(P3Fr, c) |->
            Zz((0 :> ((c * 37 + by * 29 + bx * 53) % 127) - 63) @@ (1 + ((c + by + bx) % 4) :> 3 - c))])])]
(* scan kinds: DC of a set of components, or AC of one *)
P3Scans == << <<{1, 2, 3}, 0>>, <<{1}, 0>>, <<{2}, 0>>, <<{3}, 0>>, <<{1, 3}, 0>>, <<{2, 3}, 0>>, <<{1}, 1>>, <<{2}, 1>>, <<{3}, 1>> >>
prog3_Plans == [s : { <<>> }]
prog3_More(p) ==
  LET has(c, b) == \E k \in 1..Len(p.s) : c \in P3Scans[p.s[k]][1] /\ P3Scans[p.s[k]][2] = b IN
  IF Len(p.s) >= (IF Quick THEN 5 ELSE 6) THEN {}
  ELSE { [p EXCEPT !.s = Append(@, x)] : x \in { x \in 1..Len(P3Scans) :
           \A c \in P3Scans[x][1] : ~has(c, P3Scans[x][2]) /\ (P3Scans[x][2] = 1 => has(c, 0)) } }
P3B(p) == SOI \o Dqt8(0, Const64(4)) \o P3Sof \o Dht(0, 0, DcT) \o Dht(1, 1, AcPr)
  \o FlattenSeq([k \in 1..Len(p.s) |->
       LET x == P3Scans[p.s[k]]   sel == SetToSortSeq(x[1], LAMBDA a, b : a < b)   n == Len(sel)
           ss == x[2]   se == IF ss = 0 THEN 0 ELSE 63 IN
       Sos([i \in 1..n |-> <<sel[i], 0, 1>>], ss, se, 0, 0)
       \o Join_(Intervals(P3Fr, P3Img, [sel |-> sel, ss |-> ss, se |-> se, ah |-> 0, al |-> 0], 0,
                          [i \in 1..n |-> DcT], [i \in 1..n |-> AcPr], 9))])
  \o EOI
prog3_H(p) == << H(EOFERR, "a", "res,px", "set_ct RGB;decode", P3B(p)) >>
prog3_T(p) ==
  LET r == RunDecode(P3B(p))
      has(c, b) == \E k \in 1..Len(p.s) : c \in P3Scans[p.s[k]][1] /\ P3Scans[p.s[k]][2] = b
      want(c, zz) == [k \in 1..64 |-> IF has(c, IF k = 1 THEN 0 ELSE 1) THEN zz[k] ELSE 0]
  IN IF p.s = <<>> THEN ~OkRun(r)
     ELSE OkRun(r) /\ \A c \in 1..3 : \A by \in 1..OwnBh(P3Fr, c), bx \in 1..OwnBw(P3Fr, c) :
                        r.c.planes[c].rows[by][bx] = Natural(want(c, P3Img[c][by][bx]))

(* a progressive scan with tables DcT and AcPr, no restarts *)
PScanT(fr, img, ss, se, ah, al) ==
  Sos(<<<<1, 0, 0>>>>, ss, se, ah, al) \o Join_(Intervals(fr, img, ProgScan(ss, se, ah, al, 1), 0, <<DcT>>, <<AcPr>>, 9))

-----------------------------------------------------------------------------
(* restart: every interval of a small image, in every process, and every   *)
(* kind of damage to every marker.                                         *)
RsProcs == <<"seq", "seq2", "dc", "ac", "ref", "less", "less3">>
RsUnits(pr) == CASE pr = "less" -> 12 [] pr = "less3" -> 11 [] pr = "seq2" -> 12 [] OTHER -> 20
RsBad == {"none", "drop", "eoi", "com", "dri", "double", "fill", "nodata", "zero", "ones", "far", "swap"}
restart_Plans ==
  UNION { [pr : {pr}, ri : 0..(RsUnits(pr) + 1), bad : {"none"}, j : {0}, v : {0}] : pr \in Range(RsProcs) }
  \cup UNION { UNION { [pr : {pr}, ri : {ri}, bad : RsBad \ {"none"}, j : 1..(CeilDiv(RsUnits(pr), ri) - 1), v : {0}]
                       \cup [pr : {pr}, ri : {ri}, bad : {"num"}, j : 1..(CeilDiv(RsUnits(pr), ri) - 1), v : 1..7]
                       : ri \in IF Quick THEN {1, 2} ELSE 1..RsUnits(pr) } : pr \in Range(RsProcs) }
RsSof(pr) == CASE pr = "seq" -> Gray(192, 80, 16)
               [] pr = "seq2" -> Sof(193, 8, 57, 17, <<<<1, 2, 1, 0>>, <<2, 1, 1, 0>>, <<3, 1, 1, 0>>>>)
               [] pr = "less" -> LossFrame(8, 3, 12, 1)
               [] pr = "less3" -> LossFrame(10, 2, 11, 3)
               [] OTHER -> Gray(194, 160, 8)
RsImg(pr, fr) ==
  IF fr.proc = "lossless"
  THEN [c \in 1..fr.nc |-> TLCEval([y \in 1..fr.H |-> TLCEval([x \in 1..fr.W |-> (c * 91 + y * 57 + x * 131 + y * x) % Pow2(fr.prec)])])]
  ELSE [c \in 1..fr.nc |-> TLCEval([by \in 1..PadBh(fr, c) |-> TLCEval([bx \in 1..PadBw(fr, c) |->
          TLCEval(Zz((0 :> ((c * 37 + by * 29 + bx * 53) % 127) - 63)
             @@ (IF pr \in {"seq", "seq2"} THEN (1 :> (by + bx) % 3)
                 ELSE IF bx % 5 = 1 THEN (3 :> 3) @@ (9 :> -2) ELSE IF bx % 5 = 4 THEN (9 :> 1) ELSE (1 :> 0))))])])]
(* the parts of the scan under test, with interval ri lines or units       *)
RsParts(p, fr, img) ==
  CASE p.pr = "seq" -> Intervals(fr, img, ScanSeq(<<1>>), p.ri, <<DcT>>, <<AcSmall>>, 1)
    [] p.pr = "seq2" -> Intervals(fr, img, ScanSeq(<<1, 2, 3>>), p.ri, <<DcT, DcT, DcT>>, <<AcSmall, AcSmall, AcSmall>>, 1)
    [] p.pr = "dc" -> Intervals(fr, img, ProgScan(0, 0, 0, 0, 1), p.ri, <<DcT>>, <<AcPr>>, 1)
    [] p.pr = "ac" -> Intervals(fr, img, ProgScan(1, 63, 0, 0, 1), p.ri, <<DcT>>, <<AcPr>>, 32767)
    [] p.pr = "ref" -> Intervals(fr, img, ProgScan(1, 63, 1, 0, 1), p.ri, <<DcT>>, <<AcPr>>, 32767)
    [] p.pr = "less" -> LosslessIntervals(fr, img, <<1>>, 6, 0, p.ri * fr.W, <<LossT>>)
    [] OTHER -> LosslessIntervals(fr, img, <<1, 2, 3>>, 5, 1, p.ri * fr.W, <<LossT, LossT, LossT>>)
RsHead(p) ==
  CASE p.pr = "seq" -> Sos(<<<<1, 0, 0>>>>, 0, 63, 0, 0)
    [] p.pr = "seq2" -> Sos(<<<<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>>>, 0, 63, 0, 0)
    [] p.pr = "dc" -> Sos(<<<<1, 0, 0>>>>, 0, 0, 0, 0)
    [] p.pr = "ac" -> Sos(<<<<1, 0, 0>>>>, 1, 63, 0, 0)
    [] p.pr = "ref" -> Sos(<<<<1, 0, 0>>>>, 1, 63, 1, 0)
    [] p.pr = "less" -> Sos(<<<<1, 0, 0>>>>, 6, 0, 0, 0)
    [] OTHER -> Sos(<<<<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>>>, 5, 0, 0, 1)
(* join, with damage at the j-th marker *)
RsJoin(p, parts) ==
  FlattenSeq([k \in 1..Len(parts) |->
    IF k = 1 THEN parts[k]
    ELSE LET m == RST(k - 2)
             here == p.j = k - 1
             body == IF p.bad = "nodata" /\ here THEN <<>> ELSE parts[k]
             mk == IF ~here THEN m
                   ELSE CASE p.bad = "drop" -> <<>>
                          [] p.bad = "eoi" -> EOI
                          [] p.bad = "com" -> Com(<<>>)
                          [] p.bad = "dri" -> Dri(p.ri)
                          [] p.bad = "double" -> m \o m
                          [] p.bad = "fill" -> <<255, 255>> \o m
                          [] p.bad = "zero" -> <<0>> \o m
                          [] p.bad = "ones" -> <<255, 0>> \o m
                          [] p.bad = "far" -> <<1, 2, 3, 4, 5, 6, 7, 8, 9>> \o m
                          [] p.bad = "swap" -> RST(k - 1)
                          [] p.bad = "num" -> RST(k - 2 + p.v)
                          [] OTHER -> m
         IN mk \o body])
RsB(p, fr, img) ==
  LET unit == IF fr.proc = "lossless" THEN fr.W ELSE 1 IN
  SOI \o Dqt8(0, Const64(2)) \o Dht(0, 0, IF fr.proc = "lossless" THEN LossT ELSE DcT) \o Dht(1, 0, IF fr.proc = "prog" THEN AcPr ELSE AcSmall)
  \o RsSof(p.pr)
  \o (IF p.pr = "ref" THEN PScanT(fr, img, 0, 0, 0, 0) \o PScanT(fr, img, 1, 63, 0, 1) ELSE <<>>)
  \o (IF p.pr = "ac" THEN PScanT(fr, img, 0, 0, 0, 0) ELSE <<>>)
  \o Dri((p.ri + 1) * unit) \o Dri(p.ri * unit)
  \o RsHead(p) \o RsJoin(p, RsParts(p, fr, img)) \o EOI
restart_H(p) == LET fr == FrameOf(RsSof(p.pr))   img == TLCEval(RsImg(p.pr, fr)) IN
                << H(EOFERR, "a", "res,px", IF fr.nc = 3 THEN "set_ct RGB;decode" ELSE "decode", RsB(p, fr, img)) >>
restart_T(p) ==
  LET fr == FrameOf(RsSof(p.pr))   img == TLCEval(RsImg(p.pr, fr))
      r == RunDecode(RsB(p, fr, img))
      plain == RunDecode(RsB([p EXCEPT !.ri = 0, !.bad = "none"], fr, img))
  IN IF p.bad \in {"none", "fill"}
     THEN /\ OkRun(r)
          /\ \A c \in 1..fr.nc : r.c.planes[c].rows = plain.c.planes[c].rows
     ELSE IF p.bad = "double" /\ p.j = CeilDiv(RsUnits(p.pr), p.ri) - 1 THEN TRUE     \* the second one is left over
     ELSE IF p.bad \in {"drop", "eoi", "com", "dri", "double", "far", "swap", "num"}
     THEN ~OkRun(r)
     ELSE TRUE

-----------------------------------------------------------------------------
(* huff: every prefix code with up to k codewords (every multiset of       *)
(* lengths), including over-subscribed ones, used for DC, AC and lossless  *)
(* differences; and the bit patterns just outside the code.                *)
HuShapes(n) == { s \in [1..n -> 1..16] : \A i \in 1..(n - 1) : s[i] <= s[i + 1] }
(* sum of 2^(16-l), against 2^16 *)
Kraft(s) == FoldLeft(LAMBDA a, l : a + Pow2(16 - l), 0, s)
huff_Plans ==
  UNION { [s : HuShapes(n), use : {"dc", "ac", "less"}, bad : {"no", "beyond", "last"}] : n \in 1..2 }
  \cup [s : IF Quick THEN { s \in HuShapes(3) : Kraft(s) >= 60000 \/ (s[1] + 3 * s[2] + 5 * s[3]) % 4 = 0 } ELSE HuShapes(3),
        use : {"dc", "ac", "less"}, bad : {"no", "beyond"}]
  \cup [s : IF Quick THEN { s \in HuShapes(4) : Kraft(s) \in 65520..66000 } ELSE HuShapes(4), use : {"dc", "ac", "less"}, bad : {"no", "beyond"}]
HuCounts(s) == [l \in 1..16 |-> Cardinality({ i \in 1..Len(s) : s[i] = l })]
(* symbols in code order: EOB must be there for AC; it is the second one   *)
(* when there are more                                                     *)
HuVals(p) == LET n == Len(p.s) IN
             IF p.use = "ac" THEN (CASE n = 1 -> <<0>> [] n = 2 -> <<1, 0>> [] n = 3 -> <<17, 0, 2>> [] OTHER -> <<3, 240, 0, 33>>)
             ELSE IF p.use = "less" THEN (CASE n = 1 -> <<3>> [] n = 2 -> <<2, 5>> [] n = 3 -> <<7, 0, 1>> [] OTHER -> <<4, 1, 0, 6>>)
             ELSE (CASE n = 1 -> <<4>> [] n = 2 -> <<0, 3>> [] n = 3 -> <<5, 0, 1>> [] OTHER -> <<2, 11, 0, 6>>)
HuT(p) == HT(HuCounts(p.s), HuVals(p))
HuDcFixed == Flat(1, <<0, 2>>)
(* magnitude bits for the k-th use of a symbol of size s *)
HuMag(s, k) == IF s = 0 THEN <<>> ELSE NBits((k * 2654435 + s) % Pow2(s), s)
HuSyms(p) == LET v == HuVals(p)   n == Len(v) IN
             \* each symbol, forward and backward
             [i \in 1..(2 * n) |-> IF i <= n THEN v[i] ELSE v[2 * n + 1 - i]]
HuBlockBits(p, t, k) ==
  LET s == HuSyms(p)[k] IN
  CASE p.use = "dc" -> Sym(t, s) \o HuMag(s, k) \o <<0>>
    [] p.use = "ac" -> <<0>> \o (IF s = 0 THEN Sym(t, 0)
                                 ELSE IF s = 240 THEN Sym(t, 240) \o Sym(t, 0)
                                 ELSE Sym(t, s) \o HuMag(s % 16, k) \o Sym(t, 0))
    [] OTHER -> Sym(t, s) \o HuMag(s, k)
(* "beyond": the first pattern no codeword prefixes; "last": the last      *)
(* pattern that has one, repeated                                          *)
HuTail(p) ==
  LET lim == CodeInfo(HuCounts(p.s)).lim[16] IN
  CASE p.bad = "beyond" -> (IF p.use = "ac" THEN <<0>> ELSE <<>>) \o (IF lim < 65536 THEN NBits(lim, 16) ELSE [i \in 1..40 |-> 1])
    [] p.bad = "last" -> (IF p.use = "ac" THEN <<0>> ELSE <<>>) \o NBits(Min2(lim - 1, 65535), 16)
    [] OTHER -> <<>>
HuOver(p) == Kraft(p.s) > 65536
HuFr(p) == LET n == 2 * Len(p.s) + (IF p.bad = "no" THEN 0 ELSE 2) IN
           IF p.use = "less" THEN LossFrame(16, n, 1, 1) ELSE Gray(193, 8 * n, 8)
HuB(p) ==
  LET seg(cls) == Seg(mDHT, <<16 * cls>> \o HuCounts(p.s) \o HuVals(p))
      t == HuT(p)
      data == IF HuOver(p) THEN <<1, 2, 3, 4>>
              ELSE Pack(FlattenSeq([k \in 1..(2 * Len(p.s)) |-> HuBlockBits(p, t, k)]) \o HuTail(p))
  IN SOI \o Dqt8(0, Q1) \o HuFr(p)
     \o (CASE p.use = "dc" -> seg(0) \o Dht(1, 0, Flat(1, <<0>>))
           [] p.use = "ac" -> Dht(0, 0, HuDcFixed) \o seg(1)
           [] OTHER -> seg(0))
     \o Sos(<<<<1, 0, 0>>>>, IF p.use = "less" THEN 1 ELSE 0, IF p.use = "less" THEN 0 ELSE 63, 0, 0)
     \o data \o EOI
huff_H(p) == << D("res,px", HuB(p)) >>
huff_T(p) ==
  LET r == RunDecode(HuB(p)) IN
  IF HuOver(p) THEN r.c.errs = {FMT}
  ELSE IF p.bad = "no" THEN OkRun(r) \/ p.use = "less"
  ELSE IF p.bad = "beyond" /\ Kraft(p.s) < 65536 THEN r.c.errs = {FMT} \/ p.use = "less"
  ELSE TRUE

-----------------------------------------------------------------------------
(* lossless: every 2 x 2 image over a set of samples, every predictor.     *)
LlSets == << [prec |-> 2, al |-> 0, v |-> {0, 1, 2, 3}], [prec |-> 16, al |-> 0, v |-> {0, 1, 32767, 32768, 65535}],
             [prec |-> 8, al |-> 0, v |-> {0, 127, 128, 255}], [prec |-> 12, al |-> 3, v |-> {0, 8, 2048, 4088}],
             [prec |-> 3, al |-> 2, v |-> {0, 4}], [prec |-> 9, al |-> 1, v |-> {0, 256, 510}], [prec |-> 7, al |-> 0, v |-> {0, 63, 127}] >>
lossless_Plans == UNION { [k : {k}, ss : 1..7, s : [1..4 -> LlSets[k].v], ri : {0, 1}] : k \in 1..Len(LlSets) }
LlKeep(p) == ~Quick \/ (p.ri = 0 /\ (Cardinality(LlSets[p.k].v) < 5 \/ p.s[1] # p.s[4])) \/ (p.ri = 1 /\ p.ss = 4)
LlSof(p) == LossFrame(LlSets[p.k].prec, 2, 2, 1)
LlImg(p) == << << <<p.s[1], p.s[2]>>, <<p.s[3], p.s[4]>> >> >>
LlB(p) == SOI \o LlSof(p) \o Dht(0, 0, LossT) \o Dri(2 * p.ri)
          \o LScan(FrameOf(LlSof(p)), LlImg(p), <<1>>, p.ss, LlSets[p.k].al, 2 * p.ri) \o EOI
lossless_H(p) == IF LlKeep(p) THEN << D("res,px,info,size", LlB(p)) >> ELSE <<>>
lossless_T(p) ==
  LlKeep(p) =>
  LET r == RunDecode(LlB(p)) IN
  OkRun(r) /\ \A y \in 1..2, x \in 1..2 : r.c.planes[1].rows[y][x] * Pow2(r.c.planes[1].sh) = LlImg(p)[1][y][x]

(* lossless3: components interleaved or apart, all precisions, transforms  *)
(* and sizes.                                                              *)
lossless3_Plans == UNION { [nc : {1, 3, 4}, prec : {P}, al : {a \in {0, 1, 4, P - 1} : a < P}, g : 1..3,
                            d : {<<1, 1>>, <<1, 5>>, <<4, 1>>, <<5, 3>>}, ss : IF Quick THEN {1 + (P % 7)} ELSE 1..7, ri : {0, 1, 2}] : P \in 2..16 }
L3Keep(p) == ~Quick \/ (p.prec + p.al + p.g + p.d[1] + p.ri) % 3 = 0
L3Sof(p) == LossFrame(p.prec, p.d[1], p.d[2], p.nc)
L3Img(p) == TLCEval([c \in 1..p.nc |-> TLCEval([y \in 1..p.d[2] |-> TLCEval([x \in 1..p.d[1] |->
               (((c * 40503 + y * 25717 + x * 30011 + x * y * c * 77) % Pow2(p.prec)) \div Pow2(p.al)) * Pow2(p.al)])])])
L3B(p) == LET fr == FrameOf(L3Sof(p))   img == L3Img(p)
              gs == CASE p.g = 1 -> << [i \in 1..p.nc |-> i] >> [] p.g = 2 -> [i \in 1..p.nc |-> <<i>>] [] OTHER -> [i \in 1..p.nc |-> <<p.nc + 1 - i>>]
          IN SOI \o L3Sof(p) \o Dht(0, 0, LossT) \o Dri(p.d[1] * p.ri)
             \o FlattenSeq([k \in 1..Len(gs) |-> LScan(fr, img, gs[k], 1 + ((p.ss + k) % 7), p.al, p.d[1] * p.ri)]) \o EOI
lossless3_H(p) == IF L3Keep(p) THEN << D("res,px,info", L3B(p)) >> ELSE <<>>
lossless3_T(p) ==
  L3Keep(p) =>
  LET r == RunDecode(L3B(p))   img == L3Img(p) IN
  OkRun(r) /\ \A c \in 1..p.nc, y \in 1..p.d[2], x \in 1..p.d[1] :
                r.c.planes[c].rows[y][x] * Pow2(r.c.planes[c].sh) = img[c][y][x]
=============================================================================

------------------------------ MODULE GenOutput ------------------------------
(***************************************************************************)
(* Bounded models of what comes out: sizes, scaling, sampling factors,     *)
(* colour, limits, and the order of API calls.                             *)
(***************************************************************************)
EXTENDS GenBase

(* a sequential image of nc components, one block row per entry, given DC  *)
(* values: blk(c, by, bx) a block in zig-zag order                         *)
SeqStream(pre, sof, nsel, q, dct, act, Blk(_, _, _)) ==
  LET fr == FrameOf(sof)
      img == TLCEval([c \in 1..fr.nc |-> TLCEval([by \in 1..PadBh(fr, c) |-> TLCEval([bx \in 1..PadBw(fr, c) |-> TLCEval(Blk(c, by, bx))])])])
      scan(sel) == LET n == Len(sel) IN
        Sos([i \in 1..n |-> <<fr.comps[sel[i]].id, 0, 0>>], 0, 63, 0, 0)
        \o Join_(Intervals(fr, img, ScanSeq(sel), 0, [i \in 1..n |-> dct], [i \in 1..n |-> act], 1))
  IN SOI \o pre \o Dqt8(0, q) \o sof \o Dht(0, 0, dct) \o Dht(1, 0, act)
     \o FlattenSeq([k \in 1..Len(nsel) |-> scan(nsel[k])]) \o EOI

One(n) == << Range2(1, n) >>                  \* one interleaved scan
Each(n) == [i \in 1..n |-> <<i>>]             \* one scan per component
Q8 == Const64(8)                              \* a DC value of d gives samples of 128 + d
Hash(a0, b0, c0) == LET a == a0 % 1000  b == b0 % 1000  c == c0 % 1000 IN
  (a * 7919 + b * 10477 + c * 12991 + a * b * 31 + b * c * 17) % 65521
AcOut == Flat(7, <<0, 240>> \o FlattenSeq([r \in 1..16 |-> <<16 * (r - 1) + 1, 16 * (r - 1) + 2, 16 * (r - 1) + 3>>])
                  \o [r \in 1..14 |-> 16 * r])
Names(c) == CASE c = 1 -> <<1>> [] c = 3 -> <<1, 2, 3>> [] OTHER -> <<1, 2, 3, 4>>
Txt(n) == ToString(n)
RECURSIVE JoinCalls(_)
JoinCalls(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o ";" \o JoinCalls(Tail(s))
ScaleTo(W, Hh, N) == "scale " \o Txt(CeilDiv(W * N, 8)) \o " " \o Txt(CeilDiv(Hh * N, 8))

-----------------------------------------------------------------------------
(* scale: requests around every size the scale factors yield, one after    *)
(* another on one decoder, for sizes around the block boundaries and       *)
(* around the ends of the number ranges.                                   *)
ScSides == IF Quick THEN {1, 2, 3, 7, 8, 9, 16, 17, 33, 255, 257, 8191, 16384, 32767, 32768, 65528, 65535}
           ELSE 1..40 \cup {63, 64, 65, 255, 256, 257, 511, 4095, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769, 65521, 65527, 65528, 65529, 65534, 65535}
ScMarker == IF Quick THEN {192, 194, 195} ELSE {192, 193, 194, 195}
scale_Plans == [w : ScSides, h : ScSides, m : ScMarker]
ScReqs(s) == { r \in UNION { {CeilDiv(s * N, 8) - 1, CeilDiv(s * N, 8), CeilDiv(s * N, 8) + 1} : N \in {1, 2, 4, 8} } \cup {0, 1, 65535} : r >= 0 /\ r <= 65535 }
(* every request on one axis, against five on the other *)
ScPairs(p) == LET few(s) == {0, 1, CeilDiv(s, 4), s, 65535} IN
              (ScReqs(p.w) \X few(p.h)) \cup (few(p.w) \X ScReqs(p.h))
ScOrder(p) == LET key(r) == Hash(r[1], r[2], p.w) IN
              SetToSortSeq(ScPairs(p), LAMBDA a, b : key(a) < key(b) \/ (key(a) = key(b) /\ (a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))))
ScSof(p) == IF p.m = 195 THEN LossFrame(8, p.w, p.h, 1) ELSE Gray(p.m, p.w, p.h)
scale_H(p) == LET o == ScOrder(p) IN
  IF Quick /\ Hash(p.w, p.h, p.m) % 3 # 0 THEN <<>>
  ELSE << H(EOFERR, "a", "res,info,pos", JoinCalls([k \in 1..Len(o) |-> "scale " \o Txt(o[k][1]) \o " " \o Txt(o[k][2])]) \o ";info", SOI \o ScSof(p)) >>
(* the smallest factor that reaches the request in one axis; and a larger  *)
(* request never yields a smaller image                                    *)
scale_T(p) ==
  LET fr == FrameOf(ScSof(p))
      f(r) == ScaleFactor(fr, r[1], r[2])
      out(N) == <<CeilDiv(p.w * N, 8), CeilDiv(p.h * N, 8)>>
  IN p.m # 195 =>
     \A r \in ScPairs(p) :
       LET N == f(r) IN
       /\ N \in {1, 2, 4, 8}
       /\ N = 8 \/ out(N)[1] >= r[1] \/ out(N)[2] >= r[2]
       /\ \A S \in {1, 2, 4} : S < N => out(S)[1] < r[1] /\ out(S)[2] < r[2]
       /\ out(N)[1] \in 1..p.w /\ out(N)[2] \in 1..p.h

-----------------------------------------------------------------------------
(* scaled: pictures decoded at every scale.                                *)
SdFacs == << <<<<1, 1>>>>, <<<<1, 1>>, <<1, 1>>, <<1, 1>>>>, <<<<2, 1>>, <<1, 1>>, <<1, 1>>>>, <<<<2, 2>>, <<1, 1>>, <<1, 1>>>>,
             <<<<1, 2>>, <<1, 1>>, <<1, 2>>>>, <<<<4, 2>>, <<1, 1>>, <<2, 2>>>>, <<<<2, 2>>, <<2, 1>>, <<1, 2>>, <<2, 2>>>> >>
SdDims == IF Quick THEN { <<1, 1>>, <<8, 8>>, <<9, 17>>, <<17, 9>>, <<31, 2>>, <<3, 40>> }
          ELSE { <<a, b>> : a, b \in {1, 2, 3, 4, 5, 7, 8, 9, 11, 15, 16, 17, 23, 31, 33} }
scaled_Plans == [d : SdDims, f : 1..Len(SdFacs), N : {1, 2, 4, 8}, m : {192, 194}]
SdSof(p) == LET f == SdFacs[p.f] IN Sof(p.m, 8, p.d[1], p.d[2], [i \in 1..Len(f) |-> <<Names(Len(f))[i], f[i][1], f[i][2], 0>>])
SdBlk(c, by, bx) == Zz((0 :> (Hash(c, by, bx) % 101) - 50) @@ (1 :> (Hash(bx, c, by) % 5) - 2) @@ (2 :> (Hash(by, bx, c) % 5) - 2)
                       @@ ((3 + (Hash(bx, by, c) % 9)) :> 2) @@ ((12 + (Hash(c, bx, by) % 4)) :> -1))
ProgStream(sof, q, Blk(_, _, _)) ==
  LET fr == FrameOf(sof)
      img == TLCEval([c \in 1..fr.nc |-> TLCEval([by \in 1..PadBh(fr, c) |-> TLCEval([bx \in 1..PadBw(fr, c) |-> TLCEval(Blk(c, by, bx))])])])
      dc(c) == Sos(<<<<fr.comps[c].id, 0, 0>>>>, 0, 0, 0, 0)
               \o Join_(Intervals(fr, img, [sel |-> <<c>>, ss |-> 0, se |-> 0, ah |-> 0, al |-> 0], 0, <<DcT>>, <<AcOut>>, 1))
      ac(c) == Sos(<<<<fr.comps[c].id, 0, 0>>>>, 1, 63, 0, 0)
               \o Join_(Intervals(fr, img, [sel |-> <<c>>, ss |-> 1, se |-> 63, ah |-> 0, al |-> 0], 0, <<DcT>>, <<AcOut>>, 100))
  IN SOI \o Dqt8(0, q) \o sof \o Dht(0, 0, DcT) \o Dht(1, 0, AcOut)
     \o FlattenSeq([c \in 1..fr.nc |-> dc(c)]) \o FlattenSeq([c \in 1..fr.nc |-> ac(c)]) \o EOI
SdB(p) == IF p.m = 194 THEN ProgStream(SdSof(p), QRamp(9, 13), SdBlk)
          ELSE LET n == Len(SdFacs[p.f]) IN
               SeqStream(<<>>, SdSof(p), IF p.d[1] % 2 = 0 \/ FoldLeft(LAMBDA a, x : a + x[1] * x[2], 0, SdFacs[p.f]) > 10 THEN Each(n) ELSE One(n),
                         QRamp(9, 13), DcT, AcOut, SdBlk)
SdCalls(p) == LET n == Len(SdFacs[p.f]) IN
              ScaleTo(p.d[1], p.d[2], p.N) \o (IF n = 3 /\ p.m = 192 THEN ";set_ct RGB" ELSE "") \o ";decode"
scaled_H(p) == << H(EOFERR, "a", "res,info,px,cfg", SdCalls(p), SdB(p)) >>
scaled_T(p) == OkRun(RunDecode(SdB(p)))

-----------------------------------------------------------------------------
(* factors: every combination of sampling factors of three components, and *)
(* for the supported ones the picture.                                     *)
FaPairs == (1..4) \X (1..4)
FaDims == IF Quick THEN { <<13, 11>> } ELSE { <<13, 11>>, <<1, 9>>, <<9, 1>>, <<1, 1>>, <<2, 2>>, <<33, 5>> }
factors_Plans == [a : FaPairs, b : FaPairs, c : FaPairs, d : FaDims]
FaSof(p) == Sof(193, 8, p.d[1], p.d[2], <<<<1, p.a[1], p.a[2], 0>>, <<2, p.b[1], p.b[2], 0>>, <<3, p.c[1], p.c[2], 0>>>>)
FaParse(p) == ParseSOF(MkStream(FaSof(p), 19, EOFERR), 2, 193)
FaPick(p) == IF Quick THEN (p.a[1] * 3 + p.a[2] * 5 + p.b[1] * 7 + p.b[2] * 11 + p.c[1] * 13 + p.c[2] * 17) % 7 = 0 ELSE TRUE
FaBlk(c, by, bx) == Zz(0 :> (Hash(c, by, bx) % 101) - 50)
factors_H(p) ==
  LET r == FaParse(p) IN
  << H(EOFERR, "a", "res,info", "read_info", SOI \o FaSof(p)) >>
  \o IF r.errs # {} \/ ~FaPick(p) THEN <<>>
     ELSE << H(EOFERR, "a", "res,px", "set_ct RGB;decode", SeqStream(<<>>, FaSof(p), Each(3), Q8, DcT, AcTiny, FaBlk)) >>
(* integral ratios, stated directly *)
factors_T(p) ==
  LET r == FaParse(p)
      hs == {p.a[1], p.b[1], p.c[1]}   vs == {p.a[2], p.b[2], p.c[2]}
      integral(s) == LET m == CHOOSE m \in s : \A x \in s : x <= m IN \A x \in s : m % x = 0
  IN /\ (integral(hs) /\ integral(vs) => r.errs = {} /\ r.opt = {})
     /\ (r.errs = {} /\ r.opt = {} /\ p.d[1] > 1 /\ p.d[2] > 1 => integral(hs) /\ integral(vs))

-----------------------------------------------------------------------------
(* colour: identifiers, markers and explicit choices.                      *)
CoIds3 == { <<1, 2, 3>>, <<1, 34, 35>>, <<82, 71, 66>>, <<114, 103, 98>>, <<0, 1, 2>>, <<3, 2, 1>>, <<82, 71, 98>>, <<66, 71, 82>>, <<1, 34, 3>> }
CoIds4 == { <<1, 2, 3, 4>>, <<67, 77, 89, 75>>, <<82, 71, 66, 65>>, <<1, 34, 35, 36>> }
CoIds == CoIds3 \cup CoIds4 \cup { <<1>>, <<82>>, <<34>> }
CoUser == {"auto", "None", "Grayscale", "RGB", "YCbCr", "CMYK", "YCCK", "JcsBgYcc", "JcsBgRgb", "Unknown"}
colour_Plans == [ids : CoIds, jfif : {0, 1}, adobe : {-1, 0, 1, 2}, user : CoUser, place : IF Quick THEN {1, 3} ELSE 1..3]
CoSof(p) == Sof(192, 8, 9, 8, [i \in 1..Len(p.ids) |-> <<p.ids[i], 1, 1, 0>>])
CoBlk(c, by, bx) == Zz(0 :> << <<-60, 90>>, <<25, -110>>, <<100, 3>>, <<-15, 127>> >>[c][bx])
CoMeta(p) == (IF p.jfif = 1 THEN Jfif ELSE <<>>) \o (IF p.adobe >= 0 THEN Adobe(p.adobe) ELSE <<>>)
CoB(p) ==
  LET n == Len(p.ids)   b == SeqStream(<<>>, CoSof(p), One(n), Q8, DcT, AcTiny, CoBlk)
      m == CoMeta(p)
  IN CASE p.place = 1 -> SOI \o m \o SubSeq(b, 3, Len(b))                       \* before everything
       [] p.place = 2 -> SubSeq(b, 1, Len(b) - 2) \o m \o EOI                   \* after the scan
       [] OTHER -> LET s == 2 + Len(Dqt8(0, Q8)) + Len(CoSof(p))                \* JFIF after, Adobe before the frame
                   IN SOI \o (IF p.adobe >= 0 THEN Adobe(p.adobe) ELSE <<>>) \o SubSeq(b, 3, s)
                      \o (IF p.jfif = 1 THEN Jfif ELSE <<>>) \o SubSeq(b, s + 1, Len(b))
colour_H(p) == << H(EOFERR, "a", "res,px,info", (IF p.user = "auto" THEN "" ELSE "set_ct " \o p.user \o ";") \o "decode", CoB(p)) >>
(* the documented precedence, read off as a table *)
CoWant(p) ==
  LET n == Len(p.ids) IN
  IF n = 1 THEN "L"
  ELSE IF p.user # "auto"
  THEN CASE p.user = "None" -> "N"
         [] p.user \in {"RGB", "YCbCr"} -> IF n = 3 THEN p.user ELSE "E"
         [] p.user \in {"CMYK", "YCCK"} -> IF n = 4 THEN p.user ELSE "E"
         [] OTHER -> "E"
  ELSE IF n = 4 THEN (CASE p.adobe = 1 -> "E" [] p.adobe = 2 -> "YCCK" [] OTHER -> "CMYK")
  ELSE IF p.ids = <<1, 2, 3>> THEN "YCbCr"
  ELSE IF p.ids = <<82, 71, 66>> THEN "RGB"
  ELSE IF p.ids \in {<<1, 34, 35>>, <<114, 103, 98>>} THEN "E"
  ELSE IF p.jfif = 1 THEN "YCbCr"
  ELSE CASE p.adobe = 0 -> "RGB" [] p.adobe = 2 -> "E" [] OTHER -> "YCbCr"
colour_T(p) ==
  LET b == CoB(p)
      d0 == [NewDecoder EXCEPT !.ct = p.user]
      r == RunOp(MkStream(b, Len(b), EOFERR), d0, "decode")
      ct == ChooseTransform(p.user, r.d.fr.comps, r.d.jfif, r.d.adobe)
      w == CoWant(p)
  IN IF w = "E" THEN ~OkRun(r) ELSE OkRun(r) /\ (w \notin {"L", "N"} => ct = w)

(* ycc: uniform blocks; all pairs (Y, Cr) and (Y, Cb) (thorough), or every *)
(* fourth of each                                                          *)
YcStep == IF Quick THEN 5 ELSE 1
ycc_Plans == [y : { y \in 0..255 : y % YcStep = 0 \/ y \in {1, 254, 255} }, part : 0..3, N : {2}, ct : {"YCbCr"}]
             \cup [y : {0, 1, 100, 127, 128, 200, 254, 255}, part : 0..3, N : {8}, ct : {"YCbCr", "RGB"}]
             \cup [y : { y \in 0..255 : y % (YcStep * 8) = 0 \/ y \in {255} }, part : 0..3, N : {2}, ct : {"YCCK", "CMYK"}]
YcSof(p) == LET n == IF p.ct \in {"YCCK", "CMYK"} THEN 4 ELSE 3 IN
            Sof(192, 8, 64 * 8, 8, [i \in 1..n |-> <<10 + i, 1, 1, 0>>])
YcVal(p, c, bx) == LET cr == p.part * 64 + bx - 1 IN
                   CASE c = 1 -> p.y [] c = 3 -> cr [] c = 4 -> (cr * 7 + p.y) % 256
                     [] OTHER -> (cr * 77 + p.y * 13 + 40) % 256
YcBlk(p, c, bx) == Zz(0 :> YcVal(p, c, bx) - 128)
YcB(p) == LET Blk(c, by, bx) == YcBlk(p, c, bx)   sof == YcSof(p)
          IN SeqStream(IF p.ct = "YCCK" THEN Adobe(2) ELSE IF p.ct = "RGB" THEN Adobe(0) ELSE <<>>,
                       sof, One(FrameOf(sof).nc), Q8, DcT, AcTiny, Blk)
ycc_H(p) == << H(EOFERR, "a", "res,px,cfg", "scale " \o Txt(64 * p.N) \o " 1;decode", YcB(p)) >>
(* over the colour formulas: grey stays grey, they grow with Y, and the    *)
(* nominal value is the real-valued formula rounded, within 1/8            *)
ycc_T(p) ==
  \A bx \in 1..64 :
    LET y == p.y   cb == YcVal(p, 2, bx)   cr == YcVal(p, 3, bx) IN
    /\ YccR(y, 128) = y /\ YccG(y, 128, 128) = y /\ YccB(y, 128) = y
    /\ YccR(y, cr) \in 0..255 /\ YccG(y, cb, cr) \in 0..255 /\ YccB(y, cb) \in 0..255
    /\ (y < 255 => YccR(y, cr) <= YccR(y + 1, cr) /\ YccG(y, cb, cr) <= YccG(y + 1, cb, cr) /\ YccB(y, cb) <= YccB(y + 1, cb))
    /\ LET e == 10000 * y + 14020 * (cr - 128) IN
       (e \in 0..2550000) => Abs(10000 * YccR(y, cr) - e) <= 5050
    /\ LET e == 10000 * y + 17720 * (cb - 128) IN
       (e \in 0..2550000) => Abs(10000 * YccB(y, cb) - e) <= 5050
    /\ LET e == 1000000 * y - 344136 * (cb - 128) - 714136 * (cr - 128) IN
       (e \in 0..255000000) => Abs(1000000 * YccG(y, cb, cr) - e) <= 505000

-----------------------------------------------------------------------------
(* limits: buffer limits around the size of the picture.                   *)
LiKinds == << <<192, 8, 1>>, <<192, 8, 3>>, <<192, 8, 4>>, <<194, 8, 1>>, <<194, 8, 3>>, <<195, 8, 1>>, <<195, 16, 1>>, <<195, 9, 1>>, <<195, 8, 3>> >>
LiDims == IF Quick THEN { <<1, 1>>, <<9, 17>>, <<8, 3>> } ELSE { <<1, 1>>, <<9, 17>>, <<8, 3>>, <<16, 16>>, <<33, 1>>, <<5, 40>> }
limits_Plans == [k : 1..Len(LiKinds), d : LiDims, N : {1, 2, 4, 8}, seq : 1..4]
LiSof(p) == LET k == LiKinds[p.k] IN
            IF k[1] = 195 THEN LossFrame(k[2], p.d[1], p.d[2], k[3])
            ELSE Sof(k[1], 8, p.d[1], p.d[2], [i \in 1..k[3] |-> <<Names(k[3])[i], 1, 1, 0>>])
LossImg(fr) == [c \in 1..fr.nc |-> TLCEval([y \in 1..fr.H |-> TLCEval([x \in 1..fr.W |-> Hash(c, x, y) % Pow2(fr.prec)])])]
LossStream(sof, ss, al) == LET fr == FrameOf(sof) IN
  SOI \o sof \o Dht(0, 0, LossT) \o LScan(fr, TLCEval(LossImg(fr)), Range2(1, fr.nc), ss, al, 0) \o EOI
LiB(p) == LET k == LiKinds[p.k] IN
          CASE k[1] = 195 -> LossStream(LiSof(p), 1, 0)
            [] k[1] = 194 -> ProgStream(LiSof(p), Q8, FaBlk)
            [] OTHER -> SeqStream(<<>>, LiSof(p), One(k[3]), Q8, DcT, AcTiny, FaBlk)
LiSize(p) == LET k == LiKinds[p.k]
                 fr == FrameOf(LiSof(p))
                 N == ScaleFactor(fr, CeilDiv(p.d[1] * p.N, 8), CeilDiv(p.d[2] * p.N, 8))
             IN CeilDiv(p.d[1] * N, 8) * CeilDiv(p.d[2] * N, 8) * k[3] * (IF k[1] = 195 /\ k[2] > 8 THEN 2 ELSE 1)
LiCalls(p, n) == LET sc == ScaleTo(p.d[1], p.d[2], p.N)   li == "set_limit " \o Txt(n) IN
  CASE p.seq = 1 -> li \o ";" \o sc \o ";decode"
    [] p.seq = 2 -> sc \o ";" \o li \o ";decode"
    [] p.seq = 3 -> "set_limit 0;" \o sc \o ";" \o li \o ";decode"
    [] OTHER -> li \o ";read_info;info;" \o sc \o ";decode"
LiVals(s) == { n \in {0, s - 1, s, s + 1, 2 * s, CeilDiv(s, 2)} : n >= 0 }
limits_H(p) == LET b == LiB(p)   vs == SetToSeq(LiVals(LiSize(p))) IN
               [i \in 1..Len(vs) |-> H(EOFERR, "a", "res,size", LiCalls(p, vs[i]), b)]
limits_T(p) ==
  LET b == LiB(p)   fr == FrameOf(LiSof(p))
      N == ScaleFactor(fr, CeilDiv(p.d[1] * p.N, 8), CeilDiv(p.d[2] * p.N, 8))
      st == MkStream(b, Len(b), EOFERR)
  IN \A n \in LiVals(LiSize(p)) :
       LET r0 == RunOp(st, NewDecoder, "read_info")
           r == RunOp(st, [r0.d EXCEPT !.N = N, !.limit = n], "decode")
       IN OkRun(r) <=> n >= LiSize(p)

-----------------------------------------------------------------------------
(* kinds: every process, number of components and precision, and what the  *)
(* metadata say.                                                           *)
kinds_Plans ==
  [m : {192, 193, 194}, prec : {8}, n : {1, 3, 4}, d : {<<1, 1>>, <<7, 9>>, <<17, 8>>, <<8, 16>>}, each : {FALSE, TRUE}, al : {0}, ss : {0}]
  \cup [m : {195}, prec : 2..16, n : {1, 3, 4}, d : {<<1, 1>>, <<4, 3>>}, each : {FALSE, TRUE}, al : {0, 1}, ss : IF Quick THEN {1, 7} ELSE 1..7]
KiSof(p) == IF p.m = 195 THEN LossFrame(p.prec, p.d[1], p.d[2], p.n)
            ELSE Sof(p.m, 8, p.d[1], p.d[2], [i \in 1..p.n |-> <<Names(p.n)[i], IF i = 1 THEN 2 ELSE 1, 1, 0>>])
KiB(p) ==
  LET sof == KiSof(p)   fr == FrameOf(sof) IN
  CASE p.m = 195 -> LET img == TLCEval(LossImg(fr)) IN
         SOI \o sof \o Dht(0, 0, LossT)
         \o (IF p.each THEN FlattenSeq([c \in 1..p.n |-> LScan(fr, img, <<c>>, p.ss, p.al, 0)])
             ELSE LScan(fr, img, Range2(1, p.n), p.ss, p.al, 0)) \o EOI
    [] p.m = 194 -> ProgStream(sof, QRamp(2, 5), SdBlk)
    [] OTHER -> SeqStream(IF p.n = 4 THEN Adobe(2) ELSE <<>>, sof, IF p.each THEN Each(p.n) ELSE One(p.n), QRamp(2, 5), DcT, AcOut, SdBlk)
kinds_H(p) == IF p.al >= p.prec THEN <<>>
              ELSE << H(EOFERR, "a", "res,size,info,pos,px", "info;read_info;info;decode;info", KiB(p)) >>
kinds_T(p) == p.al < p.prec =>
  LET r == RunDecode(KiB(p)) IN
  OkRun(r) /\ r.d.pos = Len(KiB(p))
  /\ (p.m = 195 => \A c \in 1..p.n : LET im == LossImg(r.d.fr) IN
         \A y \in 1..p.d[2], x \in 1..p.d[1] : r.c.planes[c].rows[y][x] = im[c][y][x] \div Pow2(p.al))

-----------------------------------------------------------------------------
(* api: every sequence of calls up to a length on various streams.         *)
ApOps == << "read_info", "info", "decode", "scale 1 1", "scale 500 500", "set_ct RGB", "set_ct None", "set_limit 1", "set_limit 100000" >>
ApLen == IF Quick THEN 3 ELSE 4
ApHead(b) == SubSeq(b, 1, Len(b) - 12)
ApStreams == LET bs == [k \in 1..Len(Bases) |-> Cat_(Bases[k])] IN
             bs \o << ApHead(bs[2]), ApHead(bs[3]), bs[2] \o bs[1], bs[1] \o EOI, SubSeq(bs[2], 1, 6), <<>>, SOI \o EOI, bs[5] \o SubSeq(bs[5], 3, Len(bs[5])) >>
api_Plans == [b : IF Quick THEN 1..8 ELSE 1..Len(ApStreams), s : UNION { [1..n -> 1..Len(ApOps)] : n \in {ApLen} }]
(* the last call should tell us something *)
ApKeep(p) == p.s[ApLen] \in {1, 2, 3, 4}
api_H(p) == IF ~ApKeep(p) THEN <<>>
            ELSE << H(EOFERR, "a", "res,info,pos,size,px", JoinCalls([k \in 1..Len(p.s) |-> ApOps[p.s[k]]]), ApStreams[p.b]) >>
(* read_info is idempotent and decode does not depend on whether the       *)
(* metadata were read before                                               *)
api_T(p) ==
  (p.s = [k \in 1..ApLen |-> 3]) =>
  LET b == ApStreams[p.b]   st == MkStream(b, Len(b), EOFERR)
      r1 == RunOp(st, NewDecoder, "read_info")
      r2 == RunOp(st, r1.d, "read_info")
      a == RunOp(st, NewDecoder, "decode")
      c == RunOp(st, r1.d, "decode")
  IN /\ OkRun(r1) => r2.d = r1.d /\ OkRun(r2)
     /\ OkRun(r1) => /\ c.c.errs = a.c.errs /\ c.c.wild = a.c.wild /\ c.c.planes = a.c.planes
                     /\ (OkRun(a) => c.d = a.d)
     /\ ~OkRun(r1) => ~OkRun(a)

-----------------------------------------------------------------------------
(* idct: single coefficients and pairs in every position, at every scale;  *)
(* and widths and heights.                                                 *)
IdAmps == IF Quick THEN {1, -3, 40, -120} ELSE {1, -1, 2, -3, 7, 25, -40, 80, -120, 127}
idct_Plans == [k : {"one"}, a : IdAmps, N : {1, 2, 4, 8}, q : {1, 10}]
              \cup [k : {"two"}, a : IF Quick THEN {0, 5} ELSE 0..12, N : {1, 2, 4, 8}, q : {6}]
              \cup [k : {"wide"}, a : 1..(IF Quick THEN 41 ELSE 140), N : IF Quick THEN {8} ELSE {1, 2, 4, 8}, q : {6}]
IdT == Flat(8, <<0, 240>> \o FlattenSeq([r \in 1..16 |-> [s \in 1..8 |-> 16 * (r - 1) + s]]))
IdBlk(p, by, bx) ==
  CASE p.k = "one" -> Zz(((by - 1) * 8 + bx - 1) :> p.a)
    [] p.k = "two" -> LET i == (by - 1) * 8 + bx - 1   j == (i + 1 + p.a * 5) % 64 IN
                      Zz((i :> 23 - p.a) @@ (j :> -17 - p.a) @@ (0 :> 9))
    [] OTHER -> Zz((0 :> (Hash(by, bx, p.a) % 101) - 50) @@ (1 :> 3) @@ (2 :> -4) @@ (7 :> Hash(by, bx, 3) % 4))
IdDim(p) == IF p.k = "wide" THEN <<p.a, 1 + (p.a % 17)>> ELSE <<64, 64>>
IdB(p) == LET Blk(c, by, bx) == IdBlk(p, by, bx)
              d == IdDim(p) IN
          SeqStream(<<>>, Gray(193, d[1], d[2]), One(1), Const64(p.q), DcT, IdT, Blk)
idct_H(p) == << H(EOFERR, "a", "res,px,cfg", ScaleTo(IdDim(p)[1], IdDim(p)[2], p.N) \o ";decode", IdB(p)) >>
idct_T(p) == LET b == IdB(p) IN OkRun(RunDecode(b))

-----------------------------------------------------------------------------
(* wide: outputs wide enough for the parallel workers, at every scale.     *)
WiFacs == << <<<<1, 1>>>>, <<<<1, 1>>, <<1, 1>>, <<1, 1>>>>, <<<<2, 2>>, <<1, 1>>, <<1, 1>>>>, <<<<1, 2>>, <<1, 1>>, <<1, 1>>>>,
             <<<<1, 1>>, <<1, 2>>, <<2, 1>>>>, <<<<2, 1>>, <<1, 1>>, <<1, 1>>, <<2, 1>>>> >>
wide_Plans == [f : 1..Len(WiFacs), N : {1, 2, 4, 8}, g : {"one", "each", "prog", "mixed"}, w : IF Quick THEN {129} ELSE {128, 129, 160}]
WiW(p) == CeilDiv((p.w - 1) * 8, p.N) + 1
WiH(p) == IF p.N = 8 THEN 19 ELSE IF p.N = 4 THEN 35 ELSE 51
WiSof(p) == LET f == WiFacs[p.f] IN
            Sof(IF p.g = "prog" THEN 194 ELSE 192, 8, WiW(p), WiH(p), [i \in 1..Len(f) |-> <<Names(Len(f))[i], f[i][1], f[i][2], 0>>])
WiBlk(c, by, bx) == Zz((0 :> (Hash(c, by, bx) % 101) - 50) @@ (IF (bx + by) % 4 = 0 THEN (1 :> 1) ELSE (0 :> (Hash(c, by, bx) % 101) - 50)))
WiB(p) == LET n == Len(WiFacs[p.f]) IN
          IF p.g = "prog" THEN ProgStream(WiSof(p), Q8, WiBlk)
          ELSE SeqStream(<<>>, WiSof(p), CASE p.g = "one" -> One(n) [] p.g = "mixed" /\ n > 2 -> << <<2>>, SelectSeq(Range2(1, n), LAMBDA x : x # 2) >> [] OTHER -> Each(n),
                         Q8, DcT, AcTiny, WiBlk)
wide_H(p) == << H(EOFERR, "a", "res,info,px,cfg", ScaleTo(WiW(p), WiH(p), p.N) \o ";decode", WiB(p)) >>
wide_T(p) == OkRun(RunDecode(WiB(p)))

-----------------------------------------------------------------------------
(* eobrun: long end-of-band runs, in first and in refinement scans.        *)
EoDims == << <<60, 5>>, <<64, 9>>, <<128, 9>>, <<128, 36>> >> \o (IF Quick THEN <<>> ELSE << <<256, 64>>, <<256, 131>> >>)
EoZs(nb) == << <<>>, <<1>>, <<nb>>, <<1, nb>>, <<2, 258>>, <<10, 200, nb - 3>>, <<1, 2, 3, nb - 256, nb - 1>> >>
eobrun_Plans == [d : 1..Len(EoDims), z : 1..7, ref : {FALSE, TRUE}]
EoNb(p) == EoDims[p.d][1] * EoDims[p.d][2]
EoZ(p) == EoZs(EoNb(p))[p.z]
EoBlk(p, b) == Zz((1 :> IF b % 2 = 0 THEN 5 ELSE -6) @@ (9 :> IF b % 3 = 0 THEN 1 ELSE 0) @@ (2 :> IF b % 4 = 1 THEN -1 ELSE 0) @@ (30 :> 2))
EoT == AcOut
RECURSIVE EoRun(_)
EoRun(n) == IF n > 32767 THEN EobBits(32767, EoT) \o EoRun(n - 32767) ELSE EobBits(n, EoT)
(* gaps: the number of empty blocks before the k-th block with coefficients *)
EoGap(z, k) == IF k = 1 THEN z[1] - 1 ELSE z[k] - z[k - 1] - 1
EoFirst(p, al) ==
  LET z == EoZ(p)   nb == EoNb(p)
      f == FoldLeft(LAMBDA s, k :
             LET a == AcBand(EoBlk(p, z[k]), 1, 63, al, EoT) IN
             [bits |-> s.bits \o EoRun(s.run + EoGap(z, k)) \o a.bits, run |-> 1],
             [bits |-> <<>>, run |-> 0], Range2(1, Len(z)))
  IN f.bits \o EoRun(f.run + (IF z = <<>> THEN nb ELSE nb - z[Len(z)]))
(* runs in refinement scans fit one symbol here, but for the empty image   *)
EoRef(p) ==
  LET z == EoZ(p)   nb == EoNb(p)
      split(s) == IF s.run <= 32767 THEN s
                  ELSE [s EXCEPT !.bits = @ \o EobBits(32767, EoT) \o s.pend, !.pend = <<>>, !.run = @ - 32767]
      f == FoldLeft(LAMBDA s, k : RefBand(EoBlk(p, z[k]), 1, 63, 0, EoT, 0, split([s EXCEPT !.run = @ + EoGap(z, k)])),
                    [bits |-> <<>>, run |-> 0, pend |-> <<>>], Range2(1, Len(z)))
      e == split([f EXCEPT !.run = @ + (IF z = <<>> THEN nb ELSE nb - z[Len(z)])])
  IN e.bits \o EobBits(e.run, EoT) \o e.pend
EoB(p) == SOI \o Dqt8(0, Const64(9)) \o Gray(194, 8 * EoDims[p.d][1], 8 * EoDims[p.d][2]) \o Dht(1, 1, EoT)
          \o (IF p.ref THEN Sos(<<<<1, 0, 1>>>>, 1, 63, 0, 1) \o Pack(EoFirst(p, 1)) \o Sos(<<<<1, 0, 1>>>>, 1, 63, 1, 0) \o Pack(EoRef(p))
              ELSE Sos(<<<<1, 0, 1>>>>, 1, 63, 0, 0) \o Pack(EoFirst(p, 0)))
          \o EOI
eobrun_H(p) == << H(EOFERR, "a", "res,px", ScaleTo(8 * EoDims[p.d][1], 8 * EoDims[p.d][2], 2) \o ";decode", EoB(p)) >>
eobrun_T(p) ==
  LET r == RunDecode(EoB(p))   w == EoDims[p.d][1]   z == EoZ(p)
      at(b) == r.c.planes[1].rows[((b - 1) \div w) + 1][((b - 1) % w) + 1]
  IN /\ OkRun(r)
     /\ \A k \in 1..Len(z) : at(z[k]) = Natural(EoBlk(p, z[k]))
     /\ \A b \in 1..EoNb(p) : (at(b) = ZeroBlock) <=> (b \notin Range(z))
=============================================================================

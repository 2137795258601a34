----------------------------- MODULE JpegEncode -----------------------------
(***************************************************************************)
(* An encoder, written as the inverse of the decoding procedures: what a   *)
(* well-formed stream carrying given coefficients or samples looks like.   *)
(* It is the source of the streams of the bounded models (JpegGen); that   *)
(* JpegDecoder recovers what JpegEncode put in is checked there by TLC.    *)
(***************************************************************************)
EXTENDS JpegDecoder

U16b(x) == <<x \div 256, x % 256>>
Seg(m, p) == <<255, m>> \o U16b(Len(p) + 2) \o p
SOI == <<255, mSOI>>
EOI == <<255, mEOI>>
RST(k) == <<255, 208 + (k % 8)>>

Const64(v) == [i \in 1..64 |-> v]
Dqt8(tq, q)  == Seg(mDQT, <<tq>> \o q)
Dqt16(tq, q) == Seg(mDQT, <<16 + tq>> \o FlattenSeq([i \in 1..64 |-> U16b(q[i])]))
DhtBody(cls, th, t) == <<16 * cls + th>> \o t.counts \o t.vals
Dht(cls, th, t) == Seg(mDHT, DhtBody(cls, th, t))
Dri(n) == Seg(mDRI, U16b(n))
Com(d) == Seg(mCOM, d)
(* comps: sequence of <<id, h, v, tq>>                                     *)
Sof(m, prec, W, H, comps) ==
  Seg(m, <<prec>> \o U16b(H) \o U16b(W) \o <<Len(comps)>>
         \o FlattenSeq([i \in 1..Len(comps) |->
               <<comps[i][1], 16 * comps[i][2] + comps[i][3], comps[i][4]>>]))
(* sel: sequence of <<component id, td, ta>>                               *)
Sos(sel, ss, se, ah, al) ==
  Seg(mSOS, <<Len(sel)>> \o FlattenSeq([i \in 1..Len(sel) |-> <<sel[i][1], 16 * sel[i][2] + sel[i][3]>>])
            \o <<ss, se, 16 * ah + al>>)
Jfif == Seg(224, sJFIF \o <<1, 1, 0, 0, 1, 0, 1, 0, 0>>)
Avi1 == Seg(224, sAVI1 \o <<0, 0, 0, 0, 0, 0, 0, 0>>)
Adobe(t) == Seg(238, sAdobe \o <<100, 0, 0, 0, 0>> \o <<t>>)
Exif(d) == Seg(225, sExif \o d)
Xmp(d)  == Seg(225, sXmp \o d)
Icc(k, n, d) == Seg(226, sIcc \o <<k, n>> \o d)

-----------------------------------------------------------------------------
(* Bits.                                                                   *)
NBits(v, n) == [i \in 1..n |-> (v \div Pow2(n - i)) % 2]
Cat(v) == IF v = 0 THEN 0 ELSE CHOOSE s \in 1..16 : Pow2(s - 1) <= Abs(v) /\ Abs(v) < Pow2(s)
Mag(v, s) == IF s = 0 THEN <<>> ELSE NBits(IF v < 0 THEN v + Pow2(s) - 1 ELSE v, s)

(* bytes of a bit string, padded with pad bits and stuffed                 *)
PackPad(bits0, pad) ==
  LET bits == TLCEval(bits0)
      n == CeilDiv(Len(bits), 8)
      bit(i) == IF i <= Len(bits) THEN bits[i] ELSE pad
      byte(k) == FoldLeft(LAMBDA a, i : 2 * a + bit(8 * (k - 1) + i), 0, <<1, 2, 3, 4, 5, 6, 7, 8>>)
  IN FlattenSeq([k \in 1..n |-> LET b == byte(k) IN IF b = 255 THEN <<255, 0>> ELSE <<b>>])
Pack(bits) == PackPad(bits, 1)

-----------------------------------------------------------------------------
(* Tables: [counts, vals, code: symbol -> <<length, code>>].               *)
HT(counts, vals) ==
  LET ci == CodeInfo(counts)
      cs == TLCEval(FlattenSeq([l \in 1..16 |-> [i \in 1..counts[l] |-> <<l, ci.first[l] + i - 1>>]]))
  IN [counts |-> counts, vals |-> vals,
      code |-> TLCEval([v \in { vals[i] : i \in 1..Len(vals) } |->
                          cs[CHOOSE i \in 1..Len(vals) : vals[i] = v]])]
(* all codewords of one length *)
Flat(l, vals) == HT([k \in 1..16 |-> IF k = l THEN Len(vals) ELSE 0], vals)
Sym(t, s) == LET c == t.code[s] IN TLCEval(NBits(c[2], c[1]))

DcT == Flat(4, <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11>>)

-----------------------------------------------------------------------------
(* Blocks are given in zig-zag order, 64 values.                           *)
Zz(f) == [k \in 1..64 |-> IF k - 1 \in DOMAIN f THEN f[k - 1] ELSE 0]
Natural(zz) == [j \in 1..64 |-> zz[CHOOSE k \in 1..64 : ZigZag[k] = j - 1]]
(* point transforms: arithmetic shift for DC, truncation for AC            *)
PtDc(v, al) == v \div Pow2(al)
PtAc(v, al) == IF v < 0 THEN -((-v) \div Pow2(al)) ELSE v \div Pow2(al)

(* one band of AC coefficients; [bits, run]: run = trailing zeros          *)
AcBand(zz, ss, se, al, t) ==
  FoldLeft(LAMBDA a, k :
     LET v == PtAc(zz[k + 1], al) IN
     IF v = 0 THEN [a EXCEPT !.run = @ + 1]
     ELSE [bits |-> a.bits \o FlattenSeq([z \in 1..(a.run \div 16) |-> Sym(t, 240)])
                    \o Sym(t, 16 * (a.run % 16) + Cat(v)) \o Mag(v, Cat(v)),
           run |-> 0],
     [bits |-> <<>>, run |-> 0], Range2(ss, se))

Log2(n) == CHOOSE r \in 0..15 : Pow2(r) <= n /\ n < Pow2(r + 1)
EobBits(run, t) == IF run = 0 THEN <<>>
                   ELSE LET r == Log2(run) IN Sym(t, 16 * r) \o NBits(run - Pow2(r), r)

(* AC refinement of one block, after T.81 G.1.2.3 and Figure G.7.          *)
RefBand(zz, ss, se, al, t, maxrun, s0) ==
  LET a(k) == Abs(zz[k + 1]) \div Pow2(al)
      news == { k \in ss..se : a(k) = 1 }
      last == IF news = {} THEN 0 ELSE CHOOSE k \in news : \A j \in news : j <= k
      flush(s) == [s EXCEPT !.bits = @ \o EobBits(s.run, t) \o s.pend, !.run = 0, !.pend = <<>>]
      zrl(s) == LET f == flush(s) IN [f EXCEPT !.bits = @ \o Sym(t, 240) \o f.br, !.br = <<>>, !.r = @ - 16]
      zrls(s, k) == IF k > last THEN s
                    ELSE FoldLeft(LAMBDA x, i : zrl(x), s, Range2(1, s.r \div 16))
      one(s, k) ==
        IF a(k) = 0 THEN [s EXCEPT !.r = @ + 1]
        ELSE LET z == zrls(s, k) IN
             IF a(k) > 1 THEN [z EXCEPT !.br = Append(@, a(k) % 2)]
             ELSE LET f == flush(z)
                  IN [f EXCEPT !.bits = @ \o Sym(t, 16 * f.r + 1) \o <<IF zz[k + 1] > 0 THEN 1 ELSE 0>> \o f.br,
                               !.br = <<>>, !.r = 0]
      e == FoldLeft(one, [r |-> 0, br |-> <<>>] @@ s0, Range2(ss, se))
      f == IF e.r > 0 \/ e.br # <<>>
           THEN [bits |-> e.bits, run |-> e.run + 1, pend |-> e.pend \o e.br]
           ELSE [bits |-> e.bits, run |-> e.run, pend |-> e.pend]
  IN IF f.run = maxrun THEN [bits |-> f.bits \o EobBits(f.run, t) \o f.pend, run |-> 0, pend |-> <<>>] ELSE f

-----------------------------------------------------------------------------
(* Scans.  fr: a frame as ParseSOF yields it; sc: [sel: sequence of        *)
(* component indices, ss, se, ah, al]; img[c][by][bx]: blocks.             *)
FrameOf(sof) == ParseSOF(MkStream(sof, Len(sof), EOFERR), 2, sof[2]).v

McuUnits(fr, sel) ==
  LET inter == Len(sel) > 1
      c1 == sel[1]
      nx == IF inter THEN fr.mcuw ELSE OwnBw(fr, c1)
      ny == IF inter THEN fr.mcuh ELSE OwnBh(fr, c1)
      hh(i) == IF inter THEN fr.comps[sel[i]].h ELSE 1
      vv(i) == IF inter THEN fr.comps[sel[i]].v ELSE 1
  IN TLCEval([m \in 1..(nx * ny) |->
        LET x == (m - 1) % nx   y == (m - 1) \div nx IN
        FlattenSeq([i \in 1..Len(sel) |-> FlattenSeq([v \in 1..vv(i) |-> [h \in 1..hh(i) |->
           [i |-> i, c |-> sel[i], by |-> y * vv(i) + v, bx |-> x * hh(i) + h]]])])])

(* entropy-coded bits of a list of units (one restart interval)            *)
IntervalBits(fr, img, sc, units, dt, at, maxrun) ==
  LET blk(u) == img[u.c][u.by][u.bx]
      prog == fr.proc = "prog"
      seqU(s, u) ==      \* DC, and in sequential frames AC
        LET v == PtDc(blk(u)[1], sc.al)
            d == v - s.preds[u.i]
            ac == AcBand(blk(u), 1, 63, 0, at[u.i])
        IN [bits |-> s.bits \o Sym(dt[u.i], Cat(d)) \o Mag(d, Cat(d))
                      \o (IF prog THEN <<>> ELSE ac.bits \o (IF ac.run > 0 THEN Sym(at[u.i], 0) ELSE <<>>)),
            preds |-> [s.preds EXCEPT ![u.i] = v]]
      acU(s, u) ==
        LET r == AcBand(blk(u), sc.ss, sc.se, sc.al, at[1])
            pre == IF r.bits = <<>> THEN s ELSE [bits |-> s.bits \o EobBits(s.run, at[1]) \o r.bits, run |-> 0]
            e == IF r.run > 0 THEN [pre EXCEPT !.run = @ + 1] ELSE pre
        IN IF e.run = maxrun THEN [bits |-> e.bits \o EobBits(e.run, at[1]), run |-> 0] ELSE e
      refU(s, u) == RefBand(blk(u), sc.ss, sc.se, sc.al, at[1], maxrun, s)
  IN IF sc.ss = 0 /\ sc.ah = 0
     THEN FoldLeft(seqU, [bits |-> <<>>, preds |-> [i \in 1..Len(sc.sel) |-> 0]], units).bits
     ELSE IF sc.ss = 0
     THEN [k \in 1..Len(units) |-> PtDc(blk(units[k])[1], sc.al) % 2]
     ELSE IF sc.ah = 0
     THEN LET e == FoldLeft(acU, [bits |-> <<>>, run |-> 0], units) IN e.bits \o EobBits(e.run, at[1])
     ELSE LET e == FoldLeft(refU, [bits |-> <<>>, run |-> 0, pend |-> <<>>], units)
          IN e.bits \o EobBits(e.run, at[1]) \o e.pend

(* the data of each restart interval, packed *)
Intervals(fr, img, sc, ri, dt, at, maxrun) ==
  LET mcus == TLCEval(McuUnits(fr, sc.sel))
      n == Len(mcus)
      per == IF ri = 0 THEN n ELSE ri
  IN TLCEval([k \in 1..CeilDiv(n, per) |->
        Pack(IntervalBits(fr, img, sc, FlattenSeq(SubSeq(mcus, (k - 1) * per + 1, Min2(k * per, n))), dt, at, maxrun))])

(* joined by restart markers *)
Join_(parts0) == LET parts == TLCEval(parts0) IN
                 FlattenSeq([k \in 1..Len(parts) |-> IF k = 1 THEN parts[k] ELSE RST(k - 2) \o parts[k]])

-----------------------------------------------------------------------------
(* Lossless.  smp[c][y][x]: samples; the point transform drops al bits.    *)
LosslessIntervals(fr, smp, sel, ss, al, ri, dt) ==
  LET half == Pow2(fr.prec - al - 1)
      val(c, x, y) == smp[c][y][x] \div Pow2(al)
      perLine == IF ri = 0 THEN fr.H ELSE ri \div fr.W
      first(y) == (y - 1) % perLine = 0
      pred(c, x, y) ==
        IF first(y) THEN IF x = 1 THEN half ELSE val(c, x - 1, y)
        ELSE IF x = 1 THEN val(c, 1, y - 1)
        ELSE Predict(ss, val(c, x - 1, y), val(c, x, y - 1), val(c, x - 1, y - 1))
      diff(c, x, y) == LET m == (val(c, x, y) - pred(c, x, y)) % 65536
                       IN IF m > 32768 THEN m - 65536 ELSE m
      enc(i, x, y) == LET d == diff(sel[i], x, y)
                          s == IF d = 32768 THEN 16 ELSE Cat(d)
                      IN Sym(dt[i], s) \o (IF s = 16 THEN <<>> ELSE Mag(d, s))
      line(y) == FlattenSeq([x \in 1..fr.W |-> FlattenSeq([i \in 1..Len(sel) |-> enc(i, x, y)])])
  IN TLCEval([k \in 1..CeilDiv(fr.H, perLine) |->
        Pack(FlattenSeq([j \in 1..Min2(perLine, fr.H - (k - 1) * perLine) |-> line((k - 1) * perLine + j)]))])

-----------------------------------------------------------------------------
(* Running the specification itself to the end of a call.                  *)
RECURSIVE RunSteps(_, _, _)
RunSteps(st, d, c) ==
  IF c.pc = "done" THEN [d |-> d, c |-> c]
  ELSE LET r == TLCEval(Step(st, d, c)) IN RunSteps(st, r.d, r.c)
RunOp(st, d, op) == RunSteps(st, d, NewCall(d, op))
RunDecode(b) == RunOp(MkStream(b, Len(b), EOFERR), NewDecoder, "decode")
OkRun(r) == r.c.errs = {} /\ ~r.c.wild
=============================================================================

----------------------------- MODULE JpegDecoder ----------------------------
(***************************************************************************)
(* The decoder as a state machine.                                         *)
(*                                                                         *)
(* d  the decoder object: everything that survives from one API call to    *)
(*    the next.                                                            *)
(* c  the call in progress:                                                *)
(*      pc    "start" -> "seg" (between segments) -> "rows" (inside a      *)
(*            scan, one step per MCU row or lossless line) -> ... ->       *)
(*            "done"                                                       *)
(*      errs  (when done) the error classes the call may return; empty     *)
(*            when it must succeed                                         *)
(*      opt   error classes it may return instead of succeeding            *)
(*      wild  the outcome is not constrained (it must still be one)        *)
(*                                                                         *)
(* One step of the machine consumes one marker segment, one MCU row, or    *)
(* finishes a scan or the image.                                           *)
(***************************************************************************)
EXTENDS JpegPixels

Undef4 == <<NONE, NONE, NONE, NONE>>
ALL64 == 0..63

NewDecoder ==
  [pos |-> 0, fr |-> NONE, N |-> 8, qt |-> Undef4, dc |-> Undef4, ac |-> Undef4,
   ri |-> 0, adobe |-> -1, jfif |-> FALSE, mjpeg |-> FALSE, ct |-> "auto",
   limit |-> -1, icc |-> <<>>, exif |-> NONE, xmp |-> NONE,
   coefs |-> <<>>, fin |-> <<>>, dead |-> FALSE]

NewCall(d, op) ==
  [op |-> op, pc |-> "start", prev |-> mSOI, pend |-> -1, scans |-> 0,
   planes |-> IF IsNone(d.fr) THEN <<>> ELSE [i \in 1..d.fr.nc |-> NONE],
   s |-> NONE, fins |-> <<>>, errs |-> {}, opt |-> {}, wild |-> FALSE]

Done(d, c)       == [d |-> d, c |-> [c EXCEPT !.pc = "done", !.s = NONE]]
Fail(d, c, errs) == [d |-> [d EXCEPT !.dead = TRUE, !.coefs = <<>>],
                     c |-> [c EXCEPT !.pc = "done", !.errs = errs, !.s = NONE, !.planes = <<>>]]
Wild(d, c)       == [d |-> [d EXCEPT !.dead = TRUE, !.coefs = <<>>],
                     c |-> [c EXCEPT !.pc = "done", !.wild = TRUE, !.s = NONE, !.planes = <<>>]]

-----------------------------------------------------------------------------
StartStep(st, d, c) ==
  IF d.dead THEN Wild(d, c)
  ELSE IF c.op = "read_info" /\ ~IsNone(d.fr) THEN Done(d, c)
  ELSE IF ~IsNone(d.fr) THEN [d |-> d, c |-> [c EXCEPT !.pc = "seg"]]
  ELSE LET avail == st.n - d.pos IN
       IF avail >= 2
       THEN IF st.b[d.pos + 1] = 255 /\ st.b[d.pos + 2] = mSOI
            THEN [d |-> [d EXCEPT !.pos = @ + 2], c |-> [c EXCEPT !.pc = "seg"]]
            ELSE Fail(d, c, {FMT})
       ELSE IF avail = 1 /\ st.b[d.pos + 1] # 255 THEN Fail(d, c, {FMT, st.e})
       ELSE Fail(d, c, {st.e})

(* apply a segment whose parse r has no errors *)
Next_(d, c, m, pos) == [d |-> [d EXCEPT !.pos = pos], c |-> [c EXCEPT !.prev = m]]

SofStep(st, d, c, m, p) ==
  LET r == ParseSOF(st, p, m) IN
  IF ~IsNone(d.fr) THEN Fail(d, c, {UNS("Hierarchical")} \cup r.errs)
  ELSE IF r.errs # {} THEN Fail(d, c, r.errs)
  ELSE LET d1 == [d EXCEPT !.pos = r.next, !.fr = r.v,
                           !.fin = [i \in 1..r.v.nc |-> {}]]
           c1 == [c EXCEPT !.prev = m, !.planes = [i \in 1..r.v.nc |-> NONE], !.opt = @ \cup r.opt]
       IN IF c.op = "read_info" THEN Done(d1, c1) ELSE [d |-> d1, c |-> c1]

ZeroCoefs(fr) == [k \in 1..fr.nc |-> [y \in 1..PadBh(fr, k) |-> [x \in 1..PadBw(fr, k) |-> ZeroBlock]]]

SosStep(st, d, c, p) ==
  IF IsNone(d.fr) THEN Fail(d, c, {FMT} \cup ParseSkip(st, p).errs)
  ELSE
  LET fr == d.fr
      r == ParseSOS(st, p, fr)
  IN IF r.errs # {} THEN Fail(d, c, r.errs)
     ELSE
     LET sc == r.v
         dct == fr.proc # "lossless"
         useDc == sc.ss = 0 \/ ~dct
         needDc == useDc /\ (sc.ah = 0 \/ ~dct)
         needAc == dct /\ sc.se > 0
         tds == { sc.sel[i].td : i \in 1..sc.n }
         tas == { sc.sel[i].ta : i \in 1..sc.n }
         \* Motion-JPEG defaults
         dc2 == IF d.mjpeg /\ dct
                THEN [i \in 1..4 |-> IF i <= 2 /\ (i - 1) \in tds /\ IsNone(d.dc[i]) THEN MjpegDc[i] ELSE d.dc[i]]
                ELSE d.dc
         ac2 == IF d.mjpeg /\ dct
                THEN [i \in 1..4 |-> IF i <= 2 /\ (i - 1) \in tas /\ IsNone(d.ac[i]) THEN MjpegAc[i] ELSE d.ac[i]]
                ELSE d.ac
         missing == \/ dct /\ \E i \in 1..sc.n : IsNone(d.qt[fr.comps[sc.sel[i].c].tq + 1])
                    \/ needDc /\ \E t \in tds : IsNone(dc2[t + 1])
                    \/ needAc /\ \E t \in tas : IsNone(ac2[t + 1])
         fin2 == [k \in 1..fr.nc |->
                    IF sc.al = 0 /\ dct /\ \E i \in 1..sc.n : sc.sel[i].c = k
                    THEN d.fin[k] \cup (sc.ss..sc.se) ELSE d.fin[k]]
         \* the selections this scan completes, with the table in force now
         fins == [i \in 1..sc.n |->
                    LET k == sc.sel[i].c IN
                    [now |-> dct /\ d.fin[k] # ALL64 /\ fin2[k] = ALL64,
                     qt |-> IF dct THEN d.qt[fr.comps[k].tq + 1] ELSE NONE]]
         s == StartScan(st, r.next, fr, sc, d.ri,
                        [i \in 1..sc.n |-> dc2[sc.sel[i].td + 1]],
                        [i \in 1..sc.n |-> ac2[sc.sel[i].ta + 1]])
         d1 == [d EXCEPT !.pos = r.next, !.dc = dc2, !.ac = ac2, !.fin = fin2,
                         !.coefs = IF fr.proc = "prog" /\ @ = <<>> THEN ZeroCoefs(fr) ELSE @]
     IN IF missing THEN
            \* a lossless Motion-JPEG stream without tables is nobody's format
            (IF ~dct /\ d.mjpeg THEN Wild(d, c) ELSE Fail(d, c, {FMT}))
        ELSE IF ~dct /\ (sc.ss = 0 \/ (fr.nc > 1 /\ \E k \in 1..fr.nc : fr.comps[k].h # 1 \/ fr.comps[k].v # 1)
                               \/ \E i \in 1..sc.n : ~IsNone(c.planes[sc.sel[i].c]))
        THEN Wild(d, c)
        ELSE [d |-> d1, c |-> [c EXCEPT !.pc = "rows", !.s = s, !.fins = fins]]

DefTables(old, list, cls) ==
  [i \in 1..4 |->
     LET hits == SelectSeq(list, LAMBDA e : e[1] = cls /\ e[2] = i - 1)
     IN IF hits = <<>> THEN old[i] ELSE hits[Len(hits)][3]]

(* One marker segment. *)
SegStep(st, d, c0) ==
  LET mk == IF c0.pend >= 0 THEN [m |-> c0.pend, next |-> d.pos] ELSE NextMarker(st, d.pos)
      m == mk.m   p == mk.next
      c == [c0 EXCEPT !.pend = -1]
  IN CASE m = -1 -> Fail(d, c, {st.e})
       [] IsSOF(m) -> SofStep(st, d, c, m, p)
       [] m = mSOS -> SosStep(st, d, c, p)
       [] m = mDQT ->
            LET r == ParseDQT(st, p) IN
            IF r.errs # {} THEN Fail(d, c, r.errs)
            ELSE Next_([d EXCEPT !.qt = [i \in 1..4 |->
                          LET hits == SelectSeq(r.v, LAMBDA e : e[1] = i - 1)
                          IN IF hits = <<>> THEN @[i] ELSE [q |-> hits[Len(hits)][2]]]], c, m, r.next)
       [] m = mDHT ->
            LET r == ParseDHT(st, p, ~IsNone(d.fr) /\ (IF IsNone(d.fr) THEN FALSE ELSE d.fr.m = 192)) IN
            IF r.errs # {} THEN Fail(d, c, r.errs)
            ELSE Next_([d EXCEPT !.dc = DefTables(@, r.v, 0), !.ac = DefTables(@, r.v, 1)], c, m, r.next)
       [] m = mDRI ->
            LET r == ParseDRI(st, p) IN
            IF r.errs # {} THEN Fail(d, c, r.errs) ELSE Next_([d EXCEPT !.ri = r.v], c, m, r.next)
       [] m = mCOM ->
            LET r == ParseSkip(st, p) IN
            IF r.errs # {} THEN Fail(d, c, r.errs) ELSE Next_(d, c, m, r.next)
       [] IsAPP(m) ->
            LET r == ParseAPP(st, p, m) IN
            IF r.errs # {} THEN Fail(d, c, r.errs)
            ELSE Next_(CASE r.v.k = "jfif"  -> [d EXCEPT !.jfif = TRUE]
                         [] r.v.k = "avi1"  -> [d EXCEPT !.mjpeg = TRUE]
                         [] r.v.k = "adobe" -> [d EXCEPT !.adobe = r.v.d]
                         [] r.v.k = "exif"  -> [d EXCEPT !.exif = [d |-> r.v.d]]
                         [] r.v.k = "xmp"   -> [d EXCEPT !.xmp = [d |-> r.v.d]]
                         [] r.v.k = "icc"   -> [d EXCEPT !.icc = Append(@, r.v.d)]
                         [] OTHER -> d, c, m, r.next)
       [] m = mDAC -> Fail(d, c, {UNS("ArithmeticEntropyCoding")})
       [] m \in {mDHP, mEXP} -> Fail(d, c, {UNS("Hierarchical")})
       [] m = mDNL -> Fail(d, c, IF c.prev = mSOS /\ c.scans = 1 THEN {UNS("DNL")} ELSE {FMT})
       [] m = mEOI ->
            IF IsNone(d.fr) THEN Fail(d, c, {FMT})
            ELSE [d |-> [d EXCEPT !.pos = p], c |-> [c EXCEPT !.pc = "image"]]
       [] OTHER -> Fail(d, c, {FMT})        \* RSTn, SOI, TEM, RES, JPG, JPGn

-----------------------------------------------------------------------------
(* Restart markers left over after a scan are skipped.                     *)
RECURSIVE SkipRst(_, _, _)
SkipRst(st, m, next) ==
  IF ~IsRST(m) THEN [m |-> m, next |-> next]
  ELSE LET k == NextMarker(st, next) IN SkipRst(st, k.m, k.next)

FinishScan(st, d, c, s) ==
  LET over == 8 * s.pc.n - s.p
      k == SkipRst(st, s.pc.m, s.pc.next)
      done(kk) == { i \in 1..s.sc.n : s.sc.sel[i].c = kk }
      plane(kk) ==
        LET i == CHOOSE i \in done(kk) : TRUE IN
        CASE d.fr.proc = "lossless" -> [rows |-> s.out[i], sh |-> s.sc.al]
          [] d.fr.proc = "prog" -> [rows |-> d.coefs[kk], qt |-> c.fins[i].qt.q]
          [] OTHER -> [rows |-> s.out[i], qt |-> c.fins[i].qt.q]
      planes2 == [kk \in 1..d.fr.nc |->
                    IF done(kk) # {} /\ (d.fr.proc = "lossless" \/ c.fins[CHOOSE i \in done(kk) : TRUE].now)
                    THEN plane(kk) ELSE c.planes[kk]]
  IN IF s.pc.m = -2 \/ (IsRST(s.pc.m) /\ over > 56) THEN Wild(d, c)
     ELSE IF k.m = -1 THEN Fail(d, c, {st.e})
     ELSE [d |-> [d EXCEPT !.pos = k.next],
           c |-> [c EXCEPT !.pc = "seg", !.s = NONE, !.pend = k.m, !.prev = mSOS,
                           !.scans = @ + 1, !.planes = planes2]]

(* One MCU row (or lossless line), and the end of the scan after the last. *)
RowStep(st, d, c) ==
  LET fr == d.fr   sc == c.s.sc
      loss == fr.proc = "lossless"
      prog == fr.proc = "prog"
      mr == McuRow(st, fr, c.s, prog, d.coefs)
      s1 == IF loss THEN LosslessRow(st, fr, c.s) ELSE mr.s
      vv(i) == IF s1.inter THEN fr.comps[sc.sel[i].c].v ELSE 1
      newRow(i, k) ==   \* the block row k (1-based) of selection i's component
        LET v == k - c.s.y * vv(i)
            old == d.coefs[sc.sel[i].c][k]
        IN IF v \notin 1..vv(i) THEN old
           ELSE LET nw == mr.rows[i][v] IN
                IF Len(nw) = Len(old) THEN nw
                ELSE [b \in 1..Len(old) |-> IF b <= Len(nw) THEN nw[b] ELSE old[b]]
      sel(k) == { i \in 1..sc.n : sc.sel[i].c = k }
      coefs2 == [k \in 1..fr.nc |->
                  IF sel(k) = {} THEN d.coefs[k]
                  ELSE LET i == CHOOSE i \in sel(k) : TRUE
                       IN [y \in 1..Len(d.coefs[k]) |-> newRow(i, y)]]
      s2 == IF loss \/ prog THEN s1
            ELSE [s1 EXCEPT !.out = [i \in 1..sc.n |->
                     IF c.fins[i].now THEN c.s.out[i] \o mr.rows[i] ELSE <<>>]]
      d2 == IF prog THEN [d EXCEPT !.coefs = coefs2] ELSE d
  IN CASE s1.status = "wild"   -> Wild(d, c)
       [] s1.status = "end"    -> Fail(d, c, {st.e})
       [] s1.status = "fmtend" -> Fail(d, c, {FMT, st.e})
       [] s1.status = "fmt"    -> Fail(d, c, {FMT})
       [] OTHER -> IF s2.y < s2.ny THEN [d |-> d2, c |-> [c EXCEPT !.s = s2]]
                   ELSE FinishScan(st, d2, c, s2)

-----------------------------------------------------------------------------
(* What the image looks like.                                              *)
OutW(d) == CeilDiv(d.fr.W * d.N, 8)
OutH(d) == CeilDiv(d.fr.H * d.N, 8)
Bps(d) == IF d.fr.proc = "lossless" /\ d.fr.prec > 8 THEN 2 ELSE 1
OutBytes(d) == OutW(d) * OutH(d) * d.fr.nc * Bps(d)
Huge(d) == d.fr.W * d.fr.H > 16000000       \* keep TLC's integers in range

InfoOf(d) ==
  IF IsNone(d.fr) THEN <<>>
  ELSE << OutW(d), OutH(d),
          CASE d.fr.nc = 1 -> IF d.fr.prec <= 8 THEN "L8" ELSE "L16"
            [] d.fr.nc = 3 -> "RGB24" [] OTHER -> "CMYK32",
          CASE d.fr.proc = "seq" -> "DctSequential" [] d.fr.proc = "prog" -> "DctProgressive"
            [] OTHER -> "Lossless" >>

(* bytes per pixel of a pixel format *)
FmtBytes(f) == CASE f = "L8" -> 1 [] f = "L16" -> 2 [] f = "RGB24" -> 3 [] OTHER -> 4

(* end of image: which components have data, and may the image be returned *)
ImageStep(d, c) ==
  LET fr == d.fr
      planes2 == [k \in 1..fr.nc |->
         IF fr.proc = "prog" /\ d.coefs # <<>> /\ d.fin[k] # ALL64 /\ ~IsNone(d.qt[fr.comps[k].tq + 1])
         THEN [rows |-> d.coefs[k], qt |-> d.qt[fr.comps[k].tq + 1].q]
         ELSE c.planes[k]]
      ct == ChooseTransform(d.ct, fr.comps, d.jfif, d.adobe)
      errs == UNION { If1(d.limit >= 0 /\ OutBytes(d) > d.limit, FMT),
                      If1(\E k \in 1..fr.nc : IsNone(planes2[k]), FMT),
                      IF fr.proc = "lossless" THEN {} ELSE TransformErr(ct, fr.nc) }
  IN IF Huge(d) THEN Wild(d, c)
     ELSE IF errs # {} THEN Fail(d, c, errs)
     ELSE Done(d, [c EXCEPT !.planes = planes2])

-----------------------------------------------------------------------------
(* scale(w, h), after the implied read_info succeeded.                     *)
ScaleFactor(fr, w, h) ==
  LET enough(N) == CeilDiv(fr.W * N, 8) >= w \/ CeilDiv(fr.H * N, 8) >= h
  IN IF fr.proc = "lossless" THEN 8
     ELSE CASE enough(1) -> 1 [] enough(2) -> 2 [] enough(4) -> 4 [] OTHER -> 8

Step(st, d, c) ==
  CASE c.pc = "start" -> StartStep(st, d, c)
    [] c.pc = "seg"   -> SegStep(st, d, c)
    [] c.pc = "rows"  -> RowStep(st, d, c)
    [] OTHER          -> ImageStep(d, c)      \* "image"

-----------------------------------------------------------------------------
(* Invariants of the machine.                                              *)
DecoderInv(st, d) ==
  /\ d.pos >= 0 /\ (d.dead \/ d.pos <= st.n)
  /\ d.N \in {1, 2, 4, 8}
  /\ IsNone(d.fr) => d.coefs = <<>> /\ d.fin = <<>>
  /\ ~IsNone(d.fr) =>
       /\ d.fr.nc \in {1, 3, 4}
       /\ Len(d.fin) = d.fr.nc
       /\ d.coefs # <<>> => d.fr.proc = "prog" /\ Len(d.coefs) = d.fr.nc
CallInv(st, d, c) ==
  /\ c.pc \in {"start", "seg", "rows", "image", "done"}
  /\ (c.errs # {}) => c.pc = "done"
  /\ (c.wild \/ c.errs # {}) => d.dead
  /\ (c.pc = "done" /\ c.op = "decode" /\ c.errs = {} /\ ~c.wild) =>
        /\ ~IsNone(d.fr)
        /\ \A k \in 1..d.fr.nc : ~IsNone(c.planes[k])
        /\ d.pos >= 2 /\ st.b[d.pos] = mEOI /\ st.b[d.pos - 1] = 255
  /\ (c.pc = "rows") => ~IsNone(d.fr) /\ c.s.y < c.s.ny
=============================================================================

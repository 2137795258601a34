------------------------------ MODULE JpegScan ------------------------------
(***************************************************************************)
(* Entropy-coded segments: bit extraction (F.2.2.5, B.1.1.5), block        *)
(* decoding (F.2, G.1, G.2, H.1), MCU order (A.2) and restart intervals    *)
(* (E.2.4).  Bits are consumed from the unstuffed bytes of one "piece" -   *)
(* the data between two markers; past its end, zero bits are read.         *)
(***************************************************************************)
EXTENDS JpegSyntax

(***************************************************************************)
(* The piece of entropy-coded data that starts at position pos:            *)
(*   B the data bytes, n their number, m the marker that ends it (-1 the   *)
(*   stream ends first, -2 fill bytes followed by 00: malformed), next     *)
(*   the position after that marker.                                       *)
(***************************************************************************)
Piece(st, pos) ==
  LET i  == FirstGE(st.ff, pos)
      j  == FirstGE(st.fff, pos)
      qi == IF i = 0 THEN st.n ELSE st.ff[i]
      qj == IF j = 0 THEN st.n ELSE st.fff[j]
      q  == Min2(qi, qj)
      open == i = 0 /\ j = 0
      lone == open /\ st.n > pos /\ st.b[st.n] = 255      \* FF is the last byte there is
      sub == SubSeq(st.b, pos + 1, IF lone THEN q - 1 ELSE q)
      keep == SelectSeq(Range2(1, Len(sub)), LAMBDA k : ~(sub[k] = 0 /\ k > 1 /\ sub[k - 1] = 255))
      data == IF Len(keep) = Len(sub) THEN sub ELSE [k \in 1..Len(keep) |-> sub[keep[k]]]
      \* when a fill byte comes first, the marker is the one it belongs to only if
      \* nothing but FF bytes lie between
      clean == i # 0 /\ \A k \in q..qi : st.b[k + 1] = 255
  IN [B |-> TLCEval(data), n |-> Len(data),
      m |-> IF open THEN -1 ELSE IF clean THEN st.b[qi + 2] ELSE IF i = 0 /\ \A k \in q..(st.n - 1) : st.b[k + 1] = 255 THEN -1 ELSE -2,
      next |-> qi + 2]

ByteAt(B, i) == IF i <= Len(B) THEN B[i] ELSE 0
(* the 16 bits at bit offset p *)
Peek16F == [arg \in Any |->
  LET B == arg[1]  p == arg[2] IN
  LET i == (p \div 8) + 1
  IN (((ByteAt(B, i) * 256 + ByteAt(B, i + 1)) * 256 + ByteAt(B, i + 2))
        \div Pow2(8 - (p % 8))) % 65536]
Peek16(B, p) == Peek16F[<<B, p>>]
GetBits(B, p, n) == Peek16(B, p) \div Pow2(16 - n)

-----------------------------------------------------------------------------
(* Block decoding.  Results are records                                    *)
(*   [p, blk, eob, st] with st = "ok", "fmt" (malformed), "wild" (outside  *)
(*   what the specification constrains: see DESIGN.md).                    *)
BitSet(v, k) == (v \div Pow2(k)) % 2 = 1
In16(v) == v >= -32768 /\ v <= 32767

AcFirstF[arg \in Any] ==
  LET B == arg[1]  t == arg[2]  p == arg[3]  k == arg[4]  se == arg[5]  al == arg[6]  prog == arg[7]  blk == arg[8] IN
  IF k > se THEN [p |-> p, blk |-> blk, eob |-> 0, st |-> "ok"]
  ELSE LET h == HuffDecode(t, Peek16(B, p))
           r == h[2] \div 16   s == h[2] % 16   p1 == p + h[1]
       IN IF h[1] = 0 THEN [p |-> p, blk |-> blk, eob |-> 0, st |-> "fmt"]
          ELSE IF s = 0
          THEN IF r = 15
               THEN IF k + 16 > se + 1 THEN [p |-> p1, blk |-> blk, eob |-> 0, st |-> "wild"]
                    ELSE AcFirstF[<<B, t, p1, k + 16, se, al, prog, blk>>]
               ELSE IF r = 0 THEN [p |-> p1, blk |-> blk, eob |-> 0, st |-> "ok"]
               ELSE IF ~prog THEN [p |-> p1, blk |-> blk, eob |-> 0, st |-> "wild"]
               ELSE [p |-> p1 + r, blk |-> blk, eob |-> Pow2(r) - 1 + GetBits(B, p1, r), st |-> "ok"]
          ELSE IF k + r > se THEN [p |-> p1, blk |-> blk, eob |-> 0, st |-> "wild"]
          ELSE LET v == Extend(GetBits(B, p1, s), s)
               IN IF al > 0 /\ ~(v < Pow2(15 - al) /\ v >= -Pow2(15 - al))
                  THEN [p |-> p1, blk |-> blk, eob |-> 0, st |-> "wild"]
                  ELSE AcFirstF[<<B, t, p1 + s, k + r + 1, se, al, prog,
                               [blk EXCEPT ![ZigZag[k + r + 1] + 1] = v * Pow2(al)]>>]

AcFirst(B, t, p, k, se, al, prog, blk) == AcFirstF[<<B, t, p, k, se, al, prog, blk>>]
(* first scan of a band: DC then AC.  pred is the DC predictor.            *)
FirstBlockF == [arg \in Any |->
  LET B == arg[1]  dt == arg[2]  at == arg[3]  p == arg[4]  sc == arg[5]  prog == arg[6]  eob == arg[7]  pred == arg[8]  blk == arg[9] IN
  LET dcPart ==
        IF sc.ss > 0 THEN [p |-> p, pred |-> pred, blk |-> blk, st |-> "ok"]
        ELSE LET h == HuffDecode(dt, Peek16(B, p))
                 d == IF h[2] = 0 THEN 0 ELSE Extend(GetBits(B, p + h[1], h[2]), h[2])
                 np == pred + d
             IN IF h[1] = 0 \/ h[2] > 11 THEN [p |-> p, pred |-> pred, blk |-> blk, st |-> "fmt"]
                ELSE IF ~In16(np) \/ ~(np < Pow2(15 - sc.al) /\ np >= -Pow2(15 - sc.al))
                     THEN [p |-> p, pred |-> pred, blk |-> blk, st |-> "wild"]
                ELSE [p |-> p + h[1] + h[2], pred |-> np,
                      blk |-> [blk EXCEPT ![1] = np * Pow2(sc.al)], st |-> "ok"]
  IN IF dcPart.st # "ok" THEN [p |-> dcPart.p, blk |-> blk, eob |-> 0, pred |-> pred, st |-> dcPart.st]
     ELSE LET k == Max2(sc.ss, 1) IN
          IF k > sc.se THEN [p |-> dcPart.p, blk |-> dcPart.blk, eob |-> eob, pred |-> dcPart.pred, st |-> "ok"]
          ELSE IF eob > 0
          THEN [p |-> dcPart.p, blk |-> dcPart.blk, eob |-> eob - 1, pred |-> dcPart.pred, st |-> "ok"]
          ELSE LET r == AcFirst(B, at, dcPart.p, k, sc.se, sc.al, prog, dcPart.blk)
               IN [p |-> r.p, blk |-> r.blk, eob |-> r.eob, pred |-> dcPart.pred, st |-> r.st]
]
FirstBlock(B, dt, at, p, sc, prog, eob, pred, blk) == FirstBlockF[<<B, dt, at, p, sc, prog, eob, pred, blk>>]
(* G.1.2.3: correction bits for the already nonzero coefficients from k    *)
(* on, until zrl zero ones have been passed and another one is reached.    *)
RefPassF[arg \in Any] ==
  LET B == arg[1]  p == arg[2]  k == arg[3]  se == arg[4]  zrl == arg[5]  al == arg[6]  blk == arg[7] IN
  IF k > se THEN [p |-> p, k |-> k, blk |-> blk, st |-> "ok"]
  ELSE LET c == ZigZag[k + 1] + 1   v == blk[c] IN
       IF v = 0
       THEN IF zrl = 0 THEN [p |-> p, k |-> k, blk |-> blk, st |-> "ok"]
            ELSE RefPassF[<<B, p, k + 1, se, zrl - 1, al, blk>>]
       ELSE IF GetBits(B, p, 1) = 1 /\ ~BitSet(v, al)
            THEN LET w == IF v > 0 THEN v + Pow2(al) ELSE v - Pow2(al)
                 IN IF In16(w) THEN RefPassF[<<B, p + 1, k + 1, se, zrl, al, [blk EXCEPT ![c] = w]>>]
                    ELSE [p |-> p, k |-> k, blk |-> blk, st |-> "wild"]
            ELSE RefPassF[<<B, p + 1, k + 1, se, zrl, al, blk>>]

RefPass(B, p, k, se, zrl, al, blk) == RefPassF[<<B, p, k, se, zrl, al, blk>>]
AcRefineF[arg \in Any] ==
  LET B == arg[1]  t == arg[2]  p == arg[3]  k == arg[4]  se == arg[5]  al == arg[6]  blk == arg[7] IN
  IF k > se THEN [p |-> p, blk |-> blk, eob |-> 0, st |-> "ok"]
  ELSE LET h == HuffDecode(t, Peek16(B, p))
           r == h[2] \div 16   s == h[2] % 16   p1 == p + h[1]
       IN IF h[1] = 0 \/ s > 1 THEN [p |-> p, blk |-> blk, eob |-> 0, st |-> "fmt"]
          ELSE IF s = 0 /\ r < 15
          THEN LET n == Pow2(r) - 1 + (IF r = 0 THEN 0 ELSE GetBits(B, p1, r))
                   f == RefPass(B, p1 + r, k, se, 64, al, blk)
               IN [p |-> f.p, blk |-> f.blk, eob |-> n, st |-> f.st]
          ELSE LET neg == s = 1 /\ GetBits(B, p1, 1) = 0
                   f == RefPass(B, p1 + s, k, se, r, al, blk)
               IN IF f.st # "ok" THEN [p |-> f.p, blk |-> f.blk, eob |-> 0, st |-> f.st]
                  ELSE IF f.k > se
                  THEN [p |-> f.p, blk |-> f.blk, eob |-> 0, st |-> "wild"]  \* ran past the band
                  ELSE AcRefineF[<<B, t, f.p, f.k + 1, se, al,
                                IF s = 0 THEN f.blk
                                ELSE [f.blk EXCEPT ![ZigZag[f.k + 1] + 1] = IF neg THEN -Pow2(al) ELSE Pow2(al)]>>]

AcRefine(B, t, p, k, se, al, blk) == AcRefineF[<<B, t, p, k, se, al, blk>>]
RefineBlockF == [arg \in Any |->
  LET B == arg[1]  at == arg[2]  p == arg[3]  sc == arg[4]  eob == arg[5]  blk == arg[6] IN
  IF sc.ss = 0
  THEN [p |-> p + 1, eob |-> eob, st |-> "ok",
        blk |-> IF GetBits(B, p, 1) = 1 /\ ~BitSet(blk[1], sc.al)
                THEN [blk EXCEPT ![1] = @ + Pow2(sc.al)] ELSE blk]
  ELSE IF eob > 0
  THEN LET f == RefPass(B, p, sc.ss, sc.se, 64, sc.al, blk)
       IN [p |-> f.p, blk |-> f.blk, eob |-> eob - 1, st |-> f.st]
  ELSE AcRefine(B, at, p, sc.ss, sc.se, sc.al, blk)
]
RefineBlock(B, at, p, sc, eob, blk) == RefineBlockF[<<B, at, p, sc, eob, blk>>]
-----------------------------------------------------------------------------
(* Geometry, A.1.1 and A.2: blocks a component has of its own, and padded  *)
(* to whole MCUs.                                                          *)
OwnBw(fr, c) == CeilDiv(CompDim(fr.W, fr.comps[c].h, fr.hmax, 8), 8)
OwnBh(fr, c) == CeilDiv(CompDim(fr.H, fr.comps[c].v, fr.vmax, 8), 8)
PadBw(fr, c) == fr.mcuw * fr.comps[c].h
PadBh(fr, c) == fr.mcuh * fr.comps[c].v

(* A scan in progress.                                                     *)
(*   sc header, inter interleaved?, nx/ny MCUs per row / rows,             *)
(*   dt, at the tables of each selected component, y the next MCU row,     *)
(*   p, pc bit offset and piece, preds, eob, ri/left/rst restart state,    *)
(*   out the block rows decoded (first scans of sequential frames)         *)
StartScan(st, pos, fr, sc, ri, dt, at) ==
  LET inter == sc.n > 1   c1 == sc.sel[1].c
      loss == fr.proc = "lossless"
  IN [sc |-> sc, inter |-> inter,
      nx |-> IF loss THEN fr.W ELSE IF inter THEN fr.mcuw ELSE OwnBw(fr, c1),
      ny |-> IF loss THEN fr.H ELSE IF inter THEN fr.mcuh ELSE OwnBh(fr, c1),
      dt |-> dt, at |-> at, y |-> 0, p |-> 0, pc |-> Piece(st, pos),
      preds |-> [i \in 1..sc.n |-> 0], eob |-> 0, ri |-> ri, left |-> ri, rst |-> 0,
      first |-> FALSE,                      \* was the last MCU preceded by a restart?
      out |-> [i \in 1..sc.n |-> <<>>], status |-> "ok"]

(* Before an MCU: E.2.4.  Returns the state with left decremented, or with *)
(* status "fmt"/"end"/"wild".                                              *)
Restart(st, s) ==
  IF s.ri = 0 THEN s
  ELSE IF s.left > 0 THEN [s EXCEPT !.left = @ - 1, !.first = FALSE]
  ELSE LET over == 8 * s.pc.n - s.p IN
       IF s.pc.m = -2 THEN [s EXCEPT !.status = "wild"]
       ELSE IF s.pc.m = -1 THEN [s EXCEPT !.status = IF over >= 64 THEN "fmtend" ELSE "end"]
       ELSE IF over >= 64 \/ s.pc.m # 208 + s.rst THEN [s EXCEPT !.status = "fmt"]
       ELSE IF over >= 8 THEN [s EXCEPT !.status = "wild"]
       ELSE [s EXCEPT !.left = s.ri - 1, !.rst = (@ + 1) % 8, !.eob = 0, !.p = 0,
                      !.preds = [i \in 1..s.sc.n |-> 0], !.first = TRUE,
                      !.pc = Piece(st, s.pc.next)]

(* status after decoding something that ended at bit p with result r       *)
Status(s, p, r) ==
  IF s.pc.m = -1 /\ p > 8 * s.pc.n THEN "end"
  ELSE IF r = "wild" THEN "wild"
  ELSE IF s.pc.m = -2 /\ p + 64 > 8 * s.pc.n THEN "wild"
  ELSE IF r = "fmt" THEN (IF s.pc.m = -1 THEN "fmtend" ELSE "fmt")
  ELSE "ok"

-----------------------------------------------------------------------------
(* One MCU row of a DCT scan.  old(i, vp, bx): the block of selection i    *)
(* the scan starts from (progressive), new blocks are returned as          *)
(* s.row[i] = the blocks of selection i in decoding order.                 *)
UnitF == [arg \in Any |->
  LET s == arg[1]   prog == arg[2]   coefs == arg[3]   u == arg[4]
      i == u[1]     by == arg[5]     bx == arg[6]
      sc == s.sc
      old == IF prog THEN coefs[sc.sel[i].c][by][bx] ELSE ZeroBlock
      r == IF sc.ah = 0
           THEN FirstBlock(s.pc.B, s.dt[i], s.at[i], s.p, sc, prog, s.eob, s.preds[i], old)
           ELSE RefineBlock(s.pc.B, s.at[i], s.p, sc, s.eob, old)
  IN TLCEval([s EXCEPT !.p = r.p, !.eob = r.eob, !.status = Status(s, r.p, r.st),
               !.preds[i] = IF sc.ah = 0 THEN r.pred ELSE @,
               !.row[i] = Append(@, r.blk)])]

McuRowF == [arg \in Any |->
  LET st == arg[1]  fr == arg[2]  s0 == arg[3]  prog == arg[4]  coefs == arg[5]
      sc == s0.sc
      hh(i) == IF s0.inter THEN fr.comps[sc.sel[i].c].h ELSE 1
      vv(i) == IF s0.inter THEN fr.comps[sc.sel[i].c].v ELSE 1
      \* the units of one MCU: <<selection, vertical, horizontal>>
      units == TLCEval(FlattenSeq([i \in 1..sc.n |->
                  FlattenSeq([v \in 1..vv(i) |-> [h \in 1..hh(i) |-> <<i, v, h>>]])]))
      Unit(s, x, u) ==
        IF s.status # "ok" THEN s
        ELSE UnitF[<<s, prog, coefs, u, s0.y * vv(u[1]) + u[2], x * hh(u[1]) + u[3]>>]
      Mcu(s, x) ==
        IF s.status # "ok" THEN s
        ELSE LET s1 == Restart(st, s)
             IN FoldLeft(LAMBDA a, u : Unit(a, x, u), s1, units)
      init == [row |-> [i \in 1..sc.n |-> <<>>]] @@ s0
      s9 == TLCEval(FoldLeft(Mcu, init, Range2(0, s0.nx - 1)))
      \* regroup MCU order into block rows
      rowOf(i, v) == [b \in 1..(s0.nx * hh(i)) |->
                        s9.row[i][((b - 1) \div hh(i)) * hh(i) * vv(i) + (v - 1) * hh(i) + ((b - 1) % hh(i)) + 1]]
  IN [s |-> [s9 EXCEPT !.y = @ + 1, !.row = <<>>],
      rows |-> IF s9.status # "ok" THEN <<>>
               ELSE TLCEval([i \in 1..sc.n |-> [v \in 1..vv(i) |-> rowOf(i, v)]])]]
McuRow(st, fr, s0, prog, coefs) == McuRowF[<<st, fr, s0, prog, coefs>>]

-----------------------------------------------------------------------------
(* Lossless, H.1: one line.  The scan state's out[i] holds the             *)
(* reconstructed lines (before the point transform is undone).             *)
Predict(ss, ra, rb, rc) ==
  CASE ss = 1 -> ra [] ss = 2 -> rb [] ss = 3 -> rc
    [] ss = 4 -> ra + rb - rc
    [] ss = 5 -> ra + ((rb - rc) \div 2)
    [] ss = 6 -> rb + ((ra - rc) \div 2)
    [] OTHER  -> (ra + rb) \div 2

LosslessRow(st, fr, s0) ==
  LET sc == s0.sc
      half == Pow2(fr.prec - sc.al - 1)
      top == Pow2(fr.prec - sc.al)
      Sample(s, x, i) ==
        IF s.status # "ok" THEN s
        ELSE LET h == HuffDecode(s.dt[i], Peek16(s.pc.B, s.p))
                 n == IF h[2] < 16 THEN h[2] ELSE 0
                 diff == IF h[2] = 0 THEN 0 ELSE IF h[2] = 16 THEN 32768
                         ELSE Extend(GetBits(s.pc.B, s.p + h[1], h[2]), h[2])
                 up == IF s0.y = 0 THEN <<>> ELSE s0.out[i][s0.y]
                 pred == IF s.line1
                         THEN IF x = 0 THEN half ELSE s.row[i][x]
                         ELSE IF x = 0 THEN up[1]
                         ELSE Predict(sc.ss, s.row[i][x], up[x + 1], up[x])
                 val == (pred + diff) % 65536
                 p2 == s.p + h[1] + n
             IN IF h[1] = 0 \/ h[2] > 16 THEN [s EXCEPT !.status = Status(s, s.p, "fmt")]
                ELSE [s EXCEPT !.p = p2, !.status = Status(s, p2, IF val >= top THEN "wild" ELSE "ok"),
                               !.row[i] = Append(@, val)]
      Mcu(s, x) ==
        IF s.status # "ok" THEN s
        ELSE LET s1 == Restart(st, s)
                 \* an interval must start at the start of a line
                 s2 == IF s1.status = "ok" /\ s1.first /\ x > 0 THEN [s1 EXCEPT !.status = "wild"]
                       ELSE IF x = 0 THEN [s1 EXCEPT !.line1 = s0.y = 0 \/ s1.first] ELSE s1
             IN FoldLeft(LAMBDA a, i : Sample(a, x, i), s2, Range2(1, sc.n))
      init == [row |-> [i \in 1..sc.n |-> <<>>], line1 |-> FALSE] @@ s0
      s9 == FoldLeft(Mcu, init, Range2(0, s0.nx - 1))
  IN [s9 EXCEPT !.y = @ + 1, !.row = <<>>, !.first = FALSE,
                !.out = [i \in 1..sc.n |-> Append(s0.out[i], s9.row[i])]]
=============================================================================

----------------------------- MODULE JpegSyntax -----------------------------
(***************************************************************************)
(* Marker-segment syntax (T.81 Annex B plus the JFIF, Adobe, AVI1, Exif,   *)
(* XMP and ICC conventions), stated as rules over the bytes of a segment.  *)
(*                                                                         *)
(* A stream is a record [b, n, e, ff, fff]: the bytes, how many of them    *)
(* the reader delivers, the class of error the reader ends with ("Io:.."), *)
(* and the positions of an FF before a marker code and before another FF.  *)
(* Positions are 0-based.                                                  *)
(*                                                                         *)
(* Parsing a segment yields [errs, next, v]:                               *)
(*   errs  the classes of error that reporting this segment may produce;   *)
(*         empty iff the segment is well formed and complete.  Every rule  *)
(*         the available bytes violate contributes its class, and so does  *)
(*         the end of the stream when the segment is cut short: the order  *)
(*         in which a decoder tests the rules is not prescribed.           *)
(*   next  the position after the segment                                  *)
(*   v     its value                                                       *)
(***************************************************************************)
EXTENDS JpegHuffman

FMT == "Format"
UNS(f) == "Unsupported:" \o f
EOFERR == "Io:UnexpectedEof"

MkStream(b, n, e) ==
  LET ffs(T(_)) == SelectSeq(Range2(0, n - 2), LAMBDA p : b[p + 1] = 255 /\ T(b[p + 2]))
  IN [b |-> b, n |-> n, e |-> e,
      ff  |-> ffs(LAMBDA x : x \in 1..254),
      fff |-> ffs(LAMBDA x : x = 255)]

(* byte constants *)
mSOI == 216   mEOI == 217   mSOS == 218   mDQT == 219   mDNL == 220
mDRI == 221   mDHP == 222   mEXP == 223   mDHT == 196   mDAC == 204
mJPG == 200   mCOM == 254   mTEM == 1
IsSOF(m)  == m \in 192..207 /\ m \notin {mDHT, mJPG, mDAC}
IsRST(m)  == m \in 208..215
IsAPP(m)  == m \in 224..239

(***************************************************************************)
(* Finding the next marker: bytes up to an FF are skipped, FF 00 is not a  *)
(* marker, any number of FF fill bytes may precede the code.               *)
(* Result [m, next]; m = -1 when the stream ends first.                    *)
(***************************************************************************)
(* index of the first element >= p of an ascending sequence, 0 if none     *)
FirstGE(seq, p) ==
  LET n == Len(seq) IN
  IF n = 0 \/ seq[n] < p THEN 0
  ELSE CHOOSE i \in 1..n : seq[i] >= p /\ (i = 1 \/ seq[i - 1] < p)

NextMarker(st, p) ==
  LET i == FirstGE(st.ff, p)
  IN IF i = 0 THEN [m |-> -1, next |-> st.n]
     ELSE [m |-> st.b[st.ff[i] + 2], next |-> st.ff[i] + 2]

U16(st, p) == st.b[p + 1] * 256 + st.b[p + 2]

(* The extent of a segment whose length field is at p.                     *)
Extent(st, p) ==
  IF p + 2 > st.n THEN [ok |-> FALSE, errs |-> {st.e}, a |-> 0, len |-> 0, next |-> st.n]
  ELSE LET L == U16(st, p)
           avail == Min2(L - 2, st.n - (p + 2))
       IN IF L < 2 THEN [ok |-> FALSE, errs |-> {FMT}, a |-> 0, len |-> 0, next |-> p + 2]
          ELSE [ok |-> avail = L - 2, errs |-> IF avail = L - 2 THEN {} ELSE {st.e},
                a |-> avail, len |-> L - 2, next |-> p + L]

(* payload byte i (0-based) of the segment whose length field is at p      *)
PB(st, p, i) == st.b[p + 3 + i]

If1(c, e) == IF c THEN {e} ELSE {}

-----------------------------------------------------------------------------
(* Frame header, B.2.2 *)
ProcessOf(m) == CASE m \in {192, 193, 197, 201, 205} -> "seq"
                  [] m \in {194, 198, 202, 206} -> "prog"
                  [] OTHER -> "lossless"
IsDifferential(m) == m \in {197, 198, 199, 205, 206, 207}
IsArithmetic(m)   == m >= 201

(* T.81 A.1.1: size of a component, in samples at N samples per block side *)
CompDim(X, f, fmax, N) == CeilDiv(X * f * N, fmax * 8)

(* Which ratios of the maximal to a component's sampling factors can be    *)
(* upsampled: integers, or anything in an axis that is one pixel long.     *)
RatioInt(f, fmax) == fmax % f = 0
(* "ok": must be accepted; "no": must be refused; "any": the one-pixel     *)
(* exemption combined with a ratio that is not 1 or 2 in the other axis.   *)
RatioClass(c, hmax, vmax, W, H) ==
  LET h1 == c.h = hmax \/ W = 1   v1 == c.v = vmax \/ H = 1
      h2 == 2 * c.h = hmax        v2 == 2 * c.v = vmax
  IN IF (h1 \/ h2) /\ (v1 \/ v2) THEN "ok"
     ELSE IF RatioInt(c.h, hmax) /\ RatioInt(c.v, vmax) THEN "ok"
     ELSE IF (RatioInt(c.h, hmax) \/ W = 1) /\ (RatioInt(c.v, vmax) \/ H = 1) THEN "any"
     ELSE "no"

ParseSOF(st, p, m) ==
  LET x == Extent(st, p)
      q(i) == PB(st, p, i)
      has(k) == x.a >= k
      proc == ProcessOf(m)
      prec == q(0)
      H == q(1) * 256 + q(2)
      W == q(3) * 256 + q(4)
      n == q(5)
      nvis == IF has(6) THEN Min2(n, (x.a - 6) \div 3) ELSE 0   \* complete component entries
      lenOk == has(6) /\ x.len = 6 + 3 * n
      comp(i) == [id |-> q(6 + 3 * (i - 1)), h |-> q(7 + 3 * (i - 1)) \div 16,
                  v |-> q(7 + 3 * (i - 1)) % 16, tq |-> q(8 + 3 * (i - 1))]
      comps == [i \in 1..nvis |-> comp(i)]
      hmax == FoldLeft(LAMBDA a, c : Max2(a, c.h), 1, comps)
      vmax == FoldLeft(LAMBDA a, c : Max2(a, c.v), 1, comps)
      factorsOk == \A i \in 1..nvis : comps[i].h \in 1..4 /\ comps[i].v \in 1..4
      classes == { RatioClass(comps[i], hmax, vmax, W, H) : i \in 1..nvis }
      hard ==
        IF x.len <= 6 THEN {FMT}
        ELSE UNION {
          If1(IsDifferential(m), UNS("Hierarchical")),
          If1(IsArithmetic(m), UNS("ArithmeticEntropyCoding")),
          IF ~has(1) THEN {} ELSE
            IF proc = "lossless"
            THEN IF prec > 16 THEN {FMT}
                 ELSE If1(prec < 2, UNS("SamplePrecision(" \o ToString(prec) \o ")"))
            ELSE IF prec = 12 /\ m # 192 THEN {UNS("SamplePrecision(12)")}
                 ELSE If1(prec # 8, FMT),
          If1(has(3) /\ H = 0, UNS("DNL")),
          If1(has(5) /\ W = 0, FMT),
          If1(has(6) /\ n = 0, FMT),
          If1(has(6) /\ proc = "prog" /\ n > 4, FMT),
          If1(has(6) /\ ~lenOk, FMT),
          If1(has(6) /\ n # 0 /\ n \notin {1, 3, 4}, UNS("ComponentCount(" \o ToString(n) \o ")")),
          IF ~lenOk THEN {} ELSE UNION {
            If1(\E i, j \in 1..nvis : i < j /\ comps[i].id = comps[j].id, FMT),
            If1(~factorsOk, FMT),
            If1(\E i \in 1..nvis : comps[i].tq > 3 \/ (proc = "lossless" /\ comps[i].tq # 0), FMT),
            If1(nvis = n /\ n > 0 /\ factorsOk /\ W > 0 /\ H > 0 /\ "no" \in classes,
                UNS("NonIntegerSubsamplingRatio")) } }
      maybe == nvis = n /\ factorsOk /\ "any" \in classes
  IN [errs |-> hard \cup x.errs, next |-> x.next,
      \* a ratio of class "any" may be refused or accepted
      opt |-> IF hard = {} /\ x.ok /\ maybe THEN {UNS("NonIntegerSubsamplingRatio")} ELSE {},
      v |-> IF hard = {} /\ x.ok
            THEN [m |-> m, proc |-> proc, prec |-> prec, W |-> W, H |-> H, nc |-> n,
                  comps |-> comps, hmax |-> hmax, vmax |-> vmax,
                  mcuw |-> CeilDiv(W, 8 * hmax), mcuh |-> CeilDiv(H, 8 * vmax)]
            ELSE NONE]

-----------------------------------------------------------------------------
(* Scan header, B.2.3 *)
ParseSOS(st, p, fr) ==
  LET x == Extent(st, p)
      q(i) == PB(st, p, i)
      has(k) == x.a >= k
      n == q(0)
      lenOk == has(1) /\ x.len = 4 + 2 * n
      nvis == IF lenOk THEN Min2(n, (x.a - 1) \div 2) ELSE 0
      idx(i) == LET s == { k \in 1..fr.nc : fr.comps[k].id = q(1 + 2 * (i - 1)) }
                IN IF s = {} THEN 0 ELSE CHOOSE k \in s : TRUE
      sel == [i \in 1..nvis |-> [c |-> idx(i), td |-> q(2 + 2 * (i - 1)) \div 16,
                                 ta |-> q(2 + 2 * (i - 1)) % 16]]
      base == fr.m = 192
      maxT == IF base THEN 1 ELSE 3
      blocks == FoldLeft(LAMBDA a, s : IF s.c = 0 THEN a ELSE a + fr.comps[s.c].h * fr.comps[s.c].v, 0, sel)
      ss == q(1 + 2 * n)   se == q(2 + 2 * n)
      ah == q(3 + 2 * n) \div 16   al == q(3 + 2 * n) % 16
      full == lenOk /\ x.ok
      hasSs == lenOk /\ has(2 + 2 * n)
      hasSe == lenOk /\ has(3 + 2 * n)
      hard ==
        IF x.len = 0 THEN {FMT}
        ELSE UNION {
          If1(has(1) /\ n \notin 1..4, FMT),
          If1(has(1) /\ ~lenOk, FMT),
          If1(\E i \in 1..nvis : sel[i].c = 0, FMT),
          If1(\E i, j \in 1..nvis : i < j /\ sel[i].c >= sel[j].c, FMT),
          If1(\E i \in 1..nvis : sel[i].td > maxT \/ sel[i].ta > maxT, FMT),
          If1(lenOk /\ nvis = n /\ n > 1 /\ blocks > 10, FMT),
          CASE fr.proc = "prog" ->
                 UNION { If1(hasSe /\ (se > 63 \/ ss > se \/ (ss = 0 /\ se # 0)), FMT),
                         If1(hasSs /\ ss # 0 /\ n # 1, FMT),
                         If1(full /\ (ah > 13 \/ al > 13), FMT),
                         If1(full /\ ah # 0 /\ ah # al + 1, FMT) }
            [] fr.proc = "lossless" ->
                 UNION { If1(hasSs /\ ss > 7, FMT), If1(hasSe /\ se # 0, FMT),
                         If1(full /\ ah # 0, FMT), If1(full /\ al >= fr.prec, FMT) }
            [] OTHER ->
                 UNION { If1(hasSs /\ ss # 0, FMT), If1(hasSe /\ se \notin {0, 63}, FMT),
                         If1(full /\ (ah # 0 \/ al # 0), FMT) } }
  IN [errs |-> hard \cup x.errs, next |-> x.next,
      v |-> IF hard = {} /\ x.ok
            THEN [sel |-> sel, n |-> n, ss |-> ss,
                  se |-> IF fr.proc = "seq" THEN 63 ELSE se, ah |-> ah, al |-> al]
            ELSE NONE]

-----------------------------------------------------------------------------
(* Quantization tables, B.2.4.1.  v: sequence of <<destination, table in   *)
(* natural order>>.                                                        *)
RECURSIVE DqtLoop(_, _, _, _, _, _)
DqtLoop(st, p, x, o, acc, errs) ==
  \* o: offset of the next Pq/Tq byte in the payload
  IF o >= x.len \/ errs # {} THEN [errs |-> errs, v |-> acc]
  ELSE IF o >= x.a THEN [errs |-> errs, v |-> acc]
  ELSE LET pq == PB(st, p, o) \div 16   tq == PB(st, p, o) % 16
           w == IF pq = 0 THEN 1 ELSE 2
           size == 1 + 64 * w
           vis == Min2(64, (x.a - (o + 1)) \div w)
           ent(i) == IF w = 1 THEN PB(st, p, o + i)
                     ELSE PB(st, p, o + 2 * i - 1) * 256 + PB(st, p, o + 2 * i)
           lenBad == pq <= 1 /\ x.len - o < size
           zig == TLCEval([i \in 1..vis |-> ent(i)])
           e == UNION { If1(pq > 1, FMT), If1(tq > 3, FMT), If1(lenBad, FMT),
                        If1(pq <= 1 /\ ~lenBad /\ \E i \in 1..vis : zig[i] = 0, FMT) }
       IN IF e # {} \/ vis < 64 THEN [errs |-> e, v |-> acc]
          ELSE LET nat == [j \in 1..64 |-> zig[UnZig[j]]]
               IN DqtLoop(st, p, x, o + size, Append(acc, <<tq, TLCEval(nat)>>), {})

ParseDQT(st, p) ==
  LET x == Extent(st, p)
      r == DqtLoop(st, p, x, 0, <<>>, {})
  IN [errs |-> r.errs \cup x.errs, next |-> x.next, v |-> r.v]

-----------------------------------------------------------------------------
(* Huffman tables, B.2.4.2.  v: sequence of <<class, destination, table>>. *)
RECURSIVE DhtLoop(_, _, _, _, _, _)
DhtLoop(st, p, x, maxT, o, acc) ==
  LET left == x.len - o IN
  IF left = 0 THEN [errs |-> {}, v |-> acc]
  ELSE IF left < 18 THEN [errs |-> {FMT}, v |-> acc]      \* no room for a table
  ELSE IF o >= x.a THEN [errs |-> {}, v |-> acc]          \* cut short
  ELSE LET tc == PB(st, p, o) \div 16   th == PB(st, p, o) % 16
           counts == [i \in 1..16 |-> PB(st, p, o + i)]
           haveC == x.a >= o + 17
           size == SumSeq(counts)
           sizeBad == size = 0 \/ size > 256 \/ size > left - 17
           haveV == haveC /\ x.a >= o + 17 + size
           vals == [i \in 1..size |-> PB(st, p, o + 16 + i)]
           e == UNION { If1(tc > 1, FMT), If1(th > maxT, FMT),
                        If1(haveC /\ sizeBad, FMT),
                        If1(haveC /\ ~sizeBad /\ ~CountsOk(counts), FMT) }
       IN IF e # {} \/ ~haveV THEN [errs |-> e, v |-> acc]
          ELSE DhtLoop(st, p, x, maxT, o + 17 + size,
                       Append(acc, <<tc, th, TLCEval(MkTable(counts, TLCEval(vals)))>>))

ParseDHT(st, p, baseline) ==
  LET x == Extent(st, p)
      r == DhtLoop(st, p, x, IF baseline THEN 1 ELSE 3, 0, <<>>)
  IN [errs |-> r.errs \cup x.errs, next |-> x.next, v |-> r.v]

-----------------------------------------------------------------------------
ParseDRI(st, p) ==
  LET x == Extent(st, p)
      bad == If1(x.ok /\ x.len # 2, FMT) \cup If1(~x.ok /\ x.len > 0 /\ x.len # 2, FMT)
  IN [errs |-> bad \cup x.errs, next |-> x.next,
      v |-> IF bad = {} /\ x.ok THEN PB(st, p, 0) * 256 + PB(st, p, 1) ELSE 0]

ParseSkip(st, p) == LET x == Extent(st, p) IN [errs |-> x.errs, next |-> x.next, v |-> 0]

(* Application segments.  v = [k: kind, d: data]                           *)
sJFIF == <<74, 70, 73, 70, 0>>
sAVI1 == <<65, 86, 73, 49, 0>>
sExif == <<69, 120, 105, 102, 0, 0>>
sXmp  == <<104,116,116,112,58,47,47,110,115,46,97,100,111,98,101,46,99,111,109,47,120,97,112,47,49,46,48,47,0>>
sIcc  == <<73,67,67,95,80,82,79,70,73,76,69,0>>
sAdobe == <<65,100,111,98,101,0>>

ParseAPP(st, p, m) ==
  LET x == Extent(st, p)
      lead(s) == x.a >= Len(s) /\ SubSeq(st.b, p + 3, p + 2 + Len(s)) = s
      from(k) == SubSeq(st.b, p + 3 + k, p + 2 + x.len)
      none == [k |-> "none", d |-> 0]
      adobe == m = 238 /\ x.len >= 12 /\ lead(sAdobe) /\ x.a >= 12
      bad == If1(adobe /\ PB(st, p, 11) > 2, FMT)
      v == IF ~x.ok \/ bad # {} THEN none
           ELSE CASE m = 224 /\ lead(sJFIF) -> [k |-> "jfif", d |-> 0]
                  [] m = 224 /\ lead(sAVI1) -> [k |-> "avi1", d |-> 0]
                  [] m = 225 /\ lead(sExif) -> [k |-> "exif", d |-> from(6)]
                  [] m = 225 /\ lead(sXmp)  -> [k |-> "xmp",  d |-> from(29)]
                  [] m = 226 /\ x.len > 14 /\ lead(sIcc) ->
                       [k |-> "icc", d |-> [seq |-> PB(st, p, 12), num |-> PB(st, p, 13), data |-> from(14)]]
                  [] adobe -> [k |-> "adobe", d |-> PB(st, p, 11)]
                  [] OTHER -> none
  IN [errs |-> bad \cup x.errs, next |-> x.next, v |-> v]

(* The profile the ICC segments seen so far assemble to (ICC.1 Annex B).   *)
IccProfile(chunks) ==
  LET n == Len(chunks)
      ok == /\ n \in 1..255
            /\ \A i \in 1..n : chunks[i].num = n
            /\ { chunks[i].seq : i \in 1..n } = 1..n
      ord == [k \in 1..n |-> chunks[(CHOOSE i \in 1..n : chunks[i].seq = k)].data]
  IN IF ok THEN [some |-> TRUE, d |-> FlattenSeq(ord)] ELSE [some |-> FALSE, d |-> <<>>]
=============================================================================

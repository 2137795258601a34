------------------------------ MODULE JpegTrace -----------------------------
(***************************************************************************)
(* Trace validation.  Each recorded history - a byte stream, the way its   *)
(* reader ends, and a sequence of API calls with everything the real       *)
(* decoder let us observe - is stepped through the specification; TLC      *)
(* prints one verdict per history:                                         *)
(*    ok         a behaviour of the specification                          *)
(*    wild       so is this, but its last outcomes were unconstrained      *)
(*    kf:<id>    differs only in the way known finding <id> describes      *)
(*    bad:...    not a behaviour of the specification                      *)
(* A call's results r are grouped: one record per distinct result over the *)
(* feature configurations that ran it.                                     *)
(***************************************************************************)
EXTENDS JpegDecoder, Json, IOUtils

Hist == TLCEval(ndJsonDeserialize(IOEnv.JPEG_TRACE))

VARIABLES id, ci, d, c, st, img, step, verdict
vars == <<id, ci, d, c, st, img, step, verdict>>

Call(i, k) == Hist[i].calls[k]
Chk(i, a) == \E k \in 1..Len(Hist[i].chk) : Hist[i].chk[k] = a

Init == /\ id \in 1..Len(Hist)
        /\ ci = 0 /\ step = 0
        /\ d = NewDecoder
        /\ c = [pc |-> "idle"]
        /\ st = [n |-> -1]
        /\ img = <<>>
        /\ verdict = "run"

-----------------------------------------------------------------------------
(* Expected pixels.                                                        *)
NeedPx == c.op = "decode" /\ c.errs = {} /\ ~c.wild
          /\ \E k \in 1..Len(Call(id, ci).r) : Call(id, ci).r[k].k = "ok"
          /\ (Chk(id, "px") \/ Chk(id, "cfg"))

RenderAll ==
  LET fr == d.fr IN
  IF fr.proc = "lossless" THEN <<>>
  ELSE [k \in 1..fr.nc |->
          TLCEval(RenderPlane(c.planes[k].rows, c.planes[k].qt, d.N,
                      CompDim(fr.W, fr.comps[k].h, fr.hmax, d.N),
                      CompDim(fr.H, fr.comps[k].v, fr.vmax, d.N)))]

Tame == \A k \in 1..Len(img) : img[k].tame
VTame == \A k \in 1..Len(img) : img[k].vt
AllExact == \A k \in 1..Len(img) : img[k].x

(* where two lines differ by more than tt *)
BadAt == [arg \in Any |->
  LET e == arg[1]   g == arg[2]   tt == arg[3]
  IN IF e = g THEN {} ELSE { k \in 1..Len(e) : Abs(e[k] - g[k]) > tt }]

(* "" if the samples of result r agree with the specification, else where. *)
PxDiff(r) ==
  LET fr == d.fr   ow == OutW(d)   oh == OutH(d)   nc == fr.nc   N == d.N
      ct == ChooseTransform(d.ct, fr.comps, d.jfif, d.adobe)
      simd == r.simd = 1
      t == IF AllExact THEN 0 ELSE IF simd /\ N = 8 THEN 2 ELSE 1
      tol == IF nc = 1 THEN t ELSE ColorTol(ct, t, simd)
      ys == IF r.rows = <<>> THEN Range2(0, oh - 1) ELSE r.rows
      bps == Bps(d)
      lineLen == ow * nc
      lossy(y) ==
        LET L == TLCEval([k \in 1..nc |->
                    TLCEval(UpLine(img[k].r, CompDim(fr.W, fr.comps[k].h, fr.hmax, N),
                                   CompDim(fr.H, fr.comps[k].v, fr.vmax, N),
                                   fr.comps[k].h, fr.comps[k].v, fr.hmax, fr.vmax, ow, oh, y))])
        IN OutLine(ct, L, nc, ow)
      less(y) ==
        [k \in 1..lineLen |->
           LET comp == ((k - 1) % nc) + 1   x == ((k - 1) \div nc) + 1 IN
           c.planes[comp].rows[y + 1][x] * Pow2(c.planes[comp].sh)]
      got(j, k) == IF bps = 1 THEN r.px[(j - 1) * lineLen + k]
                   ELSE r.px[2 * ((j - 1) * lineLen + k) - 1] + 256 * r.px[2 * ((j - 1) * lineLen + k)]
      badRow(j) == LET y == ys[j]
                       e == TLCEval(IF fr.proc = "lossless" THEN less(y) ELSE lossy(y))
                       tt == IF fr.proc = "lossless" THEN 0 ELSE tol
                       g == TLCEval([k \in 1..lineLen |-> got(j, k)])
                       bs == BadAt[<<e, g, tt>>]
                   IN IF bs = {} THEN "" ELSE LET k == CHOOSE k \in bs : \A m \in bs : k <= m IN
                      "px y=" \o ToString(y) \o " byte=" \o ToString(k - 1) \o " want="
                        \o ToString(e[k]) \o "+-" \o ToString(tt) \o " got=" \o ToString(got(j, k))
  IN IF r.n # OutBytes(d) THEN "length want=" \o ToString(OutBytes(d)) \o " got=" \o ToString(r.n)
     ELSE IF fr.proc # "lossless" /\ (~Tame \/ (simd /\ N = 8 /\ ~VTame)) THEN ""
     ELSE FoldLeft(LAMBDA a, j : IF a # "" THEN a ELSE badRow(j), "", Range2(1, Len(ys)))

-----------------------------------------------------------------------------
MetaDiff(r) ==
  LET some(x) == IF IsNone(x) THEN <<>> ELSE <<1>> \o x.d
      icc == IccProfile(d.icc)
  IN IF r.exif # some(d.exif) THEN "exif"
     ELSE IF r.xmp # some(d.xmp) THEN "xmp"
     ELSE IF r.icc # (IF icc.some THEN <<1>> \o icc.d ELSE <<>>) THEN "icc"
     ELSE ""

(* Known findings: see /verif/known_findings.txt.                          *)
KnownFinding(r) ==
  IF /\ c.op = "decode" /\ r.k = "ok" /\ ~IsNone(d.fr)
     /\ d.fr.proc = "lossless" /\ d.fr.prec > 8 /\ d.fr.nc > 1
  THEN "F7" ELSE ""

(* Whatever the stream was: an image that is returned fits its info.       *)
SelfSize(r) ==
  IF r.info = <<>> THEN "size no info"
  ELSE IF r.n = r.info[1] * r.info[2] * FmtBytes(r.info[3]) THEN ""
  ELSE IF KnownFinding(r) # "" THEN "kf:" \o KnownFinding(r)
  ELSE "size got=" \o ToString(r.n) \o " info=" \o ToString(r.info)

ResultDiff(call, r) ==
  LET op == call.op IN
  IF r.k \in {"panic", "hang", "abort", "leak"} THEN "returned:" \o r.k
  ELSE IF op \in {"set_ct", "set_limit"} THEN ""
  ELSE IF op = "decode" /\ r.k = "ok" /\ Chk(id, "size") /\ SelfSize(r) # "" THEN SelfSize(r)
  ELSE IF c.wild THEN ""
  ELSE IF op = "info"
  THEN IF Chk(id, "info") /\ r.info # InfoOf(d)
       THEN "info want=" \o ToString(InfoOf(d)) \o " got=" \o ToString(r.info) ELSE ""
  ELSE IF ~Chk(id, "res") /\ ((c.errs # {}) # (r.k = "err")) THEN ""
  ELSE IF c.errs # {} /\ ~Chk(id, "res") THEN ""
  ELSE IF c.errs # {}
  THEN IF r.k = "err" /\ r.e \in c.errs THEN ""
       ELSE "result want=" \o ToString(c.errs) \o " got=" \o r.k \o ":" \o r.e
  ELSE IF r.k = "err"
  THEN IF r.e \in c.opt \/ ~Chk(id, "res") THEN "" ELSE "result want=ok got=err:" \o r.e
  ELSE IF Chk(id, "info") /\ r.info # InfoOf(d)
       THEN "info want=" \o ToString(InfoOf(d)) \o " got=" \o ToString(r.info)
  ELSE IF Chk(id, "pos") /\ op \in {"decode", "read_info", "scale"} /\ r.pos # d.pos
       THEN "position want=" \o ToString(d.pos) \o " got=" \o ToString(r.pos)
  ELSE IF op = "scale" /\ Chk(id, "info") /\ (r.w # OutW(d) \/ r.h # OutH(d))
       THEN "scale want=" \o ToString(<<OutW(d), OutH(d)>>) \o " got=" \o ToString(<<r.w, r.h>>)
  ELSE IF Chk(id, "size") /\ op = "decode" /\ r.n # OutW(d) * OutH(d) * FmtBytes(InfoOf(d)[3])
       THEN IF KnownFinding(r) # "" THEN "kf:" \o KnownFinding(r)
            ELSE "size want=" \o ToString(OutW(d) * OutH(d) * FmtBytes(InfoOf(d)[3])) \o " got=" \o ToString(r.n)
  ELSE IF Chk(id, "meta") /\ op = "decode" /\ MetaDiff(r) # "" THEN "meta:" \o MetaDiff(r)
  ELSE IF Chk(id, "px") /\ op = "decode" THEN PxDiff(r)
  ELSE ""

(* Feature configurations: the vector configurations agree with each other *)
(* and so do the portable ones; the two kinds agree but for rounding.      *)
CfgDiff(call) ==
  LET rs == call.r   n == Len(rs)
      same(a, b) == rs[a].k = rs[b].k /\ rs[a].e = rs[b].e /\ rs[a].info = rs[b].info
                    /\ rs[a].n = rs[b].n /\ rs[a].w = rs[b].w /\ rs[a].h = rs[b].h
                    /\ rs[a].exif = rs[b].exif /\ rs[a].xmp = rs[b].xmp /\ rs[a].icc = rs[b].icc
      close(a, b) ==
        \/ rs[a].px = rs[b].px
        \/ c.wild \/ ~Tame \/ (d.N = 8 /\ ~VTame)
        \/ LET ct == ChooseTransform(d.ct, d.fr.comps, d.jfif, d.adobe)
               t == IF d.N < 8 \/ AllExact THEN 0 ELSE 2
               tol == IF d.fr.nc = 1 THEN t ELSE ColorTol(ct, t, TRUE)
           IN d.fr.proc # "lossless" /\ \A k \in 1..Len(rs[a].px) : Abs(rs[a].px[k] - rs[b].px[k]) <= tol
  IN IF n = 1 THEN ""
     ELSE IF \E a \in 2..n : ~same(1, a) THEN "configurations disagree"
     ELSE IF \E a, b \in 1..n : a < b /\ ((rs[a].simd = 0 /\ rs[b].simd = 0) \/ (rs[a].vec = 1 /\ rs[b].vec = 1))
          THEN "configurations of one kind differ in their samples"
     ELSE IF \E a \in 2..n : rs[a].k = "ok" /\ rs[a].n > 0 /\ ~close(1, a) THEN "vector and portable samples differ"
     ELSE ""

CallVerdict ==
  LET call == Call(id, ci)
      diffs == [k \in 1..Len(call.r) |-> TLCEval(ResultDiff(call, call.r[k]))]
      cfg == IF Chk(id, "cfg") THEN CfgDiff(call) ELSE ""
      isHard(x) == x # "" /\ x # "kf:F7"
      hard == SelectSeq(diffs, isHard)
      \* which kinds of configuration: v vector, s portable
      who == IF hard = <<>> THEN "" ELSE
             LET k == CHOOSE k \in 1..Len(diffs) : isHard(diffs[k])
             IN (IF call.r[k].vec = 1 THEN " v" ELSE " ") \o (IF call.r[k].simd = 0 THEN "s" ELSE "")
  IN IF hard # <<>> THEN "bad:call " \o ToString(ci) \o " " \o call.op \o who \o ": " \o hard[1]
     ELSE IF cfg # "" THEN "bad:call " \o ToString(ci) \o " " \o call.op \o ": " \o cfg
     ELSE IF \E k \in 1..Len(diffs) : diffs[k] = "kf:F7" THEN "kf:F7"
     ELSE IF c.wild THEN "wild"
     ELSE "ok"

-----------------------------------------------------------------------------
Emit(v) == PrintT("VERDICT@" \o Hist[id].id \o "@" \o v \o "@" \o ToString(step) \o "@")

(* verdicts accumulate: bad stops the history, kf and wild stick           *)
Join(v, w) == IF v \in {"run", "ok"} THEN w ELSE IF w = "ok" THEN v ELSE w

BeginCall ==
  /\ verdict = "run" /\ c.pc = "idle" /\ ci < Len(Hist[id].calls)
  /\ ci' = ci + 1 /\ step' = step + 1
  /\ st' = IF ci = 0 THEN MkStream(Hist[id].b, Len(Hist[id].b), Hist[id].end) ELSE st
  /\ LET call == Call(id, ci + 1) IN
     IF call.op = "set_ct"
     THEN d' = [d EXCEPT !.ct = call.s] /\ c' = [NewCall(d, "set_ct") EXCEPT !.pc = "done", !.wild = d.dead]
     ELSE IF call.op = "set_limit"
     THEN d' = [d EXCEPT !.limit = call.x] /\ c' = [NewCall(d, "set_limit") EXCEPT !.pc = "done"]
     ELSE IF call.op = "info"
     THEN d' = d /\ c' = [NewCall(d, "info") EXCEPT !.pc = "done", !.wild = d.dead]
     ELSE d' = d /\ c' = NewCall(d, IF call.op = "scale" THEN "read_info" ELSE call.op)
  /\ img' = <<>>
  /\ UNCHANGED <<id, verdict>>

Advance ==
  /\ verdict = "run" /\ c.pc \in {"start", "seg", "rows", "image"}
  /\ LET r == Step(st, d, c) IN d' = r.d /\ c' = r.c
  /\ step' = step + 1
  /\ UNCHANGED <<id, ci, st, img, verdict>>

(* scale: once the header is known, choose the size *)
ScaleNow ==
  IF Call(id, ci).op = "scale" /\ c.errs = {} /\ ~c.wild
  THEN [d EXCEPT !.N = ScaleFactor(d.fr, Call(id, ci).x, Call(id, ci).y)] ELSE d

Render ==
  /\ verdict = "run" /\ c.pc = "done"
  /\ d' = ScaleNow
  /\ img' = IF NeedPx THEN RenderAll ELSE <<>>
  /\ c' = [c EXCEPT !.pc = "judge"]
  /\ step' = step + 1
  /\ UNCHANGED <<id, ci, st, verdict>>

Judge ==
  /\ verdict = "run" /\ c.pc = "judge"
  /\ LET v == CallVerdict
         last == ci = Len(Hist[id].calls)
         refused == \E k \in 1..Len(Call(id, ci).r) : Call(id, ci).r[k].k = "err"
     IN /\ IF v \notin {"ok", "wild"} THEN verdict' = v
           ELSE IF last THEN verdict' = v ELSE verdict' = "run"
        /\ d' = IF refused THEN [d EXCEPT !.dead = TRUE] ELSE d
        /\ IF verdict' # "run" THEN Emit(verdict') ELSE TRUE
  /\ c' = [pc |-> "idle"]
  /\ img' = <<>>
  /\ step' = step + 1
  /\ UNCHANGED <<id, ci, st>>

Next == BeginCall \/ Advance \/ Render \/ Judge

Spec == Init /\ [][Next]_vars

View == <<id, step>>

Inv == /\ st.n >= 0 => DecoderInv(st, d)
       /\ c.pc \notin {"idle", "judge"} => CallInv(st, d, c)
=============================================================================

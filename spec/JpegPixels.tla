----------------------------- MODULE JpegPixels -----------------------------
(***************************************************************************)
(* From coefficients to pixels: dequantisation and inverse DCT (A.3.3,     *)
(* A.3.4), its reduced-size forms, upsampling and colour conversion.       *)
(* Numeric results are nominal values together with a tolerance: the       *)
(* specification states the mathematics, an implementation may round       *)
(* differently by the tolerance (see Tol below).                           *)
(***************************************************************************)
EXTENDS JpegScan

(* 2048 * c(u) * cos((2x+1) u pi / 2N), c(0) = 1, c(u) = sqrt(2)           *)
Cos1 ==
   << <<2048>> >>
Cos2 ==
   << <<2048,2048>>,
      <<2048,-2048>> >>
Cos4 ==
   << <<2048,2676,2048,1108>>,
      <<2048,1108,-2048,-2676>>,
      <<2048,-1108,-2048,2676>>,
      <<2048,-2676,2048,-1108>> >>
Cos8 ==
   << <<2048,2841,2676,2408,2048,1609,1108,565>>,
      <<2048,2408,1108,-565,-2048,-2841,-2676,-1609>>,
      <<2048,1609,-1108,-2841,-2048,565,2676,2408>>,
      <<2048,565,-2676,-1609,2048,2408,-1108,-2841>>,
      <<2048,-565,-2676,1609,2048,-2408,-1108,2841>>,
      <<2048,-1609,-1108,2841,-2048,-565,2676,-2408>>,
      <<2048,-2408,1108,565,-2048,2841,-2676,1609>>,
      <<2048,-2841,2676,-2408,2048,-1609,1108,-565>> >>
CosN(N) == CASE N = 1 -> Cos1 [] N = 2 -> Cos2 [] N = 4 -> Cos4 [] OTHER -> Cos8

(* Dequantised block (natural order) and the sum of its magnitudes.        *)
Dequant(blk, qt) == [k \in 1..64 |-> IF blk[k] = 0 THEN 0 ELSE blk[k] * qt[k]]
LowMag(f, N) == FoldLeft(LAMBDA a, k : IF (k % 8) < N /\ (k \div 8) < N THEN a + Abs(f[k + 1]) ELSE a,
                         0, Range2(0, 8 * N - 1))
(* Blocks of 8-bit images satisfy sum |F| <= 8192 (Parseval); beyond that  *)
(* sample values are not constrained.                                      *)
MAXMAG == 8192
DcOnly(blk, N) == \A k \in 2..(8 * N) : blk[k] = 0 \/ ((k - 1) % 8) >= N

(* round(sum) of a product with numerator scale 2^n, floor(x/2^n + 1/2)    *)
RoundDiv(x, d) == (x + d \div 2) \div d

(* N x N samples of a dequantised block f: s[y][x].  vt: no sum of        *)
(* magnitudes entering a one-dimensional transform exceeds VECMAG, so 16   *)
(* bit vector arithmetic (three fraction bits, gains up to 3.1) suffices.  *)
VECMAG == 1330
(* the inner product of two rows of N values *)
Dot(a, b, N) ==
  CASE N = 8 -> a[1]*b[1] + a[2]*b[2] + a[3]*b[3] + a[4]*b[4] + a[5]*b[5] + a[6]*b[6] + a[7]*b[7] + a[8]*b[8]
    [] N = 4 -> a[1]*b[1] + a[2]*b[2] + a[3]*b[3] + a[4]*b[4]
    [] N = 2 -> a[1]*b[1] + a[2]*b[2]
    [] OTHER -> a[1]*b[1]
(* columns first, 4 fraction bits are kept; then rows                      *)
IdctF == [arg \in Any |->
  LET f == arg[1]   N == arg[2]   M == CosN(N)
      col(u) == IF \A v \in 1..(N - 1) : f[8 * v + u] = 0
                THEN LET x == f[u] * 16 IN [y \in 1..N |-> x]
                ELSE LET g == TLCEval([v \in 1..N |-> f[8 * (v - 1) + u]])
                     IN [y \in 1..N |-> (Dot(M[y], g, N) + 64) \div 128]
      t == TLCEval([u \in 1..N |-> TLCEval(col(u))])
      row(y) == LET g == TLCEval([u \in 1..N |-> t[u][y]]) IN
                IF \A u \in 2..N : g[u] = 0
                THEN LET x == Clamp8(128 + ((g[1] + 64) \div 128)) IN [k \in 1..N |-> x]
                ELSE [x \in 1..N |-> Clamp8(128 + ((Dot(M[x], g, N) + 131072) \div 262144))]
  IN [s |-> [y \in 1..N |-> TLCEval(row(y))],
      vt |-> /\ \A u \in 1..N : FoldLeft(LAMBDA a, v : a + Abs(f[8 * v + u]), 0, Range2(0, N - 1)) <= VECMAG
             /\ \A y \in 1..N : FoldLeft(LAMBDA a, u : a + Abs(t[u][y]), 0, Range2(1, N)) <= 16 * VECMAG]]
IdctN(f, N) == IdctF[<<f, N>>]

(* A rendered block [s: N x N samples, x: exact?, tame?, vt].              *)
RenderBlockF == [arg \in Any |->
  LET blk == arg[1]   qt == arg[2]   N == arg[3]
      dc == DcOnly(blk, N)
      dcv == blk[1] * qt[1]
      smp == Clamp8(128 + ((dcv + 4) \div 8))
      f == TLCEval(Dequant(blk, qt))
      r == TLCEval(IdctN(f, N))
  IN IF dc THEN [s |-> [y \in 1..N |-> [x \in 1..N |-> smp]], x |-> N > 1, tame |-> Abs(dcv) <= MAXMAG,
                 vt |-> Abs(dcv) <= VECMAG]
     ELSE IF \A k \in 1..64 : Abs(blk[k]) <= MAXMAG /\ LowMag(f, N) <= MAXMAG
     THEN [s |-> r.s, x |-> FALSE, tame |-> TRUE, vt |-> r.vt]
     ELSE [s |-> [y \in 1..N |-> [x \in 1..N |-> 0]], x |-> FALSE, tame |-> FALSE, vt |-> FALSE]]
RenderBlock(blk, qt, N) == RenderBlockF[<<blk, qt, N>>]

(* The samples of a component: [r: ch rows of cw samples, x, tame, vt].    *)
RenderPlane(rows, qt, N, cw, ch) ==
  LET nbw == CeilDiv(cw, N)   nbh == CeilDiv(ch, N)
      blk == TLCEval([by \in 1..nbh |-> TLCEval([bx \in 1..nbw |-> RenderBlock(rows[by][bx], qt, N)])])
  IN [r |-> [y \in 1..ch |-> [x \in 1..cw |->
               blk[((y - 1) \div N) + 1][((x - 1) \div N) + 1].s[((y - 1) % N) + 1][((x - 1) % N) + 1]]],
      x |-> \A by \in 1..nbh, bx \in 1..nbw : blk[by][bx].x,
      tame |-> \A by \in 1..nbh, bx \in 1..nbw : blk[by][bx].tame,
      vt   |-> \A by \in 1..nbh, bx \in 1..nbw : blk[by][bx].vt]

-----------------------------------------------------------------------------
(* Upsampling.  pl: plane rows; (cw, ch) the component's size; y, 0-based, *)
(* the output line.  Yields a line of at least ow samples.                 *)
Tri(near, far) == (3 * near + far + 2) \div 4
(* the line that contributes 1/4 to output line y (ratio 2)                *)
FarRow(y, ch) == IF y % 2 = 0 THEN Max2((y \div 2) - 1, 0) ELSE Min2((y \div 2) + 1, ch - 1)

UpLineF == [arg \in Any |->
  LET pl == arg[1]  cw == arg[2]  ch == arg[3]  h == arg[4]  v == arg[5]  hmax == arg[6]  vmax == arg[7]
      ow == arg[8]  oh == arg[9]  y == arg[10]
      h1 == h = hmax \/ ow = 1    v1 == v = vmax \/ oh = 1
      h2 == 2 * h = hmax          v2 == 2 * v = vmax
      near == pl[(y \div 2) + 1]
      far == pl[FarRow(y, ch) + 1]
  IN CASE h1 /\ v1 -> pl[y + 1]
       [] ~h1 /\ h2 /\ v1 ->
            LET l == pl[y + 1] IN
            [x \in 1..(2 * cw) |->
              LET i == (x + 1) \div 2 IN
              IF x = 1 \/ x = 2 * cw THEN l[i]
              ELSE Tri(l[i], IF x % 2 = 1 THEN l[i - 1] ELSE l[i + 1])]
       [] h1 /\ ~v1 /\ v2 -> [x \in 1..ow |-> Tri(near[x], far[x])]
       [] ~h1 /\ h2 /\ ~v1 /\ v2 ->
            [x \in 1..(2 * cw) |->
              LET i == (x + 1) \div 2
                  t(k) == 3 * near[k] + far[k] IN
              IF x = 1 \/ x = 2 * cw THEN (t(i) + 2) \div 4
              ELSE (3 * t(i) + t(IF x % 2 = 1 THEN i - 1 ELSE i + 1) + 8) \div 16]
       [] OTHER ->
            LET l == pl[(y \div (vmax \div v)) + 1] IN
            [x \in 1..(cw * (hmax \div h)) |-> l[((x - 1) \div (hmax \div h)) + 1]]]
UpLine(pl, cw, ch, h, v, hmax, vmax, ow, oh, y) == UpLineF[<<pl, cw, ch, h, v, hmax, vmax, ow, oh, y>>]

-----------------------------------------------------------------------------
(* Colour.  BT.601 full range, in 16-bit fixed point, rounded.             *)
YccR(y, cr)     == Clamp8((65536 * y + 91881 * (cr - 128) + 32768) \div 65536)
YccG(y, cb, cr) == Clamp8((65536 * y - 22554 * (cb - 128) - 46802 * (cr - 128) + 32768) \div 65536)
YccB(y, cb)     == Clamp8((65536 * y + 116130 * (cb - 128) + 32768) \div 65536)

(* One output line from the upsampled component lines L (a sequence of nc  *)
(* lines): the nominal value of byte k, 1-based.                           *)
OutByte(ct, L, nc, ow, k) ==
  LET x == ((k - 1) \div nc) + 1   c == ((k - 1) % nc) + 1
      ycc == CASE c = 1 -> YccR(L[1][x], L[3][x])
               [] c = 2 -> YccG(L[1][x], L[2][x], L[3][x])
               [] OTHER -> YccB(L[1][x], L[2][x])
  IN CASE nc = 1 -> L[1][k]
       [] ct = "None"  -> L[((k - 1) \div ow) + 1][((k - 1) % ow) + 1]
       [] ct = "RGB"   -> L[c][x]
       [] ct = "YCbCr" -> ycc
       [] ct = "CMYK"  -> 255 - L[c][x]
       [] OTHER        -> IF c = 4 THEN 255 - L[4][x] ELSE ycc        \* YCCK

(* a whole line *)
OutLineF == [arg \in Any |->
  LET ct == arg[1]  L == arg[2]  nc == arg[3]  ow == arg[4]
  IN TLCEval([k \in 1..(ow * nc) |-> OutByte(ct, L, nc, ow, k)])]
OutLine(ct, L, nc, ow) == OutLineF[<<ct, L, nc, ow>>]

(* The transform the documentation prescribes.                             *)
ChooseTransform(user, comps, jfif, adobe) ==
  LET nc == Len(comps)
      ids == [i \in 1..nc |-> comps[i].id]
  IN IF user # "auto" THEN user
     ELSE IF nc = 1 THEN "Grayscale"
     ELSE IF nc = 3
     THEN CASE ids = <<1, 2, 3>> -> "YCbCr"
            [] ids = <<1, 34, 35>> -> "JcsBgYcc"
            [] ids = <<82, 71, 66>> -> "RGB"
            [] ids = <<114, 103, 98>> -> "JcsBgRgb"
            [] jfif -> "YCbCr"
            [] adobe = 0 -> "RGB"
            [] adobe = 2 -> "YCCK"
            [] OTHER -> "YCbCr"
     ELSE CASE adobe = 1 -> "YCbCr"
            [] adobe = 2 -> "YCCK"
            [] OTHER -> "CMYK"

(* The error, if any, of applying it to nc components.                     *)
TransformErr(ct, nc) ==
  IF nc = 1 THEN {}
  ELSE CASE ct = "None" -> {}
         [] ct \in {"RGB", "YCbCr"} -> If1(nc # 3, FMT)
         [] ct \in {"CMYK", "YCCK"} -> If1(nc # 4, FMT)
         [] ct \in {"JcsBgYcc", "JcsBgRgb"} -> {UNS("ColorTransform(" \o ct \o ")")}
         [] OTHER -> {FMT}

(* Tolerance of an output byte, given the tolerance t of the samples.      *)
ColorTol(ct, t, simd) ==
  IF ct \in {"YCbCr", "YCCK"}
  THEN (CASE t = 0 -> 1 [] t = 1 -> 4 [] t = 2 -> 7 [] OTHER -> 3 * t + 1)
  ELSE t
=============================================================================

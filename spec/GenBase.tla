------------------------------ MODULE GenBase -------------------------------
(***************************************************************************)
(* Common to all bounded models: the streams they start from, given as     *)
(* lists of segments, and the form of a generated history.                 *)
(***************************************************************************)
EXTENDS JpegEncode, IOUtils, FiniteSetsExt

Tier == IF "JPEG_TIER" \in DOMAIN IOEnv THEN IOEnv.JPEG_TIER ELSE "quick"
Quick == Tier = "quick"

H(e, ch, chk, calls, b) == [e |-> e, ch |-> ch, chk |-> chk, calls |-> calls, b |-> b]
D(chk, b) == H(EOFERR, "a", chk, "decode", b)
Cat_(segs) == FlattenSeq(segs)

Q1 == Const64(1)
(* AC symbols of the small models: EOB, ZRL, and a few run/size pairs      *)
AcSmall == Flat(5, <<0, 240, 1, 2, 3, 4, 5, 17, 18, 19, 33, 34, 49, 50, 65, 81, 97, 113, 129, 145, 161, 177, 193, 209, 225, 241>>)
(* and of the progressive ones: also EOB runs                              *)
AcProg == Flat(6, <<0, 240, 1, 2, 3, 4, 5, 17, 18, 19, 33, 34, 49, 50, 65, 66, 81, 82, 97, 113, 129, 145, 161, 177, 193, 209, 225, 241,
                    16, 32, 48, 64, 80, 96, 112>>)
AcTiny == Flat(2, <<0, 1, 240>>)

(* quantization with a distinct value everywhere *)
QRamp(a, m) == [i \in 1..64 |-> a + (i % m)]

C1 == <<<<1, 1, 1, 0>>>>
Gray(m, W, Hh) == Sof(m, 8, W, Hh, C1)

(* grey blocks with the given DC values, in one row *)
DcRow(vals) == << << [i \in 1..Len(vals) |-> Zz(0 :> vals[i])] >> >>
ScanSeq(sel) == [sel |-> sel, ss |-> 0, se |-> 63, ah |-> 0, al |-> 0]

(* ---- base streams: sequences of segments --------------------------------- *)
B1img == << << <<Zz((0 :> 40) @@ (1 :> 3) @@ (2 :> -2)), Zz((0 :> -60) @@ (5 :> 1))>> >> >>
B1sof == Gray(192, 16, 8)
B1 == << SOI, Jfif, Com(<<1, 255, 216>>), Dqt8(0, QRamp(2, 5)), Dri(1), B1sof, Dht(0, 0, DcT), Dht(1, 0, AcSmall),
         Sos(<<<<1, 0, 0>>>>, 0, 63, 0, 0)
           \o Join_(Intervals(FrameOf(B1sof), B1img, ScanSeq(<<1>>), 1, <<DcT>>, <<AcSmall>>, 1)), EOI >>


B2sof == Sof(192, 8, 16, 16, <<<<1, 2, 2, 0>>, <<2, 1, 1, 1>>, <<3, 1, 1, 1>>>>)
B2img == << << <<Zz(0 :> 30), Zz(0 :> -20)>>, <<Zz(0 :> 5), Zz((0 :> 9) @@ (1 :> 2))>> >>,
            << <<Zz(0 :> -7)>> >>, << <<Zz(0 :> 12)>> >> >>
B2 == << SOI, Adobe(1), Dqt8(0, Const64(3)), Dqt8(1, Const64(2)), B2sof, Dht(0, 0, DcT), Dht(1, 0, AcSmall),
         Sos(<<<<1, 0, 0>>, <<2, 0, 0>>, <<3, 0, 0>>>>, 0, 63, 0, 0)
           \o Join_(Intervals(FrameOf(B2sof), B2img, ScanSeq(<<1, 2, 3>>), 0, <<DcT, DcT, DcT>>, <<AcSmall, AcSmall, AcSmall>>, 1)),
         EOI >>

ProgScan(ss, se, ah, al, n) ==
  [sel |-> IF n = 1 THEN <<1>> ELSE [i \in 1..n |-> i], ss |-> ss, se |-> se, ah |-> ah, al |-> al]
(* a progressive scan of component 1 with tables dt, at *)
PScan(fr, img, ss, se, ah, al, ri, maxrun) ==
  Sos(<<<<1, 0, 0>>>>, ss, se, ah, al)
    \o Join_(Intervals(fr, img, ProgScan(ss, se, ah, al, 1), ri, <<DcT>>, <<AcProg>>, maxrun))

B3sof == Gray(194, 16, 8)
B3img == << << <<Zz((0 :> 41) @@ (1 :> 7) @@ (2 :> -3) @@ (20 :> 1)), Zz((0 :> -60) @@ (5 :> 1) @@ (6 :> -6))>> >> >>
B3 == << SOI, Dqt8(0, Const64(2)), B3sof, Dht(0, 0, DcT), Dht(1, 0, AcProg),
         PScan(FrameOf(B3sof), B3img, 0, 0, 0, 1, 0, 1),
         PScan(FrameOf(B3sof), B3img, 1, 63, 0, 1, 0, 9),
         PScan(FrameOf(B3sof), B3img, 0, 0, 1, 0, 0, 1),
         PScan(FrameOf(B3sof), B3img, 1, 63, 1, 0, 0, 9), EOI >>

LossT == Flat(5, <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>)
LossFrame(prec, W, Hh, n) == Sof(195, prec, W, Hh, [i \in 1..n |-> <<i, 1, 1, 0>>])
LScan(fr, smp, sel, ss, al, ri) ==
  Sos([i \in 1..Len(sel) |-> <<sel[i], 0, 0>>], ss, 0, 0, al)
    \o Join_(LosslessIntervals(fr, smp, sel, ss, al, ri, [i \in 1..Len(sel) |-> LossT]))
B4sof == LossFrame(8, 3, 2, 1)
B4img == << << <<200, 13, 255>>, <<0, 17, 128>> >> >>
B4 == << SOI, B4sof, Dht(0, 0, LossT), Dri(3), LScan(FrameOf(B4sof), B4img, <<1>>, 4, 0, 3), EOI >>

(* three components in three scans, with Exif, XMP and an ICC profile *)
B5sof == Sof(193, 8, 8, 8, <<<<1, 1, 1, 0>>, <<2, 1, 1, 2>>, <<3, 1, 1, 2>>>>)
B5img == << << <<Zz(0 :> 33)>> >>, << <<Zz((0 :> -5) @@ (1 :> 1))>> >>, << <<Zz(0 :> 250)>> >> >>
B5scan(k) == Sos(<<<<k, 2, 3>>>>, 0, 63, 0, 0)
               \o Join_(Intervals(FrameOf(B5sof), B5img, ScanSeq(<<k>>), 0, <<DcT>>, <<AcSmall>>, 1))
B5 == << SOI, Exif(<<1, 2, 3>>), Icc(2, 2, <<5>>), Dqt16(2, Const64(2)), Icc(1, 2, <<9, 8>>), Dqt8(0, Q1), B5sof,
         Dht(0, 2, DcT), Dht(1, 3, AcSmall), B5scan(1), Xmp(<<65>>), B5scan(2), B5scan(3), EOI >>

Bases == <<B1, B2, B3, B4, B5>>
=============================================================================

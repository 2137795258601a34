---------------------------- MODULE JpegHuffman -----------------------------
(***************************************************************************)
(* T.81 Annex C: canonical Huffman codes, and the decoding procedure F.16  *)
(* stated as a property of the code (the unique codeword that prefixes the *)
(* bit string), not as the lookup tables an implementation may use.        *)
(***************************************************************************)
EXTENDS JpegBase

(* firstCode(l), and the left-aligned exclusive upper bound of all codes   *)
(* of length <= l, for a list of 16 code-length counts.                    *)
CodeInfo(counts) ==
  LET step(acc, l) ==
        LET first == acc.code * 2                  \* next code, at length l
            n     == counts[l]
        IN [ code  |-> first + n,
             idx   |-> acc.idx + n,
             over  |-> acc.over \/ (n > 0 /\ first + n > Pow2(l)),
             first |-> Append(acc.first, first),
             start |-> Append(acc.start, acc.idx),
             lim   |-> Append(acc.lim, IF acc.over \/ first + n > Pow2(l)
                                       THEN 65536
                                       ELSE (first + n) * Pow2(16 - l)) ]
  IN FoldLeft(step, [code |-> 0, idx |-> 0, over |-> FALSE,
                     first |-> <<>>, start |-> <<>>, lim |-> <<>>],
              <<1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16>>)

(* A table is well formed iff its counts describe a prefix code.           *)
CountsOk(counts) == LET s == SumSeq(counts) IN
                    /\ s \in 1..256
                    /\ ~CodeInfo(counts).over

MkTable(counts, vals) ==
  LET ci == CodeInfo(counts)
  IN [first |-> ci.first, start |-> ci.start, lim |-> ci.lim, vals |-> vals]

(* Decode the codeword at the front of the 16-bit window v:                *)
(* <<length, value>>, or <<0, 0>> when no codeword is a prefix of v.       *)
HuffDecode(t, v) ==
  IF v >= t.lim[16] THEN <<0, 0>>
  ELSE LET l == CHOOSE l \in 1..16 : v < t.lim[l] /\ (l = 1 \/ v >= t.lim[l - 1])
       IN <<l, t.vals[(v \div Pow2(16 - l)) - t.first[l] + t.start[l] + 1]>>

(* F.2.2.1 EXTEND *)
Extend(v, n) == IF v < Pow2(n - 1) THEN v - Pow2(n) + 1 ELSE v

-----------------------------------------------------------------------------
(* T.81 K.3.3, the tables an AVI1 (Motion-JPEG) stream may leave out.      *)
K3counts == <<0,1,5,1,1,1,1,1,1,0,0,0,0,0,0,0>>
K4counts == <<0,3,1,1,1,1,1,1,1,1,1,0,0,0,0,0>>
DcVals   == <<0,1,2,3,4,5,6,7,8,9,10,11>>
K5counts == <<0,2,1,3,3,2,4,3,5,5,4,4,0,0,1,125>>
K5vals == <<
  1,2,3,0,4,17,5,18,33,49,65,6,19,81,97,7,34,113,20,50,129,145,161,8,35,66,177,193,21,82,209,240,
  36,51,98,114,130,9,10,22,23,24,25,26,37,38,39,40,41,42,52,53,54,55,56,57,58,67,68,69,70,71,72,73,
  74,83,84,85,86,87,88,89,90,99,100,101,102,103,104,105,106,115,116,117,118,119,120,121,122,131,132,133,134,135,136,137,
  138,146,147,148,149,150,151,152,153,154,162,163,164,165,166,167,168,169,170,178,179,180,181,182,183,184,185,186,194,195,196,197,
  198,199,200,201,202,210,211,212,213,214,215,216,217,218,225,226,227,228,229,230,231,232,233,234,241,242,243,244,245,246,247,248,
  249,250 >>
K6counts == <<0,2,1,2,4,4,3,4,7,5,4,4,0,1,2,119>>
K6vals == <<
  0,1,2,3,17,4,5,33,49,6,18,65,81,7,97,113,19,34,50,129,8,20,66,145,161,177,193,9,35,51,82,240,
  21,98,114,209,10,22,36,52,225,37,241,23,24,25,26,38,39,40,41,42,53,54,55,56,57,58,67,68,69,70,71,72,
  73,74,83,84,85,86,87,88,89,90,99,100,101,102,103,104,105,106,115,116,117,118,119,120,121,122,130,131,132,133,134,135,136,137,
  138,146,147,148,149,150,151,152,153,154,162,163,164,165,166,167,168,169,170,178,179,180,181,182,183,184,185,186,194,195,196,197,
  198,199,200,201,202,210,211,212,213,214,215,216,217,218,226,227,228,229,230,231,232,233,234,242,243,244,245,246,247,248,249,250 >>

MjpegDc == << MkTable(K3counts, DcVals), MkTable(K4counts, DcVals) >>
MjpegAc == << MkTable(K5counts, K5vals), MkTable(K6counts, K6vals) >>

ASSUME Len(K5vals) = 162 /\ Len(K6vals) = 162 /\ CountsOk(K5counts) /\ CountsOk(K6counts)
=============================================================================

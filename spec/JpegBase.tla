------------------------------ MODULE JpegBase ------------------------------
(***************************************************************************)
(* Integer and sequence helpers shared by all modules of the decoder       *)
(* specification.  Byte positions are 0-based offsets into the stream (the *)
(* unit in which the reader of the real decoder advances).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(a)     == IF a < 0 THEN -a ELSE a
CeilDiv(a, b) == (a + b - 1) \div b
Clamp8(x)  == IF x < 0 THEN 0 ELSE IF x > 255 THEN 255 ELSE x

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384,
        32768, 65536, 131072, 262144, 524288, 1048576>>
Pow2(n) == P2[n + 1]

(* two's complement wrap-around of an integer to 16 bits, signed/unsigned  *)
Wrap16(x)  == ((x + 32768) % 65536) - 32768
WrapU16(x) == x % 65536

(* the sequence <<a, a+1, .., b>> (empty when b < a)                       *)
Range2(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]

SeqMax(s) == FoldLeft(LAMBDA acc, x : Max2(acc, x), 0, s)
SumSeq(s) == FoldLeft(LAMBDA acc, x : acc + x, 0, s)

(* T.81 Figure A.6: natural-order index (0-based) of the k-th coefficient  *)
(* in zig-zag order (k 0-based, so ZigZag[k+1]).                           *)
ZigZag == <<
     0,  1,  8, 16,  9,  2,  3, 10,
    17, 24, 32, 25, 18, 11,  4,  5,
    12, 19, 26, 33, 40, 48, 41, 34,
    27, 20, 13,  6,  7, 14, 21, 28,
    35, 42, 49, 56, 57, 50, 43, 36,
    29, 22, 15, 23, 30, 37, 44, 51,
    58, 59, 52, 45, 38, 31, 39, 46,
    53, 60, 61, 54, 47, 55, 62, 63 >>

ASSUME ZigZagIsPermutation == { ZigZag[i] : i \in 1..64 } = 0..63

(* its inverse: UnZig[n + 1] is the zig-zag position (1-based) of natural  *)
(* index n                                                                 *)
UnZig == TLCEval([j \in 1..64 |-> CHOOSE k \in 1..64 : ZigZag[k] = j - 1])

ZeroBlock == << 0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0,
                0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0, 0,0,0,0,0,0,0,0 >>

NONE == [none |-> TRUE]      \* "absent" marker for optional records
IsNone(x) == "none" \in DOMAIN x
=============================================================================

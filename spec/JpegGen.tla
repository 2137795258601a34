------------------------------ MODULE JpegGen -------------------------------
(***************************************************************************)
(* The bounded models.  IOEnv.JPEG_MODEL chooses one; its plans are the    *)
(* initial states.  A step turns a plan into its histories, prints them    *)
(* for replay in the real decoder, and evaluates the model's theorem on    *)
(* the specification.                                                      *)
(***************************************************************************)
EXTENDS GenSyntax, GenCoding, GenOutput

VARIABLES plan, ph, thm
vars == <<plan, ph, thm>>
M == IOEnv.JPEG_MODEL

Plans == CASE M = "marker" -> marker_Plans
           [] M = "edit" -> edit_Plans
           [] M = "trunc" -> trunc_Plans
           [] M = "filler" -> filler_Plans
           [] M = "icc" -> icc_Plans
           [] M = "meta" -> meta_Plans
           [] M = "tables" -> tables_Plans
           [] M = "seq" -> seq_Plans
           [] M = "prog" -> prog_Plans
           [] M = "progq" -> progq_Plans
           [] M = "prog3" -> prog3_Plans
           [] M = "restart" -> restart_Plans
           [] M = "huff" -> huff_Plans
           [] M = "lossless" -> lossless_Plans
           [] M = "lossless3" -> lossless3_Plans
           [] M = "scale" -> scale_Plans
           [] M = "scaled" -> scaled_Plans
           [] M = "factors" -> factors_Plans
           [] M = "colour" -> colour_Plans
           [] M = "ycc" -> ycc_Plans
           [] M = "limits" -> limits_Plans
           [] M = "kinds" -> kinds_Plans
           [] M = "api" -> api_Plans
           [] M = "idct" -> idct_Plans
           [] M = "wide" -> wide_Plans
           [] M = "eobrun" -> eobrun_Plans
Hists(p) == CASE M = "marker" -> marker_H(p)
           [] M = "edit" -> edit_H(p)
           [] M = "trunc" -> trunc_H(p)
           [] M = "filler" -> filler_H(p)
           [] M = "icc" -> icc_H(p)
           [] M = "meta" -> meta_H(p)
           [] M = "tables" -> tables_H(p)
           [] M = "seq" -> seq_H(p)
           [] M = "prog" -> prog_H(p)
           [] M = "progq" -> progq_H(p)
           [] M = "prog3" -> prog3_H(p)
           [] M = "restart" -> restart_H(p)
           [] M = "huff" -> huff_H(p)
           [] M = "lossless" -> lossless_H(p)
           [] M = "lossless3" -> lossless3_H(p)
           [] M = "scale" -> scale_H(p)
           [] M = "scaled" -> scaled_H(p)
           [] M = "factors" -> factors_H(p)
           [] M = "colour" -> colour_H(p)
           [] M = "ycc" -> ycc_H(p)
           [] M = "limits" -> limits_H(p)
           [] M = "kinds" -> kinds_H(p)
           [] M = "api" -> api_H(p)
           [] M = "idct" -> idct_H(p)
           [] M = "wide" -> wide_H(p)
           [] M = "eobrun" -> eobrun_H(p)
Thm(p) == CASE M = "marker" -> marker_T(p)
           [] M = "edit" -> edit_T(p)
           [] M = "trunc" -> trunc_T(p)
           [] M = "filler" -> filler_T(p)
           [] M = "icc" -> icc_T(p)
           [] M = "meta" -> meta_T(p)
           [] M = "tables" -> tables_T(p)
           [] M = "seq" -> seq_T(p)
           [] M = "prog" -> prog_T(p)
           [] M = "progq" -> progq_T(p)
           [] M = "prog3" -> prog3_T(p)
           [] M = "restart" -> restart_T(p)
           [] M = "huff" -> huff_T(p)
           [] M = "lossless" -> lossless_T(p)
           [] M = "lossless3" -> lossless3_T(p)
           [] M = "scale" -> scale_T(p)
           [] M = "scaled" -> scaled_T(p)
           [] M = "factors" -> factors_T(p)
           [] M = "colour" -> colour_T(p)
           [] M = "ycc" -> ycc_T(p)
           [] M = "limits" -> limits_T(p)
           [] M = "kinds" -> kinds_T(p)
           [] M = "api" -> api_T(p)
           [] M = "idct" -> idct_T(p)
           [] M = "wide" -> wide_T(p)
           [] M = "eobrun" -> eobrun_T(p)
(* plans that are the states of a machine have successors *)
More(p) == CASE M = "prog" -> prog_More(p)
           [] M = "progq" -> progq_More(p)
           [] M = "prog3" -> prog3_More(p)
           [] OTHER -> {}

Out(h) == PrintT("GEN@" \o h.e \o "@" \o h.ch \o "@" \o h.chk \o "@" \o h.calls \o "@" \o ToString(h.b) \o "@")

Init == plan \in Plans /\ ph = 0 /\ thm = TRUE
Grow == ph = 0 /\ plan' \in More(plan) /\ ph' = 0 /\ thm' = TRUE
Replay == /\ ph = 0 /\ ph' = 1 /\ plan' = plan
          /\ LET hs == Hists(plan) IN \A k \in 1..Len(hs) : Out(hs[k])
          /\ thm' = Thm(plan)
Next == Grow \/ Replay
Inv == thm
=============================================================================

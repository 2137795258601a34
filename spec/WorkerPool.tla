----------------------------- MODULE WorkerPool -----------------------------
(***************************************************************************)
(* The workers that turn coefficients into samples, as a concurrent        *)
(* system.  The decoding thread walks through scans; for the components a  *)
(* scan completes it starts a worker (one per position in the scan), sends *)
(* it one message per row of MCUs, and collects the plane.  At the end it  *)
(* renders the components that no scan completed.                          *)
(*                                                                         *)
(* Three implementations of one interface are specified:                   *)
(*   "thread"     one thread per position, fed through a channel;          *)
(*   "pool"       rows are appended in place one at a time, the rows of    *)
(*                unfinished components are tasks of a scope that run in   *)
(*                any order and each own a slice of the plane;             *)
(*   "inplace"    everything happens in the decoding thread.               *)
(* Checked: whatever the interleaving, a collected plane consists of the   *)
(* rows of its own component in order, rendered with the table that was in *)
(* force when its scan started - so that the three agree - ; nobody sends  *)
(* to a thread that is gone; the decoding thread never waits for ever; and *)
(* every thread ends, also when a scan fails at any row.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, IOUtils

VARIABLES kind,     \* the implementation
          script,   \* the scans, chosen at the start
          si, ph, k, row,   \* where the decoding thread is
          qtab,     \* the current quantization table (a number)
          slots,    \* position -> the thread that serves it (0: none), or in-place state
          th,       \* threads: [q, open, tab, out, st]
          tasks,    \* of the current scope
          planes,   \* component -> <<>> or the rows collected
          want,     \* component -> table its rows must carry
          fail      \* the decoding thread gave up

vars == <<kind, script, si, ph, k, row, qtab, slots, th, tasks, planes, want, fail>>

NC == 2
Rows == 2
Comps == 1..NC
Kinds == {"thread", "pool", "inplace"}
(* a scan: the components it contains and those among them it completes    *)
Fins(cs) == IF cs = <<>> THEN {<<>>} ELSE [1..Len(cs) -> BOOLEAN]
ScanSet == UNION { { [cs |-> cs, fin |-> f] : f \in Fins(cs) } : cs \in { <<1>>, <<2>>, <<1, 2>> } }
FinOf(s) == { s.cs[i] : i \in { i \in 1..Len(s.cs) : s.fin[i] } }
Distinct(ss) == \A i, j \in 1..Len(ss) : i # j => FinOf(ss[i]) \cap FinOf(ss[j]) = {}
Scripts == { ss \in UNION { [1..n -> ScanSet] : n \in 1..2 } : Distinct(ss) }

None == [tab |-> 0, out |-> <<>>, comp |-> 0]
Init == /\ kind \in Kinds /\ script \in Scripts
        /\ si = 1 /\ ph = "start" /\ k = 1 /\ row = 1 /\ qtab = 1
        /\ slots = [i \in 1..NC |-> IF kind = "thread" THEN 0 ELSE None]
        /\ th = <<>> /\ tasks = {} /\ planes = [c \in Comps |-> <<>>] /\ want = [c \in Comps |-> 0]
        /\ fail = FALSE

(* ---- the decoding thread ------------------------------------------------ *)
Scan == script[si]
Live(t) == th[t].st # "dead"
Send(i, m) == [th EXCEPT ![slots[i]].q = Append(@, m)]

(* positions are started in order; a thread is spawned if there is none    *)
StartAt(i, c) ==
  /\ want' = [want EXCEPT ![c] = qtab]
  /\ IF kind = "thread"
     THEN IF slots[i] = 0
          THEN /\ th' = Append(th, [q |-> <<[m |-> "start", tab |-> qtab]>>, open |-> TRUE, tab |-> 0, out |-> <<>>, st |-> "run", reply |-> <<>>, has |-> FALSE])
               /\ slots' = [slots EXCEPT ![i] = Len(th) + 1]
          ELSE /\ Live(slots[i])
               /\ th' = Send(i, [m |-> "start", tab |-> qtab])
               /\ UNCHANGED slots
     ELSE /\ slots' = [slots EXCEPT ![i] = [tab |-> qtab, out |-> <<>>, comp |-> c]]
          /\ UNCHANGED th

Start == /\ ph = "start" /\ si <= Len(script)
         /\ IF k > Len(Scan.cs)
            THEN ph' = "rows" /\ k' = 1 /\ row' = 1 /\ UNCHANGED <<slots, th, want>>
            ELSE /\ k' = k + 1 /\ UNCHANGED <<ph, row>>
                 /\ IF Scan.fin[k] THEN StartAt(k, Scan.cs[k]) ELSE UNCHANGED <<slots, th, want>>
         /\ UNCHANGED <<kind, script, si, qtab, tasks, planes, fail>>

(* the table may be redefined between scans                                *)
Redefine == /\ ph = "start" /\ k = 1 /\ qtab < 3 /\ qtab <= si /\ qtab' = qtab + 1
            /\ UNCHANGED <<kind, script, si, ph, k, row, slots, th, tasks, planes, want, fail>>

(* one row of MCUs has been decoded: it goes to every completed component  *)
AppendAt(i, c) ==
  IF kind = "thread" THEN th' = Send(i, [m |-> "row", row |-> <<c, row>>]) /\ UNCHANGED slots
  ELSE slots' = [slots EXCEPT ![i].out = Append(@, <<c, row, slots[i].tab>>)] /\ UNCHANGED th
RowsStep ==
  /\ ph = "rows"
  /\ IF row > Rows THEN ph' = "collect" /\ k' = 1 /\ UNCHANGED <<slots, th, row>>
     ELSE IF k > Len(Scan.cs) THEN row' = row + 1 /\ k' = 1 /\ UNCHANGED <<slots, th, ph>>
     ELSE /\ k' = k + 1 /\ UNCHANGED <<ph, row>>
          /\ IF Scan.fin[k] THEN AppendAt(k, Scan.cs[k]) ELSE UNCHANGED <<slots, th>>
  /\ UNCHANGED <<kind, script, si, qtab, tasks, planes, want, fail>>

(* decoding fails in the middle of a scan: every channel closes            *)
Fail == /\ ph \in {"rows", "start"} /\ ~fail
        /\ fail' = TRUE /\ ph' = "done"
        /\ th' = [t \in 1..Len(th) |-> [th[t] EXCEPT !.open = FALSE]]
        /\ UNCHANGED <<kind, script, si, k, row, qtab, slots, tasks, planes, want>>

(* asking for the plane gives the sender away; the answer is waited for    *)
Ask(i) == /\ th' = [th EXCEPT ![slots[i]].q = Append(@, [m |-> "get"]), ![slots[i]].open = FALSE]
          /\ UNCHANGED slots
Take(i, c) ==
  IF kind = "thread"
  THEN /\ th[slots[i]].has
       /\ planes' = [planes EXCEPT ![c] = th[slots[i]].reply]
       /\ slots' = [slots EXCEPT ![i] = 0] /\ UNCHANGED th
  ELSE /\ planes' = [planes EXCEPT ![c] = slots[i].out]
       /\ slots' = [slots EXCEPT ![i] = None] /\ UNCHANGED th
Collect ==
  /\ ph = "collect"
  /\ IF k > Len(Scan.cs)
     THEN /\ k' = 1 /\ si' = si + 1 /\ ph' = IF si = Len(script) THEN "final" ELSE "start"
          /\ UNCHANGED <<slots, th, planes>>
     ELSE IF ~Scan.fin[k] THEN k' = k + 1 /\ UNCHANGED <<slots, th, planes, si, ph>>
     ELSE IF kind = "thread" /\ th[slots[k]].open THEN UNCHANGED <<k, si, ph, planes>> /\ Ask(k)
     ELSE k' = k + 1 /\ UNCHANGED <<si, ph>> /\ Take(k, Scan.cs[k])
  /\ UNCHANGED <<kind, script, row, qtab, tasks, want, fail>>

(* at the end: components that no scan completed, k counts components      *)
Final ==
  /\ ph = "final"
  /\ IF k > NC THEN ph' = "done" /\ UNCHANGED <<k, slots, th, want, row>>
     ELSE IF want[k] # 0 THEN k' = k + 1 /\ UNCHANGED <<ph, slots, th, want, row>>
     ELSE /\ StartAt(k, k) /\ ph' = "send" /\ row' = 1 /\ UNCHANGED k
  /\ UNCHANGED <<kind, script, si, qtab, tasks, planes, fail>>
(* the pool gets all rows at once and runs them in any order               *)
SendAll ==
  /\ ph = "send"
  /\ IF kind = "pool"
     THEN /\ tasks' = { <<k, r>> : r \in 1..Rows } /\ ph' = "scope"
          /\ slots' = [slots EXCEPT ![k].out = [r \in 1..Rows |-> <<0, 0, 0>>]]
          /\ UNCHANGED <<th, row>>
     ELSE IF row > Rows THEN ph' = "fetch" /\ UNCHANGED <<slots, th, row, tasks>>
     ELSE row' = row + 1 /\ AppendAt(k, k) /\ UNCHANGED <<ph, tasks>>
  /\ UNCHANGED <<kind, script, si, k, qtab, planes, want, fail>>
Task == /\ ph = "scope" /\ tasks # {}
        /\ \E t \in tasks : /\ slots' = [slots EXCEPT ![t[1]].out[t[2]] = <<t[1], t[2], slots[t[1]].tab>>]
                            /\ tasks' = tasks \ {t}
        /\ UNCHANGED <<kind, script, si, ph, k, row, qtab, th, planes, want, fail>>
Scope == /\ ph = "scope" /\ tasks = {} /\ ph' = "fetch"
         /\ UNCHANGED <<kind, script, si, k, row, qtab, slots, th, tasks, planes, want, fail>>
Fetch ==
  /\ ph = "fetch"
  /\ IF kind = "thread" /\ th[slots[k]].open THEN Ask(k) /\ UNCHANGED <<ph, k, planes>>
     ELSE Take(k, k) /\ ph' = "final" /\ k' = k + 1
  /\ UNCHANGED <<kind, script, si, row, qtab, tasks, want, fail>>

Main == Start \/ Redefine \/ RowsStep \/ Collect \/ Final \/ SendAll \/ Scope \/ Fetch

(* ---- the threads --------------------------------------------------------- *)
Worker(t) ==
  /\ th[t].st = "run"
  /\ IF th[t].q # <<>>
     THEN LET m == Head(th[t].q)   rest == [th[t] EXCEPT !.q = Tail(@)] IN
          th' = [th EXCEPT ![t] =
            CASE m.m = "start" -> [rest EXCEPT !.tab = m.tab, !.out = <<>>]
              [] m.m = "row"   -> [rest EXCEPT !.out = Append(@, m.row \o <<th[t].tab>>)]
              [] OTHER         -> [rest EXCEPT !.reply = th[t].out, !.has = TRUE, !.st = "dead"]]
     ELSE /\ ~th[t].open
          /\ th' = [th EXCEPT ![t].st = "dead"]
  /\ UNCHANGED <<kind, script, si, ph, k, row, qtab, slots, tasks, planes, want, fail>>
Workers == \E t \in 1..Len(th) : Worker(t)

Ended == ph = "done" /\ \A t \in 1..Len(th) : th[t].st = "dead"
Next == Main \/ Fail \/ Task \/ Workers \/ (Ended /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ WF_vars(Task) /\ \A t \in 1..4 : WF_vars(t <= Len(th) /\ Worker(t))

-----------------------------------------------------------------------------
Plane(c) == [r \in 1..Rows |-> <<c, r, want[c]>>]
PlanesRight == \A c \in Comps : planes[c] # <<>> => planes[c] = Plane(c)
AllPlanes == (ph = "done" /\ ~fail) => \A c \in Comps : planes[c] = Plane(c)
(* one live thread per position at most, and senders lead to live threads  *)
NoDeadSend == kind = "thread" =>
  \A i \in 1..NC : slots[i] # 0 => (th[slots[i]].st = "run" \/ ~th[slots[i]].open)
OneEach == kind = "thread" => \A i, j \in 1..NC : slots[i] # 0 /\ i # j => slots[i] # slots[j]
Bounded == Cardinality({ t \in 1..Len(th) : th[t].st = "run" /\ th[t].open }) <= NC
Inv == PlanesRight /\ AllPlanes /\ NoDeadSend /\ OneEach /\ Bounded
Ends == <>Ended
=============================================================================

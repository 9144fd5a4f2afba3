--------------------------- MODULE ReassembleCases ---------------------------
(* Every case of MCReassemble, written to the file OUT for the harness:      *)
(* shape of every chunk, and after how many chunks the stream fails.         *)
EXTENDS MCReassemble, Json, IOUtils, SequencesExt
VARIABLE done
CInit == Init /\ done = FALSE
\* one state is enough
One == [shape |-> <<[p \in Pools |-> 0]>>, avail |-> 0]
GInit == shape = One.shape /\ avail = 0 /\ i = 1 /\ pools = <<>> /\ out = <<>> /\ reads = 0 /\ done = FALSE
All == SetToSeq({[shape |-> s, avail |-> a] : s \in {x \in Cases : TRUE}, a \in 0..MaxChunks})
GNext == /\ ~done
         /\ done' = JsonSerialize(IOEnv.OUT, SelectSeq(All, LAMBDA c : c.avail <= Len(c.shape)))
         /\ UNCHANGED vars
GSpec == GInit /\ [][GNext]_<<vars, done>>
Fine == [][done']_<<vars, done>>
=============================================================================

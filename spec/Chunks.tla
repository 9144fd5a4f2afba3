-------------------------------- MODULE Chunks --------------------------------
(***************************************************************************)
(* How a profile travels from the server to a matchmaking function.        *)
(*                                                                         *)
(* A request  [name, ext, pools]: pools is a function from pool keys to    *)
(* [spec, tix]: spec names everything about the pool that is to be passed  *)
(* on unchanged, tix is the set of tickets in it.                          *)
(* A chunk    [n, name, ext, pools]: n is the announced number of chunks,  *)
(* pools a function from pool keys to [spec, tix] with tix a sequence.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions

Limit == 4194304    \* what a gRPC peer receives by default

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
SetOf(s) == {s[k] : k \in DOMAIN s}

Keys(chunks) == UNION {DOMAIN chunks[k].pools : k \in DOMAIN chunks}
First(chunks, p) == CHOOSE k \in DOMAIN chunks : p \in DOMAIN chunks[k].pools /\ \A j \in 1..(k - 1) : p \notin DOMAIN chunks[j].pools

\* What a function makes of the chunks it received: all of the pools, each with all of its tickets.
Reassembled(chunks) ==
  [ name  |-> chunks[Len(chunks)].name,
    ext   |-> chunks[Len(chunks)].ext,
    pools |-> [p \in Keys(chunks) |->
       [ spec |-> chunks[First(chunks, p)].pools[p].spec,
         tix  |-> Cat([k \in DOMAIN chunks |-> IF p \in DOMAIN chunks[k].pools THEN chunks[k].pools[p].tix ELSE <<>>]) ]] ]

\* The chunks are a legal way of sending the request.
\* opt: keys of pools that may be left out (they are not valid), and then have no tickets.
Announced(chunks)      == \A k \in DOMAIN chunks : chunks[k].n = Len(chunks)
WholeProfile(r, chunks, opt) ==
  \A k \in DOMAIN chunks :
     /\ chunks[k].name = r.name /\ chunks[k].ext = r.ext
     /\ DOMAIN chunks[k].pools \subseteq DOMAIN r.pools
     /\ DOMAIN r.pools \ opt \subseteq DOMAIN chunks[k].pools
     /\ \A p \in DOMAIN chunks[k].pools : chunks[k].pools[p].spec = r.pools[p].spec
Exact(r, chunks) ==
  LET a == Reassembled(chunks)
  IN \A p \in DOMAIN r.pools :
       IF p \in DOMAIN a.pools THEN SetOf(a.pools[p].tix) = r.pools[p].tix /\ Cardinality(SetOf(a.pools[p].tix)) = Len(a.pools[p].tix)
       ELSE r.pools[p].tix = {}
=============================================================================

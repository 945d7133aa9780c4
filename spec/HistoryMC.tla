-------------------------------- MODULE HistoryMC --------------------------------
(* Purity.  A client owns one mutable object and calls a server function on it with  *)
(* one of a few options, may change the object between calls and may overwrite the   *)
(* results it was handed.  Server is the implementation design:                      *)
(*   "pure"      computes from the arguments,                                        *)
(*   "key"       keeps a cache whose key leaves something out of the option,         *)
(*   "identity"  keeps a cache keyed by the object's identity,                       *)
(*   "alias"     hands out the object kept in its (complete) cache,                  *)
(*   "buffer"    computes every result in one scratch array and hands that out,      *)
(*   "inplace"   works in the caller's object.                                       *)
(* Pure holds of "pure" only; the other designs are the ways a history can show, and *)
(* the observations that reveal them are the clauses of C28.                         *)
EXTENDS Naturals, Sequences
CONSTANTS Server, MaxCalls
Opts == {1, 2, 3}
Contents == {10, 20}
F0(o, c) == o * 100 + c                       \* the mathematical function
Coarse(o) == IF o = 3 THEN 2 ELSE o           \* what an insufficient key keeps of the option
VARIABLES obj, heap, res, cache, calls, base
hvars == <<obj, heap, res, cache, calls, base>>
\* heap: result cells; res: handles given to the client, with what was in them when returned
HInit == obj \in Contents /\ heap = <<>> /\ res = <<>> /\ cache = <<>> /\ calls = 0 /\ base = <<>>
Key(o) == CASE Server = "key" -> <<Coarse(o), obj>> [] Server = "identity" -> <<o, "obj">> [] Server = "alias" -> <<o, obj>> [] OTHER -> <<>>
Hits(k) == {n \in 1..Len(cache) : cache[n].k = k}
\* what a call returns: a cell of the heap
Call(o) ==
  /\ calls < MaxCalls /\ calls' = calls + 1
  /\ LET want == F0(o, obj)  k == Key(o) IN
     /\ base' = Append(base, want)
     /\ CASE Server \in {"key", "identity", "alias"} ->
               (IF Hits(k) # {}
                THEN LET n == CHOOSE n \in Hits(k) : TRUE IN
                     IF Server = "alias" THEN /\ res' = Append(res, [cell |-> cache[n].cell, seen |-> heap[cache[n].cell]]) /\ UNCHANGED <<heap, cache>>
                     ELSE /\ heap' = Append(heap, cache[n].v) /\ res' = Append(res, [cell |-> Len(heap) + 1, seen |-> cache[n].v]) /\ UNCHANGED cache
                ELSE /\ heap' = Append(heap, want) /\ res' = Append(res, [cell |-> Len(heap) + 1, seen |-> want])
                     /\ cache' = Append(cache, [k |-> k, v |-> want, cell |-> Len(heap) + 1]))
          [] Server = "buffer" -> /\ heap' = IF heap = <<>> THEN <<want>> ELSE [heap EXCEPT ![1] = want]
                                  /\ res' = Append(res, [cell |-> 1, seen |-> want]) /\ UNCHANGED cache
          [] OTHER -> /\ heap' = Append(heap, want) /\ res' = Append(res, [cell |-> Len(heap) + 1, seen |-> want]) /\ UNCHANGED cache
     /\ obj' = IF Server = "inplace" THEN obj + 1 ELSE obj
\* what the client may do to what it owns
PokeObj == /\ obj' \in Contents /\ obj' # obj /\ UNCHANGED <<heap, res, cache, calls, base>>
PokeRes == \E n \in 1..Len(res) : /\ heap[res[n].cell] # 7 /\ heap' = [heap EXCEPT ![res[n].cell] = 7] /\ UNCHANGED <<obj, res, cache, calls, base>>
HNext == (\E o \in Opts : Call(o)) \/ PokeObj \/ PokeRes
HSpec == HInit /\ [][HNext]_hvars
\* every result, when handed out, is the function of the arguments; the object is only changed by the client;
\* a result is only changed by the client
Results == \A n \in 1..Len(res) : res[n].seen = base[n]
Object == obj \in Contents
Stable == \A n \in 1..Len(res) : heap[res[n].cell] \in {res[n].seen, 7}
Private == \A m, n \in 1..Len(res) : m # n => res[m].cell # res[n].cell
==================================================================================

--------------------------------- MODULE GenBase ---------------------------------
(* Scenario generation: the client.  A scenario is built by choosing one parameter *)
(* after the other; TLC resolves the choices (exhaustively, or with -simulate and  *)
(* a seed) and every completed scenario is exported for replay on the real code.   *)
EXTENDS Naturals, Sequences, TLC, Flt

CONSTANTS Plan,             \* sequence of parameter names
          Choice(_, _),     \* name, partial scenario |-> set of values
          Session(_)        \* complete scenario |-> sequence of sessions to replay
VARIABLES cfg, todo
GInit == cfg = [z |-> 0] /\ todo = Plan
Choose == /\ todo # <<>>
          /\ \E v \in Choice(Head(todo), cfg) : cfg' = (Head(todo) :> v) @@ cfg
          /\ todo' = Tail(todo)
Export == /\ todo = <<>>
          /\ LET ss == Session(cfg) IN \A n \in 1..Len(ss) : EmitTo(Env("CASES"), ss[n])
          /\ todo' = <<"done">> /\ cfg' = [z |-> 1] @@ cfg
GNext == (todo # <<"done">> /\ Choose) \/ Export
GSpec == GInit /\ [][GNext]_<<cfg, todo>>
====================================================================================

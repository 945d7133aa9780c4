--------------------------------- MODULE Harness ---------------------------------
(* Trace validation.  Trace is a sequence of sessions recorded from the real code: *)
(*   [id, kind, calls: <<[fn, a, out, model]>>, ...scenario fields]                *)
(* For every call marked `model` the machine of Spafe runs from the recorded       *)
(* arguments to the specified result, one transition per stage; then the session   *)
(* is judged: every clause of the property is evaluated on what was recorded       *)
(* (calls[k].out) and on what was specified (e[k]).  Verdicts are total: a clause  *)
(* that cannot be evaluated on a malformed result counts as failed.                *)
EXTENDS Spafe

CONSTANT Clauses(_, _)        \* session, expectations |-> sequence of [n, ok]

Trace == LoadTrace(Env("TRACE"))

VARIABLES i,      \* session
          k,      \* call within the session
          pc,     \* remaining stages of the current call
          d,      \* data of the current call
          e       \* specified results of the calls so far
vars == <<i, k, pc, d, e>>
View == <<i, k, pc>>

Idle == <<"idle">>
S == Trace[i]
Call == S.calls[k]

Init == i \in 1..Len(Trace) /\ k = 1 /\ pc = Idle /\ d = <<>> /\ e = <<>>

Modelled(c) == Has(c, "model") /\ c.model

Begin == /\ pc = Idle /\ k <= Len(S.calls) /\ Modelled(Call)
         /\ pc' = Route(Call.fn) /\ d' = Start(Call)
         /\ UNCHANGED <<i, k, e>>
Skip  == /\ pc = Idle /\ k <= Len(S.calls) /\ ~Modelled(Call)
         /\ k' = k + 1 /\ e' = Append(e, [none |-> TRUE])
         /\ UNCHANGED <<i, pc, d>>

Do(st) == /\ pc # Idle /\ pc # <<>> /\ Head(pc) = st
          /\ d' = LET r == Guarded(LAMBDA z : Stage(st, Call.fn, Full(Call), d))
                  IN IF IsStr(r) THEN [exc |-> "unevaluable", why |-> r] ELSE r
          /\ pc' = IF Has(d', "exc") THEN <<>> ELSE Tail(pc)
          /\ UNCHANGED <<i, k, e>>

Return == /\ pc = <<>>
          /\ e' = Append(e, d) /\ k' = k + 1 /\ pc' = Idle /\ d' = <<>>
          /\ UNCHANGED i

Verdict == LET cs == Clauses(S, e)
               r == Map(cs, LAMBDA c : [n |-> c.n, ok |-> IsTrue(c.ok)])
           IN [id |-> S.id, bad |-> SelectSeq(cs, LAMBDA c : ~IsTrue(c.ok)), n |-> Len(cs)]
Judge == /\ pc = Idle /\ k = Len(S.calls) + 1
         /\ EmitTo(Env("OUT"), LET v == Guarded(LAMBDA z : Verdict) IN
                               IF IsStr(v) THEN [id |-> S.id, bad |-> <<[n |-> "unevaluable", ok |-> v]>>, n |-> 1] ELSE v)
         /\ k' = k + 1 /\ UNCHANGED <<i, pc, d, e>>

Next == Begin \/ Skip \/ (\E st \in Stages : Do(st)) \/ Return \/ Judge
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- design invariants
\* They hold of the specified behaviour at every stage of every recorded call.
Done(st) == pc # Idle /\ ~Has(d, "exc") /\ LET r == Route(Call.fn) IN
            \E n \in 1..Len(r) : r[n] = st /\ Len(pc) = Len(r) - n
A == Full(Call)
DesignOk ==
  /\ Done("frame") => /\ N(d.x) = FrameCount(N(Call.a.sig), WinLen(A), WinHop(A)) \/ N(d.x) >= 0
                      /\ (N(d.x) - 1) * WinHop(A) + WinLen(A) <= N(Call.a.sig)
                      /\ N(d.x) * WinHop(A) + WinLen(A) > N(Call.a.sig)
  /\ Done("power") => AllGe(d.x, F(0))
  /\ Done("anypower") => AllGe(d.x, F(0))
  \* Parseval on the two-sided spectrum when the frame fits
  /\ (Done("power") /\ WinLen(A) <= A.nfft /\ A.nfft % 2 = 0) =>
       \A m \in {1, N(d.x)} :
          LET p == d.x[m]  two == (F(2) (.) Sum(p)) (-) (At(p, 0) (+) At(p, N(p) - 1)) IN
          CloseE(two, Dot(d.fr[m], d.fr[m]), D("1e-9"), D("1e-280"))
  /\ (Done("phase")) => AllGe(d.x, F(0)) /\ AllLe(d.x, F(360))
  /\ (Done("bank") /\ ~Has(Call.a, "fbanks")) => AllGe(d.x, F(0))
  /\ Done("envelope") => AllGe(d.le, F(0))
  /\ Done("rectify") => AllGe(d.Q0, F(0))
  /\ Done("mask") => AllGe(d.tm, F(0))
  /\ Done("switch") => AllGe(d.R, F(0))
  /\ Done("smooth") => AllGe(d.S, F(0))
  /\ Done("meanpower") => AllGe(d.x, F(0))
  /\ Done("predict") => \A m \in 1..N(d.lp) : F(0) \preceq d.lp[m].e
====================================================================================

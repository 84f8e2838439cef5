------------------------------- MODULE Agree -------------------------------
(* Do the algorithm models (Differ, Merger, Applier, Reader) compute what   *)
(* the code computes?  Recorded sessions are followed without any contract  *)
(* and every small call is computed again by its model.  What differs is    *)
(* counted and printed, never judged: another algorithm may do as well.     *)
EXTENDS Trace

M == INSTANCE Merger
A == INSTANCE Applier
R == INSTANCE Reader

Base == Len(Traces)
Kinds == <<"diff", "merge", "apply", "parse", "print", "rev">>
Small(n, ts) == FoldLeft(LAMBDA acc, x : acc + Len(x), 0, ts) <= n

(* <<kind, computed, agreed>> of a step, or <<>> *)
Redo(x) ==
  CASE x.op = "diff" /\ x.r.st = "ok" /\ Small(20, <<texts[x.o], texts[x.m]>>) ->
         <<1, M!MadePatch(texts[x.o], texts[x.m], x.ctx, x.on, x.mn) = x.r.p>>
    [] x.op = "merge" /\ x.r.st \in {"ok", "conflict"} /\ Small(24, <<texts[x.o], texts[x.a], texts[x.b]>>) ->
         <<2, LET w == M!MadeMerge(texts[x.o], texts[x.a], texts[x.b], x.m)
              IN w.st = x.r.st /\ Cat(w.ls) = Cat(x.r.ls)>>
    [] x.op = "apply" /\ x.t \notin DOMAIN texts /\ x.r.st = "ok" -> <<>>
    [] x.op = "apply" /\ x.r.st \in {"ok", "err"} /\ Small(40, <<texts[x.i]>>) ->
         <<3, LET w == A!MadeApply(texts[x.i], pats[x.p].p)
              IN w.st = x.r.st /\ (IF w.st = "ok" THEN Cat(w.ls) = Cat(x.r.ls) ELSE w.h = x.r.h)>>
    [] x.op = "parse" /\ x.r.st \in {"ok", "err"} /\ Small(40, <<docs[x.d].ls>>)
         /\ \A i \in 1..Len(docs[x.d].ls) : Len(docs[x.d].ls[i]) < 200 ->
         <<4, LET w == R!MadeParse(docs[x.d].ls)
              IN w.st = x.r.st /\ (w.st = "ok" => w.p = x.r.p)>>
    [] x.op = "print" /\ x.r.st = "ok" /\ ~x.f.color ->
         <<5, Format(pats[x.p].p, x.f.nl, x.f.sb) = x.r.ls>>
    [] x.op = "rev" /\ x.r.st = "ok" -> <<6, Rev(pats[x.p].p) = x.r.p>>
    [] OTHER -> <<>>
Bump(i) == TLCSet(i, TLCGet(i) + 1)
(* ids are not reused within a session, so the state after a step still has *)
(* the step's arguments                                                     *)
Compare ==
  IF l = 1 THEN TRUE
  ELSE LET x == S[l - 1]
           z == Redo(x)
       IN IF z = <<>> THEN TRUE
          ELSE /\ Bump(Base + 2 * z[1] - 1)
               /\ IF z[2] THEN Bump(Base + 2 * z[1])
                  ELSE PrintT("DIFFERS " \o ToString(t) \o " " \o ToString(l - 1) \o " " \o Kinds[z[1]])
Zero == \A i \in 1..12 : TLCSet(Base + i, 0)
AInit == TInit /\ Zero
ASpec == AInit /\ [][TNext]_tvars
Count ==
  \A i \in 1..6 : PrintT("AGREE " \o Kinds[i] \o " " \o ToString(TLCGet(Base + 2 * i - 1)) \o " " \o ToString(TLCGet(Base + 2 * i)))
=============================================================================

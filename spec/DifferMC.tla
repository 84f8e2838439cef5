------------------------------ MODULE DifferMC -----------------------------
(* The algorithm that makes patches, run on every pair of small texts.      *)
EXTENDS Differ

CONSTANTS Lines1, MaxLen, CtxSet

VARIABLE s

XY == {"x\n", "y\n"}
XYZ == {"x\n", "y\n", "z\n"}

Pool == UNION {[1..n -> Lines1] : n \in 0..MaxLen}
MInit == \E a \in Pool, b \in Pool : s = Fresh0(a, b)
Over == s.pc = "done"
MNext == ~Over /\ ~s.bad /\ s' = Step(s)
MSpec == MInit /\ [][MNext]_s /\ WF_s(MNext)

Terminates == <>Over

(* no array is read or written out of bounds, and a middle snake is found   *)
InBounds == ~s.bad
(* the pieces and the boxes that wait cover both texts in order             *)
Covers ==
  LET all == s.sol \o s.box \o s.work
      size(d) == <<IF d.k = "I" THEN 0 ELSE d.len, IF d.k = "D" THEN 0 ELSE IF d.k = "box" THEN d.nl ELSE d.len>>
      step(acc, d) ==
        [ok |-> /\ acc.ok
                /\ d.k # "I" => d.o = acc.i
                /\ d.k # "D" => d.n = acc.j
                /\ d.k = "E" => Sub(s.a, d.o, d.len) = Sub(s.b, d.n, d.len),
         i |-> acc.i + size(d)[1], j |-> acc.j + size(d)[2]]
      r == FoldLeft(step, [ok |-> TRUE, i |-> 0, j |-> 0], all)
  IN r.ok /\ r.i = Len(s.a) /\ r.j = Len(s.b)
(* what is deleted and inserted so far, and at least in the boxes           *)
Cost ==
  LET all == s.sol \o s.box \o s.work
      c(d) == CASE d.k = "E" -> 0 [] d.k \in {"D", "I"} -> d.len
                [] d.k = "box" -> Distance(Sub(s.a, d.o, d.len), Sub(s.b, d.n, d.nl))
  IN FoldLeft(LAMBDA acc, d : acc + c(d), 0, all)
Least == Cost = Distance(s.a, s.b)
(* the patch made of it *)
Good ==
  Over => \A ctx \in CtxSet :
    LET p == [on |-> <<>>, mn |-> <<>>, hunks |-> HunksFrom(s.a, s.b, ctx, EditScript(s.sol))]
    IN /\ Truthful(p, s.a, s.b)
       /\ ContextRule(p, Len(s.a), ctx)
       /\ Changes(p) = Distance(s.a, s.b)
       /\ p \in AllowedPatches(s.a, s.b, ctx, <<>>, <<>>)
=============================================================================

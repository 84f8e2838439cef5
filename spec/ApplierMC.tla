----------------------------- MODULE ApplierMC -----------------------------
(* Applying, run on every small text with every patch of small hunks.       *)
EXTENDS Applier

CONSTANTS Lines1, MaxT, MaxH, Starts1, Counts

VARIABLE s

XY == {"x\n", "y\n"}
XYE == {"x\n", "y\n", "x"}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Pool == {t \in Seqs(Lines1, MaxT) : IsText(t)}
Bodies == Seqs({"C", "D", "I"} \X Lines1, MaxH)
Mk(ns, ls) ==
  LET n == Len(SelectSeq(ls, LAMBDA l : l[1] # "D"))
      o == Len(SelectSeq(ls, LAMBDA l : l[1] # "I"))
  IN Hunk(0, o, ns, n, <<>>, ls)
Hunks == {Mk(ns, ls) : ns \in Starts1, ls \in Bodies}
Patches1 == {[on |-> <<>>, mn |-> <<>>, hunks |-> hs] : hs \in UNION {[1..n -> Hunks] : n \in Counts}}

MInit == \E t \in Pool : \E p \in Patches1 : s = AFresh(t, p)
Over == AOver(s)
MNext == ~Over /\ s' = AStep(s)
MSpec == MInit /\ [][MNext]_s /\ WF_s(MNext)
Terminates == <>Over

(* no position is tried twice, and nearer ones are tried first *)
Once == s.pc = "try" => s.pos \notin s.tried
Outward == s.pc = "try" =>
  LET w == Stated(s.g, Hunk0(s))
      d == Abs(s.pos - w)
  IN /\ d >= s.far
     /\ \A x \in 0..Len(s.g) : (Abs(x - w) < d /\ x < Len(s.g)) => x \in s.tried
Good == Over => /\ NearestApply(s.t, s.p, Answered(s))
                /\ SoundApply(s.t, s.p, Answered(s))
                /\ s.pc = "ok" => Replaces(s.t, s.p, Cat(Unimage(s.g)))
Bounded == s.pc = "try" => Cardinality(s.tried) <= Len(s.g)
=============================================================================

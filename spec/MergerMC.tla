------------------------------ MODULE MergerMC -----------------------------
(* The merge algorithm, run on every triple of small texts.                 *)
EXTENDS Merger

CONSTANTS Lines1, LastLines, MaxO, MaxS

VARIABLE s

XY == {"x\n", "y\n"}
XYZ == {"x\n", "y\n", "z\n"}

(* LastLines: lines without newline that a text may end with *)
Pool(max) ==
  LET full == UNION {[1..n -> Lines1] : n \in 0..max}
  IN full \cup {Append(t, x) : t \in {u \in full : Len(u) < max}, x \in LastLines}
MInit == \E o \in Pool(MaxO), a \in Pool(MaxS), b \in Pool(MaxS) : s = MFresh(o, a, b)
Over == s.pc = "done"
MNext == ~Over /\ ~s.bad /\ s' = MStep(s)
MSpec == MInit /\ [][MNext]_s /\ WF_s(MNext)
Terminates == <>Over

(* the assertions in the code hold *)
NoPanic == ~s.bad
Opts2 == {[diff3 |-> x, len |-> 3] : x \in BOOLEAN}
Good ==
  Over => \A m \in Opts2 :
    LET r == Rendered(s, m) IN
    /\ Explained(s.o, s.a, s.b, m, "exact", r.ls, r.st = "conflict")
    /\ RenderedRight(s.o, s.a, s.b, m, r)
    /\ r \in Merges(s.o, s.a, s.b, m)
    /\ Mirrored(s.o, s.a, s.b, m, r, MadeMerge(s.o, s.b, s.a, m))
Alike ==
  Over => LET x == [diff3 |-> FALSE, len |-> 3]
              y == [diff3 |-> TRUE, len |-> 2]
          IN SameMerge(s.o, s.a, s.b, x, Rendered(s, x), y, Rendered(s, y))
=============================================================================

------------------------------ MODULE ReaderMC -----------------------------
(* Reading, run on every document of few lines from a pool.                 *)
EXTENDS Reader

CONSTANTS Pool1, MaxLen

VARIABLE s

BodyPool == {"@@ -1 +1 @@\n", "@@ -1,2 +1,0 @@ f\n", " x\n", "\n", "-x\n", "+x\n", Marker \o "\n", "x\n"}
OrderPool == {"@@ -0,0 +1 @@\n", "@@ -1 +2,0 @@\n", "@@ -2 +2 @@ \n", "@@ -1,0 +2 @@\n", "-x\n", "+x\n", " \n"}
NamePool == {"--- a\n", "+++ b\tdate\n", "--- \"\\n\"\n", "--- \"\n", "+++ a\"\n", "+++ \"\\x\"\n", "+++ \n", "--- ", "x\n", "@@ -0,0 +1 @@\n", "+x\n", "@@\n"}
HeadPool == {"@@ -1 +1 @@ a @@ b\n", "@@ -1 +1 @@x\n", "@@ -1 +1 @@", "@@ 1 +1 @@\n", "@@ -1 1 @@\n", "@@ -1, +1 @@\n", "@@ -1,1 +01 @@\n",
             "@@ -,1 +1 @@\n", "@@ -1  +1 @@\n", "@@ -1 +1 @ @@\n", "@@ - + @@\n", "@@ -1 +1\n", "@@@ -1 +1 @@\n", "@@ -1 +1,1,1 @@\n", "@@ -99999999999999999999 +1 @@\n", " x\n", "-x\n", "+x"}

Docs1 == {d \in UNION {[1..n -> Pool1] : n \in 0..MaxLen} : IsText(d)}
MInit == \E d \in Docs1 : s = RFresh(d)
Over == ROver(s)
MNext == ~Over /\ s' = RStep(s)
MSpec == MInit /\ [][MNext]_s /\ WF_s(MNext)
Terminates == <>Over

Right == Over => ReadsAs(Parse(s.doc), RAnswer(s))
(* what was read is, printed, read again as the same *)
Again == s.pc = "ok" =>
  LET p == RAnswer(s).p
      w == MadeParse(Format(p, TRUE, TRUE))
      v == MadeParse(Format(p, TRUE, FALSE))
      plain == \A k \in 1..Len(p.hunks) :
        /\ \A i \in 1..Len(p.hunks[k].ls) : ~HasNL(p.hunks[k].ls[i][2]) =>
              \A j \in i + 1..Len(p.hunks[k].ls) : p.hunks[k].ls[j][1] # p.hunks[k].ls[i][1]
  IN plain => (w.st = "ok" /\ w.p = p /\ v = w)
=============================================================================

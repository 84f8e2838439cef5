----------------------------- MODULE PrinterMC -----------------------------
(* Printing, of small patches with every option into every writer.          *)
EXTENDS Printer

CONSTANTS Lines2, MaxBody, Heads, Rooms, FmtSet

VARIABLE s

LSet == {"\n", "x\n", "x"}
LFew == {"\n", "x"}
H1 == {<<>>, <<"">>, <<"f x">>}
N1 == {<<>>, <<"a">>, <<"b\t">>}
Bodies2 == UNION {[1..k -> {"C", "D", "I"} \X Lines2] : k \in 1..MaxBody}
Mk2(fc, ls) ==
  LET n == Len(SelectSeq(ls, LAMBDA l : l[1] # "D"))
      o == Len(SelectSeq(ls, LAMBDA l : l[1] # "I"))
  IN Hunk(IF o = 0 THEN 0 ELSE 1, o, IF n = 0 THEN 0 ELSE 1, n, fc, ls)
Pool == {[on |-> n[1], mn |-> n[2], hunks |-> <<Mk2(fc, ls)>>] : n \in Heads \X Heads, fc \in H1, ls \in Bodies2}
Fmts8 == [color : BOOLEAN, nl : BOOLEAN, sb : BOOLEAN]
RoomSet == {0 - 1, 0, 1, 4, 5, 12, 20, 30}

MInit == Init /\ \E p \in Pool : \E f \in FmtSet : \E r \in Rooms : s = PFresh(p, f, r)
MNext == ~POver(s) /\ s' \in PSteps(s) /\ UNCHANGED vars
MSpec == MInit /\ [][MNext]_<<vars, s>> /\ WF_<<vars, s>>(MNext)
Terminates == <>POver(s)

Whole == [st |-> "ok", ls |-> Lines(Full(s))]
Said == [key |-> <<"print", s.p, s.f>>, api |-> "b", r |-> Whole]
Q == [p |-> s.p, org |-> <<>>, via |-> "other", api |-> "b"]
(* what was given so far and what is left make up the whole *)
InOrder == s.got \o Cat(s.todo) = Full(s)
(* the contract of printing, and of printing into a writer *)
Printed == POver(s) /\ s.pc = "ok" => PrintGood(Q, s.f, Whole)
Wrote == POver(s) =>
  LET r == Written(s) IN
  /\ r.st = "err" => r.failed /\ s.had >= 0 /\ s.had < Len(Full(s)) /\ Len(s.got) = s.had
  /\ Starts(Full(s), s.got)
  /\ r.st = "ok" => s.got = Full(s)
(* colour adds nothing but style *)
Coloured == s.f.color /\ s.got = "" =>
  StripStyle(Full(s)) = Cat(Format(s.p, s.f.nl, s.f.sb))
=============================================================================

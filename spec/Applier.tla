------------------------------ MODULE Applier ------------------------------
(* How a patch is applied: the algorithm of apply.rs, step by step.         *)
(*                                                                          *)
(* For each hunk a position is tried at a time: first the stated one, cut   *)
(* to the length of the image, then alternately the one before and the one  *)
(* after, and when one side is used up only the other.                      *)
EXTENDS Applying

AFresh(t, p) ==
  [t |-> t, p |-> p, g |-> Image(t), k |-> 0, pc |-> "hunk", pos |-> 0,
   back |-> 0, fwd |-> 0, turn |-> TRUE, tried |-> {}, far |-> 0]

Hunk0(s) == s.p.hunks[s.k]
(* back: positions 0..back-1 are left on one side; fwd..Len(g)-1 on the other *)
NextHunk(s) ==
  IF s.k = Len(s.p.hunks) THEN [s EXCEPT !.pc = "ok"]
  ELSE LET h == s.p.hunks[s.k + 1]
           pos == Stated(s.g, h)
       IN [s EXCEPT !.k = s.k + 1, !.pc = "try", !.pos = pos, !.back = pos, !.fwd = pos + 1,
                    !.turn = TRUE, !.tried = {}, !.far = 0]
Move(s) ==
  LET b == s.back > 0
      f == s.fwd < Len(s.g)
      goback == [s EXCEPT !.pos = s.back - 1, !.back = s.back - 1, !.turn = ~s.turn]
      gofwd == [s EXCEPT !.pos = s.fwd, !.fwd = s.fwd + 1, !.turn = ~s.turn]
  IN IF ~b /\ ~f THEN [s EXCEPT !.pc = "err"]
     ELSE IF s.turn THEN (IF b THEN goback ELSE gofwd) ELSE (IF f THEN gofwd ELSE goback)
Try(s) ==
  LET h == Hunk0(s)
      t == [s EXCEPT !.tried = s.tried \cup {s.pos}, !.far = Mx(s.far, Abs(s.pos - Stated(s.g, h)))]
  IN IF Fits(s.g, Old(h), s.pos) THEN [t EXCEPT !.g = Put(s.g, h, s.pos), !.pc = "hunk"] ELSE Move(t)

AStep(s) == IF s.pc = "hunk" THEN NextHunk(s) ELSE Try(s)
AOver(s) == s.pc \in {"ok", "err"}
RECURSIVE AFinish(_)
AFinish(s) == IF AOver(s) THEN s ELSE AFinish(AStep(s))
Answered(s) == IF s.pc = "ok" THEN [st |-> "ok", ls |-> Unimage(s.g)] ELSE [st |-> "err", h |-> s.k]
MadeApply(t, p) == Answered(AFinish(AFresh(t, p)))
=============================================================================

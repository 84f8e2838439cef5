------------------------------ MODULE Printer ------------------------------
(* Printing as the code does it: the patch as a sequence of pieces, handed  *)
(* one after the other to a writer that takes any part of a piece, may have *)
(* to be asked again, and fails when it has no room left.                   *)
EXTENDS Diffy

Sgr(n) == Esc \o "[" \o n \o "m"
Reset == Sgr("0")
Col(f, on, ps) == IF f.color THEN <<on>> \o ps \o (IF on = "" THEN <<"">> ELSE <<Reset>>) ELSE ps

HeadPieces(p, f) ==
  IF p.on = <<>> /\ p.mn = <<>> THEN <<>>
  ELSE Col(f, Sgr("1"),
         (IF p.on = <<>> THEN <<>> ELSE <<"--- ", Quoted(p.on[1]), "\n">>)
           \o (IF p.mn = <<>> THEN <<>> ELSE <<"+++ ", Quoted(p.mn[1]), "\n">>))
LinePieces(l, f) ==
  LET sign == CASE l[1] = "C" -> " " [] l[1] = "D" -> "-" [] l[1] = "I" -> "+"
      on == CASE l[1] = "C" -> "" [] l[1] = "D" -> Sgr("31") [] l[1] = "I" -> Sgr("32")
  IN Col(f, on, IF f.sb /\ l[1] = "C" /\ l[2] = "\n" THEN <<l[2]>> ELSE <<sign, l[2]>>)
       \o (IF HasNL(l[2]) THEN <<>> ELSE <<"\n">> \o (IF f.nl THEN <<Marker, "\n">> ELSE <<>>))
HunkPieces(h, f) ==
  Col(f, Sgr("36"), <<"@@ -", RangeText(h.rn[1], h.rn[2]), " +", RangeText(h.rn[3], h.rn[4]), " @@">>)
    \o (IF h.fc = <<>> THEN <<>> ELSE <<" ">> \o Col(f, "", h.fc))
    \o <<"\n">> \o Flat([i \in 1..Len(h.ls) |-> LinePieces(h.ls[i], f)])
Pieces(p, f) == HeadPieces(p, f) \o Flat([i \in 1..Len(p.hunks) |-> HunkPieces(p.hunks[i], f)])

(* a print in progress *)
PFresh(p, f, room) ==
  [p |-> p, f |-> f, had |-> room, room |-> room, todo |-> Pieces(p, f), got |-> "", pc |-> "run", failed |-> FALSE]
POver(s) == s.pc # "run"
PSteps(s) ==
  IF s.todo = <<>> THEN {[s EXCEPT !.pc = "ok"]}
  ELSE IF s.todo[1] = "" THEN {[s EXCEPT !.todo = Tail(s.todo)]}
  ELSE IF s.room = 0 THEN {[s EXCEPT !.pc = "err", !.failed = TRUE]}
  ELSE LET most == IF s.room < 0 THEN Len(s.todo[1]) ELSE Mn(s.room, Len(s.todo[1]))
       IN {[s EXCEPT !.got = s.got \o Take(s.todo[1], k),
                     !.todo = <<Drop(s.todo[1], k)>> \o Tail(s.todo),
                     !.room = IF s.room < 0 THEN s.room ELSE s.room - k] : k \in {1, most}}
Full(s) == Cat(Pieces(s.p, s.f))
Written(s) == [st |-> s.pc, ls |-> Lines(s.got), failed |-> s.failed, own |-> TRUE]
=============================================================================

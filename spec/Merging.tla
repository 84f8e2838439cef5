------------------------------ MODULE Merging ------------------------------
(* Three-way merge.                                                         *)
(*                                                                          *)
(* A merge is explained by one longest alignment of the ancestor o with our *)
(* side a and one of o with their side b.  The lines of o matched by both   *)
(* are stable; between stable lines lie chunks, each a (possibly empty) run *)
(* of o, a and b.  A chunk that only one side changed comes out as that     *)
(* side has it, one changed identically comes out once, and one changed     *)
(* differently is a conflict.  Two equal sides are matched alike.           *)
EXTENDS Align

MarkLine(c, n, label) == Rep(c, n) \o (IF label = "" THEN "" ELSE " " \o label) \o "\n"
Section(t) == IF t = <<>> THEN <<>> ELSE [t EXCEPT ![Len(t)] = EndNL(t[Len(t)])]
MarkOurs(n) == MarkLine("<", n, "ours")
MarkOrig(n) == MarkLine("|", n, "original")
MarkSep(n) == MarkLine("=", n, "")
MarkTheirs(n) == MarkLine(">", n, "theirs")

Conflict(o, a, b, m) ==
  <<MarkOurs(m.len)>> \o Section(a)
    \o (IF m.diff3 THEN <<MarkOrig(m.len)>> \o Section(o) ELSE <<>>)
    \o <<MarkSep(m.len)>> \o Section(b) \o <<MarkTheirs(m.len)>>

Clashes(o, a, b) == a # b /\ o # a /\ o # b
Resolved(o, a, b) == IF a = b \/ o = b THEN a ELSE b     \* when it does not clash

(* the ends at which the output of one chunk that begins at pos may end.    *)
(* mode "exact": the conflict as rendered; "sections": the three texts in   *)
(* order, whatever the markers look like; "any": nothing is asked of the    *)
(* inside of a conflict                                                     *)
ChunkEnds(o, a, b, m, mode, out, pos) ==
  IF ~Clashes(o, a, b)
  THEN LET e == Resolved(o, a, b) IN IF At(out, pos, e) THEN {pos + Len(e)} ELSE {}
  ELSE CASE mode = "exact" ->
              LET e == Conflict(o, a, b, m) IN IF At(out, pos, e) THEN {pos + Len(e)} ELSE {}
         [] mode = "sections" ->
              LET x == pos + 1
                  y == x + Len(a) + 1
                  z == IF m.diff3 THEN y + Len(o) + 1 ELSE y
                  end == z + Len(b) + 1
              IN IF end <= Len(out) /\ At(out, x, Section(a)) /\ At(out, z, Section(b))
                    /\ (m.diff3 => At(out, y, Section(o)))
                 THEN {end} ELSE {}
         [] OTHER -> pos..Len(out)

(* walk over o with both alignments at once: every state is                 *)
(* <<ci, cj, ck, j, k, pos, conflicted>>: where the current chunk began in  *)
(* o, a, b; the next lines of a, b; the output matched so far               *)
Explained(o, a, b, m, mode, out, conflicted) ==
  LET TA == SuffixTable(o, a)
      TB == SuffixTable(o, b)
      chunk(s, i, j, k) == <<SubSeq(o, s[1], i - 1), SubSeq(a, s[2], j - 1), SubSeq(b, s[3], k - 1)>>
      next(s, i) ==
        UNION {
          UNION {
            IF x # 0 /\ y # 0
            THEN LET c == chunk(s, i, x, y) IN
                 {<<i + 1, x + 1, y + 1, x + 1, y + 1, e + 1, s[7] \/ Clashes(c[1], c[2], c[3])>>
                    : e \in {e \in ChunkEnds(c[1], c[2], c[3], m, mode, out, s[6]) : At(out, e, <<o[i]>>)}}
            ELSE {<<s[1], s[2], s[3], IF x = 0 THEN s[4] ELSE x + 1, IF y = 0 THEN s[5] ELSE y + 1, s[6], s[7]>>}
            : y \in MatchChoices(TB, o, b, i, s[5])}
          : x \in MatchChoices(TA, o, a, i, s[4])}
      all == FoldLeft(LAMBDA S, i : UNION {next(s, i) : s \in S},
                      {<<1, 1, 1, 1, 1, 0, FALSE>>}, Idx(Len(o)))
  IN (a = b => ~conflicted /\ out = a) /\ \E s \in all :
       LET c == chunk(s, Len(o) + 1, Len(a) + 1, Len(b) + 1)
       IN /\ (s[7] \/ Clashes(c[1], c[2], c[3])) = conflicted
          /\ Len(out) \in ChunkEnds(c[1], c[2], c[3], m, mode, out, s[6])

(* all merges of three small texts (for the design model) *)
Merges(o, a, b, m) ==
  LET chunks(al, be) ==
        LET step(acc, i) ==
              IF al[i] # 0 /\ be[i] # 0
              THEN [cs |-> Append(acc.cs, <<SubSeq(o, acc.i, i - 1), SubSeq(a, acc.j, al[i] - 1),
                                            SubSeq(b, acc.k, be[i] - 1), <<o[i]>> >>),
                    i |-> i + 1, j |-> al[i] + 1, k |-> be[i] + 1]
              ELSE acc
            r == FoldLeft(step, [cs |-> <<>>, i |-> 1, j |-> 1, k |-> 1], Idx(Len(o)))
        IN Append(r.cs, <<SubSeq(o, r.i, Len(o)), SubSeq(a, r.j, Len(a)), SubSeq(b, r.k, Len(b)), <<>> >>)
      render(cs) ==
        [ls |-> Flat([x \in 1..Len(cs) |->
                  (IF Clashes(cs[x][1], cs[x][2], cs[x][3]) THEN Conflict(cs[x][1], cs[x][2], cs[x][3], m)
                   ELSE Resolved(cs[x][1], cs[x][2], cs[x][3])) \o cs[x][4]]),
         st |-> IF \E x \in 1..Len(cs) : Clashes(cs[x][1], cs[x][2], cs[x][3]) THEN "conflict" ELSE "ok"]
  IN {render(chunks(x[1], x[2])) : x \in
        IF a = b THEN {<<al, al>> : al \in Alignments(o, a)} ELSE Alignments(o, a) \X Alignments(o, b)}

(* --------------------- reading a rendered merge back -------------------- *)
(* Meaningful when no line of the inputs is itself a marker line of that    *)
(* length.  parts: Seq of <<"t", line>> or <<"c", ours, original, theirs>>  *)
Ambiguous(ts, n) ==
  LET marks == {MarkOurs(n), MarkOrig(n), MarkSep(n), MarkTheirs(n)}
  IN \E t \in ts : \E i \in 1..Len(t) : EndNL(t[i]) \in marks

Regions(out, m) ==
  LET mo == MarkOurs(m.len)
      mg == MarkOrig(m.len)
      ms == MarkSep(m.len)
      mt == MarkTheirs(m.len)
      step(s, l) ==
        CASE s.in = "bad" -> s
          [] l = mo -> IF s.in = "t" THEN [s EXCEPT !.in = "a", !.a = <<>>, !.o = <<>>, !.b = <<>>]
                                ELSE [s EXCEPT !.in = "bad"]
          [] l = mg -> IF s.in = "a" /\ m.diff3 THEN [s EXCEPT !.in = "o"] ELSE [s EXCEPT !.in = "bad"]
          [] l = ms -> IF s.in = (IF m.diff3 THEN "o" ELSE "a") THEN [s EXCEPT !.in = "b"]
                               ELSE [s EXCEPT !.in = "bad"]
          [] l = mt -> IF s.in = "b"
                                  THEN [s EXCEPT !.in = "t", !.parts = Append(s.parts, <<"c", s.a, s.o, s.b>>)]
                                  ELSE [s EXCEPT !.in = "bad"]
          [] s.in = "t" -> [s EXCEPT !.parts = Append(s.parts, <<"t", l>>)]
          [] s.in = "a" -> [s EXCEPT !.a = Append(s.a, l)]
          [] s.in = "o" -> [s EXCEPT !.o = Append(s.o, l)]
          [] s.in = "b" -> [s EXCEPT !.b = Append(s.b, l)]
      r == FoldLeft(step, [in |-> "t", parts |-> <<>>, a |-> <<>>, o |-> <<>>, b |-> <<>>], out)
  IN [ok |-> r.in = "t", parts |-> r.parts]

NConflicts(parts) == Len(SelectSeq(parts, LAMBDA x : x[1] = "c"))

(* the sections of the conflicts are, in order, pieces of their texts *)
PiecesOf(pieces, t) ==
  LET full == [i \in 1..Len(t) |-> EndNL(t[i])]
      step(pos, x) ==  \* earliest end after pos, -1 if there is none
        IF pos < 0 THEN pos
        ELSE LET S == {q \in pos..(Len(full) - Len(x)) : At(full, q, x)}
             IN IF S = {} THEN -1 ELSE MinOf(S) + Len(x)
  IN FoldLeft(step, 0, pieces) >= 0
Sections(parts, which) ==
  LET cs == SelectSeq(parts, LAMBDA x : x[1] = "c") IN [i \in 1..Len(cs) |-> cs[i][which]]

RenderedRight(o, a, b, m, r) ==
  Ambiguous({o, a, b}, m.len) \/
  LET g == Regions(r.ls, m) IN
  /\ g.ok
  /\ (r.st = "conflict") <=> (NConflicts(g.parts) > 0)
  /\ PiecesOf(Sections(g.parts, 2), a)
  /\ PiecesOf(Sections(g.parts, 4), b)
  /\ m.diff3 => PiecesOf(Sections(g.parts, 3), o)

(* the same merge under other rendering options *)
SameMerge(o, a, b, m1, r1, m2, r2) ==
  Ambiguous({o, a, b}, m1.len) \/ Ambiguous({o, a, b}, m2.len) \/
  LET g1 == Regions(r1.ls, m1)
      g2 == Regions(r2.ls, m2)
  IN /\ r1.st = r2.st
     /\ g1.ok /\ g2.ok
     /\ Len(g1.parts) = Len(g2.parts)
     /\ \A i \in 1..Len(g1.parts) :
          LET x == g1.parts[i]
              y == g2.parts[i]
          IN IF x[1] = "t" THEN x = y
             ELSE y[1] = "c" /\ x[2] = y[2] /\ x[4] = y[4] /\ (m1.diff3 /\ m2.diff3 => x[3] = y[3])

(* the merge with the sides exchanged; same options *)
Mirrored(o, a, b, m, r1, r2) ==
  /\ r1.st = r2.st
  /\ (r1.st = "ok" => r1.ls = r2.ls)
  /\ (r1.st = "conflict" =>
        \/ Ambiguous({o, a, b}, m.len)
        \/ LET g1 == Regions(r1.ls, m)
               g2 == Regions(r2.ls, m)
           IN g1.ok /\ g2.ok =>
              /\ Len(g1.parts) = Len(g2.parts)
              /\ \A i \in 1..Len(g1.parts) :
                   LET x == g1.parts[i]
                       y == g2.parts[i]
                   IN IF x[1] = "t" THEN x = y
                      ELSE y = <<"c", x[4], x[3], x[2]>>)
=============================================================================

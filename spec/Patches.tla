------------------------------ MODULE Patches ------------------------------
(* Abstract patches, and what it means for a patch to tell the truth about  *)
(* two texts.                                                               *)
(*                                                                          *)
(* patch == [on, mn : <<>> or <<name>>, hunks : Seq(hunk)]                  *)
(* hunk  == [os, ol, ns, nl : Nat,        ranges, 1-based start and length  *)
(*           rn : 4 decimal strings,      the same numbers, exactly         *)
(*           acc : BOOLEAN,               the range accessors agree         *)
(*           fc : <<>> or <<heading>>,                                      *)
(*           ls : Seq(<<"C"|"D"|"I", line>>)]                               *)
EXTENDS Align

Old(h) == LET s == SelectSeq(h.ls, LAMBDA l : l[1] # "I") IN [i \in 1..Len(s) |-> s[i][2]]
New(h) == LET s == SelectSeq(h.ls, LAMBDA l : l[1] # "D") IN [i \in 1..Len(s) |-> s[i][2]]

(* where a range begins, counted in lines before it: the start of an empty  *)
(* range is the number of the line just before it                           *)
At0(start, len) == IF len = 0 THEN start ELSE start - 1

HunkTrue(h, i, j, o, m) ==   \* i, j: lines of o and m before this hunk, not in earlier ones
  LET oi == At0(h.os, h.ol)
      nj == At0(h.ns, h.nl)
      old == Old(h)
      new == New(h)
  IN /\ h.acc
     /\ oi >= i /\ nj >= j /\ oi - i = nj - j
     /\ Agree(o, i, m, j, oi - i)
     /\ Len(old) = h.ol /\ Len(new) = h.nl
     /\ At(o, oi, old) /\ At(m, nj, new)
     /\ \E k \in 1..Len(h.ls) : h.ls[k][1] # "C"

Truthful(p, o, m) ==
  LET step(acc, h) ==
        IF ~acc.ok THEN acc
        ELSE [ok |-> HunkTrue(h, acc.i, acc.j, o, m),
              i |-> At0(h.os, h.ol) + h.ol, j |-> At0(h.ns, h.nl) + h.nl]
      end == FoldLeft(step, [ok |-> TRUE, i |-> 0, j |-> 0], p.hunks)
  IN /\ end.ok
     /\ Len(o) - end.i = Len(m) - end.j
     /\ Agree(o, end.i, m, end.j, Len(o) - end.i)
     /\ (p.hunks = <<>>) <=> (o = m)

(* ------------------------------- context ------------------------------- *)
Lead(h) ==
  LET S == {i \in 1..Len(h.ls) : h.ls[i][1] # "C"} IN IF S = {} THEN Len(h.ls) ELSE MinOf(S) - 1
Trail(h) ==
  LET S == {i \in 1..Len(h.ls) : h.ls[i][1] # "C"} IN IF S = {} THEN 0 ELSE Len(h.ls) - MaxOf(S)
(* longest run of unchanged lines between two changes of the hunk *)
Inner(h) ==
  LET core == SubSeq(h.ls, Lead(h) + 1, Len(h.ls) - Trail(h))
      step(acc, l) == IF l[1] = "C" THEN [run |-> acc.run + 1, best |-> Mx(acc.best, acc.run + 1)]
                      ELSE [acc EXCEPT !.run = 0]
  IN FoldLeft(step, [run |-> 0, best |-> 0], core).best

HunkContext(h, n, ctx) ==
  LET first == At0(h.os, h.ol) + Lead(h)
      last == At0(h.os, h.ol) + h.ol - Trail(h)
  IN /\ Lead(h) = Mn(ctx, first)
     /\ Trail(h) = Mn(ctx, n - last)
     /\ Inner(h) <= 2 * ctx

(* p is a truthful patch for a text of n lines *)
ContextRule(p, n, ctx) ==
  /\ \A k \in 1..Len(p.hunks) : HunkContext(p.hunks[k], n, ctx)
  /\ \A k \in 1..Len(p.hunks) - 1 :
       LET g == p.hunks[k]
           h == p.hunks[k + 1]
       IN At0(h.os, h.ol) + Lead(h) - (At0(g.os, g.ol) + g.ol - Trail(g)) >= 2 * ctx

(* what remains of the rule when the stated positions cannot be trusted *)
ContextBound(p, ctx) ==
  \A k \in 1..Len(p.hunks) :
    /\ Lead(p.hunks[k]) <= ctx /\ Trail(p.hunks[k]) <= ctx /\ Inner(p.hunks[k]) <= 2 * ctx

(* ------------------------------ minimality ----------------------------- *)
Changes(p) ==
  FoldLeft(LAMBDA acc, h : acc + Len(SelectSeq(h.ls, LAMBDA l : l[1] # "C")), 0, p.hunks)

(* ------------------------------- reversal ------------------------------ *)
RevLine(l) == <<IF l[1] = "D" THEN "I" ELSE IF l[1] = "I" THEN "D" ELSE "C", l[2]>>
RevHunk(h) == [h EXCEPT !.os = h.ns, !.ol = h.nl, !.ns = h.os, !.nl = h.ol,
                        !.rn = <<h.rn[3], h.rn[4], h.rn[1], h.rn[2]>>,
                        !.ls = [i \in 1..Len(h.ls) |-> RevLine(h.ls[i])]]
Rev(p) == [on |-> p.mn, mn |-> p.on, hunks |-> [i \in 1..Len(p.hunks) |-> RevHunk(p.hunks[i])]]

(* ------------------- building patches (for the design model) ----------- *)
Hunk(os, ol, ns, nl, fc, ls) ==
  [os |-> os, ol |-> ol, ns |-> ns, nl |-> nl,
   rn |-> <<ToString(os), ToString(ol), ToString(ns), ToString(nl)>>,
   acc |-> TRUE, fc |-> fc, ls |-> ls]

(* An edit script is a sequence of steps <<kind, line>> covering both texts; *)
(* Script(a, b, al) lists, for an alignment, the deletions before the        *)
(* insertions of each gap.                                                   *)
Script(a, b, al) ==
  LET ins(j, k) == [x \in 1..(k - j) |-> <<"I", b[j + x - 1]>>]   \* b[j..k-1]
      step(acc, i) ==
        IF al[i] = 0 THEN [acc EXCEPT !.out = Append(acc.out, <<"D", a[i]>>)]
        ELSE [out |-> Append(acc.out \o ins(acc.j, al[i]), <<"C", a[i]>>), j |-> al[i] + 1]
      r == FoldLeft(step, [out |-> <<>>, j |-> 1], Idx(Len(a)))
  IN r.out \o ins(r.j, Len(b) + 1)

(* The hunks of a script: change positions grouped when fewer than 2*ctx    *)
(* unchanged lines apart; apart tells those exactly 2*ctx apart that are    *)
(* not grouped.                                                             *)
ChangesAt(s) == SelectSeq(Idx(Len(s)), LAMBDA i : s[i][1] # "C")
Doubtful(s, ctx) ==
  LET chg == ChangesAt(s)
  IN IF ctx = 0 THEN {} ELSE {chg[k] : k \in {x \in 2..Len(chg) : chg[x] - chg[x - 1] - 1 = 2 * ctx}}
HunksOf(s, ctx, apart) ==
  LET grp == FoldLeft(LAMBDA acc, i :
                IF acc # <<>> /\ i - acc[Len(acc)][2] - 1 <= 2 * ctx /\ i \notin apart
                THEN [acc EXCEPT ![Len(acc)] = <<acc[Len(acc)][1], i>>]
                ELSE Append(acc, <<i, i>>), <<>>, ChangesAt(s))
      olds(i) == Len(SelectSeq(Take(s, i), LAMBDA l : l[1] # "I"))
      news(i) == Len(SelectSeq(Take(s, i), LAMBDA l : l[1] # "D"))
      mk(g) == LET f == Mx(1, g[1] - ctx)
                   t == Mn(Len(s), g[2] + ctx)
                   ol == olds(t) - olds(f - 1)
                   nl == news(t) - news(f - 1)
               IN Hunk(olds(f - 1) + (IF ol = 0 THEN 0 ELSE 1), ol,
                       news(f - 1) + (IF nl = 0 THEN 0 ELSE 1), nl, <<>>, SubSeq(s, f, t))
  IN [k \in 1..Len(grp) |-> mk(grp[k])]

(* every patch a minimal, context-honouring diff may be *)
AllowedPatches(a, b, ctx, on, mn) ==
  UNION {LET s == Script(a, b, al)
         IN {[on |-> on, mn |-> mn, hunks |-> HunksOf(s, ctx, apart)] : apart \in SUBSET Doubtful(s, ctx)}
           : al \in Alignments(a, b)}
=============================================================================

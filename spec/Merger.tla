------------------------------- MODULE Merger ------------------------------
(* How a merge is made: the algorithm of merge/mod.rs, step by step.        *)
(*                                                                          *)
(* The two solutions (ancestor to ours, ancestor to theirs) are walked side *)
(* by side; what lies between two pieces of the ancestor that both kept is  *)
(* gathered in three ranges (<<>> while untouched) and becomes a region:    *)
(* <<"ours", r>>, <<"theirs", r>>, <<"both", r>>, <<"equal", r>> or         *)
(* <<"conflict", o, a, b>>.  A range is <<from, length>>.                   *)
EXTENDS Differ, Merging

MFresh(o, a, b) ==
  [o |-> o, a |-> a, b |-> b, ours |-> Solution(o, a), theirs |-> Solution(o, b),
   x |-> <<>>, y |-> <<>>, z |-> <<>>, regions |-> <<>>, pc |-> "walk", bad |-> FALSE]

Empty == <<0, 0>>
NoJoin == <<<<0 - 1, 0>>>>
Joined(old, new) ==   \* old: <<>> or <<range>>; NoJoin when the ranges do not meet
  IF old = <<>> THEN <<new>>
  ELSE IF old[1][2] = 0 THEN <<new>>
  ELSE IF new[2] = 0 THEN old
  ELSE IF old[1][1] + old[1][2] # new[1] THEN NoJoin
  ELSE <<<<old[1][1], old[1][2] + new[2]>>>>
Gap(r) == r = NoJoin
Whole(r) == IF r = <<>> THEN Empty ELSE r[1]
Region(s) ==
  CASE s.y = <<>> /\ s.z = <<>> -> <<>>
    [] s.x = <<>> /\ s.z = <<>> -> <<<<"ours", s.y[1]>>>>
    [] s.x = <<>> /\ s.y = <<>> -> <<<<"theirs", s.z[1]>>>>
    [] OTHER -> <<<<"conflict", Whole(s.x), Whole(s.y), Whole(s.z)>>>>

(* the first n lines of a solution's first piece are done *)
Eat(sol, n) == IF sol[1].len = n THEN Tail(sol) ELSE <<ShrinkFront(sol[1], n)>> \o Tail(sol)
Gather(s, x, y, z) ==
  LET t == [s EXCEPT !.x = IF x = <<>> THEN s.x ELSE Joined(s.x, x[1]),
                     !.y = IF y = <<>> THEN s.y ELSE Joined(s.y, y[1]),
                     !.z = IF z = <<>> THEN s.z ELSE Joined(s.z, z[1])]
  IN IF Gap(t.x) \/ Gap(t.y) \/ Gap(t.z) THEN [s EXCEPT !.bad = TRUE] ELSE t

Walk(s) ==
  LET u == s.ours
      v == s.theirs
      n == Mn(u[1].len, v[1].len)
      both == [s EXCEPT !.ours = Eat(u, n), !.theirs = Eat(v, n)]
  IN CASE u # <<>> /\ u[1].k = "I" -> Gather([s EXCEPT !.ours = Tail(u)], <<>>, <<<<u[1].n, u[1].len>>>>, <<>>)
       [] v # <<>> /\ v[1].k = "I" -> Gather([s EXCEPT !.theirs = Tail(v)], <<>>, <<>>, <<<<v[1].n, v[1].len>>>>)
       [] u = <<>> /\ v = <<>> -> [s EXCEPT !.regions = s.regions \o Region(s), !.pc = "tidy"]
       [] u = <<>> \/ v = <<>> -> [s EXCEPT !.bad = TRUE]
       [] u[1].o # v[1].o -> [s EXCEPT !.bad = TRUE]
       [] u[1].k = "E" /\ v[1].k = "E" ->
            [both EXCEPT !.regions = s.regions \o Region(s) \o <<<<"equal", <<u[1].o, n>>>>>>,
                         !.x = <<>>, !.y = <<>>, !.z = <<>>]
       [] u[1].k = "E" -> Gather(both, <<<<u[1].o, n>>>>, <<<<u[1].n, n>>>>, <<>>)
       [] v[1].k = "E" -> Gather(both, <<<<u[1].o, n>>>>, <<>>, <<<<v[1].n, n>>>>)
       [] OTHER -> Gather(both, <<<<u[1].o, n>>>>, <<Empty>>, <<Empty>>)

Cut(t, r) == Sub(t, r[1], r[2])
Tidy(s) ==
  LET one(g) ==
        IF g[1] # "conflict" THEN g
        ELSE LET o == Cut(s.o, g[2])
                 a == Cut(s.a, g[3])
                 b == Cut(s.b, g[4])
             IN IF a = b THEN <<"both", g[3]>> ELSE IF o = a THEN <<"theirs", g[4]>>
                ELSE IF o = b THEN <<"ours", g[3]>> ELSE g
  IN [s EXCEPT !.regions = [i \in 1..Len(s.regions) |-> one(s.regions[i])], !.pc = "done"]

MStep(s) == IF s.pc = "walk" THEN Walk(s) ELSE Tidy(s)
RECURSIVE MFinish(_)
MFinish(s) == IF s.bad \/ s.pc = "done" THEN s ELSE MFinish(MStep(s))

(* the text written; a marker begins on a new line whatever came before     *)
Rendered(s, m) ==
  LET put(out, t) ==   \* a line after an unfinished line runs into it
        FoldLeft(LAMBDA acc, l : IF acc # <<>> /\ ~HasNL(acc[Len(acc)])
                                 THEN [acc EXCEPT ![Len(acc)] = acc[Len(acc)] \o l] ELSE Append(acc, l), out, t)
      mark(out, l) == (IF out = <<>> THEN <<>> ELSE [out EXCEPT ![Len(out)] = EndNL(out[Len(out)])]) \o <<l>>
      one(out, g) ==
        CASE g[1] = "equal" -> put(out, Cut(s.o, g[2]))
          [] g[1] \in {"ours", "both"} -> put(out, Cut(s.a, g[2]))
          [] g[1] = "theirs" -> put(out, Cut(s.b, g[2]))
          [] OTHER ->
               LET x == put(mark(out, MarkOurs(m.len)), Cut(s.a, g[3]))
                   y == IF m.diff3 THEN put(mark(x, MarkOrig(m.len)), Cut(s.o, g[2])) ELSE x
               IN mark(put(mark(y, MarkSep(m.len)), Cut(s.b, g[4])), MarkTheirs(m.len))
      hard == \E i \in 1..Len(s.regions) : s.regions[i][1] = "conflict"
  IN [ls |-> FoldLeft(one, <<>>, s.regions), st |-> IF hard THEN "conflict" ELSE "ok"]
MadeMerge(o, a, b, m) == Rendered(MFinish(MFresh(o, a, b)), m)
=============================================================================

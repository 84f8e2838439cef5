------------------------------ MODULE Applying -----------------------------
(* Applying a patch to a text it may or may not have been made for.         *)
(*                                                                          *)
(* The image is the text being patched, each line flagged when an earlier   *)
(* hunk wrote it; a hunk's old lines must be found among unflagged lines.   *)
EXTENDS Patches

Image(t) == [i \in 1..Len(t) |-> [s |-> t[i], w |-> FALSE]]
Unimage(g) == [i \in 1..Len(g) |-> g[i].s]

Fits(g, old, pos) ==   \* pos: lines before the block
  /\ pos >= 0 /\ pos + Len(old) <= Len(g)
  /\ \A k \in 1..Len(old) : ~g[pos + k].w /\ g[pos + k].s = old[k]

Places(g, h) == LET old == Old(h) IN {pos \in 0..(Len(g) - Len(old)) : Fits(g, old, pos)}

Stated(g, h) == Mn(Mx(At0(h.ns, h.nl), 0), Len(g))

(* the matching places nearest to the stated one (two when at equal         *)
(* distance on both sides)                                                  *)
Nearest(g, h) ==
  LET want == Stated(g, h) IN
  IF Fits(g, Old(h), want) THEN {want}
  ELSE LET S == Places(g, h)
           d == MinOf({Abs(x - want) : x \in S})
       IN IF S = {} THEN {} ELSE {x \in S : Abs(x - want) = d}

Put(g, h, pos) ==
  Take(g, pos) \o [i \in 1..Len(New(h)) |-> [s |-> New(h)[i], w |-> TRUE]]
    \o Drop(g, pos + Len(Old(h)))

(* outcomes of applying all hunks in order, when each may land on any       *)
(* place of place(image, hunk): the final images and the hunks that failed  *)
Outcomes(t, p, place(_, _)) ==
  LET step(acc, k) ==
        LET h == p.hunks[k]
            dead == \E g \in acc.imgs : place(g, h) = {}
        IN [imgs |-> UNION {{Put(g, h, x) : x \in place(g, h)} : g \in acc.imgs},
            errs |-> acc.errs \cup (IF dead THEN {k} ELSE {})]
  IN FoldLeft(step, [imgs |-> {Image(t)}, errs |-> {}], Idx(Len(p.hunks)))

NearOutcomes(t, p) == Outcomes(t, p, Nearest)
AnyOutcomes(t, p) == Outcomes(t, p, Places)

(* The result of applying is a byte string: a written line without newline  *)
(* in the middle of a text runs into the next line, so results are compared *)
(* as byte strings and not line by line.                                    *)
Oks(out) == {Cat(Unimage(g)) : g \in out.imgs}

(* r = [st |-> "ok", ls |-> text] or [st |-> "err", h |-> hunk number] *)
NearestApply(t, p, r) ==
  LET out == NearOutcomes(t, p) IN
  CASE r.st = "ok" -> Cat(r.ls) \in Oks(out)
    [] r.st = "err" -> r.h \in out.errs
    [] OTHER -> FALSE

(* Is the byte string s the text t with, for every hunk of p, one block of  *)
(* lines of t equal to the hunk's old lines replaced by its new lines, the  *)
(* blocks being disjoint and in any order?  (What AnyOutcomes says, decided *)
(* by walking t once: a state is the set of hunks used and the bytes of s   *)
(* accounted for.)                                                          *)
Replaces(t, p, s) ==
  LET H == 1..Len(p.hunks)
      old == [k \in H |-> Old(p.hunks[k])]
      new == [k \in H |-> Cat(New(p.hunks[k]))]
      here(c, x) == SubSeq(s, c + 1, Mn(c + Len(x), Len(s))) = x
      put(T, K) == UNION {{[u |-> st.u \cup {k}, c |-> st.c + Len(new[k])] :
                             k \in {j \in K \ st.u : here(st.c, new[j])}} : st \in T}
      pure == {k \in H : old[k] = <<>>}
      close(T) == FoldLeft(LAMBDA U, k : U \cup put(U, pure), T, Idx(Cardinality(pure)))
      wide == MaxOf({1} \cup {Len(old[k]) : k \in H})
      step(acc, i) ==     \* i lines of t are behind us; acc[d + 1]: the states d lines on
        LET T == close(acc[1])
            copied == {[u |-> st.u, c |-> st.c + Len(t[i + 1])] : st \in {x \in T : here(x.c, t[i + 1])}}
            jump(d) == put(T, {k \in H \ pure : Len(old[k]) = d /\ At(t, i, old[k])})
            next == [d \in 1..wide + 1 |->
              (IF d <= wide THEN acc[d + 1] ELSE {}) \cup (IF d = 1 THEN copied ELSE {}) \cup jump(d)]
        IN SubSeq(next, 1, wide + 1)
      start == [d \in 1..wide + 1 |-> IF d = 1 THEN {[u |-> {}, c |-> 0]} ELSE {}]
      last == FoldLeft(step, start, [i \in 1..Len(t) |-> i - 1])
  IN [u |-> H, c |-> Len(s)] \in close(last[1])

SoundApply(t, p, r) ==
  CASE r.st = "ok" -> IF NearestApply(t, p, r) THEN TRUE ELSE Replaces(t, p, Cat(r.ls))
    [] r.st = "err" -> TRUE
    [] OTHER -> FALSE

(* the stated line alone decides: each hunk fits exactly where it says *)
FitsAsStated(t, p) ==
  LET step(acc, h) ==
        IF acc.ok /\ Fits(acc.g, Old(h), Stated(acc.g, h))
        THEN [ok |-> TRUE, g |-> Put(acc.g, h, Stated(acc.g, h))] ELSE [acc EXCEPT !.ok = FALSE]
  IN FoldLeft(step, [ok |-> TRUE, g |-> Image(t)], p.hunks).ok
=============================================================================

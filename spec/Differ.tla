------------------------------- MODULE Differ ------------------------------
(* How a patch is made: the algorithm of diff/myers.rs, diff/cleanup.rs and *)
(* diff/mod.rs, step by step.                                               *)
(*                                                                          *)
(* 1. search: divide and conquer with the middle snake (Myers); boxes wait  *)
(*    on a stack, one step of a search extends one diagonal.                *)
(* 2. compact: deletions, then insertions, are shifted up and down and      *)
(*    merged with their like.                                               *)
(* 3. hunks: runs of changes become hunks with context.                     *)
(*                                                                          *)
(* A step is a function of the state (Step), so that the same definition    *)
(* serves as a transition (DifferMC: invariants of every intermediate       *)
(* state, termination) and, iterated, as a function (Solution, used by      *)
(* Merger and by the comparison with the code).                             *)
(*                                                                          *)
(* Positions are counted from 0.  A piece of the solution is                *)
(* [k |-> "E"/"D"/"I", o, n, len]: o where it lies in the old text ("E",    *)
(* "D"), n in the new one ("E", "I").                                       *)
EXTENDS Patches

E(o, n, len) == [k |-> "E", o |-> o, n |-> n, len |-> len]
D(o, len) == [k |-> "D", o |-> o, n |-> 0, len |-> len]
I(n, len) == [k |-> "I", o |-> 0, n |-> n, len |-> len]
Box(o, ol, n, nl) == [k |-> "box", o |-> o, n |-> n, len |-> ol, nl |-> nl]
Sub(t, from, len) == SubSeq(t, from + 1, from + len)

(* -------------------------------- search -------------------------------- *)
MaxD(n, m) == ((n + m + 1) \div 2) + 1
Domain(a, b) == (0 - MaxD(Len(a), Len(b)))..(MaxD(Len(a), Len(b)) - 1)   \* of the arrays

Fresh0(a, b) ==
  [pc |-> "boxes", a |-> a, b |-> b, work |-> <<Box(0, Len(a), 0, Len(b))>>, sol |-> <<>>,
   vf |-> [k \in Domain(a, b) |-> 0], vb |-> [k \in Domain(a, b) |-> 0],
   box |-> <<>>, d |-> 0, q |-> 0, fwd |-> TRUE,
   pass |-> "D", ptr |-> 1, bad |-> FALSE]

(* the next box: its common prefix and suffix are split off, and a search   *)
(* begins if both sides are left                                            *)
TakeBox(s) ==
  LET w == s.work[1]
      rest == Tail(s.work)
      old == Sub(s.a, w.o, w.len)
      new == Sub(s.b, w.n, w.nl)
      p == PrefixLen(old, new)
      q == SuffixLen(Drop(old, p), Drop(new, p))
      ol == w.len - p - q
      nl == w.nl - p - q
      pre == IF p > 0 THEN <<E(w.o, w.n, p)>> ELSE <<>>
      suf == IF q > 0 THEN <<E(w.o + w.len - q, w.n + w.nl - q, q)>> ELSE <<>>
  IN IF w.k # "box" THEN [s EXCEPT !.sol = Append(s.sol, w), !.work = rest]
     ELSE IF ol = 0 \/ nl = 0
     THEN [s EXCEPT !.work = suf \o rest,
                    !.sol = s.sol \o pre \o (IF nl > 0 THEN <<I(w.n + p, nl)>>
                                             ELSE IF ol > 0 THEN <<D(w.o + p, ol)>> ELSE <<>>)]
     ELSE [s EXCEPT !.pc = "search", !.work = suf \o rest, !.sol = s.sol \o pre,
                    !.box = <<Box(w.o + p, ol, w.n + p, nl)>>,
                    !.vf[1] = 0, !.vb[1] = 0, !.d = 0, !.q = 0, !.fwd = TRUE]

(* one diagonal of one direction; q counts the diagonals d, d-2, .., -d     *)
Diagonal(s) ==
  LET w == s.box[1]
      n == w.len
      m == w.nl
      delta == n - m
      odd == Abs(delta) % 2 = 1
      k == s.d - 2 * s.q
      v == IF s.fwd THEN s.vf ELSE s.vb
      u == IF s.fwd THEN s.vb ELSE s.vf
      reads == (IF k = 0 - s.d \/ k # s.d THEN {k + 1} ELSE {}) \cup (IF k # 0 - s.d THEN {k - 1} ELSE {}) \cup {k}
      inside == reads \subseteq DOMAIN v
      x0 == IF k = 0 - s.d \/ (k # s.d /\ v[k - 1] < v[k + 1]) THEN v[k + 1] ELSE v[k - 1] + 1
      y0 == x0 - k
      old == Sub(s.a, w.o, n)
      new == Sub(s.b, w.n, m)
      run == IF s.fwd
             THEN IF y0 < 0 \/ x0 > n \/ y0 > m THEN 0 ELSE PrefixLen(Drop(old, x0), Drop(new, y0))
             ELSE IF y0 < 0 \/ x0 >= n \/ y0 >= m THEN 0 ELSE SuffixLen(Take(old, n - x0), Take(new, m - y0))
      x == x0 + run
      y == y0 + run
      meets == IF s.fwd THEN odd /\ Abs(k - delta) <= s.d - 1 ELSE ~odd /\ Abs(k - delta) <= s.d
      r == 0 - (k - delta)
      found == meets /\ x + u[r] >= n
      sx == IF s.fwd THEN x0 ELSE n - x        \* where the snake begins, in the box
      sy == IF s.fwd THEN y0 ELSE m - y
      moved == IF s.fwd THEN [s EXCEPT !.vf[k] = x] ELSE [s EXCEPT !.vb[k] = x]
      last == s.q = s.d
  IN IF ~inside \/ (meets /\ r \notin DOMAIN u) THEN [s EXCEPT !.bad = TRUE]
     ELSE IF found
     THEN IF sx \notin 0..n \/ sy \notin 0..m THEN [s EXCEPT !.bad = TRUE]
          ELSE [moved EXCEPT !.pc = "boxes", !.box = <<>>,
                  !.work = <<Box(w.o, sx, w.n, sy), Box(w.o + sx, n - sx, w.n + sy, m - sy)>> \o s.work]
     ELSE IF ~last THEN [moved EXCEPT !.q = s.q + 1]
     ELSE IF s.fwd THEN [moved EXCEPT !.q = 0, !.fwd = FALSE]
     ELSE IF s.d + 1 < MaxD(n, m) THEN [moved EXCEPT !.q = 0, !.fwd = TRUE, !.d = s.d + 1]
     ELSE [s EXCEPT !.bad = TRUE]          \* no middle snake

(* -------------------------------- compact ------------------------------- *)
Put1(ds, i, d) == Take(ds, i - 1) \o <<d>> \o Drop(ds, i - 1)    \* inserted before i
Cut1(ds, i) == Take(ds, i - 1) \o Drop(ds, i)
GrowUp(d, c) == [d EXCEPT !.o = d.o - c, !.n = d.n - c, !.len = d.len + c]
GrowDown(d, c) == [d EXCEPT !.len = d.len + c]
ShrinkFront(d, c) == [d EXCEPT !.o = d.o + c, !.n = d.n + c, !.len = d.len - c]
ShrinkBack(d, c) == [d EXCEPT !.len = d.len - c]
Shift(d, c) == IF d.k = "D" THEN [d EXCEPT !.o = d.o + c] ELSE [d EXCEPT !.n = d.n + c]

Own(s, d) == IF d.k = "D" THEN Sub(s.a, d.o, d.len) ELSE Sub(s.b, d.n, d.len)
(* the side of an equal piece that a change is compared with: an insertion  *)
(* with the old text, a deletion with the new one                           *)
Far(s, d, e) == IF d.k = "D" THEN Sub(s.b, e.n, e.len) ELSE Sub(s.a, e.o, e.len)

ScanPass(s) ==
  IF s.ptr > Len(s.sol)
  THEN IF s.pass = "D" THEN [s EXCEPT !.pass = "I", !.ptr = 1] ELSE [s EXCEPT !.pc = "done"]
  ELSE IF s.sol[s.ptr].k = s.pass THEN [s EXCEPT !.pc = "up"] ELSE [s EXCEPT !.ptr = s.ptr + 1]

ShiftUp(s) ==
  LET i == s.ptr
      this == s.sol[i]
      prev == s.sol[i - 1]
      c == SuffixLen(Own(s, this), Far(s, this, prev))
      after == i < Len(s.sol) /\ s.sol[i + 1].k = "E"
      grown == IF after THEN [s.sol EXCEPT ![i + 1] = GrowUp(s.sol[i + 1], c)]
               ELSE Put1(s.sol, i + 1,
                      IF this.k = "I" THEN E(prev.o + prev.len - c, this.n + this.len - c, c)
                      ELSE E(this.o + this.len - c, prev.n + prev.len - c, c))
      moved == [grown EXCEPT ![i] = Shift(this, 0 - c), ![i - 1] = ShrinkBack(prev, c)]
  IN IF i = 1 THEN [s EXCEPT !.pc = "down"]
     ELSE CASE prev.k = "E" /\ c # 0 ->
                 IF prev.len = c THEN [s EXCEPT !.sol = Cut1(moved, i - 1), !.ptr = i - 1]
                 ELSE [s EXCEPT !.sol = moved]
            [] prev.k = "E" /\ c = 0 /\ prev.len = 0 -> [s EXCEPT !.sol = Cut1(s.sol, i - 1), !.ptr = i - 1]
            [] prev.k = "E" -> [s EXCEPT !.pc = "down"]
            [] prev.k # this.k -> [s EXCEPT !.sol = [s.sol EXCEPT ![i - 1] = this, ![i] = prev], !.ptr = i - 1]
            [] OTHER -> [s EXCEPT !.sol = Cut1([s.sol EXCEPT ![i - 1] = GrowDown(prev, this.len)], i), !.ptr = i - 1]

ShiftDown(s) ==
  LET i == s.ptr
      this == s.sol[i]
      next == s.sol[i + 1]
      c == PrefixLen(Own(s, this), Far(s, this, next))
      before == i > 1 /\ s.sol[i - 1].k = "E"
      j == IF before THEN i ELSE i + 1
      grown == IF before THEN [s.sol EXCEPT ![i - 1] = GrowDown(s.sol[i - 1], c)]
               ELSE Put1(s.sol, i, IF this.k = "I" THEN E(next.o, this.n, c) ELSE E(this.o, next.n, c))
      moved == [grown EXCEPT ![j] = Shift(this, c), ![j + 1] = ShrinkFront(next, c)]
  IN IF i = Len(s.sol) THEN [s EXCEPT !.pc = "scan", !.ptr = i + 1]
     ELSE CASE next.k = "E" /\ c # 0 ->
                 [s EXCEPT !.sol = IF next.len = c THEN Cut1(moved, j + 1) ELSE moved, !.ptr = j]
            [] next.k = "E" /\ c = 0 /\ next.len = 0 -> [s EXCEPT !.sol = Cut1(s.sol, i + 1)]
            [] next.k = "E" -> [s EXCEPT !.pc = "scan", !.ptr = i + 1]
            [] next.k # this.k -> [s EXCEPT !.sol = [s.sol EXCEPT ![i] = next, ![i + 1] = this], !.ptr = i + 1]
            [] OTHER -> [s EXCEPT !.sol = Cut1([s.sol EXCEPT ![i] = GrowDown(this, next.len)], i + 1)]

Step(s) ==
  CASE s.pc = "boxes" -> IF s.work = <<>> THEN [s EXCEPT !.pc = "scan"] ELSE TakeBox(s)
    [] s.pc = "search" -> Diagonal(s)
    [] s.pc = "scan" -> ScanPass(s)
    [] s.pc = "up" -> ShiftUp(s)
    [] s.pc = "down" -> ShiftDown(s)

RECURSIVE Finish(_)
Finish(s) == IF s.bad \/ s.pc = "done" THEN s ELSE Finish(Step(s))
Solution(a, b) == Finish(Fresh0(a, b)).sol

(* --------------------------------- hunks -------------------------------- *)
(* runs of changes: [a1, a2, b1, b2], from..before, positions from 0        *)
EditScript(sol) ==
  LET step(acc, d) ==
        IF d.k = "E"
        THEN [i |-> acc.i + d.len, j |-> acc.j + d.len, open |-> <<>>, es |-> acc.es \o acc.open]
        ELSE LET run == IF acc.open = <<>> THEN [a1 |-> acc.i, a2 |-> acc.i, b1 |-> acc.j, b2 |-> acc.j] ELSE acc.open[1]
             IN IF d.k = "D"
                THEN [acc EXCEPT !.i = acc.i + d.len, !.open = <<[run EXCEPT !.a2 = run.a2 + d.len]>>]
                ELSE [acc EXCEPT !.j = acc.j + d.len, !.open = <<[run EXCEPT !.b2 = run.b2 + d.len]>>]
      r == FoldLeft(step, [i |-> 0, j |-> 0, open |-> <<>>, es |-> <<>>], sol)
  IN r.es \o r.open

Monus(x, y) == IF x > y THEN x - y ELSE 0
PostLen(a, b, ctx, e) == Mn(ctx, Mn(Monus(Len(a), e.a2), Monus(Len(b), e.b2)))

HunksFrom(a, b, ctx, es) ==
  LET joins(e, f) == Monus(Mn(f.a1, Len(a) - 1), ctx) < e.a2 + PostLen(a, b, ctx, e)
      groups == FoldLeft(LAMBDA acc, f :
                   IF acc # <<>> /\ joins(acc[Len(acc)][Len(acc[Len(acc)])], f)
                   THEN [acc EXCEPT ![Len(acc)] = Append(acc[Len(acc)], f)]
                   ELSE Append(acc, <<f>>), <<>>, es)
      tagged(k, t) == [i \in 1..Len(t) |-> <<k, t[i]>>]
      dels(e) == tagged("D", SubSeq(a, e.a1 + 1, e.a2))
      inss(e) == tagged("I", SubSeq(b, e.b1 + 1, e.b2))
      body(g) == FoldLeft(LAMBDA acc, i :
                   acc \o (IF i = 1 THEN <<>> ELSE tagged("C", SubSeq(b, g[i - 1].b2 + 1, g[i].b1)))
                       \o dels(g[i]) \o inss(g[i]), <<>>, Idx(Len(g)))
      mk(g) ==
        LET f == g[1]
            l == g[Len(g)]
            s1 == Monus(f.a1, ctx)
            s2 == Monus(f.b1, ctx)
            e1 == l.a2 + PostLen(a, b, ctx, l)
            e2 == l.b2 + PostLen(a, b, ctx, l)
        IN Hunk(IF e1 > s1 THEN s1 + 1 ELSE s1, e1 - s1, IF e2 > s2 THEN s2 + 1 ELSE s2, e2 - s2, <<>>,
                tagged("C", SubSeq(b, s2 + 1, f.b1)) \o body(g) \o tagged("C", SubSeq(b, l.b2 + 1, e2)))
  IN [i \in 1..Len(groups) |-> mk(groups[i])]

MadePatch(a, b, ctx, on, mn) ==
  [on |-> on, mn |-> mn, hunks |-> HunksFrom(a, b, ctx, EditScript(Solution(a, b)))]
=============================================================================

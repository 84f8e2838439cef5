------------------------------- MODULE Diffy -------------------------------
(* A session with the library: a client holds texts, patches and patch      *)
(* documents, and makes calls.  Every call is one atomic action; what it    *)
(* returned (r) is constrained by the contract of the call, and the state   *)
(* records where every object came from, so that what later calls must      *)
(* return follows from the history.                                         *)
(*                                                                          *)
(* Prop names the property whose clauses are imposed ("ALL" for all): the   *)
(* same actions describe the design (Design.tla), generate behaviours to    *)
(* replay (Design.tla, simulation) and judge recorded runs (Trace.tla).     *)
EXTENDS Applying, Unified, Merging

CONSTANT Prop

VARIABLES
  texts,   \* id -> text
  pats,    \* id -> [p : patch, org : <<>> or <<old, new>>, via : how it came about]
  docs,    \* id -> [ls : text, src : <<>> or <<patch>>, f : formatter options]
  memo     \* Seq of [key, api, r]: the calls made, with their results

vars == <<texts, pats, docs, memo>>

(* a rule about values, which is decided as one, not explored case by case *)
Rule(b) == b = TRUE

On(x) == Prop = x \/ Prop = "ALL"
OnAny(S) == Prop = "ALL" \/ Prop \in S

Init == texts = <<>> /\ pats = <<>> /\ docs = <<>> /\ memo = <<>>

(* ----------------------- what every call must satisfy ------------------- *)
(* equal calls have equal results, whichever interface, thread, process or  *)
(* history                                                                  *)
Consistent(key, api, r) ==
  /\ On("P16") => \A i \in 1..Len(memo) : memo[i].key = key /\ memo[i].api # api => memo[i].r = r
  /\ On("P18") => \A i \in 1..Len(memo) : memo[i].key = key /\ memo[i].api = api => memo[i].r = r
Remember(key, api, r) ==
  memo' = IF OnAny({"P14", "P15", "P16", "P18", "P19", "P22"})
          THEN Append(memo, [key |-> key, api |-> api, r |-> r]) ELSE memo

(* --------------------------------- texts -------------------------------- *)
NewText(id, t) ==
  /\ texts' = (id :> t) @@ texts
  /\ UNCHANGED <<pats, docs, memo>>

(* ------------------------------ creating a patch ------------------------ *)
(* bound: <<>>, or <<n>> when turning o into m is known to need at most n   *)
(* changes and the texts are too large to compute the distance              *)
DiffGood(o, m, ctx, on, mn, bound, r) ==
  /\ r.st = "ok"
  /\ On("P03") => Truthful(r.p, o, m)
  /\ On("P04") => IF Truthful(r.p, o, m) THEN ContextRule(r.p, Len(o), ctx)
                  ELSE ContextBound(r.p, ctx)
  /\ On("P05") => Changes(r.p) <= (IF bound = <<>> THEN Distance(o, m) ELSE bound[1])
  /\ On("P20") => r.p.on = on /\ r.p.mn = mn
Diff(id, api, oi, mi, ctx, on, mn, bound, r) ==
  LET o == texts[oi]
      m == texts[mi]
      key == <<"diff", o, m, ctx, on, mn>>
  IN /\ Rule(DiffGood(o, m, ctx, on, mn, bound, r))
     /\ Consistent(key, api, r)
     /\ Remember(key, api, r)
     /\ pats' = (id :> [p |-> r.p, org |-> <<o, m>>, via |-> "diff", api |-> api]) @@ pats
     /\ UNCHANGED <<texts, docs>>

(* -------------------------------- reversing ----------------------------- *)
Turn(id, pi, r) ==
  LET q == pats[pi]
      key == <<"rev", q.p>>
  IN /\ r.st = "ok"
     /\ On("P02") => r.p = Rev(q.p) /\ r.hs = Rev(q.p).hunks
     /\ Consistent(key, q.api, r)
     /\ Remember(key, q.api, r)
     /\ pats' = (id :> [p |-> r.p,
                        org |-> IF q.org = <<>> THEN <<>> ELSE <<q.org[2], q.org[1]>>,
                        via |-> IF q.via = "diff" THEN "rev" ELSE "other", api |-> q.api]) @@ pats
     /\ UNCHANGED <<texts, docs>>

(* a patch looked at again is what it was *)
Look(pi, r) ==
  /\ r.st = "ok"
  /\ On("P18") => r.p = pats[pi].p
  /\ UNCHANGED vars

(* a copy is the patch it was made from *)
Copy(id, pi, r) ==
  /\ r.st = "ok"
  /\ On("P18") => r.p = pats[pi].p
  /\ pats' = (id :> [pats[pi] EXCEPT !.p = r.p]) @@ pats
  /\ UNCHANGED <<texts, docs, memo>>

(* -------------------------------- applying ------------------------------ *)
ApplyGood(t, q, r) ==
  /\ r.st \in {"ok", "err"}
  /\ (q.org # <<>> /\ t = q.org[1]) =>
       \/ r.st = "ok" /\ r.ls = q.org[2]
       \/ ~(On("P21") \/ (On("P01") /\ q.via = "diff") \/ (On("P02") /\ q.via = "rev"))
  /\ On("P10") => SoundApply(t, q.p, r)
  /\ On("P11") => NearestApply(t, q.p, r)
ApplyPatch(id, ti, pi, r) ==
  LET t == texts[ti]
      q == pats[pi]
      key == <<"apply", t, q.p>>
  IN /\ Rule(ApplyGood(t, q, r))
     /\ Consistent(key, q.api, r)
     /\ Remember(key, q.api, r)
     /\ texts' = IF r.st = "ok" THEN (id :> r.ls) @@ texts ELSE texts
     /\ UNCHANGED <<pats, docs>>

(* Two patches for one text, applied in both orders (pq: p first), 0 when   *)
(* an application failed.                                                   *)
AllDifferent(t) == \A i, j \in 1..Len(t) : t[i] = t[j] => i = j
Separate(p, q) ==
  /\ \A h \in {p.hunks[k] : k \in 1..Len(p.hunks)} \cup {q.hunks[k] : k \in 1..Len(q.hunks)} :
       h.ol > 0 /\ \E k \in 1..Len(h.ls) : h.ls[k][1] = "C"
  /\ \A i \in 1..Len(p.hunks) : \A j \in 1..Len(q.hunks) :
       LET h == p.hunks[i]
           g == q.hunks[j]
       IN h.os + h.ol <= g.os \/ g.os + g.ol <= h.os
FreshLines(t, o, u) ==   \* the lines t adds to o are not in u
  \A i \in 1..Len(t) : (\A j \in 1..Len(o) : o[j] # t[i]) => (\A j \in 1..Len(u) : u[j] # t[i])
Commute(oi, pi, qi, pqi, qpi) ==
  LET o == texts[oi]
      p == pats[pi]
      q == pats[qi]
      sure == /\ p.org # <<>> /\ q.org # <<>> /\ p.org[1] = o /\ q.org[1] = o
              /\ AllDifferent(o) /\ AllDifferent(p.org[2]) /\ AllDifferent(q.org[2])
              /\ FreshLines(p.org[2], o, q.org[2]) /\ FreshLines(q.org[2], o, p.org[2])
              /\ Separate(p.p, q.p)
  IN /\ (On("P21") /\ sure) => pqi # 0 /\ qpi # 0 /\ texts[pqi] = texts[qpi]
     /\ UNCHANGED vars

(* -------------------------------- printing ------------------------------ *)
PrintGood(q, f, r) ==
  /\ r.st = "ok"
  /\ (On("P07") /\ ~f.color) => r.ls = Format(q.p, f.nl, f.sb)
  /\ (On("P20") /\ ~f.color) => LET n == NamesDoc(q.p) IN
       At(r.ls, 0, n) /\ (Len(r.ls) > Len(n) => Starts(r.ls[Len(n) + 1], "@@ "))
  /\ On("P19") => \A i \in 1..Len(memo) :
        (/\ memo[i].key[1] = "print" /\ memo[i].key[2] = q.p /\ memo[i].r.st = "ok"
         /\ memo[i].key[3] = [f EXCEPT !.color = ~f.color]) =>
        LET plain == IF f.color THEN memo[i].r.ls ELSE r.ls
            color == IF f.color THEN r.ls ELSE memo[i].r.ls
        \* (style sequences of the text itself are removed from both)
        IN StripStyle(Cat(color)) = StripStyle(Cat(plain))
PrintPatch(id, pi, f, r) ==
  LET q == pats[pi]
      key == <<"print", q.p, f>>
  IN /\ Rule(PrintGood(q, f, r))
     /\ Consistent(key, q.api, r)
     /\ Remember(key, q.api, r)
     /\ docs' = (id :> [ls |-> r.ls, src |-> <<q>>, f |-> f]) @@ docs
     /\ UNCHANGED <<texts, pats>>

(* Printing into a writer that the client provides, which takes at most so  *)
(* many bytes (room; 0 - 1: all) and may take them in pieces.  r.failed: it *)
(* reported a failure; r.own: the error returned, if any, is that failure;  *)
(* r.ls: what it was given.                                                 *)
WriteGood(q, f, room, r) ==
  /\ r.st \in {"ok", "err"}
  /\ On("P22") =>
       /\ r.st = "err" => r.failed /\ r.own
       /\ \A i \in 1..Len(memo) : memo[i].key = <<"print", q.p, f>> /\ memo[i].r.st = "ok" =>
            LET full == Cat(memo[i].r.ls)
                got == Cat(r.ls)
            IN /\ Starts(full, got)
               /\ r.st = "ok" => got = full
               /\ r.st = "err" => room < Len(full) \* the writer had a reason
WriteInto(pi, f, room, r) ==
  /\ Rule(WriteGood(pats[pi], f, room, r))
  /\ UNCHANGED vars

(* --------------------------- documents and parsing ---------------------- *)
NewDoc(id, ls) ==
  /\ docs' = (id :> [ls |-> ls, src |-> <<>>, f |-> [color |-> FALSE, nl |-> TRUE, sb |-> TRUE]]) @@ docs
  /\ UNCHANGED <<texts, pats, memo>>

Faithful(d) == d.src # <<>> /\ ~d.f.color /\ d.f.nl   \* a complete printed form
ParseGood(d, r) ==
  /\ r.st \in {"ok", "err"}
  /\ (On("P06") /\ Faithful(d)) => r.st = "ok" /\ r.p = d.src[1].p
  /\ (On("P21") /\ Faithful(d)) => r.st = "ok"
  /\ (OnAny({"P08", "P09", "P20"}) /\ ~d.f.color) =>
       LET want == Parse(d.ls) IN
       /\ (On("P08") /\ want.st \in {"accept", "open"}) => ReadsAs(want, r)
       /\ (On("P09") /\ want.st = "reject") => r.st = "err"
       /\ (On("P20") /\ want.st = "reject" /\ want.why = "name") => r.st = "err"
       /\ (On("P20") /\ want.st = "accept" /\ r.st = "ok") => r.p.on = want.p.on /\ r.p.mn = want.p.mn
  /\ (On("P20") /\ d.src # <<>> /\ ~d.f.color) =>
       r.st = "ok" /\ r.p.on = d.src[1].p.on /\ r.p.mn = d.src[1].p.mn
ParseDoc(id, api, di, r) ==
  LET d == docs[di]
      key == <<"parse", d.ls>>
  IN /\ Rule(ParseGood(d, r))
     /\ Consistent(key, api, r)
     /\ Remember(key, api, r)
     /\ pats' = IF r.st = "ok"
                THEN (id :> [p |-> r.p, org |-> IF Faithful(d) THEN d.src[1].org ELSE <<>>,
                             via |-> "parse", api |-> api]) @@ pats
                ELSE pats
     /\ UNCHANGED <<texts, docs>>

SameAs(pi, qi, r) ==
  /\ r.st = "ok"
  /\ On("P06") => r.v = (pats[pi].p = pats[qi].p)
  /\ UNCHANGED vars

(* --------------------------------- merging ------------------------------ *)
MergeGood(o, a, b, m, r) ==
  LET known(x, y) == {i \in 1..Len(memo) : memo[i].key[1] = "merge" /\ memo[i].key[2] = o
                                             /\ memo[i].key[3] = x /\ memo[i].key[4] = y}
  IN /\ r.st \in {"ok", "conflict"}
     /\ On("P12") => IF r.st = "ok" THEN Explained(o, a, b, m, "exact", r.ls, FALSE)
                     ELSE Explained(o, a, b, m, "any", r.ls, TRUE)
     /\ On("P13") => IF r.st = "ok" THEN Explained(o, a, b, m, "exact", r.ls, FALSE)
                     ELSE Explained(o, a, b, m, "sections", r.ls, TRUE)
     /\ On("P14") => /\ RenderedRight(o, a, b, m, r)
                     /\ \A i \in known(a, b) : SameMerge(o, a, b, memo[i].key[5], memo[i].r, m, r)
     /\ On("P15") => \A i \in known(b, a) : memo[i].key[5] = m => Mirrored(o, b, a, m, memo[i].r, r)
MergeTexts(api, oi, ai, bi, m, r) ==
  LET o == texts[oi]
      a == texts[ai]
      b == texts[bi]
      key == <<"merge", o, a, b, m>>
  IN /\ Rule(MergeGood(o, a, b, m, r))
     /\ Consistent(key, api, r)
     /\ Remember(key, api, r)
     /\ UNCHANGED <<texts, pats, docs>>

(* a call on inputs too large to write down: it returned *)
OtherCall(r) == r.st \in {"ok", "err", "conflict"} /\ UNCHANGED vars
=============================================================================

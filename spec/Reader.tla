------------------------------- MODULE Reader ------------------------------
(* How a document is read: the algorithm of patch/parse.rs, step by step.   *)
(* A step looks at the next line (i counts those consumed).                 *)
EXTENDS Unified

RFresh(doc) ==
  [doc |-> doc, i |-> 0, pc |-> "preamble", on |-> <<>>, mn |-> <<>>, hunks |-> <<>>,
   head |-> <<>>, ls |-> <<>>, nc |-> FALSE, nd |-> FALSE, ni |-> FALSE]

End(s) == s.i = Len(s.doc)
Peek(s) == s.doc[s.i + 1]
Next1(s) == [s EXCEPT !.i = s.i + 1]
Fail(s) == [s EXCEPT !.pc = "err"]

(* the text before the first x, and after it; <<>> if there is none *)
Split(t, x) == LET c == Find(t, x) IN IF c = 0 THEN <<>> ELSE <<Take(t, c - 1), Drop(t, c + Len(x) - 1)>>

RPreamble(s) ==
  IF End(s) THEN [s EXCEPT !.pc = "names"]
  ELSE LET l == Peek(s) IN
       IF Starts(l, "--- ") \/ Starts(l, "+++ ") \/ Starts(l, "@@ ") THEN [s EXCEPT !.pc = "names"] ELSE Next1(s)

(* <<>> when the name is refused *)
RUnquote(q) ==
  LET step(acc, c) ==
        CASE acc.bad -> acc
          [] acc.esc -> LET d == CASE c = "n" -> "\n" [] c = "t" -> "\t" [] c = "0" -> Nul [] c = "r" -> "\r"
                                   [] c = "\"" -> c [] c = "\\" -> c [] OTHER -> ""
                        IN [acc EXCEPT !.esc = FALSE, !.bad = d = "", !.s = acc.s \o d]
          [] c = "\\" -> [acc EXCEPT !.esc = TRUE]
          [] c \in Special -> [acc EXCEPT !.bad = TRUE]
          [] OTHER -> [acc EXCEPT !.s = acc.s \o c]
      r == FoldLeft(step, [s |-> "", esc |-> FALSE, bad |-> FALSE], Chars(q))
  IN IF r.bad \/ r.esc THEN <<>> ELSE <<r.s>>
RName(rest) ==
  LET cut == IF Split(rest, "\t") # <<>> THEN Split(rest, "\t") ELSE Split(rest, "\n")
      n == cut[1]
      inner == IF Starts(n, "\"") THEN Drop(n, 1) ELSE ""
  IN IF cut = <<>> THEN <<>>
     ELSE IF inner # "" /\ Ch(inner, Len(inner)) = "\"" THEN RUnquote(Take(inner, Len(inner) - 1))
     ELSE IF NeedsQuote(n) THEN <<>> ELSE <<n>>
RNames(s) ==
  IF End(s) THEN [s EXCEPT !.pc = "hunks"]
  ELSE LET l == Peek(s)
           n == RName(Drop(l, 4))
       IN IF Starts(l, "--- ")
          THEN IF s.on # <<>> \/ n = <<>> THEN Fail(s) ELSE [Next1(s) EXCEPT !.on = n]
          ELSE IF Starts(l, "+++ ")
          THEN IF s.mn # <<>> \/ n = <<>> THEN Fail(s) ELSE [Next1(s) EXCEPT !.mn = n]
          ELSE [s EXCEPT !.pc = "hunks"]

(* numbers below Big only: larger ones are left to the documents that the   *)
(* real reader is given                                                     *)
RNumber(t) == LET n == Number(t) IN IF n.ok THEN <<n>> ELSE <<>>
RRange(t) ==
  LET c == Split(t, ",")
      a == IF c = <<>> THEN RNumber(t) ELSE RNumber(c[1])
      b == IF c = <<>> THEN <<One>> ELSE RNumber(c[2])
  IN IF a = <<>> \/ b = <<>> THEN <<>> ELSE <<a[1], b[1]>>
RHead(l) ==   \* <<>> or <<hunk without lines>>
  LET rest == Drop(l, 3)
      cut == Split(rest, " @@")
      rg == Split(cut[1], " ")
      r1 == RRange(Drop(rg[1], 1))
      r2 == RRange(Drop(rg[2], 1))
      fc == IF Starts(cut[2], " ") THEN <<ChopNL(Drop(cut[2], 1))>> ELSE <<>>
  IN IF ~Starts(l, "@@ ") \/ cut = <<>> THEN <<>>
     ELSE IF rg = <<>> THEN <<>>
     ELSE IF ~Starts(rg[1], "-") \/ ~Starts(rg[2], "+") THEN <<>>
     ELSE IF r1 = <<>> \/ r2 = <<>> THEN <<>>
     ELSE <<[os |-> r1[1].v, ol |-> r1[2].v, ns |-> r2[1].v, nl |-> r2[2].v,
             rn |-> <<r1[1].d, r1[2].d, r2[1].d, r2[2].d>>, acc |-> TRUE, fc |-> fc, ls |-> <<>>]>>
ROrdered(hs) == \A k \in 1..Len(hs) - 1 :
  /\ hs[k].os + hs[k].ol <= hs[k + 1].os
  /\ hs[k].ns + hs[k].nl <= hs[k + 1].ns
RHunks(s) ==
  IF End(s) THEN IF ROrdered(s.hunks) THEN [s EXCEPT !.pc = "ok"] ELSE Fail(s)
  ELSE LET h == RHead(Peek(s)) IN
       IF h = <<>> THEN Fail(s)
       ELSE [Next1(s) EXCEPT !.pc = "lines", !.head = h, !.ls = <<>>, !.nc = FALSE, !.nd = FALSE, !.ni = FALSE]

RClose(s) ==
  LET h == [s.head[1] EXCEPT !.ls = s.ls]
  IN IF Len(Old(h)) # h.ol \/ Len(New(h)) # h.nl THEN Fail(s)
     ELSE [s EXCEPT !.pc = "hunks", !.hunks = Append(s.hunks, h), !.head = <<>>, !.ls = <<>>]
RLines(s) ==
  IF End(s) THEN RClose(s)
  ELSE LET l == Peek(s)
           push(k, t) == [Next1(s) EXCEPT !.ls = Append(s.ls, <<k, t>>)]
           last == s.ls[Len(s.ls)]
           cut == [Next1(s) EXCEPT !.ls = [s.ls EXCEPT ![Len(s.ls)] = <<last[1], ChopNL(last[2])>>]]
       IN CASE Starts(l, "@") -> RClose(s)
            [] s.nc -> Fail(s)
            [] Starts(l, " ") -> push("C", Drop(l, 1))
            [] Starts(l, "\n") -> push("C", l)
            [] Starts(l, "-") -> IF s.nd THEN Fail(s) ELSE push("D", Drop(l, 1))
            [] Starts(l, "+") -> IF s.ni THEN Fail(s) ELSE push("I", Drop(l, 1))
            [] Starts(l, Marker) ->
                 IF s.ls = <<>> THEN Fail(s)
                 ELSE IF ~HasNL(last[2]) THEN Fail(s)
                 ELSE (CASE last[1] = "C" -> [cut EXCEPT !.nc = TRUE]
                         [] last[1] = "D" -> [cut EXCEPT !.nd = TRUE]
                         [] last[1] = "I" -> [cut EXCEPT !.ni = TRUE])
            [] OTHER -> Fail(s)

RStep(s) ==
  CASE s.pc = "preamble" -> RPreamble(s)
    [] s.pc = "names" -> RNames(s)
    [] s.pc = "hunks" -> RHunks(s)
    [] s.pc = "lines" -> RLines(s)
ROver(s) == s.pc \in {"ok", "err"}
RECURSIVE RFinish(_)
RFinish(s) == IF ROver(s) THEN s ELSE RFinish(RStep(s))
RAnswer(s) == IF s.pc = "ok" THEN [st |-> "ok", p |-> [on |-> s.on, mn |-> s.mn, hunks |-> s.hunks]] ELSE [st |-> "err"]
MadeParse(doc) == RAnswer(RFinish(RFresh(doc)))
=============================================================================

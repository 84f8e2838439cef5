------------------------------ MODULE Unified ------------------------------
(* The unified diff document: printing and parsing.                         *)
EXTENDS Patches

Marker == "\\ No newline at end of file"

(* -------------------------------- names -------------------------------- *)
Special == {"\n", "\t", Nul, "\r", "\"", "\\"}
EscapeOf(c) == CASE c = "\n" -> "n" [] c = "\t" -> "t" [] c = Nul -> "0" [] c = "\r" -> "r"
                 [] c = "\"" -> "\"" [] c = "\\" -> "\\"
NeedsQuote(n) == \E i \in 1..Len(n) : Ch(n, i) \in Special
Quoted(n) ==
  IF NeedsQuote(n)
  THEN "\"" \o FoldLeft(LAMBDA acc, c : acc \o (IF c \in Special THEN "\\" \o EscapeOf(c) ELSE c),
                        "", Chars(n)) \o "\""
  ELSE n

(* reading a name as written; st is "accept", "reject" or "free" (escapes   *)
(* of C that the format may or may not support)                             *)
Unescape(q) ==
  LET step(acc, c) ==
        IF acc.st = "reject" THEN acc
        ELSE IF acc.esc THEN
          CASE c = "n" -> [acc EXCEPT !.s = acc.s \o "\n", !.esc = FALSE]
            [] c = "t" -> [acc EXCEPT !.s = acc.s \o "\t", !.esc = FALSE]
            [] c = "0" -> [acc EXCEPT !.s = acc.s \o Nul, !.esc = FALSE]
            [] c = "r" -> [acc EXCEPT !.s = acc.s \o "\r", !.esc = FALSE]
            [] c = "\"" -> [acc EXCEPT !.s = acc.s \o c, !.esc = FALSE]
            [] c = "\\" -> [acc EXCEPT !.s = acc.s \o c, !.esc = FALSE]
            [] c \in {"a", "b", "f", "v", "1", "2", "3", "4", "5", "6", "7"} ->
                 [acc EXCEPT !.st = "free", !.esc = FALSE]
            [] OTHER -> [acc EXCEPT !.st = "reject"]
        ELSE IF c = "\\" THEN [acc EXCEPT !.esc = TRUE]
        ELSE IF c \in Special THEN [acc EXCEPT !.st = "reject"]
        ELSE [acc EXCEPT !.s = acc.s \o c]
      r == FoldLeft(step, [st |-> "accept", s |-> "", esc |-> FALSE], Chars(q))
  IN IF r.esc THEN [st |-> "reject", s |-> ""] ELSE [st |-> r.st, s |-> r.s]

(* the rest of a '--- ' or '+++ ' line: the name ends at the first tab or   *)
(* at the newline                                                           *)
ReadName(rest) ==
  LET tab == Find(rest, "\t")
      end == IF tab # 0 THEN tab ELSE Find(rest, "\n")
      n == Take(rest, end - 1)
  IN IF end = 0 THEN [st |-> "reject", s |-> ""]
     ELSE IF Len(n) >= 2 /\ Ch(n, 1) = "\"" /\ Ch(n, Len(n)) = "\""
     THEN Unescape(SubSeq(n, 2, Len(n) - 1))
     ELSE IF NeedsQuote(n) THEN [st |-> "reject", s |-> ""]
     ELSE [st |-> "accept", s |-> n]

(* ------------------------------- printing ------------------------------ *)
(* options: nl = the no-newline message is printed, sb = the blank of empty *)
(* context lines is suppressed                                              *)
RangeText(start, len) == IF len = "1" THEN start ELSE start \o "," \o len
HunkHead(h) ==
  "@@ -" \o RangeText(h.rn[1], h.rn[2]) \o " +" \o RangeText(h.rn[3], h.rn[4]) \o " @@"
    \o (IF h.fc = <<>> THEN "" ELSE " " \o h.fc[1]) \o "\n"
Sign(k) == CASE k = "C" -> " " [] k = "D" -> "-" [] k = "I" -> "+"
LineDoc(l, nl, sb) ==
  LET sign == IF l[1] = "C" /\ l[2] = "\n" /\ sb THEN "" ELSE Sign(l[1])
  IN <<EndNL(sign \o l[2])>> \o (IF ~HasNL(l[2]) /\ nl THEN <<Marker \o "\n">> ELSE <<>>)
HunkDoc(h, nl, sb) == <<HunkHead(h)>> \o Flat([i \in 1..Len(h.ls) |-> LineDoc(h.ls[i], nl, sb)])
NamesDoc(p) ==
  (IF p.on = <<>> THEN <<>> ELSE <<"--- " \o Quoted(p.on[1]) \o "\n">>)
    \o (IF p.mn = <<>> THEN <<>> ELSE <<"+++ " \o Quoted(p.mn[1]) \o "\n">>)
Format(p, nl, sb) ==
  NamesDoc(p) \o Flat([i \in 1..Len(p.hunks) |-> HunkDoc(p.hunks[i], nl, sb)])

(* A section heading cannot contain a newline in a document. *)

(* ----------------------------- style removal --------------------------- *)
StripStyle(s) ==
  LET digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ";"}
      step(acc, c) ==
        CASE acc.m = 0 /\ c = Esc -> [acc EXCEPT !.m = 1, !.hold = c]
          [] c = Esc -> [m |-> 1, hold |-> c, out |-> acc.out \o acc.hold]
          [] acc.m = 0 -> [acc EXCEPT !.out = acc.out \o c]
          [] acc.m = 1 /\ c = "[" -> [acc EXCEPT !.m = 2, !.hold = acc.hold \o c]
          [] acc.m = 2 /\ c \in digit -> [acc EXCEPT !.hold = acc.hold \o c]
          [] acc.m = 2 /\ c = "m" -> [acc EXCEPT !.m = 0, !.hold = ""]
          [] OTHER -> [m |-> 0, hold |-> "", out |-> acc.out \o acc.hold \o c]
      r == FoldLeft(step, [m |-> 0, hold |-> "", out |-> ""], Chars(s))
  IN r.out \o r.hold

(* ------------------------------- parsing ------------------------------- *)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
MaxNumber == "18446744073709551615"
Big == 1000000000

(* digits as written, compared as numbers of the same length *)
LeqDigits(a, b) ==
  LET S == {i \in 1..Len(a) : Ch(a, i) # Ch(b, i)}
  IN S = {} \/ DigitVal(Ch(a, MinOf(S))) < DigitVal(Ch(b, MinOf(S)))

(* ok: a number; open: acceptable or not at the reader's discretion; d: its *)
(* canonical digits; v: its value, at most Big                              *)
Number(s) ==
  LET plus == s # "" /\ Ch(s, 1) = "+"
      t == IF plus THEN Drop(s, 1) ELSE s
      cs == Chars(t)
      alld == t # "" /\ \A i \in 1..Len(t) : cs[i] \in Digits
      nz == {i \in 1..Len(t) : cs[i] # "0"}
      d == IF nz = {} THEN "0" ELSE Drop(t, MinOf(nz) - 1)
      fits == Len(d) < 20 \/ (Len(d) = 20 /\ LeqDigits(d, MaxNumber))
      val == IF Len(d) > 9 THEN Big
             ELSE FoldLeft(LAMBDA acc, c : 10 * acc + DigitVal(c), 0, Chars(d))
  IN IF ~alld THEN [ok |-> FALSE, open |-> FALSE, d |-> "0", v |-> 0]
     ELSE [ok |-> fits, open |-> plus \/ Len(d) >= 19, d |-> d, v |-> val]

One == [ok |-> TRUE, open |-> FALSE, d |-> "1", v |-> 1]
ReadRange(s) ==
  LET c == Find(s, ",")
      a == IF c = 0 THEN Number(s) ELSE Number(Take(s, c - 1))
      b == IF c = 0 THEN One ELSE Number(Drop(s, c))
  IN [ok |-> a.ok /\ b.ok,
      open |-> a.open \/ b.open \/ (a.v = 0 /\ b.v > 0),
      s |-> a, l |-> b]

Reject == [ok |-> FALSE]
HeadLine(line) ==   \* a line that begins "@@ "
  LET rest == Drop(line, 3)
      e == Find(rest, " @@")
      rg == Take(rest, e - 1)
      after == Drop(rest, e + 2)
      sp == Find(rg, " ")
      w1 == Take(rg, sp - 1)
      w2 == Drop(rg, sp)
      r1 == ReadRange(Drop(w1, 1))
      r2 == ReadRange(Drop(w2, 1))
      fc == IF Starts(after, " ") THEN <<ChopNL(Drop(after, 1))>> ELSE <<>>
  IN IF ~Starts(line, "@@ ") \/ e = 0 \/ sp = 0 THEN Reject
     ELSE IF ~Starts(w1, "-") \/ ~Starts(w2, "+") THEN Reject
     ELSE IF ~r1.ok \/ ~r2.ok THEN Reject
     ELSE [ok |-> TRUE,
           open |-> r1.open \/ r2.open \/ (fc = <<>> /\ after # "\n"),
           h |-> [os |-> r1.s.v, ol |-> r1.l.v, ns |-> r2.s.v, nl |-> r2.l.v,
                  rn |-> <<r1.s.d, r1.l.d, r2.s.d, r2.l.d>>,
                  acc |-> TRUE, fc |-> fc, ls |-> <<>>]]

(* The reader, one line at a time.  ph: "pre" (preamble), "head" (names),   *)
(* "body" (in a hunk), "rej".                                               *)
Start == [ph |-> "pre", st |-> "accept", on |-> <<>>, mn |-> <<>>, hunks |-> <<>>, cur |-> <<>>,
          nc |-> FALSE, nd |-> FALSE, ni |-> FALSE, nn |-> FALSE, bad |-> "none"]
Weaken(st, new) == IF st = "free" \/ new = "free" THEN "free"
                   ELSE IF st = "open" \/ new = "open" THEN "open" ELSE "accept"
Rej(s, why) == [s EXCEPT !.ph = "rej", !.bad = why]
OpenIf(s, c) == IF c THEN [s EXCEPT !.st = Weaken(s.st, "open")] ELSE s

CloseHunk(s) ==
  IF s.cur = <<>> THEN s
  ELSE LET h == s.cur[1]
           oc == Len(SelectSeq(h.ls, LAMBDA l : l[1] # "I"))
           nc == Len(SelectSeq(h.ls, LAMBDA l : l[1] # "D"))
       IN IF oc # h.ol \/ nc # h.nl THEN Rej(s, "count")
          ELSE OpenIf([s EXCEPT !.hunks = Append(s.hunks, h), !.cur = <<>>,
                                !.nn = s.nn \/ s.nc \/ s.nd \/ s.ni,
                                !.nc = FALSE, !.nd = FALSE, !.ni = FALSE],
                      h.ls = <<>>)

OpenHunk(s0, line) ==
  LET s == CloseHunk(s0)
      r == HeadLine(line)
  IN IF s.ph = "rej" THEN s
     ELSE IF ~r.ok THEN Rej(s, "head")
     ELSE OpenIf([s EXCEPT !.ph = "body", !.cur = <<r.h>>], r.open \/ s.nn)

NameLine(s, line, orig) ==
  LET seen == IF orig THEN s.on # <<>> ELSE s.mn # <<>>
      r == ReadName(Drop(line, 4))
  IN IF seen THEN Rej(s, "repeat")
     ELSE IF r.st = "reject" THEN Rej(s, "name")
     ELSE [s EXCEPT !.ph = "head", !.st = Weaken(s.st, r.st),
                    !.on = IF orig THEN <<r.s>> ELSE s.on,
                    !.mn = IF orig THEN s.mn ELSE <<r.s>>]

Push(s, k, t) == [s EXCEPT !.cur = <<[s.cur[1] EXCEPT !.ls = Append(s.cur[1].ls, <<k, t>>)]>>]

BodyLine(s, line) ==
  LET c == Ch(line, 1)
      ls == s.cur[1].ls
      last == ls[Len(ls)]
      chopped == [s EXCEPT !.cur = <<[s.cur[1] EXCEPT !.ls =
                     [ls EXCEPT ![Len(ls)] = <<last[1], ChopNL(last[2])>>]]>>]
  IN IF s.nc THEN Rej(s, "afterend")
     ELSE CASE c = " " -> OpenIf(Push(s, "C", Drop(line, 1)), s.nd \/ s.ni)
            [] c = "\n" -> OpenIf(Push(s, "C", line), s.nd \/ s.ni)
            [] c = "-" -> IF s.nd THEN Rej(s, "afterend") ELSE Push(s, "D", Drop(line, 1))
            [] c = "+" -> IF s.ni THEN Rej(s, "afterend") ELSE Push(s, "I", Drop(line, 1))
            [] Starts(line, Marker) ->
                 IF ls = <<>> THEN Rej(s, "marker")
                 ELSE IF ~HasNL(last[2]) THEN Rej(s, "marker")
                 ELSE LET t == OpenIf(chopped, ChopNL(line) # Marker)
                      IN (CASE last[1] = "C" -> OpenIf([t EXCEPT !.nc = TRUE], s.nd \/ s.ni)
                            [] last[1] = "D" -> [t EXCEPT !.nd = TRUE]
                            [] last[1] = "I" -> [t EXCEPT !.ni = TRUE])
            [] OTHER -> Rej(s, "stray")

ReadLine(s, line) ==
  CASE s.ph = "rej" -> s
    [] s.ph \in {"pre", "head"} /\ Starts(line, "--- ") -> NameLine(s, line, TRUE)
    [] s.ph \in {"pre", "head"} /\ Starts(line, "+++ ") -> NameLine(s, line, FALSE)
    [] s.ph = "pre" /\ ~Starts(line, "@@ ") -> s
    [] s.ph \in {"pre", "head"} -> OpenHunk(s, line)
    [] s.ph = "body" /\ Ch(line, 1) = "@" -> OpenHunk(s, line)
    [] OTHER -> BodyLine(s, line)

(* hunks in order: the code of the format compares ends with starts; for    *)
(* empty ranges (numbered by the line before) both readings are acceptable  *)
PlainOrder(a, la, b, lb) == a + la <= b
TrueOrder(a, la, b, lb) == At0(a, la) + la <= At0(b, lb)
Pairs(hs) == {<<hs[k], hs[k + 1]>> : k \in 1..Len(hs) - 1}
Disordered(hs) ==
  \E x \in Pairs(hs) :
    \/ ~PlainOrder(x[1].os, x[1].ol, x[2].os, x[2].ol) /\ ~TrueOrder(x[1].os, x[1].ol, x[2].os, x[2].ol)
    \/ ~PlainOrder(x[1].ns, x[1].nl, x[2].ns, x[2].nl) /\ ~TrueOrder(x[1].ns, x[1].nl, x[2].ns, x[2].nl)
OrderDoubtful(hs) ==
  \E x \in Pairs(hs) :
    \/ PlainOrder(x[1].os, x[1].ol, x[2].os, x[2].ol) # TrueOrder(x[1].os, x[1].ol, x[2].os, x[2].ol)
    \/ PlainOrder(x[1].ns, x[1].nl, x[2].ns, x[2].nl) # TrueOrder(x[1].ns, x[1].nl, x[2].ns, x[2].nl)
    \/ \E y \in {1, 2} : x[y].os >= Big \/ x[y].ns >= Big

(* st: "accept" (must be read, as p), "reject" (must be refused), "open"    *)
(* (refused, or read as p), "free" (anything)                               *)
Parse(doc) ==
  LET r == FoldLeft(ReadLine, Start, doc)
      s == IF r.ph = "rej" THEN r ELSE CloseHunk(r)
      p == [on |-> s.on, mn |-> s.mn, hunks |-> s.hunks]
      huge == \E k \in 1..Len(s.hunks) : s.hunks[k].os >= Big \/ s.hunks[k].ns >= Big
      cut == Len(doc) > 0 /\ s.hunks # <<>> /\ ~HasNL(doc[Len(doc)]) /\ Ch(doc[Len(doc)], 1) # "\\"
  IN IF s.ph = "rej" THEN [st |-> "reject", why |-> s.bad, p |-> p]
     ELSE IF ~(huge /\ Len(s.hunks) > 1) /\ Disordered(s.hunks)
     THEN [st |-> "reject", why |-> "order", p |-> p]
     ELSE [st |-> IF s.ph = "pre" \/ cut \/ OrderDoubtful(s.hunks) THEN Weaken(s.st, "open") ELSE s.st,
           why |-> "none", p |-> p]

(* what a reader may make of a parse outcome *)
ReadsAs(want, r) ==
  CASE want.st = "accept" -> r.st = "ok" /\ r.p = want.p
    [] want.st = "reject" -> r.st = "err"
    [] want.st = "open" -> r.st = "err" \/ (r.st = "ok" /\ r.p = want.p)
    [] OTHER -> r.st \in {"ok", "err"}
=============================================================================

------------------------------- MODULE Text --------------------------------
(* Byte strings and texts.                                                  *)
(*                                                                          *)
(* A byte string is a TLA+ string with one character U+0000..U+00FF per     *)
(* byte.  A text (a file, or a patch document) is the sequence of its       *)
(* lines; a line is a nonempty byte string that ends with a newline, except *)
(* that the last line of a text may lack it.                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC

LOCAL Const == ndJsonDeserialize("const.ndjson")[1]
Nul == Const.nul          \* characters a TLA+ string literal cannot spell
Esc == Const.esc

Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

Idx(n) == [i \in 1..n |-> i]
Ch(s, i) == SubSeq(s, i, i)                    \* i-th byte as a string
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Drop(s, n) == SubSeq(s, n + 1, Len(s))         \* strings and sequences
Take(s, n) == SubSeq(s, 1, n)
Starts(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
HasNL(s) == s # "" /\ Ch(s, Len(s)) = "\n"
ChopNL(s) == IF HasNL(s) THEN SubSeq(s, 1, Len(s) - 1) ELSE s
EndNL(s) == IF HasNL(s) THEN s ELSE s \o "\n"

(* position of the first occurrence of x in s, 0 if none *)
Find(s, x) ==
  LET S == {i \in 1..(Len(s) - Len(x) + 1) : SubSeq(s, i, i + Len(x) - 1) = x}
  IN IF S = {} THEN 0 ELSE MinOf(S)

(* concatenate strings: long sequences by halves, which saves copying *)
RECURSIVE Join(_, _, _)
Join(ss, i, j) ==
  IF j - i < 40 THEN FoldLeft(LAMBDA acc, s : acc \o s, "", SubSeq(ss, i, j))
  ELSE LET m == (i + j) \div 2 IN Join(ss, i, m) \o Join(ss, m + 1, j)
Cat(ss) == LET all == SubSeq(ss, 1, Len(ss)) IN Join(all, 1, Len(all))
Flat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss) \* concatenate sequences
RECURSIVE Rep(_, _)
Rep(c, n) ==
  IF n = 0 THEN "" ELSE LET h == Rep(c, n \div 2) IN IF n % 2 = 0 THEN h \o h ELSE h \o h \o c

IsText(t) ==
  \A i \in 1..Len(t) : t[i] # "" /\ Find(ChopNL(t[i]), "\n") = 0 /\ (i < Len(t) => HasNL(t[i]))

(* the lines of a byte string *)
Lines(s) ==
  LET step(acc, c) == IF c = "\n" THEN [ls |-> Append(acc.ls, acc.cur \o c), cur |-> ""]
                      ELSE [acc EXCEPT !.cur = acc.cur \o c]
      r == FoldLeft(step, [ls |-> <<>>, cur |-> ""], Chars(s))
  IN IF r.cur = "" THEN r.ls ELSE Append(r.ls, r.cur)

(* is [i, i+Len(b)) of a equal to b?  positions from 0, any integers *)
At(a, i, b) ==
  /\ i >= 0 /\ i + Len(b) <= Len(a)
  /\ \A k \in 1..Len(b) : a[i + k] = b[k]
(* do a from i (0-based) and b from j agree on n elements? *)
Agree(a, i, b, j, n) ==
  /\ i >= 0 /\ j >= 0 /\ i + n <= Len(a) /\ j + n <= Len(b)
  /\ \A k \in 1..n : a[i + k] = b[j + k]
=============================================================================

------------------------------- MODULE Align -------------------------------
(* Alignments of two sequences of lines: the mathematics behind "least      *)
(* number of changes" and behind the three-way merge.                       *)
EXTENDS Text

LOCAL Row(prev, x, b) ==
  FoldLeft(LAMBDA acc, j : Append(acc, IF x = b[j] THEN prev[j] + 1
                                       ELSE Mx(prev[j + 1], acc[j])),
           <<0>>, Idx(Len(b)))

LOCAL LcsCore(a, b) ==
  LET last == FoldLeft(LAMBDA r, x : Row(r, x, b), [j \in 1..Len(b) + 1 |-> 0], a)
  IN last[Len(b) + 1]

PrefixLen(a, b) ==
  LET S == {i \in 1..Mn(Len(a), Len(b)) : a[i] # b[i]}
  IN IF S = {} THEN Mn(Len(a), Len(b)) ELSE MinOf(S) - 1
SuffixLen(a, b) ==
  LET n == Mn(Len(a), Len(b))
      S == {i \in 1..n : a[Len(a) + 1 - i] # b[Len(b) + 1 - i]}
  IN IF S = {} THEN n ELSE MinOf(S) - 1

(* length of a longest common subsequence *)
Lcs(a, b) ==
  LET p == PrefixLen(a, b)
      a1 == Drop(a, p)
      b1 == Drop(b, p)
      s == SuffixLen(a1, b1)
  IN p + s + LcsCore(Take(a1, Len(a1) - s), Take(b1, Len(b1) - s))

(* least number of deleted plus inserted lines *)
Distance(a, b) == Len(a) + Len(b) - 2 * Lcs(a, b)

(* T[i][j] = longest common subsequence of a from i and b from j (1-based,  *)
(* up to Len+1)                                                             *)
SuffixTable(a, b) ==
  LET n == Len(b)
      row(next, x) ==  \* built from the right, kept reversed: r[k] is column n+2-k
        FoldLeft(LAMBDA acc, k :
                   LET j == n + 1 - k IN
                   Append(acc, IF x = b[j] THEN next[k] + 1 ELSE Mx(next[k + 1], acc[k])),
                 <<0>>, Idx(n))
      rows == FoldLeft(LAMBDA acc, i : Append(acc, row(acc[i], a[Len(a) + 1 - i])),
                       <<[k \in 1..n + 1 |-> 0]>>, Idx(Len(a)))
  IN [i \in 1..Len(a) + 1 |-> [j \in 1..n + 1 |-> rows[Len(a) + 2 - i][n + 2 - j]]]

(* Given T == SuffixTable(a, b) and a longest alignment that so far matched *)
(* a before i and b before j: where may a[i] be matched?  0 = not matched.  *)
MatchChoices(T, a, b, i, j) ==
  (IF T[i + 1][j] = T[i][j] THEN {0} ELSE {})
    \cup {k \in j..Len(b) : /\ b[k] = a[i]
                            /\ T[i][k] = T[i][j]
                            /\ T[i + 1][k + 1] + 1 = T[i][j]}

(* all longest alignments, as functions 1..Len(a) -> 0..Len(b) *)
Alignments(a, b) ==
  LET T == SuffixTable(a, b)
      grow(S, i) == UNION {{[m |-> Append(s.m, c), j |-> IF c = 0 THEN s.j ELSE c + 1]
                              : c \in MatchChoices(T, a, b, i, s.j)} : s \in S}
  IN {s.m : s \in FoldLeft(grow, {[m |-> <<>>, j |-> 1]}, Idx(Len(a)))}
=============================================================================

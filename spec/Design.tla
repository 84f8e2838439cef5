------------------------------- MODULE Design ------------------------------
(* The design: a client that writes versions of a text and makes calls,     *)
(* against a library that answers in any way the contract allows.           *)
(*                                                                          *)
(* A call has two steps: the client asks (the arguments are chosen), and    *)
(* the library answers with any result that the contract alone offers       *)
(* (Answers) and that the contract's action, given the history, accepts.    *)
(* No deadlock means that the contract can always be met, whatever was      *)
(* answered before.  The laws below are what users rely on; they are stated *)
(* over the whole state and follow from the contract.                       *)
(*                                                                          *)
(* hist is the behaviour as a program for the driver: simulation of this    *)
(* module generates programs that are run against the real library.         *)
EXTENDS Diffy, IOUtils

CONSTANTS
  MaxCalls,      \* calls in a behaviour
  MaxTexts,      \* texts the client writes
  MaxEdits,      \* edits between versions
  MaxLines,      \* lines in a text the client writes
  Alphabet,      \* lines without their newline
  Ops,           \* the calls the client makes
  Ctxs, Opts, Fmts, Apis, Names

VARIABLES
  draft,   \* what the client is writing, and how many edits so far
  ask,     \* <<>> or the call that waits for its answer
  made,    \* calls answered
  nid,     \* ids given out
  hist
dvars == <<texts, pats, docs, memo, draft, ask, made, nid, hist>>

DInit == Init /\ draft = [ls |-> <<>>, n |-> 0, saved |-> 0, over |-> FALSE] /\ ask = <<>> /\ made = 0 /\ nid = 0 /\ hist = <<>>

Op(k, n, b) == [k |-> k, n |-> n, b |-> b]
Bit(x) == IF x THEN 1 ELSE 0
Code(a) == CASE a = "s" -> 0 [] a = "b" -> 1 [] a = "l" -> 2
Texts == DOMAIN texts
Pats == DOMAIN pats
Docs == DOMAIN docs

(* -------------------------------- writing ------------------------------- *)
Line == {x \o "\n" : x \in Alphabet}
AddLine(t, i, x) == Take(t, i) \o <<x>> \o Drop(t, i)
CutLine(t, i) == Take(t, i - 1) \o Drop(t, i)
Edits(t) ==
  {AddLine(t, i, x) : i \in 0..(IF t # <<>> /\ ~HasNL(t[Len(t)]) THEN Len(t) - 1 ELSE Len(t)), x \in Line}
    \cup {CutLine(t, i) : i \in 1..Len(t)}
    \cup {IF i = Len(t) /\ ~HasNL(t[i]) THEN [t EXCEPT ![i] = ChopNL(x)] ELSE [t EXCEPT ![i] = x]
            : i \in 1..Len(t), x \in Line}
    \cup (IF t = <<>> THEN {} ELSE IF HasNL(t[Len(t)])
          THEN IF Len(t[Len(t)]) > 1 THEN {[t EXCEPT ![Len(t)] = ChopNL(t[Len(t)])]} ELSE {}
          ELSE {[t EXCEPT ![Len(t)] = EndNL(t[Len(t)])]})
    \cup {t \o t}          \* repetition is what makes alignments ambiguous
WellMade(t) == IsText(t) /\ Len(t) <= MaxLines

Edit ==
  /\ ask = <<>> /\ draft.n < MaxEdits /\ draft.saved < MaxTexts
  /\ \E t \in Edits(draft.ls) : WellMade(t) /\ t # draft.ls /\ draft' = [draft EXCEPT !.ls = t, !.n = draft.n + 1]
  /\ UNCHANGED <<texts, pats, docs, memo, ask, made, nid, hist>>
Save ==
  /\ ask = <<>> /\ draft.saved < MaxTexts
  /\ nid' = nid + 1
  /\ NewText(nid', draft.ls)
  /\ hist' = Append(hist, Op("text", <<nid'>>, <<Cat(draft.ls)>>))
  /\ draft' = [draft EXCEPT !.n = 0, !.saved = draft.saved + 1]
  /\ UNCHANGED <<ask, made>>
Back ==   \* go on from an earlier version
  /\ ask = <<>> /\ draft.n = 0 /\ draft.saved \in 1..MaxTexts - 1
  /\ \E i \in Texts : texts[i] # draft.ls /\ WellMade(texts[i]) /\ draft' = [draft EXCEPT !.ls = texts[i]]
  /\ UNCHANGED <<texts, pats, docs, memo, ask, made, nid, hist>>

(* -------------------------------- asking -------------------------------- *)
(* a writer: the bytes it has room for, and how it takes them *)
Rooms == {0 - 1, 0, 3, 12, 31, 50, 77}
Chunks == <<1, 2, 5, 16, 1000>>
Args(op) ==   \* what the arguments of a call are chosen from, one after the other
  CASE op = "diff" -> <<Texts, Texts, Ctxs, Apis, Names>>
    [] op \in {"rev", "look", "copy"} -> <<Pats>>
    [] op = "apply" -> <<Texts, Pats>>
    [] op = "print" -> <<Pats, Fmts>>
    [] op = "write" -> <<Pats, Fmts, Rooms>>
    [] op = "doc" -> <<Docs>>
    [] op = "parse" -> <<Docs, Apis>>
    [] op = "same" -> <<Pats, Pats>>
    [] op = "merge" -> <<Texts, Texts, Texts, Opts, Apis>>
Asked == ask # <<>> /\ Len(ask) = 1 + Len(Args(ask[1]))
AskFor(op) ==
  /\ ask = <<>> /\ made < MaxCalls
  /\ \A i \in 1..Len(Args(op)) : Args(op)[i] # {}
  /\ ask' = <<op>>
  /\ UNCHANGED <<texts, pats, docs, memo, draft, made, nid, hist>>
Choose ==
  /\ ask # <<>> /\ ~Asked
  /\ \E x \in Args(ask[1])[Len(ask)] : ask' = Append(ask, x)
  /\ UNCHANGED <<texts, pats, docs, memo, draft, made, nid, hist>>

(* one fault in a document *)
Swap(ls, i) == [ls EXCEPT ![i] = ls[i + 1], ![i + 1] = ls[i]]
Stray == {"stray\n", "\n", " x\n", "-x\n", "+x\n", "@@ -1 +1 @@\n", "--- a\n", "+++ b\n", Marker \o "\n"}
Damage(ls) ==
  {d \in
    {CutLine(ls, i) : i \in 1..Len(ls)}
      \cup {AddLine(ls, i, ls[i]) : i \in 1..Len(ls)}
      \cup {Swap(ls, i) : i \in 1..Len(ls) - 1}
      \cup {AddLine(ls, i, x) : i \in 0..Len(ls), x \in Stray}
      \cup {[ls EXCEPT ![i] = x \o Drop(ls[i], 1)] : i \in 1..Len(ls), x \in {" ", "-", "+"}}
      \cup {ls}
    : IsText(d)}

(* ------------------------------- answering ------------------------------ *)
Ok(x) == [st |-> "ok", ls |-> x]
Byte(s) == Lines(s)
AnswersDiff(a) ==
  {[st |-> "ok", p |-> p] : p \in AllowedPatches(texts[a[2]], texts[a[3]], a[4], <<a[6][1]>>, <<a[6][2]>>)}
AnswersApply(a) ==
  LET out == NearOutcomes(texts[a[2]], pats[a[3]].p)
  IN {Ok(Byte(s)) : s \in Oks(out)} \cup {[st |-> "err", h |-> MinOf(out.errs)] : x \in IF out.errs = {} THEN {} ELSE {0}}
AnswersParse(a) ==
  LET w == Parse(docs[a[2]].ls)
  IN (IF w.st \in {"accept", "open"} THEN {[st |-> "ok", p |-> w.p]} ELSE {})
       \cup (IF w.st = "accept" THEN {} ELSE {[st |-> "err"]})

Paint(x) == Esc \o "[1m" \o ChopNL(x) \o Esc \o "[0m" \o (IF HasNL(x) THEN "\n" ELSE "")

(* the entry point used: Display and to_bytes print with the default options *)
Plainest == [color |-> FALSE, nl |-> TRUE, sb |-> TRUE]
Entry(f) == IF f = Plainest THEN made % 4 ELSE 2 + (made % 2)

Printed(p, f) ==
  LET ls == Format(p, f.nl, f.sb) IN IF f.color THEN [i \in 1..Len(ls) |-> Paint(ls[i])] ELSE ls
AnswersWrite(a) ==
  LET full == Cat(Printed(pats[a[2]].p, a[3]))
      short == a[4] >= 0 /\ a[4] < Len(full)
  IN {[st |-> IF short THEN "err" ELSE "ok", failed |-> short, own |-> TRUE,
       ls |-> Lines(IF short THEN Take(full, a[4]) ELSE full)]}

New1 == nid' = 1 + nid
Answer ==
  /\ Asked
  /\ LET a == ask IN
     \/ /\ a[1] = "diff" /\ New1
        /\ \E r \in AnswersDiff(a) : Diff(nid', a[5], a[2], a[3], a[4], <<a[6][1]>>, <<a[6][2]>>, <<>>, r)
        /\ hist' = Append(hist, Op("diff", <<nid', a[2], a[3], a[4], Code(a[5]), 0 - 1, 1, 1>>, a[6]))
     \/ /\ a[1] = "rev" /\ New1
        /\ Turn(nid', a[2], [st |-> "ok", p |-> Rev(pats[a[2]].p), hs |-> Rev(pats[a[2]].p).hunks])
        /\ hist' = Append(hist, Op("rev", <<nid', a[2]>>, <<>>))
     \/ /\ a[1] = "look" /\ nid' = nid
        /\ Look(a[2], [st |-> "ok", p |-> pats[a[2]].p])
        /\ hist' = Append(hist, Op("look", <<a[2]>>, <<>>))
     \/ /\ a[1] = "apply" /\ New1
        /\ \E r \in AnswersApply(a) : ApplyPatch(nid', a[2], a[3], r)
        /\ hist' = Append(hist, Op("apply", <<nid', a[2], a[3]>>, <<>>))
     \/ /\ a[1] = "print" /\ New1
        /\ PrintPatch(nid', a[2], a[3],
             Ok(Printed(pats[a[2]].p, a[3])))
        /\ hist' = Append(hist, Op("print", <<nid', a[2], Bit(a[3].color), Bit(a[3].nl), Bit(a[3].sb), Entry(a[3])>>, <<>>))
     \/ /\ a[1] = "copy" /\ New1
        /\ Copy(nid', a[2], [st |-> "ok", p |-> pats[a[2]].p])
        /\ hist' = Append(hist, Op("copy", <<nid', a[2]>>, <<>>))
     \/ /\ a[1] = "write" /\ nid' = nid
        /\ \E r \in AnswersWrite(a) : WriteInto(a[2], a[3], a[4], r)
        /\ hist' = Append(hist, Op("write", <<a[2], Bit(a[3].color), Bit(a[3].nl), Bit(a[3].sb), made % 2,
                                            a[4], Chunks[(made % 5) + 1], (made + nid) % 4, nid % 3>>, <<>>))
     \/ /\ a[1] = "doc" /\ New1     \* the client edits a document
        /\ \E ls \in Damage(docs[a[2]].ls) :
             /\ NewDoc(nid', ls)
             /\ hist' = Append(hist, Op("doc", <<nid'>>, <<Cat(ls)>>))
     \/ /\ a[1] = "parse" /\ New1
        /\ \E r \in AnswersParse(a) : ParseDoc(nid', a[3], a[2], r)
        /\ hist' = Append(hist, Op("parse", <<nid', a[2], Code(a[3])>>, <<>>))
     \/ /\ a[1] = "same" /\ nid' = nid
        /\ SameAs(a[2], a[3], [st |-> "ok", v |-> pats[a[2]].p = pats[a[3]].p])
        /\ hist' = Append(hist, Op("same", <<a[2], a[3]>>, <<>>))
     \/ /\ a[1] = "merge" /\ nid' = nid
        /\ \E r \in Merges(texts[a[2]], texts[a[3]], texts[a[4]], a[5]) : MergeTexts(a[6], a[2], a[3], a[4], a[5], r)
        /\ hist' = Append(hist, Op("merge", <<a[2], a[3], a[4], 0, Bit(a[5].diff3), a[5].len, Code(a[6])>>, <<>>))
  /\ ask' = <<>> /\ made' = made + 1
  /\ UNCHANGED draft

(* --------------------------------- ending ------------------------------- *)
Over == ask = <<>> /\ made = MaxCalls
Idle == Over /\ UNCHANGED dvars
Finish ==
  /\ Over /\ ~draft.over
  /\ draft' = [draft EXCEPT !.over = TRUE]
  /\ PrintT("PROGRAM " \o ToJson([tag |-> "design", ops |-> hist]))
  /\ UNCHANGED <<texts, pats, docs, memo, ask, made, nid, hist>>

Act == Edit \/ Save \/ Back \/ (\E op \in Ops : AskFor(op)) \/ Choose \/ Answer
DNext == Act \/ Idle        \* to explore the design
SNext == Act \/ Finish      \* to write programs
DSpec == DInit /\ [][DNext]_dvars
SSpec == DInit /\ [][SNext]_dvars
Seen == <<texts, pats, docs, memo, draft, ask, made, nid>>   \* hist aside

(* --------------------------------- laws --------------------------------- *)
(* Only the newest object is looked at: every other one was the newest in   *)
(* an earlier state.                                                        *)
Fresh(x) == nid \in DOMAIN x
FromTexts(q) == q.org # <<>>
LawTruth == Fresh(pats) /\ FromTexts(pats[nid]) =>
  LET q == pats[nid] IN Truthful(q.p, q.org[1], q.org[2])
LawLeast == Fresh(pats) /\ FromTexts(pats[nid]) =>
  LET q == pats[nid] IN Changes(q.p) = Distance(q.org[1], q.org[2])
LawApplies == Fresh(pats) /\ FromTexts(pats[nid]) =>
  LET q == pats[nid]
      out == NearOutcomes(q.org[1], q.p)
  IN FitsAsStated(q.org[1], q.p) /\ out.errs = {} /\ Oks(out) = {Cat(q.org[2])}
LawUndoes == Fresh(pats) /\ FromTexts(pats[nid]) =>
  LET q == pats[nid]
      out == NearOutcomes(q.org[2], Rev(q.p))
  IN Truthful(Rev(q.p), q.org[2], q.org[1]) /\ out.errs = {} /\ Oks(out) = {Cat(q.org[1])}
LawTwice == Fresh(pats) => Rev(Rev(pats[nid].p)) = pats[nid].p
LawPrints == Fresh(pats) => \A sb \in BOOLEAN :
  LET w == Parse(Format(pats[nid].p, TRUE, sb)) IN
  /\ w.p = pats[nid].p
  /\ w.st \in (IF FromTexts(pats[nid]) THEN {"accept"} ELSE {"accept", "open", "free"})
LawSound ==   \* the nearest place is a place: P11 implies P10
  Asked /\ ask[1] = "apply" =>
    \A r \in AnswersApply(ask) :
      /\ SoundApply(texts[ask[2]], pats[ask[3]].p, r)
      /\ r.st = "ok" => Replaces(texts[ask[2]], pats[ask[3]].p, Cat(r.ls))
LawMerge ==   \* what has to come out of a merge, however lines were matched
  LET last == memo[Len(memo)] IN
  memo # <<>> /\ last.key[1] = "merge" =>
    LET o == last.key[2]
        a == last.key[3]
        b == last.key[4]
        r == last.r
    IN /\ a = b \/ o = b => r = [st |-> "ok", ls |-> a]
       /\ o = a => r = [st |-> "ok", ls |-> b]
       /\ o = <<>> /\ a # b /\ a # <<>> /\ b # <<>> => r.st = "conflict"
       /\ r.st = "ok" => IsText(Lines(Cat(r.ls)))

(* ------------------------------ constants ------------------------------- *)
OneName == {<<"original", "modified">>}
SomeNames == {<<"original", "modified">>, <<"a\tb", "">>, <<"q\"\\", "/dev/null">>}
AllFmts == [color : BOOLEAN, nl : BOOLEAN, sb : BOOLEAN]
FullFmts == [color : {FALSE}, nl : {TRUE}, sb : BOOLEAN]
OneFmt == {Plainest}
AllOpts == [diff3 : BOOLEAN, len : {0, 3, 7}]
TwoOpts == [diff3 : BOOLEAN, len : {7}]
OneOpt == [diff3 : {TRUE}, len : {7}]
(* simulations are run with different lines (the environment says which) *)
Alphabets ==
  <<{"a", "b"}, {"a", "b", "c", "d", "e"}, {"", " ", "a", "a\r", "+", "-", "--"},
    {"-- x", "++ y", "@@ -1 +1 @@", "-- ", "a"}, {"{", "}", "", "  x", "fn f() {"},
    {"<<<<<<< ours", "=======", "||||||| original", ">>>>>>> theirs", "a", "b"},
    {"\\ No newline at end of file", "a", "b", "", "@@"},
    {"k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8"}>>
WhichAlphabet == Alphabets[(DigitVal(IOEnv.SHARD) % Len(Alphabets)) + 1]
=============================================================================

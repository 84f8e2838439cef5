------------------------------- MODULE Trace -------------------------------
(* Recorded sessions against the specification.  The file named by TRACE    *)
(* holds one session per line; every session is one initial state, and one  *)
(* step of a session is taken by the action of Diffy it records, with the   *)
(* logged arguments and result.  A session that cannot be taken to its end  *)
(* is not a behaviour of the specification.                                 *)
EXTENDS Diffy, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
TraceProp == IOEnv.PROP

VARIABLES t, l
tvars == <<texts, pats, docs, memo, t, l>>

S == Traces[t].s
e == S[l]
Is(op) == l <= Len(S) /\ e.op = op /\ l' = l + 1 /\ UNCHANGED t

TInit == Init /\ t \in 1..Len(Traces) /\ l = 1

TText == Is("text") /\ NewText(e.t, e.ls)
TDiff == Is("diff") /\ Diff(e.p, e.api, e.o, e.m, e.ctx, e.on, e.mn, e.w, e.r)
TRev == Is("rev") /\ Turn(e.q, e.p, e.r)
TLook == Is("look") /\ Look(e.p, e.r)
TApply == Is("apply") /\ ApplyPatch(e.t, e.i, e.p, e.r)
TCommute == Is("commute") /\ Commute(e.o, e.p, e.q, e.pq, e.qp)
TPrint == Is("print") /\ PrintPatch(e.d, e.p, e.f, e.r)
TCopy == Is("copy") /\ Copy(e.q, e.p, e.r)
TWrite == Is("write") /\ WriteInto(e.p, e.f, e.room, e.r)
TDoc == Is("doc") /\ NewDoc(e.d, e.ls)
TParse == Is("parse") /\ ParseDoc(e.p, e.api, e.d, e.r)
TSame == Is("same") /\ SameAs(e.p, e.q, e.r)
TMerge == Is("merge") /\ MergeTexts(e.api, e.o, e.a, e.b, e.m, e.r)
TCall == Is("call") /\ OtherCall(e.r)

TNext == TText \/ TDiff \/ TRev \/ TLook \/ TApply \/ TCommute \/ TPrint \/ TDoc \/ TParse
           \/ TCopy \/ TWrite \/ TSame \/ TMerge \/ TCall

TSpec == TInit /\ [][TNext]_tvars

(* how far each session was followed (one worker) *)
Mark == TLCSet(t, l)
Unfinished == {i \in 1..Len(Traces) : TLCGet(i) <= Len(Traces[i].s)}
Report ==
  /\ PrintT("SESSIONS " \o ToString(Len(Traces)))
  /\ \A i \in Unfinished : PrintT("STUCK " \o ToString(i) \o " " \o ToString(TLCGet(i)))
=============================================================================

------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Judges recorded executions of the real code: a document (KVN lines or XML   *)
(* events) and the facts of the object that the code read from it, or wrote it  *)
(* from.  The reader machines work out what the document states; the record is  *)
(* right if that is exactly what was recorded.                                 *)
(*                                                                         *)
(* Verdict: right, wrong (with the facts that are missing from the record and   *)
(* those that are not in the document), or outside (the document is not one of  *)
(* those the machines speak about).                                           *)
(***************************************************************************)
EXTENDS XmlReader, Json, IOUtils

Records == JsonDeserialize(IOEnv.JUDGE_PLAN)
OutDir  == IOEnv.JUDGE_OUT

VARIABLES pick, verdict
vars == <<pick, verdict>>

(* a combined document with one member stands for this member *)
Unwrapped(x, facts) ==
  LET pre == x.t \o "[0]/" IN
  IF x.fmt = "xml" /\ x.xml[1].n = "ndm" /\ x.t # "ndm"
  THEN {[f EXCEPT !.p = SubSeq(@, Len(pre) + 1, Len(@))] : f \in {g \in facts : StartsWith(g.p, pre)}}
  ELSE facts

Stated(x) ==
  IF x.fmt = "kvn"
  THEN LET r == Read(x.t, x.lines) IN [ok |-> AllRead(r), facts |-> ReadFactSet(r)]
  ELSE LET r == XmlRead(x.xml) IN [ok |-> r.v = "ok", facts |-> Unwrapped(x, XmlFactSet(r))]

(* KVN does not say which of two neighbouring blocks a comment stands in: of a text that  *)
(* was written, the comments are judged by their order                                  *)
Coms(x) == LET c == SelectSeq(x.lines, LAMBDA l : l.c = "com") IN [i \in 1..Len(c) |-> c[i].v]
RecordedComs(x) == LET c == SelectSeq(x.facts, LAMBDA f : f.com) IN [i \in 1..Len(c) |-> c[i].v]
Plain(f) == [p |-> f.p, v |-> f.v, u |-> f.u, a |-> f.a]

Verdict(x) ==
  LET s    == Stated(x)
      coms == {Plain(x.facts[i]) : i \in {j \in 1..Len(x.facts) : x.facts[j].com}}
      rec  == {Plain(x.facts[i]) : i \in 1..Len(x.facts)}
      byorder == x.fmt = "kvn" /\ x.written
      want == IF byorder THEN {f \in s.facts : f.v \notin Range(Coms(x))} ELSE s.facts
      have == IF byorder THEN {f \in rec \ coms : f.v \notin Range(Coms(x))} ELSE rec
  IN  IF ~s.ok THEN [v |-> "outside", missing |-> <<>>, extra |-> <<>>]
      ELSE IF want = have /\ (byorder => Coms(x) = RecordedComs(x)) THEN [v |-> "right", missing |-> <<>>, extra |-> <<>>]
      ELSE [v |-> "wrong", missing |-> SetToSeq(want \ have), extra |-> SetToSeq(have \ want)]

NotYet == [v |-> "none", missing |-> <<>>, extra |-> <<>>]
Init == pick \in 1..Len(Records) /\ verdict = NotYet
Next == verdict = NotYet /\ verdict' = Verdict(Records[pick]) /\ UNCHANGED pick
Spec == Init /\ [][Next]_vars

(* every record gets one of the verdicts *)
Judged == verdict # NotYet => verdict.v \in {"right", "wrong", "outside"}
Export == verdict # NotYet => JsonSerialize(OutDir \o "/" \o ToString(pick) \o ".json", verdict)
=============================================================================

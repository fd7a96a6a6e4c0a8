------------------------------ MODULE Compose ------------------------------
(***************************************************************************)
(* The composer with its choices open: from a given entry of the vocabulary  *)
(* (in a given segment) on, the next choices are taken in every possible way;  *)
(* the ones before and after are resolved by the job, as in Generate.  TLC      *)
(* explores every combination, checks the reader machines on each complete       *)
(* message, and every one is replayed.                                         *)
(*                                                                         *)
(* A job has in addition: pc the entry, seg the segment, and free the number    *)
(* of open choices.                                                         *)
(***************************************************************************)
EXTENDS Generate

VARIABLES build,      \* the composer
          trail    \* the open choices taken
cvars == <<job, msg, build, trail>>

Nothing == [pc |-> 0]

(* the ways an open choice is taken *)
Ways(j, s) ==
  LET en == En(s)
      isrow == en.k = "open" /\ en.row \in {"sv", "att", "obs"}
      o  == Options(s, IF isrow THEN j.rows ELSE j.many)
      all == (o.lo)..(o.hi)
  IN  CASE en.k = "close" -> {0}
        [] o.lo = o.hi -> {o.lo}
        [] en.t = "comment" -> {0, 1, 2} \cap all
        [] en.k = "open" /\ isrow -> {1, 2} \cap all
        [] en.k = "open" -> {0, 1, 2} \cap all
        [] en.t = "user" -> {1, 2} \cap all
        [] o.lo = 0 -> {0, Pick(j, Tick(s), 2, 1, o.hi)}
        [] OTHER -> {Choice(j, s)}
Notes(j, s) == IF MayInterject(s) /\ j.int > 0 THEN {FALSE, TRUE} ELSE {FALSE}

IsOpen(j, s) == /\ s.pc >= j.pc /\ En(s).k # "close" /\ SegNo(s) >= j.seg /\ s.rk = ""
                /\ Forced(j, s) = -1
                /\ Cardinality(Ways(j, s)) > 1 \/ Cardinality(Notes(j, s)) > 1

RECURSIVE Advance(_, _)
Advance(j, s) == IF Done(s) THEN s ELSE IF IsOpen(j, s) THEN s
                 ELSE Advance(j, FoldLeft(LAMBDA x, i : IF Done(x) THEN x ELSE IF IsOpen(j, x) THEN x ELSE Step(j, x), s, Burst))

CInit == Init /\ build = Nothing /\ trail = <<>>
Begin == /\ build = Nothing
         /\ build' = Advance(job, InitState(job.t))
         /\ UNCHANGED <<job, msg, trail>>
Take  == /\ build # Nothing /\ ~Done(build)
         /\ \E c \in Ways(job, build), n \in Notes(job, build) :
              /\ (n => c > 0)
              /\ LET x == StepWith(job, build, c, n)
                 IN  build' = IF Len(trail) + 1 < job.free THEN Advance(job, x) ELSE Run(job, x)
              /\ trail' = Append(trail, IF n THEN 10 + c ELSE c)
         /\ UNCHANGED <<job, msg>>
Finish == /\ build # Nothing /\ Done(build) /\ msg = NotYet
          /\ msg' = Finished(build)
          /\ UNCHANGED <<job, build, trail>>
CNext == Begin \/ Take \/ Finish
CSpec == CInit /\ [][CNext]_cvars

ExportTrail == ExportAs(Name(job) \o "-" \o ToString(job.seg) \o FoldLeft(LAMBDA a, c : a \o "." \o ToString(c), "w", trail))
=============================================================================

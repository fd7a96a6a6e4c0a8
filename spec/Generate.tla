---------------------------- MODULE Generate ----------------------------
(***************************************************************************)
(* Behaviours of the composer for replay: every job resolves the choices    *)
(* left open by NdmMessage with a profile, runs the composer to the end and   *)
(* writes the three descriptions of the message for the test driver.        *)
(* TLC checks on each of them that the KVN reader machine finds exactly the  *)
(* facts of the message in its KVN lines.                                   *)
(*                                                                         *)
(* A job: t type, mode, pc, pd, p chance of an optional entry in percent, com  *)
(* chance of comments, int chance of an extra comment, many/rows bounds of    *)
(* repetition, seed, unit (0 by chance, 1 none, 2 always), lit: the number of   *)
(* the literal all enumerations and units use (0 by chance), force: choices for  *)
(* named fields, by segment number.                                         *)
(*   mode  min  only what is required        max  everything                 *)
(*         one  as min, with entry pc        but  as max, without entry pc     *)
(*              (and entry pd, unless 0)          (and entry pd, unless 0)      *)
(*         rnd  by chance                                                    *)
(***************************************************************************)
EXTENDS XmlReader, Json, IOUtils

Plan   == JsonDeserialize(IOEnv.NDM_PLAN)
OutDir == IOEnv.NDM_OUT

OptionalEntries(t) == {i \in 1..Len(Prog(t)) :
  /\ Prog(t)[i].k \in {"open", "leaf"} /\ Prog(t)[i].lo = 0 /\ Prog(t)[i].t # "comment"
  /\ ~\E j \in StructTable[t].rows : j < i /\ Prog(t)[j].e > i /\ Prog(t)[j].row \in {"obs", "att", "sv"}}
CommentEntries(t) == {i \in 1..Len(Prog(t)) : Prog(t)[i].t = "comment"}
OptionalBlocks(t) == {i \in OptionalEntries(t) : Prog(t)[i].k = "open"}

ChoicePoints(t) == {i \in 1..Len(Prog(t)) :
  /\ Prog(t)[i].k \in {"open", "leaf"} /\ (Prog(t)[i].lo = 0 \/ Prog(t)[i].t = "comment" \/ (Prog(t)[i].k = "open" /\ Prog(t)[i].hi # 1))
  /\ ~\E j \in StructTable[t].rows : j < i /\ Prog(t)[j].e > i /\ Prog(t)[j].row \in {"obs", "att", "sv"}}

(* jobs are listed in the plan or swept over the vocabulary *)
Target(sw, t) == CASE sw.over = "optional" -> OptionalEntries(t)
                   [] sw.over = "comment"  -> CommentEntries(t)
                   [] sw.over = "window"   -> {i \in ChoicePoints(t) : (i * 31 + sw.base.seed) % sw.part = 0}
                   [] OTHER -> OptionalBlocks(t)
(* every n-th pair of optional entries *)
Pairs(sw, t) == {x \in OptionalEntries(t) \X OptionalEntries(t) : x[1] < x[2] /\ (x[1] * 31 + x[2] * 17 + sw.base.seed) % sw.part = 0}
Sweep(sw) ==
  IF sw.over = "pair"
  THEN UNION {{[sw.base EXCEPT !.t = t, !.pc = x[1], !.pd = x[2], !.mode = m, !.seed = @ + x[1] + 7 * x[2]] :
                 x \in Pairs(sw, t)} : t \in Range(sw.types), m \in Range(sw.modes)}
  ELSE IF sw.over = "literal"
  THEN {[sw.base EXCEPT !.t = t, !.lit = k, !.mode = m, !.seed = @ + k] :
                 t \in Range(sw.types), m \in Range(sw.modes), k \in 1..sw.part}
  ELSE UNION {{[sw.base EXCEPT !.t = t, !.pc = i, !.mode = m, !.seed = @ + i] :
                       i \in Target(sw, t)} : t \in Range(sw.types), m \in Range(sw.modes)}
Jobs == Range(Plan.jobs) \cup UNION {Sweep(sw) : sw \in Range(Plan.sweeps)}

(* ---- chance ------------------------------------------------------------------ *)
M == 32749
Mix(x, y) == LET z == ((x * 571) + (y * 8191) + 4093) % M IN (z * (z + 1) + y * 31) % M
Hash(j, n, salt) == Mix(Mix(Mix(j.seed % M, n % M), salt), (n + salt) % 997)
Chance(j, n, salt, p) == Hash(j, n, salt) % 100 < p
Pick(j, n, salt, lo, hi) == lo + (Hash(j, n, salt) % (hi - lo + 1))

(* the literals of all enumerations and units are within reach of a sweep *)
MostLiterals == 20
ASSUME \A t \in Range(Types) : \A i \in 1..Len(Prog(t)) : Len(Prog(t)[i].en) <= MostLiterals /\ Len(Prog(t)[i].us) <= MostLiterals

Within(t, pc, i) == pc > 0 /\ Prog(t)[i].k = "open" /\ i <= pc /\ pc <= Prog(t)[i].e

SegNo(s) == LET m == {d \in 1..Len(s.fr) : Prog(s.t)[s.fr[d].st].f = "segment"}
            IN  IF m = {} THEN 1 ELSE s.fr[CHOOSE d \in m : TRUE].i

Forced(j, s) == LET m == {i \in 1..Len(j.force) : j.force[i].f = En(s).f} IN
                IF m = {} THEN -1
                ELSE LET c == j.force[CHOOSE i \in m : TRUE].c IN c[((SegNo(s) - 1) % Len(c)) + 1]

\* a number that differs between the steps of a run
Tick(s) == (Len(s.facts) * 7 + Len(s.xml) * 13 + s.pc * 3) % M

Choice(j, s) ==
  LET en  == En(s)
      isrow == en.k = "open" /\ en.row \in {"sv", "att", "obs"}
      o   == Options(s, IF isrow THEN j.rows ELSE j.many)
      n   == Tick(s)
      f   == Forced(j, s)
      want == CASE en.t = "comment" -> \/ j.mode = "one" /\ j.pc = s.pc
                                       \/ ~(j.mode = "but" /\ j.pc = s.pc) /\ Chance(j, n, 3, j.com)
                [] j.mode = "min" -> FALSE
                [] j.mode = "max" -> TRUE
                [] j.mode = "one" -> Within(s.t, j.pc, s.pc) \/ Within(s.t, j.pd, s.pc) \/ s.pc \in {j.pc, j.pd}
                [] j.mode = "but" -> s.pc \notin {j.pc, j.pd}
                [] OTHER -> Chance(j, n, 1, j.p)
      lo1 == IF o.lo = 0 THEN (IF o.hi = 0 THEN 0 ELSE 1) ELSE o.lo
  IN  IF f >= o.lo /\ f <= o.hi THEN f
      ELSE IF o.lo = o.hi THEN o.lo
      ELSE IF o.lo = 0 /\ ~want THEN 0
      ELSE IF j.lit > 0 /\ en.t = "enum" THEN 1 + ((j.lit - 1) % o.hi)
      ELSE IF j.lit > 0 /\ en.t \in {"dim", "angle", "rate"} /\ en.us # <<>> THEN 2 + ((j.lit - 1) % (o.hi - 1))
      ELSE IF en.t \in {"dim", "angle", "rate"} /\ j.unit > 0 THEN (IF j.unit = 1 THEN lo1 ELSE o.hi)
      ELSE IF en.k = "open" /\ j.mode \in {"min"} THEN lo1
      ELSE IF en.k = "open" /\ j.mode \in {"max", "but"} THEN o.hi
      ELSE Pick(j, n, 2, lo1, o.hi)

Sel(j, s, en) == LET o == RowOptions(en) IN
                 IF en.row = "obs" /\ j.mode \in {"max", "but"}
                 THEN ((j.seed + s.kl) % ObsKinds) + 1      \* all of them in turn
                 ELSE Pick(j, Tick(s), 5, o.lo, o.hi)

RotKey(j, s, en) ==
  IF s.t = "aem" THEN AxisAttr(s, en)
  ELSE IF en.t \in {"angle", "rate"}
       THEN LET i == (((CASE en.f = "rotation1" -> 0 [] en.f = "rotation2" -> 1 [] OTHER -> 2) + j.seed) % 3) + 1
            IN  (CASE i = 1 -> "X" [] i = 2 -> "Y" [] OTHER -> "Z") \o (IF en.t = "angle" THEN "_ANGLE" ELSE "_RATE")
       ELSE ""

Unit(en, c) == IF c > 1 THEN en.us[c - 1] ELSE ""

(* one step with choice c, and a comment in front of the keyword if so wished *)
StepWith(j, s, c, interject) ==
  LET en == En(s)
  IN  CASE en.k = "close" -> Close(s, Sel(j, s, Prog(s.t)[Top(s).st]))
        [] en.k = "open"  -> Open(s, c, Sel(j, s, en))
        [] en.t = "comment" -> Comments(s, [i \in 1..c |-> Tok(s.slot + i - 1, "com", "")])
        [] en.t = "user" -> Users(s, [i \in 1..c |-> Tok(s.slot + 2 * i - 1, "uval", "")],
                                     [i \in 1..c |-> Tok(s.slot + 2 * i - 2, "uname", "")])
        [] c = 0 -> Absent(s)
        [] OTHER ->
           LET s1 == IF interject
                     THEN Interject(s, Tok(s.slot, "com", "")) ELSE s
           IN  IF en.t = "enum" THEN Present(s1, en.en[c], "", "")
               ELSE Present(s1, Tok(s1.slot, IF en.t \in {"dim", "angle", "rate"} THEN "dec" ELSE en.t, en.b),
                            Unit(en, c), RotKey(j, s1, en))

Step(j, s) == StepWith(j, s, IF En(s).k = "close" THEN 0 ELSE Choice(j, s),
                       MayInterject(s) /\ j.int > 0 /\ Chance(j, Tick(s), 4, j.int))

(* run the composer to the end of the vocabulary *)
Burst == [i \in 1..100 |-> i]
RECURSIVE Run(_, _)
Run(j, s) == IF Done(s) THEN s
             ELSE Run(j, FoldLeft(LAMBDA x, i : IF Done(x) THEN x ELSE Step(j, x), s, Burst))

(* ---- the checked and exported behaviours ------------------------------------------ *)
VARIABLES job, msg
vars == <<job, msg>>
NotYet == [facts |-> <<>>]

Init == job \in Jobs /\ msg = NotYet
Finished(s) ==
            [t |-> s.t, facts |-> s.facts, kf |-> KvnFactSet(s), lines |-> s.lines, xml |-> XmlOf(s),
             kvn |-> s.kvn, inter |-> s.inter, steps |-> s.slot, rd |-> IF s.kvn THEN Read(s.t, s.lines) ELSE ReaderInit(s.t)]
Compose ==
  /\ msg = NotYet
  /\ msg' = Finished(Run(job, InitState(job.t)))
  /\ UNCHANGED job
Next == Compose
Spec == Init /\ [][Next]_vars

Composed == msg # NotYet
IsComment(f) == \E i \in 1..Len(f.p) : FALSE
(* the texts of the comments, in the order of the lines *)
ComLines(lines) == LET c == SelectSeq(lines, LAMBDA l : l.c = "com") IN [i \in 1..Len(c) |-> c[i].v]
ComTokens(lines) == Range(ComLines(lines))

UniquePaths == Composed => Cardinality({msg.facts[i].p : i \in 1..Len(msg.facts)}) = Len(msg.facts)
(* the reader machine accounts for every line and finds the facts of the message;
   comments may end up in a neighbouring block *)
ReaderFindsFacts ==
  Composed /\ msg.kvn =>
    LET coms == ComTokens(msg.lines)
        a == {f \in msg.kf : f.v \notin coms}
        b == {f \in ReadFactSet(msg.rd) : f.v \notin coms}
    IN  AllRead(msg.rd) /\ a = b
ReaderKeepsComments ==
  Composed /\ msg.kvn =>
    Cardinality({f \in ReadFactSet(msg.rd) : f.v \in ComTokens(msg.lines)}) = Len(ComLines(msg.lines))
(* every line but the markers states a fact, and the other way round *)
Accounted(lines) == FoldLeft(LAMBDA n, l : n + (IF l.c \in {"kv", "com"} THEN 1 ELSE Len(l.vs)), 0, lines)
LinesAreFacts == Composed /\ msg.kvn => Accounted(msg.lines) = Len(msg.facts)
XmlBalanced ==
  Composed => FoldLeft(LAMBDA st, e : IF e.e = "s" THEN Append(st, e.n)
                                      ELSE IF e.e = "l" THEN st
                                      ELSE IF st # <<>> /\ st[Len(st)] = e.n THEN SubSeq(st, 1, Len(st) - 1)
                                      ELSE <<"unbalanced">> \o st, <<>>, msg.xml) = <<>>
XmlIsFacts == Composed => Len(SelectSeq(msg.xml, LAMBDA e : e.e = "l"))
                          + Len(SelectSeq(msg.facts, LAMBDA f : f.v = "{}")) = Len(msg.facts)
                          \/ msg.inter

(* the XML reader machine finds the same facts in the events *)
XmlReaderFindsFacts ==
  Composed /\ ~msg.inter => LET r == XmlRead(msg.xml) IN r.v = "ok" /\ XmlFactSet(r) = {msg.facts[i] : i \in 1..Len(msg.facts)}
ASSUME NamesUnique

(* written for the driver; the constraint is evaluated once per state *)
Name(j) == j.id \o "-" \o j.t \o "-" \o j.mode \o "-" \o ToString(j.pc) \o "-" \o ToString(j.pd) \o "-" \o ToString(j.lit) \o "-" \o ToString(j.seed)
ExportAs(name) ==
  Composed => JsonSerialize(OutDir \o "/" \o name \o ".json",
    [job |-> job, t |-> msg.t, facts |-> msg.facts, lines |-> msg.lines, xml |-> msg.xml,
     kvn |-> msg.kvn, inter |-> msg.inter,
     canon |-> (~msg.kvn) \/ msg.kf = ReadFactSet(msg.rd), read |-> msg.rd.facts])
Export == ExportAs(Name(job))
=============================================================================

---------------------------- MODULE KvnReader ----------------------------
(***************************************************************************)
(* How a KVN document is understood: a machine that takes the lines of a    *)
(* document one by one and states the facts of the message.                *)
(*                                                                         *)
(* A keyword belongs to the next entry of the vocabulary with that keyword   *)
(* in the innermost repeatable block (segment, manoeuvre, covariance         *)
(* matrix...); if there is none ahead and the keyword occurs earlier in that *)
(* block, a new instance of the block begins; otherwise the search goes on   *)
(* outside.  A keyword that is not ahead, but belongs to an open block and      *)
(* was not said in it yet, belongs there: within a block the order is free.     *)
(* META_START begins a new segment.  Comments wait until the next  *)
(* keyword or row shows where they belong:                                  *)
(*   - blocks that only have a comment list of their own take one comment    *)
(*     (all of them, if data rows follow), from outside to inside            *)
(*   - the innermost block opened by the line takes the rest                *)
(*   - if the line opens no block, the block the line belongs to             *)
(***************************************************************************)
EXTENDS NdmMessage, SequencesExt

(* ---- static structure of a vocabulary ----------------------------------- *)
(* the blocks around every entry, outermost first, the entry itself excluded    *)
Enclosings(t) ==
  FoldLeft(LAMBDA acc, i :
             LET st == IF acc.st # <<>> /\ Prog(t)[acc.st[Len(acc.st)]].e <= i THEN SubSeq(acc.st, 1, Len(acc.st) - 1) ELSE acc.st
             IN  [all |-> Append(acc.all, st), st |-> IF Prog(t)[i].k = "open" THEN Append(st, i) ELSE st],
           [all |-> <<>>, st |-> <<>>], [i \in 1..Len(Prog(t)) |-> i]).all
TakesAll(t, st) == t \in {"oem", "aem", "tdm"} /\ Prog(t)[st].f = "data"

Struct(t) == [encl |-> Enclosings(t),
              cont |-> {i \in 1..Len(Prog(t)) : Prog(t)[i].k = "open" /\ IsContainer(t, i)},
              owns |-> {i \in 1..Len(Prog(t)) : Prog(t)[i].k = "open" /\ OwnsComments(t, i)},
              rows |-> {i \in 1..Len(Prog(t)) : Prog(t)[i].row # ""}]
\* evaluated once
StructTable == TLCEval([t \in Range(Types) |-> TLCEval(Struct(t))])

UserPrefix == "USER_DEFINED_"
StartsWith(str, pre) == Len(str) >= Len(pre) /\ SubSeq(str, 1, Len(pre)) = pre

Keyword(en, k) ==
  CASE en.k # "leaf" -> FALSE
    [] en.t = "user"  -> StartsWith(k, UserPrefix)
    [] en.t = "angle" -> k \in {"X_ANGLE", "Y_ANGLE", "Z_ANGLE"}
    [] en.t = "rate"  -> k \in {"X_RATE", "Y_RATE", "Z_RATE"}
    [] OTHER -> en.x = k

(* ---- reader state ---------------------------------------------------------- *)
(* pos: last entry stated;  fr: open blocks [st, pre, nc];  cnt: instances of     *)
(* lists by path;  pend: comments waiting;  cov: elements of the current matrix;  *)
(* un: lines that belong nowhere                                                *)
ReaderInit(t) == [t |-> t, pos |-> 0, fr |-> <<>>, cnt |-> [x \in {} |-> 0], pend |-> <<>>, env |-> NoEnv,
                  facts |-> <<>>, users |-> 0, cov |-> 0, un |-> 0]

Count(r, path) == IF path \in DOMAIN r.cnt THEN r.cnt[path] ELSE 0

First(r, lo, hi, k) ==
  LET m == {i \in lo..hi : Keyword(Prog(r.t)[i], k) /\ ~\E j \in StructTable[r.t].rows : j < i /\ Prog(r.t)[j].e > i /\ Prog(r.t)[j].row # "cov"}
  IN  IF m = {} THEN 0 ELSE CHOOSE i \in m : \A j \in m : i <= j

(* keywords of the open block d itself that were passed over, not said *)
Behind(r, d, k) ==
  LET st == r.fr[d].st IN
  {i \in (st + 1)..r.pos : /\ Prog(r.t)[i].t \notin {"comment", "user", "angle", "rate"} /\ Keyword(Prog(r.t)[i], k)
                           /\ i \notin r.fr[d].said
                           /\ LET encl == StructTable[r.t].encl[i] IN encl[Len(encl)] = st}
(* the end of the innermost repeatable block that is open around block d *)
Limit(r, d) == LET m == {x \in 1..(d - 1) : Prog(r.t)[r.fr[x].st].hi # 1}
               IN  IF m = {} THEN Len(Prog(r.t)) ELSE Prog(r.t)[r.fr[CHOOSE x \in m : \A y \in m : y <= x].st].e

(* the entry a keyword belongs to, and how many open blocks are kept *)
RECURSIVE FindFrom(_, _, _)
FindFrom(r, k, d) ==
  IF d = 0
  THEN LET i == First(r, IF r.pos > 0 /\ Prog(r.t)[r.pos].t = "user" THEN r.pos ELSE r.pos + 1, Len(Prog(r.t)), k)
       IN [i |-> i, keep |-> Len(r.fr)]
  ELSE LET st == r.fr[d].st IN
       IF Prog(r.t)[st].hi = 1
       THEN LET b == Behind(r, d, k) IN
            IF b # {} /\ First(r, r.pos + 1, Limit(r, d), k) = 0
            THEN [i |-> CHOOSE i \in b : TRUE, keep |-> d]
            ELSE FindFrom(r, k, d - 1)
       ELSE LET ahead == First(r, r.pos + 1, Prog(r.t)[st].e, k) IN
            IF ahead > 0 THEN [i |-> ahead, keep |-> Len(r.fr)]
            ELSE LET b == Behind(r, d, k) IN
                 IF b # {} THEN [i |-> CHOOSE i \in b : TRUE, keep |-> d]
                 ELSE LET again == First(r, st + 1, r.pos, k) IN
                      IF again > 0 THEN [i |-> again, keep |-> d - 1]
                      ELSE FindFrom(r, k, d - 1)

(* keep the first n open blocks that also enclose entry i *)
Cut(r, i, n) ==
  LET m == {d \in 0..n : \A j \in 1..d : r.fr[j].st < i /\ Prog(r.t)[r.fr[j].st].e > i}
      d == CHOOSE x \in m : \A y \in m : y <= x
  IN  [r EXCEPT !.fr = SubSeq(@, 1, d)]

OpenBlock(r, st) ==
  LET en    == Prog(r.t)[st]
      outer == IF r.fr = <<>> THEN "" ELSE r.fr[Len(r.fr)].pre
      path  == outer \o en.f
      n     == Count(r, path) + 1
      r1    == [r EXCEPT !.cnt = (path :> n) @@ @, !.pos = IF @ > st THEN st ELSE @,
                         !.fr  = Append(@, [st |-> st, nc |-> 0, said |-> {},
                                            pre |-> path \o (IF en.hi = 1 THEN "" ELSE Idx(n)) \o "/"]),
                         !.env = IF en.f = "segment" THEN NoEnv ELSE @,
                         !.cov = IF en.row = "cov" THEN 0 ELSE @]
  IN  r1

(* give the first n pending comments to open block d *)
Claim(r, d, n) ==
  LET fr == r.fr[d] IN
  [r EXCEPT !.facts = @ \o [i \in 1..n |-> Fact(fr.pre \o "comment" \o Idx(fr.nc + i), r.pend[i], "", "")],
            !.pend  = SubSeq(@, n + 1, Len(@)),
            !.fr[d].nc = @ + n]

(* open the blocks around entry i that are not open yet, sharing out the comments *)
Approach(r, i) ==
  LET encl == StructTable[r.t].encl[i]
      had  == Len(r.fr)
      r1   == FoldLeft(LAMBDA x, st : OpenBlock(x, st), r, SubSeq(encl, had + 1, Len(encl)))
      r2   == FoldLeft(LAMBDA x, d :
                 LET st == x.fr[d].st IN
                 IF d <= had \/ x.pend = <<>> \/ st \notin StructTable[r.t].cont THEN x
                 ELSE Claim(x, d, IF TakesAll(r.t, st) THEN Len(x.pend) ELSE 1),
               r1, [d \in 1..Len(r1.fr) |-> d])
      own  == {d \in 1..Len(r2.fr) : r2.fr[d].st \in StructTable[r.t].owns}
  IN  IF r2.pend = <<>> \/ own = {} THEN r2
      ELSE Claim(r2, CHOOSE d \in own : \A e \in own : e <= d, Len(r2.pend))

(* state the value of the leaf at entry i *)
State(r, i, v, u, a) ==
  LET en == Prog(r.t)[i]
      pre == r.fr[Len(r.fr)].pre
  IN  [r EXCEPT !.pos = IF @ > i /\ i \in Behind(r, Len(r.fr), en.x) THEN @ ELSE i,
                !.fr[Len(r.fr)].said = @ \cup {i}, !.facts = Append(@, Fact(pre \o en.f, v, u, a)),
                !.env = CASE en.f = "attitude_type"   -> [@ EXCEPT !.att = v]
                          [] en.f = "quaternion_type" -> [@ EXCEPT !.qt = v]
                          [] en.f = "euler_rot_seq"   -> [@ EXCEPT !.seq = v]
                          [] OTHER -> @]

KeywordLine(r, ln) ==
  LET f == FindFrom(r, ln.k, Len(r.fr)) IN
  IF f.i = 0 THEN [r EXCEPT !.un = @ + 1]
  ELSE LET en == Prog(r.t)[f.i]
           r1 == Approach(Cut(r, f.i, f.keep), f.i)
       IN  IF en.t = "user"
           THEN [r1 EXCEPT !.pos = f.i, !.users = @ + 1,
                   !.facts = Append(@, Fact(r1.fr[Len(r1.fr)].pre \o en.f \o Idx(r.users + 1), ln.v, "",
                                            SubSeq(ln.k, Len(UserPrefix) + 1, Len(ln.k))))]
           ELSE State(r1, f.i, ln.v, ln.u, IF en.t \in {"angle", "rate"} THEN ln.k ELSE "")

(* ---- data rows ----------------------------------------------------------------- *)
RowBlock(t, kind) == CHOOSE i \in StructTable[t].rows : Prog(t)[i].row = kind
Direct(t, st) == SelectSeq([i \in 1..(Prog(t)[st].e - st - 1) |-> st + i], LAMBDA i : Prog(t)[i].k = "leaf")

(* a row is an instance of a repeated block; names its facts relative to the block *)
NewRow(r, st, facts(_)) ==
  LET r1   == Approach(Cut(r, st, Len(r.fr)), st)
      path == r1.fr[Len(r1.fr)].pre \o Prog(r.t)[st].f
      n    == Count(r1, path) + 1
  IN  [r1 EXCEPT !.cnt = (path :> n) @@ @, !.pos = st, !.facts = @ \o facts(path \o Idx(n) \o "/")]

SvRow(r, vs) ==
  LET st == RowBlock(r.t, "sv")
      lv == Direct(r.t, st)
      F(pre) == [j \in 1..Len(vs) |-> Fact(pre \o Prog(r.t)[lv[j]].f, vs[j], "", "")]
  IN  NewRow(r, st, F)

ObsRow(r, k, vs) ==
  LET st == RowBlock(r.t, "obs")
      i  == CHOOSE j \in st..Prog(r.t)[st].e : Prog(r.t)[j].x = k
      F(pre) == <<Fact(pre \o "epoch", vs[1], "", ""), Fact(pre \o Prog(r.t)[i].f, vs[2], "", "")>>
  IN  NewRow(r, st, F)

AxisAttrOf(seq, col) ==
  CASE col = "rotation_angles/rotation1" -> AxisAngle[AxisOf(seq, "rotation1")]
    [] col = "rotation_angles/rotation2" -> AxisAngle[AxisOf(seq, "rotation2")]
    [] col = "rotation_angles/rotation3" -> AxisAngle[AxisOf(seq, "rotation3")]
    [] col = "rotation_rates/rotation1"  -> AxisRate[AxisOf(seq, "rotation1")]
    [] col = "rotation_rates/rotation2"  -> AxisRate[AxisOf(seq, "rotation2")]
    [] col = "rotation_rates/rotation3"  -> AxisRate[AxisOf(seq, "rotation3")]
    [] OTHER -> ""

AttRow(r, vs) ==
  LET st   == RowBlock(r.t, "att")
      cols == AttColumns(r.env)
      blk  == AttBlock(r.env.att) \o "/"
      F(pre) == [j \in 1..Len(vs) |-> Fact(pre \o blk \o cols[j], vs[j], "", AxisAttrOf(r.env.seq, cols[j]))]
  IN  IF Len(vs) # Len(cols) THEN [r EXCEPT !.un = @ + 1] ELSE NewRow(r, st, F)

(* a row of the lower triangle continues the current matrix *)
CovRow(r, vs) ==
  LET st == RowBlock(r.t, "cov")
      lv == SelectSeq(Direct(r.t, st), LAMBDA i : Prog(r.t)[i].t = "dim")
      r1 == Approach(r, st + 1)
  IN  [r1 EXCEPT !.cov = @ + Len(vs), !.pos = Prog(r.t)[st].e - 1,
                 !.fr[Len(r1.fr)].said = (st + 1)..(Prog(r.t)[st].e - 1),
                 !.facts = @ \o [j \in 1..Len(vs) |-> Fact(r.fr[Len(r.fr)].pre \o Prog(r.t)[lv[r.cov + j]].f, vs[j], "", "")]]

DataRow(r, vs) ==
  CASE r.t = "aem" -> AttRow(r, vs)
    [] r.t = "oem" ->
         IF r.fr # <<>> /\ Prog(r.t)[r.fr[Len(r.fr)].st].row = "cov" /\ r.cov + Len(vs) <= 21
         THEN CovRow(r, vs)
         ELSE IF Len(vs) \in {7, 10} THEN SvRow(r, vs) ELSE [r EXCEPT !.un = @ + 1]
    [] OTHER -> [r EXCEPT !.un = @ + 1]

(* ---- lines -------------------------------------------------------------------------- *)
SegmentEntry(t) == CHOOSE i \in 1..Len(Prog(t)) : Prog(t)[i].f = "segment" /\ Prog(t)[i].k = "open"

ReadLine(r, ln) ==
  CASE ln.c = "ver"  -> r
    [] ln.c = "com"  -> [r EXCEPT !.pend = Append(@, ln.v)]
    [] ln.c = "mark" -> IF ln.k = "META_START"
                        THEN LET st == SegmentEntry(r.t) IN [Cut(r, st, Len(r.fr)) EXCEPT !.pos = st - 1]
                        ELSE r
    [] ln.c = "kv"   -> KeywordLine(r, ln)
    [] ln.c = "obs"  -> ObsRow(r, ln.k, ln.vs)
    [] OTHER         -> DataRow(r, ln.vs)

Read(t, lines) == FoldLeft(ReadLine, ReaderInit(t), lines)

ReadFactSet(r) == {r.facts[i] : i \in 1..Len(r.facts)}
AllRead(r) == r.un = 0 /\ r.pend = <<>>
=============================================================================

---------------------------- MODULE NdmMessage ----------------------------
(***************************************************************************)
(* A navigation data message as a behaviour.                               *)
(*                                                                         *)
(* The composer walks the vocabulary of a message type (NdmSchema) entry    *)
(* by entry.  At each entry there is a choice: how many instances of a      *)
(* block, how many comments, whether an optional field is present and with  *)
(* which unit or enumeration literal, which kind of observation...  Every    *)
(* step extends three synchronised descriptions of the same message:         *)
(*                                                                         *)
(*   facts   what the message object holds: path, value, unit, attribute    *)
(*   lines   the KVN document, line by line                                 *)
(*   xml     the XML document, event by event                               *)
(*                                                                         *)
(* Values are opaque tokens ("$1", "$2", ...); enumeration literals and     *)
(* units are literal.  The choices are left open here: Options(s) gives the *)
(* legal ones in state s, Step(s, c) takes one.  They are resolved          *)
(*   - nondeterministically        (Compose.tla, exhaustive exploration)    *)
(*   - by a profile and a seed     (Generate.tla, full vocabulary)          *)
(*   - by a recorded object        (Judge.tla, judging the real writer)     *)
(***************************************************************************)
EXTENDS NdmSchema, FiniteSets, TLC

Prog(t) == ProgOf(t)

(* ---- facts, lines, xml events ---------------------------------------- *)
Fact(p, v, u, a) == [p |-> p, v |-> v, u |-> u, a |-> a]

VersionLine(t)   == [c |-> "ver", k |-> VersionKeyword[t], v |-> VersionOf[t], u |-> "", vs |-> <<>>]
KeyLine(k, v, u) == [c |-> "kv", k |-> k, v |-> v, u |-> u, vs |-> <<>>, b |-> ""]
\* a keyword whose place among its neighbours with the same b means nothing
FreeLine(k, v, u, b) == [KeyLine(k, v, u) EXCEPT !.b = b]
ComLine(v)       == [c |-> "com", k |-> "COMMENT", v |-> v, u |-> "", vs |-> <<>>]
MarkLine(k)      == [c |-> "mark", k |-> k, v |-> "", u |-> "", vs |-> <<>>]
RowLine(vs)      == [c |-> "row", k |-> "", v |-> "", u |-> "", vs |-> vs]
ObsLine(k, vs)   == [c |-> "obs", k |-> k, v |-> "", u |-> "", vs |-> vs]

XStart(n)           == [e |-> "s", n |-> n, v |-> "", an |-> "", av |-> "", u |-> ""]
XLeaf(n, v, an, av, u) == [e |-> "l", n |-> n, v |-> v, an |-> an, av |-> av, u |-> u]
XEnd(n)             == [e |-> "e", n |-> n, v |-> "", an |-> "", av |-> "", u |-> ""]

(* A value token: slot number, kind of value, range.  What a token stands for is
   chosen when the message is made concrete; equal tokens are equal values.      *)
Tok(n, t, b) == "$" \o ToString(n) \o ":" \o t \o ":" \o b

(* ---- attitude rows (AEM) ---------------------------------------------- *)
UpperAtt(a) ==
  CASE a \in {"quaternion", "QUATERNION"} -> "QUATERNION"
    [] a \in {"quaternion/derivative", "QUATERNION/DERIVATIVE"} -> "QUATERNION/DERIVATIVE"
    [] a \in {"quaternion/rate", "QUATERNION/RATE"} -> "QUATERNION/RATE"
    [] a \in {"euler_angle", "EULER_ANGLE"} -> "EULER_ANGLE"
    [] a \in {"euler_angle/rate", "EULER_ANGLE/RATE"} -> "EULER_ANGLE/RATE"
    [] a \in {"spin", "SPIN"} -> "SPIN"
    [] a \in {"spin/nutation", "SPIN/NUTATION"} -> "SPIN/NUTATION"
    [] OTHER -> ""

(* the block an attitude row of the declared type populates *)
AttBlock(a) ==
  CASE UpperAtt(a) = "QUATERNION"            -> "quaternion_state"
    [] UpperAtt(a) = "QUATERNION/DERIVATIVE" -> "quaternion_derivative"
    [] UpperAtt(a) = "QUATERNION/RATE"       -> "quaternion_euler_rate"
    [] UpperAtt(a) = "EULER_ANGLE"           -> "euler_angle"
    [] UpperAtt(a) = "EULER_ANGLE/RATE"      -> "euler_angle_rate"
    [] UpperAtt(a) = "SPIN"                  -> "spin"
    [] UpperAtt(a) = "SPIN/NUTATION"         -> "spin_nutation"
    [] OTHER -> ""

UsesQuaternion(a) == UpperAtt(a) \in {"QUATERNION", "QUATERNION/DERIVATIVE", "QUATERNION/RATE"}
UsesSequence(a)   == UpperAtt(a) \in {"EULER_ANGLE", "EULER_ANGLE/RATE", "QUATERNION/RATE"}

AxisAngle == [a \in {"1", "2", "3"} |-> CASE a = "1" -> "X_ANGLE" [] a = "2" -> "Y_ANGLE" [] a = "3" -> "Z_ANGLE"]
AxisRate  == [a \in {"1", "2", "3"} |-> CASE a = "1" -> "X_RATE" [] a = "2" -> "Y_RATE" [] a = "3" -> "Z_RATE"]
(* RotSeq("321", 1) = "3" *)
RotSeqTable ==
  [s \in {"121","123","131","132","212","213","231","232","312","313","321","323"} |->
     CASE s = "121" -> <<"1","2","1">> [] s = "123" -> <<"1","2","3">> [] s = "131" -> <<"1","3","1">>
       [] s = "132" -> <<"1","3","2">> [] s = "212" -> <<"2","1","2">> [] s = "213" -> <<"2","1","3">>
       [] s = "231" -> <<"2","3","1">> [] s = "232" -> <<"2","3","2">> [] s = "312" -> <<"3","1","2">>
       [] s = "313" -> <<"3","1","3">> [] s = "321" -> <<"3","2","1">> [] s = "323" -> <<"3","2","3">>]
AxisOf(seq, f) == IF seq \in DOMAIN RotSeqTable
                  THEN RotSeqTable[seq][CASE f = "rotation1" -> 1 [] f = "rotation2" -> 2 [] OTHER -> 3]
                  ELSE CASE f = "rotation1" -> "1" [] f = "rotation2" -> "2" [] OTHER -> "3"

(* the columns of an attitude row, as names of the leaves of its block *)
QuatCols(first) == IF first THEN <<"qc", "q1", "q2", "q3">> ELSE <<"q1", "q2", "q3", "qc">>
DotCols(first)  == IF first THEN <<"qc_dot", "q1_dot", "q2_dot", "q3_dot">> ELSE <<"q1_dot", "q2_dot", "q3_dot", "qc_dot">>
AngleCols == <<"rotation_angles/rotation1", "rotation_angles/rotation2", "rotation_angles/rotation3">>
RateCols  == <<"rotation_rates/rotation1", "rotation_rates/rotation2", "rotation_rates/rotation3">>
Under(b, cols) == [i \in 1..Len(cols) |-> b \o "/" \o cols[i]]
IsFirst(q) == q \in {"first", "FIRST"}
AttColumns(env) ==
  LET a == UpperAtt(env.att)   f == IsFirst(env.qt) IN
  <<"epoch">> \o
  CASE a = "QUATERNION"            -> Under("quaternion", QuatCols(f))
    [] a = "QUATERNION/DERIVATIVE" -> Under("quaternion", QuatCols(f)) \o Under("quaternion_rate", DotCols(f))
    [] a = "QUATERNION/RATE"       -> Under("quaternion", QuatCols(f)) \o RateCols
    [] a = "EULER_ANGLE"           -> AngleCols
    [] a = "EULER_ANGLE/RATE"      -> AngleCols \o RateCols
    [] a = "SPIN"                  -> <<"spin_alpha", "spin_delta", "spin_angle", "spin_angle_vel">>
    [] a = "SPIN/NUTATION"         -> <<"spin_alpha", "spin_delta", "spin_angle", "spin_angle_vel",
                                        "nutation", "nutation_per", "nutation_phase">>
    [] OTHER -> <<>>

(* ---- composer state ---------------------------------------------------- *)
(* A frame describes one open block:                                          *)
(*   st, e    entries where it begins and ends     n, i   instances, current   *)
(*   outer    path prefix outside, pre inside      rel    path inside the row  *)
(*   nf, nl   facts and key lines before it        nc     comments so far      *)
(*   own      whether one of its own keywords was written                      *)
(* The state:                                                                  *)
(*   env      settings of the current segment (attitude type, order, sequence) *)
(*   rk, sel  kind and content of the data row being composed; row its values  *)
(*   kl       number of key lines and rows so far; slot numbers the values     *)
(*   kvn      can be said in KVN;  inter  has comments between keywords         *)
(*   ri       the facts that come from data rows, which have no units in KVN     *)
NoEnv == [att |-> "", qt |-> "", seq |-> ""]

InitState(t) ==
  [t |-> t, pc |-> 1, fr |-> <<>>, env |-> NoEnv, rk |-> "", sel |-> 0, row |-> <<>>,
   facts |-> <<>>, lines |-> <<VersionLine(t)>>, xml |-> <<XStart(t)>>, kl |-> 0, slot |-> 1,
   kvn |-> TRUE, inter |-> FALSE, ri |-> {}]

Done(s) == s.pc > Len(Prog(s.t))
Top(s)  == s.fr[Len(s.fr)]
En(s)   == Prog(s.t)[s.pc]
OwnsComments(t, st) == Prog(t)[st + 1].t = "comment"
(* blocks whose only own entry is the comment list *)
IsContainer(t, st) ==
  /\ OwnsComments(t, st)
  /\ \A i \in (st + 2)..(Prog(t)[st].e - 1) :
       Prog(t)[i].k = "leaf" => \E j \in (st + 1)..(i - 1) : Prog(t)[j].k = "open" /\ Prog(t)[j].e > i

(* leaves of the observation block of a TDM, without the epoch *)
ObsLeaves == LET st == CHOOSE i \in 1..Len(ProgTdm) : ProgTdm[i].row = "obs"
             IN  SubSeq(ProgTdm, st + 2, ProgTdm[st].e - 1)
ObsKinds == Len(ObsLeaves)

(* ---- legal choices in a state -------------------------------------------- *)
(* A choice is a number in lo..hi: the number of instances of a block or of     *)
(* comments, 0 for an absent field, otherwise the number of the literal of an   *)
(* enumeration or 1 + the number of the unit (1: no unit).  `many' bounds the    *)
(* unbounded repetitions.                                                        *)
Rng(l, h) == [lo |-> l, hi |-> IF h < l THEN l ELSE h]

Options(s, many) ==
  LET en == En(s) IN
  CASE en.k = "close" -> Rng(0, 0)
    [] en.k = "open" ->
         IF s.rk = "att"
         THEN IF Prog(s.t)[Top(s).st].row = "att"
              THEN IF en.f = AttBlock(s.env.att) THEN Rng(1, 1) ELSE Rng(0, 0)
              ELSE Rng(1, 1)
         ELSE IF en.hi > 0 THEN Rng(en.lo, en.hi) ELSE Rng(en.lo, many)
    [] en.t = "comment" -> Rng(0, many)
    [] en.t = "user"    -> Rng(1, many)
    [] s.rk = "obs"     -> IF en.f = "epoch" \/ en.x = ObsLeaves[s.sel].x THEN Rng(1, 1 + Len(en.us)) ELSE Rng(0, 0)
    [] s.rk = "sv" /\ en.lo = 0 -> IF s.sel = 1 THEN Rng(1, 1 + Len(en.us)) ELSE Rng(0, 0)
    [] en.t = "enum" ->
         LET need == \/ en.f = "quaternion_type" /\ UsesQuaternion(s.env.att)
                     \/ en.f = "euler_rot_seq" /\ s.t = "aem" /\ UsesSequence(s.env.att)
         IN  Rng(IF need THEN 1 ELSE en.lo, Len(en.en))
    [] en.t \in {"dim", "angle", "rate"} -> Rng(en.lo, 1 + Len(en.us))
    [] OTHER -> Rng(en.lo, 1)

(* What a data row consists of, chosen when it is entered. *)
RowOptions(en) == CASE en.row = "obs" -> Rng(1, ObsKinds)
                    [] en.row = "sv"  -> Rng(0, 1)
                    [] OTHER -> Rng(0, 0)

(* An extra comment may be put in front of a keyword of the innermost block.   *)
MayInterject(s) == /\ En(s).k = "leaf" /\ En(s).t # "comment" /\ En(s).t # "user"
                   /\ s.rk = "" /\ Top(s).own /\ OwnsComments(s.t, Top(s).st)

(* ---- steps ------------------------------------------------------------------ *)
Idx(i) == "[" \o ToString(i - 1) \o "]"

(* enter instance i of n of the block that begins at entry st *)
Enter(s, st, n, i, sel, outer, orel) ==
  LET en    == Prog(s.t)[st]
      pre   == outer \o en.f \o (IF en.hi = 1 THEN "" ELSE Idx(i)) \o "/"
      frame == [st |-> st, e |-> en.e, n |-> n, i |-> i, outer |-> outer, pre |-> pre, orel |-> orel,
                rel |-> IF en.row # "" THEN "" ELSE orel \o en.f \o "/",
                nf |-> Len(s.facts), nl |-> s.kl, nc |-> 0, own |-> FALSE]
      (* one META or DATA pair per block, one COVARIANCE pair per list of matrices *)
      mark  == IF en.mark # "" /\ (en.row # "cov" \/ i = 1) THEN <<MarkLine(en.mark \o "_START")>> ELSE <<>>
  IN  [s EXCEPT !.pc = st + 1, !.fr = Append(@, frame),
                !.lines = @ \o mark, !.xml = Append(@, XStart(en.x)),
                !.row = IF en.row # "" THEN <<>> ELSE @,
                !.rk  = IF en.row # "" THEN en.row ELSE @,
                !.sel = IF en.row # "" THEN sel ELSE @,
                !.env = IF en.f = "segment" THEN NoEnv ELSE @]

Open(s, n, sel) ==
  IF n = 0 THEN [s EXCEPT !.pc = En(s).e + 1]
  ELSE Enter(s, s.pc, n, 1, sel, IF s.fr = <<>> THEN "" ELSE Top(s).pre, IF s.fr = <<>> THEN "" ELSE Top(s).rel)

RowVal(row, nm) == LET i == CHOOSE j \in 1..Len(row) : row[j].n = nm IN row[i].v
RowVals(row)    == [i \in 1..Len(row) |-> row[i].v]

(* the KVN lines of the data row just completed *)
RowLines(s, rk) ==
  CASE rk = "sv"  -> <<RowLine(RowVals(s.row))>>
    [] rk = "obs" -> <<ObsLine(s.row[2].k, <<s.row[1].v, s.row[2].v>>)>>
    [] rk = "att" -> LET cols == AttColumns(s.env)
                         blk  == AttBlock(s.env.att) \o "/"
                     IN  <<RowLine([i \in 1..Len(cols) |-> RowVal(s.row, blk \o cols[i])])>>
    [] rk = "cov" -> \* epoch and frame went out as key lines; the lower triangle row by row
                     [r \in 1..6 |-> RowLine([j \in 1..r |-> s.row[(r * (r - 1)) \div 2 + j].v])]
    [] OTHER -> <<>>

(* leave the innermost block; sel: content of the next data row, if there is one *)
Close(s, sel) ==
  LET fr   == Top(s)
      en   == Prog(s.t)[fr.st]
      rl   == RowLines(s, en.row)
      last == fr.i = fr.n
      mark == IF en.mark # "" /\ (en.row # "cov" \/ last) THEN <<MarkLine(en.mark \o "_STOP")>> ELSE <<>>
      s1   == [s EXCEPT !.pc = fr.e + 1, !.fr = SubSeq(@, 1, Len(@) - 1),
                        !.lines = @ \o rl \o mark, !.xml = Append(@, XEnd(en.x)),
                        !.kl = @ + Len(rl),
                        !.facts = IF Len(@) = fr.nf THEN Append(@, Fact(fr.pre, "{}", "", "")) ELSE @,
                        \* KVN cannot tell an empty block, nor whose comment it is if only a part of the block follows
                !.kvn = @ /\ (s.kl + Len(rl) > fr.nl \/ s.rk \in {"sv", "att", "obs"})
                          /\ (fr.nc = 0 \/ fr.own \/ IsContainer(s.t, fr.st)),
                        !.rk  = IF en.row # "" THEN "" ELSE @,
                        !.row = IF en.row # "" THEN <<>> ELSE @]
  IN  IF last THEN s1 ELSE Enter(s1, fr.st, fr.n, fr.i + 1, sel, fr.outer, fr.orel)

(* attribute that names the axis of a rotation component of an attitude row *)
AxisAttr(s, en) == IF s.t # "aem" THEN ""
                   ELSE IF en.t = "angle" THEN AxisAngle[AxisOf(s.env.seq, en.f)]
                   ELSE IF en.t = "rate" THEN AxisRate[AxisOf(s.env.seq, en.f)] ELSE ""

Absent(s) == [s EXCEPT !.pc = @ + 1]

(* whether the keyword at s.pc begins an instance of a repeated block that no marker delimits *)
Begins(s) == \E d \in 1..Len(s.fr) :
               /\ Prog(s.t)[s.fr[d].st].hi # 1 /\ s.fr[d].nl = s.kl
               /\ \A e \in d..Len(s.fr) : Prog(s.t)[s.fr[e].st].mark = "" \/ Prog(s.t)[s.fr[e].st].row = "cov"

(* a field with its value, unit and attribute *)
Present(s, val, unit, attr) ==
  LET en    == En(s)
      inrow == s.rk \in {"sv", "att", "obs"} \/ (s.rk = "cov" /\ en.t = "dim")
  IN  [s EXCEPT !.pc = @ + 1, !.slot = @ + 1,
                !.facts = Append(@, Fact(Top(s).pre \o en.f, val, unit, attr)),
                !.lines = IF inrow THEN @
                          ELSE IF attr # "" THEN Append(@, KeyLine(attr, val, unit))
                          ELSE Append(@, FreeLine(en.x, val, unit, IF Begins(s) THEN "" ELSE Top(s).pre)),
                !.kl    = IF inrow THEN @ ELSE @ + 1,
                !.ri    = IF inrow THEN @ \cup {Len(s.facts) + 1} ELSE @,
                !.row   = IF inrow THEN Append(@, [n |-> Top(s).rel \o en.f, k |-> en.x, v |-> val]) ELSE @,
                !.xml   = Append(@, XLeaf(en.x, val, IF attr = "" THEN "" ELSE en.t, attr, unit)),
                !.env   = CASE en.f = "attitude_type"   -> [@ EXCEPT !.att = val]
                            [] en.f = "quaternion_type" -> [@ EXCEPT !.qt = val]
                            [] en.f = "euler_rot_seq"   -> [@ EXCEPT !.seq = val]
                            [] OTHER -> @,
                !.fr[Len(s.fr)].own = TRUE]

(* the comments at the beginning of a block *)
Comments(s, toks) ==
  LET x == [i \in 1..Len(toks) |-> XLeaf("COMMENT", toks[i], "", "", "")]
  IN  [s EXCEPT !.pc = @ + 1, !.slot = @ + Len(toks),
                !.facts = @ \o [i \in 1..Len(toks) |-> Fact(Top(s).pre \o "comment" \o Idx(i), toks[i], "", "")],
                !.lines = @ \o [i \in 1..Len(toks) |-> ComLine(toks[i])],
                !.xml = @ \o x,
                !.fr[Len(s.fr)].nc = Len(toks)]

(* one more comment, in front of the keyword at s.pc *)
Interject(s, tok) ==
  [s EXCEPT !.slot = @ + 1, !.inter = TRUE,
            !.facts = Append(@, Fact(Top(s).pre \o "comment" \o Idx(Top(s).nc + 1), tok, "", "")),
            !.lines = Append(@, ComLine(tok)),
            !.fr[Len(s.fr)].nc = @ + 1]

(* the user-defined parameters: values and names *)
Users(s, vals, names) ==
  LET en == En(s)
      x == [i \in 1..Len(vals) |-> XLeaf(en.x, vals[i], "parameter", names[i], "")]
  IN  [s EXCEPT !.pc = @ + 1, !.slot = @ + 2 * Len(vals), !.kl = @ + Len(vals),
                !.facts = @ \o [i \in 1..Len(vals) |-> Fact(Top(s).pre \o en.f \o Idx(i), vals[i], "", names[i])],
                !.lines = @ \o [i \in 1..Len(vals) |-> KeyLine("USER_DEFINED_" \o names[i], vals[i], "")],
                !.xml = @ \o x,
                !.fr[Len(s.fr)].own = TRUE]

FactSet(s) == {s.facts[i] : i \in 1..Len(s.facts)}
(* what the KVN document states: no units in rows *)
KvnFactSet(s) == {IF i \in s.ri THEN [s.facts[i] EXCEPT !.u = ""] ELSE s.facts[i] : i \in 1..Len(s.facts)}
XmlOf(s)   == Append(s.xml, XEnd(s.t))

(* Sanity of a completed message: every path is stated once. *)
PathsUnique(s) == Cardinality({s.facts[i].p : i \in 1..Len(s.facts)}) = Len(s.facts)
=============================================================================

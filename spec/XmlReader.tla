---------------------------- MODULE XmlReader ----------------------------
(***************************************************************************)
(* How an XML document is understood: a machine that takes the tags of a     *)
(* document one by one, keeps the open elements on a stack and states the     *)
(* facts of the message.                                                    *)
(*                                                                         *)
(* Events: s start tag, e end tag, l leaf element with its text, t stray text, *)
(* x characters that are not well-formed anywhere.                            *)
(*                                                                         *)
(* Verdicts: "ok"; "bad" (not well-formed, an element that is not defined      *)
(* where it stands, or one element too many): must be refused; "any" where     *)
(* the properties do not say (text between elements, leaves without text).     *)
(***************************************************************************)
EXTENDS KvnReader

XEvent(e, n) == [e |-> e, n |-> n, v |-> "", an |-> "", av |-> "", u |-> ""]

(* the entries that are children of block st (0: the root), by the blocks around each *)
ChildrenOf(t, encl, st) ==
  {i \in 1..Len(Prog(t)) :
     /\ Prog(t)[i].k \in {"open", "leaf"}
     /\ IF st = 0 THEN encl[i] = <<>> ELSE encl[i] # <<>> /\ encl[i][Len(encl[i])] = st}
Blocks(t) == {0} \cup {i \in 1..Len(Prog(t)) : Prog(t)[i].k = "open"}
ChildTable ==
  TLCEval([t \in Range(Types) |->
     LET encl == TLCEval(Enclosings(t)) IN
     TLCEval([st \in Blocks(t) |->
       LET c == TLCEval(ChildrenOf(t, encl, st)) IN TLCEval([n \in {Prog(t)[i].x : i \in c} |-> CHOOSE i \in c : Prog(t)[i].x = n])])])
(* names are unique among the children of a block, or lookups would be ambiguous *)
NamesUnique ==
  \A t \in Range(Types) :
    LET encl == TLCEval(Enclosings(t)) IN
    \A st \in Blocks(t) :
      LET c == ChildrenOf(t, encl, st) IN Cardinality({Prog(t)[i].x : i \in c}) = Cardinality(c)

Ndm == "ndm"
NdmChild(n) == n \in Range(Types) \cup {"MESSAGE_ID", "COMMENT"}

(* ---- state ------------------------------------------------------------------ *)
(* fr: open elements [t, st, n, pre, cnt, nf]; t type of the message it is in, st its  *)
(* entry (0 the message, -1 the combined message, -2 a leaf), cnt children by name        *)
XmlInit == [v |-> "ok", fr |-> <<>>, done |-> FALSE, facts |-> <<>>]
XTop(r) == r.fr[Len(r.fr)]
Wrong(r)  == [r EXCEPT !.v = "bad"]
Unclear(r)  == IF r.v = "bad" THEN r ELSE [r EXCEPT !.v = "any"]

CountOf(cnt, n) == IF n \in DOMAIN cnt THEN cnt[n] ELSE 0
(* whether an element called n may come next in the innermost open element *)
Defined(r, n) ==
  LET f == XTop(r) IN
  CASE f.st = -2 -> FALSE
    [] f.st = -1 -> NdmChild(n)
    [] OTHER -> n \in DOMAIN ChildTable[f.t][f.st]
Entry_(r, n) == ChildTable[XTop(r).t][XTop(r).st][n]
Exhausted(r, n) ==
  LET f == XTop(r) IN
  IF f.st = -1 THEN n = "MESSAGE_ID" /\ CountOf(f.cnt, n) >= 1
  ELSE Prog(f.t)[Entry_(r, n)].hi = 1 /\ CountOf(f.cnt, n) >= 1
(* a list that becomes longer than the vocabulary allows keeps all its members: unclear *)
TooMany(r, n) ==
  LET f == XTop(r) IN
  f.st # -1 /\ LET hi == Prog(f.t)[Entry_(r, n)].hi IN hi > 1 /\ CountOf(f.cnt, n) >= hi
Counted(r, n) ==
  LET r1 == IF TooMany(r, n) THEN Unclear(r) ELSE r IN [r1 EXCEPT !.fr[Len(r1.fr)].cnt = (n :> CountOf(@, n) + 1) @@ @]

XPush(r, t, st, n, pre) == [r EXCEPT !.fr = Append(@, [t |-> t, st |-> st, n |-> n, pre |-> pre, cnt |-> [x \in {} |-> 0], nf |-> Len(r.facts)])]

(* path of the next element n; lists are numbered *)
PathOf(r, n) ==
  LET f == XTop(r) IN
  IF f.st = -1 THEN CASE n = "MESSAGE_ID" -> "message_id" [] n = "COMMENT" -> "comment" \o Idx(CountOf(f.cnt, n) + 1)
                      [] OTHER -> n \o Idx(CountOf(f.cnt, n) + 1)
  ELSE LET en == Prog(f.t)[Entry_(r, n)] IN
       f.pre \o en.f \o (IF en.hi = 1 THEN "" ELSE Idx(CountOf(f.cnt, n) + 1))

IsLeaf(r, n) == LET f == XTop(r) IN IF f.st = -1 THEN n \in {"MESSAGE_ID", "COMMENT"} ELSE Prog(f.t)[Entry_(r, n)].k = "leaf"

StartTag(r, n) ==
  IF r.fr = <<>> THEN
    IF r.done THEN Wrong(r)
    ELSE IF n = Ndm THEN XPush(r, "", -1, n, "")
    ELSE IF n \in Range(Types) THEN XPush(r, n, 0, n, "")
    ELSE Wrong(r)
  ELSE IF ~Defined(r, n) \/ Exhausted(r, n) THEN Wrong(r)
  ELSE LET p == PathOf(r, n) \o "/" IN
       IF IsLeaf(r, n) THEN XPush(Unclear(Counted(r, n)), "", -2, n, p)
       ELSE IF XTop(r).st = -1 THEN XPush(Counted(r, n), n, 0, n, p)
       ELSE XPush(Counted(r, n), XTop(r).t, Entry_(r, n), n, p)

EndTag(r, n) ==
  IF r.fr = <<>> \/ XTop(r).n # n THEN Wrong(r)
  ELSE LET f == XTop(r) IN
       [r EXCEPT !.fr = SubSeq(@, 1, Len(@) - 1), !.done = Len(r.fr) = 1,
                 !.facts = IF f.st > 0 /\ Len(@) = f.nf THEN Append(@, Fact(f.pre, "{}", "", "")) ELSE @]

LeafElement(r, ev) ==
  IF r.fr = <<>> \/ ~Defined(r, ev.n) \/ Exhausted(r, ev.n) THEN Wrong(r)
  ELSE IF ~IsLeaf(r, ev.n) THEN Unclear(Counted(r, ev.n))
  ELSE [Counted(r, ev.n) EXCEPT !.facts = Append(@, Fact(PathOf(r, ev.n), ev.v, ev.u, ev.av))]

TakeEvent(r, ev) ==
  IF r.v = "bad" THEN r
  ELSE CASE ev.e = "s" -> StartTag(r, ev.n)
         [] ev.e = "e" -> EndTag(r, ev.n)
         [] ev.e = "l" -> LeafElement(r, ev)
         [] ev.e = "t" -> IF r.fr = <<>> THEN Wrong(r) ELSE Unclear(r)
         [] OTHER -> Wrong(r)

XmlRead(events) ==
  LET r == FoldLeft(TakeEvent, XmlInit, events) IN IF r.done /\ r.fr = <<>> THEN r ELSE Wrong(r)
XmlFactSet(r) == {r.facts[i] : i \in 1..Len(r.facts)}
=============================================================================

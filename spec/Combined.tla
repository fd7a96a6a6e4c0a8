------------------------------ MODULE Combined ------------------------------
(***************************************************************************)
(* The combined message: a document is an optional message id, comments and  *)
(* members in any order of their types.  Reading collects the members by      *)
(* type; one member alone is taken out of the combined message.  The machine   *)
(* reads a document item by item; the invariants say what the object must be   *)
(* in terms of the whole document, and what writing it gives.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Plan == JsonDeserialize(IOEnv.COMBINED_PLAN)
Types == {Plan.types[i] : i \in 1..Len(Plan.types)}
MaxMembers == Plan.members
MaxComments == Plan.comments
(* if given, the types of the members of long documents, one after the other *)
Given == {Plan.given[i] : i \in 1..Len(Plan.given)}

Members(d) == SelectSeq(d, LAMBDA x : x.k = "member")
OfType(d, t) == SelectSeq(d, LAMBDA x : x.k = "member" /\ x.t = t)
CommentsOf(d) == SelectSeq(d, LAMBDA x : x.k = "comment")
Ids(d) == SelectSeq(d, LAMBDA x : x.k = "id")
Item(k, t, n) == [k |-> k, t |-> t, n |-> n]

NoObject == [id |-> 0, com |-> <<>>, lists |-> [t \in Types |-> <<>>]]

VARIABLES doc,   \* the document so far
          obj    \* what has been read
vars == <<doc, obj>>

Init == doc = <<>> /\ obj = NoObject

AddId == /\ doc = <<>>
         /\ doc' = Append(doc, Item("id", "", 1))
         /\ obj' = [obj EXCEPT !.id = 1]
AddComment ==
  /\ Members(doc) = <<>> /\ Len(CommentsOf(doc)) < MaxComments
  /\ LET n == Len(CommentsOf(doc)) + 1 IN
     /\ doc' = Append(doc, Item("comment", "", n))
     /\ obj' = [obj EXCEPT !.com = Append(@, n)]
Follows(t) == LET n == Len(Members(doc)) IN
  \E g \in Given : n < Len(g) /\ g[n + 1] = t /\ \A i \in 1..n : Members(doc)[i].t = g[i]
AddMember(t) ==
  /\ IF Given = {} THEN Len(Members(doc)) < MaxMembers ELSE Follows(t)
  /\ LET n == Len(Members(doc)) + 1 IN
     /\ doc' = Append(doc, Item("member", t, n))
     /\ obj' = [obj EXCEPT !.lists[t] = Append(@, n)]
Next == AddId \/ AddComment \/ \E t \in Types : AddMember(t)
Spec == Init /\ [][Next]_vars

(* ---- the object ------------------------------------------------------------ *)
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET t == CHOOSE x \in S : TRUE IN Len(obj.lists[t]) + Sum(S \ {t})
Size == Sum(Types)
Single == CHOOSE t \in Types : obj.lists[t] # <<>>
Result == IF Size = 1 THEN [kind |-> "member", t |-> Single, n |-> obj.lists[Single][1]]
          ELSE [kind |-> "ndm", t |-> "ndm", n |-> 0]
Kvn == IF Size = 1 THEN "member" ELSE IF Size = 0 THEN "any" ELSE "refuse"

(* ---- what must hold ---------------------------------------------------------- *)
AllMembersKept == /\ Size = Len(Members(doc))
                  /\ \A i \in 1..Len(Members(doc)) : \E t \in Types : \E j \in 1..Len(obj.lists[t]) :
                        t = Members(doc)[i].t /\ obj.lists[t][j] = Members(doc)[i].n
InDocumentOrder == \A t \in Types : obj.lists[t] = [i \in 1..Len(OfType(doc, t)) |-> OfType(doc, t)[i].n]
HeaderKept == obj.id = Len(Ids(doc)) /\ Len(obj.com) = Len(CommentsOf(doc))
OnlySingleIsUnwrapped == (Result.kind = "member") <=> (Len(Members(doc)) = 1)
KvnOfOneOnly == (Kvn = "member") <=> (Result.kind = "member")

(* a document written for the object, by type: reads into the same object *)
Rewritten == FoldLeft(LAMBDA s, t : s \o [i \in 1..Len(obj.lists[t]) |-> Item("member", t, obj.lists[t][i])], <<>>, SetToSeq(Types))
RewriteIsSame == \A t \in Types : [i \in 1..Len(OfType(Rewritten, t)) |-> OfType(Rewritten, t)[i].n] = obj.lists[t]

(* ---- for the driver ------------------------------------------------------------ *)
Name == IF Given # {} THEN ToString(Len(Members(doc))) \o "-" \o ToString(Cardinality({i \in 1..Len(doc) : doc[i].k = "member" /\ doc[i].t = "oem"})) \o "-" \o ToString(Len(doc)) ELSE FoldLeft(LAMBDA a, x : a \o "-" \o (IF x.k = "member" THEN x.t ELSE x.k), "d", doc)
Complete == Given = {} \/ \E g \in Given : Len(g) = Len(Members(doc))
Export == Complete => JsonSerialize(IOEnv.COMBINED_OUT \o "/" \o Name \o ".json", [doc |-> doc, obj |-> obj, result |-> Result, kvn |-> Kvn])
=============================================================================

---------------------------- MODULE Malformed ----------------------------
(***************************************************************************)
(* Documents that went wrong: at every position of a composed document, every *)
(* kind of damage.  A damage replaces `del' events at position `at' by others. *)
(* The XML reader machine decides whether the damaged document must be refused. *)
(***************************************************************************)
EXTENDS XmlReader, Json, IOUtils

Given == JsonDeserialize(IOEnv.MAL_PLAN)      \* messages [name, xml, names]
Part  == Given.part                           \* every n-th damage is taken
Docs  == Given.docs

Ev(m) == Docs[m].xml
Splice(at, del, ins) == [at |-> at, del |-> del, ins |-> ins]
Apply(ev, d) == SubSeq(ev, 1, d.at - 1) \o d.ins \o SubSeq(ev, d.at + d.del, Len(ev))

Leaf1(n) == [XEvent("l", n) EXCEPT !.v = "1"]
LastEvent(m) == Len(Ev(m))
(* where the element that starts at i ends *)
RECURSIVE EndFrom(_, _, _)
EndFrom(ev, j, d) == LET d1 == d + (IF ev[j].e = "s" THEN 1 ELSE IF ev[j].e = "e" THEN -1 ELSE 0)
                     IN IF d1 = 0 THEN j ELSE EndFrom(ev, j + 1, d1)
EndOf(ev, i) == IF ev[i].e = "l" THEN i ELSE EndFrom(ev, i, 0)
Element(ev, i) == SubSeq(ev, i, EndOf(ev, i))
(* where the innermost block around i ends *)
RECURSIVE BlockEnd(_, _)
BlockEnd(ev, i) == IF ev[i].e = "e" THEN i ELSE BlockEnd(ev, EndOf(ev, i) + 1)

Kinds == {"unknown-leaf", "unknown-block", "foreign", "elsewhere", "twice", "again", "drop", "rename", "case", "cross", "end", "after",
          "wrap", "inside", "into", "chars", "move"}

Chars == <<"<", "&", "&nosuch;", "<a", "<1/>", "<a b='1' b='2'/>", "<!-", "<a b></a>", "</>", "&#0;", "<![CDATA[x", "]]>", "<?xml version='1.0'?>">>

(* names that no message type defines; names are expanded names: {namespace}local *)
Unknown == <<"NOT_AN_ELEMENT", "x-extra", "_x", "comment", "COMMENTS", "USER_DEFINED_X", "value", "units", "id", "version", "META_START", "EXTENSION",
             "any", "subelements", "Header", "object_name", "X_COMMENT", "NONE", "__class__", "parameter", "ndmx">>
Foreign == "{urn:other}"

(* the damages of a kind at position i *)
Damages(m, k, i) ==
  LET ev == Ev(m) IN
  CASE k = "unknown-leaf" -> IF i > 1 THEN {Splice(i, 0, <<Leaf1(Unknown[((i * 3) % Len(Unknown)) + 1])>>)} ELSE {}
    [] k = "unknown-block" -> IF i > 1 THEN {Splice(i, 0, <<XEvent("s", "notAnElement"), XEvent("e", "notAnElement")>>)} ELSE {}
    \* elements of another namespace are not those of the message, whatever they are called
    [] k = "foreign" ->
         IF i = 1 THEN {}
         ELSE {Splice(i, 0, <<Leaf1(Foreign \o "EXTRA")>>)}
              \cup (IF ev[i].e = "l" THEN {Splice(i, 1, <<[ev[i] EXCEPT !.n = Foreign \o @]>>)}
                    ELSE IF ev[i].e = "s" THEN {Splice(i, EndOf(ev, i) - i + 1,
                           <<[ev[i] EXCEPT !.n = Foreign \o @]>> \o SubSeq(ev, i + 1, EndOf(ev, i) - 1) \o <<[ev[EndOf(ev, i)] EXCEPT !.n = Foreign \o @]>>)}
                    ELSE {})
    \* an element of the vocabulary, but not of this block
    [] k = "elsewhere" -> IF i > 1 THEN {Splice(i, 0, <<Leaf1(Docs[m].names[((i * 7) % Len(Docs[m].names)) + 1])>>)} ELSE {}
    [] k = "twice" -> IF ev[i].e \in {"s", "l"} THEN {Splice(EndOf(ev, i) + 1, 0, Element(ev, i))} ELSE {}
    [] k = "again" -> IF i > 1 /\ ev[i].e \in {"s", "l"} THEN {Splice(BlockEnd(ev, i), 0, Element(ev, i))} ELSE {}
    [] k = "drop" -> IF ev[i].e # "l" THEN {Splice(i, 1, <<>>)} ELSE {}
    [] k = "rename" -> {Splice(i, 1, <<[ev[i] EXCEPT !.n = @ \o "X"]>>)}
                       \cup (IF ev[i].e = "s" THEN {Splice(i, EndOf(ev, i) - i + 1,
                              <<[ev[i] EXCEPT !.n = "X" \o @]>> \o SubSeq(ev, i + 1, EndOf(ev, i) - 1) \o <<[ev[EndOf(ev, i)] EXCEPT !.n = "X" \o @]>>)} ELSE {})
    \* names are case sensitive
    [] k = "case" -> IF ev[i].e = "l" THEN {Splice(i, 1, <<[ev[i] EXCEPT !.n = Docs[m].lower[i]]>>)} ELSE {}
    [] k = "cross" -> IF i < Len(ev) /\ ev[i].e = "e" /\ ev[i + 1].e = "e" THEN {Splice(i, 2, <<ev[i + 1], ev[i]>>)}
                      ELSE IF i < Len(ev) /\ ev[i].e = "s" /\ ev[i + 1].e = "s" THEN {Splice(i, 2, <<ev[i + 1], ev[i]>>)} ELSE {}
    [] k = "end" -> {Splice(i, Len(ev) - i + 1, <<>>)}
    [] k = "after" -> IF i = Len(ev) THEN {Splice(i + 1, 0, x) : x \in {<<Leaf1("COMMENT")>>, <<XEvent("t", "text")>>, <<ev[1], ev[i]>>, ev,
                                            <<XEvent("e", ev[i].n)>>, <<XEvent("s", ev[i].n)>>, <<XEvent("x", "<")>>}} ELSE {}
    [] k = "wrap" -> IF i > 1 /\ ev[i].e \in {"s", "l"}
                     THEN {Splice(i, Len(Element(ev, i)), <<XEvent("s", "wrapper")>> \o Element(ev, i) \o <<XEvent("e", "wrapper")>>)} ELSE {}
    \* an element inside a leaf, or inside itself
    [] k = "inside" -> IF ev[i].e = "l" THEN {Splice(i, 1, <<XEvent("s", ev[i].n), x, XEvent("e", ev[i].n)>>) : x \in {ev[i], Leaf1("COMMENT"), Leaf1("b")}}
                       ELSE IF ev[i].e = "s" THEN {Splice(i, 0, <<ev[i]>>)} ELSE {}
    [] k = "into" -> IF ev[i].e = "s" THEN {Splice(i, Len(Element(ev, i)), <<ev[i]>> \o Element(ev, i) \o <<ev[EndOf(ev, i)]>>)} ELSE {}
    [] k = "chars" -> {Splice(i, 0, <<XEvent("x", Chars[((i * 5) % Len(Chars)) + 1])>>)}
    \* an element of the first block moved to the end, and the other way round
    [] k = "move" -> IF i > 2 /\ i < Len(ev) /\ ev[i].e \in {"s", "l"} THEN {Splice(3, 0, Element(ev, i)), Splice(Len(ev), 0, Element(ev, i))} ELSE {}
    [] OTHER -> {}

(* ---- exploration ---------------------------------------------------------------- *)
ASSUME NamesUnique
(* (no name that an operator uses for a parameter: TLC would take that for the variable) *)
VARIABLES docNo, kind, place, damage, verdict
vars == <<docNo, kind, place, damage, verdict>>
NoDamage == Splice(1, 0, <<>>)

Init == /\ docNo \in 1..Len(Docs)
        /\ kind = "none" /\ place = 0 /\ damage = NoDamage /\ verdict = XmlRead(Ev(docNo)).v
Next ==
  /\ kind = "none"
  /\ UNCHANGED docNo
  /\ \E kk \in Kinds : \E ii \in 1..LastEvent(docNo) :
       /\ kk = "after" \/ (ii + Docs[docNo].off[kk]) % Part = 0
       /\ \E dd \in Damages(docNo, kk, ii) :
            /\ kind' = kk /\ place' = ii /\ damage' = dd
            /\ verdict' = XmlRead(Apply(Ev(docNo), dd)).v
Spec == Init /\ [][Next]_vars

(* the documents themselves are fine *)
UndamagedIsFine == kind = "none" => verdict = "ok"
(* these are always wrong *)
AlwaysWrong == kind \in {"unknown-leaf", "unknown-block", "foreign", "drop", "rename", "wrap", "chars", "end", "after"} => verdict = "bad"
(* what repeats or moves an element may be fine, if the element may be there; otherwise it is wrong *)
Decided == verdict \in {"ok", "bad", "any"}

Export == kind # "none" =>
  JsonSerialize(IOEnv.MAL_OUT \o "/" \o ToString(docNo) \o "-" \o kind \o "-" \o ToString(place) \o "-" \o ToString(damage.at) \o "-" \o ToString(damage.del)
                \o "-" \o ToString(Len(damage.ins)) \o (IF damage.ins = <<>> THEN "" ELSE "-" \o ToString(Len(damage.ins[Len(damage.ins)].n)) \o damage.ins[1].e) \o ".json",
                [m |-> docNo, k |-> kind, i |-> place, d |-> damage, v |-> verdict])
=============================================================================

---------------------------- MODULE FormatDetect ----------------------------
(***************************************************************************)
(* What is done with a text: a text is a sequence of pieces; the verdict is *)
(* the name of the document (a message of its type), "json" (not implemented),  *)
(* "refuse" (an exception), or "any" where the property says nothing.         *)
(*                                                                         *)
(* It is defined twice: as a machine that takes the pieces one by one, the    *)
(* way a reader would, and by the shape of the whole text.  TLC checks that    *)
(* the two agree on every text up to the bound, and that surrounding white     *)
(* space and the entry point make no difference.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

(* the alphabet: names of pieces by class; the driver knows the texts *)
Alphabet == JsonDeserialize(IOEnv.FORMAT_PLAN)
Class(n) == LET c == Alphabet[n] IN {c[i] : i \in 1..Len(c)}
Blank  == Class("blank")      \* white space
Prolog == Class("prolog")     \* XML declaration
Note   == Class("note")       \* XML comments and processing instructions
KvnDoc == Class("kvndoc")     \* KVN messages; a piece is named after its type
KvnBad == Class("kvnbad")     \* KVN headers of types that do not exist
XmlDoc == Class("xmldoc")     \* XML messages, named after their root
XmlBad == Class("xmlbad")     \* documents with other roots
Array  == Class("array")      \* JSON arrays
Opener == Class("opener")     \* texts beginning with "[" that do not end with "]"
Closer == Class("closer")     \* texts ending with "]" that do not begin with "[", "<" or a KVN header
Junk   == Class("junk")       \* anything else, no part of a well-formed document
MaxLen == Alphabet.maxlen

Pieces == Blank \cup Prolog \cup Note \cup KvnDoc \cup KvnBad \cup XmlDoc \cup XmlBad \cup Array \cup Opener \cup Closer \cup Junk

(* ---- by shape ---------------------------------------------------------- *)
RECURSIVE StripFront(_)
StripFront(s) == IF s # <<>> /\ s[1] \in Blank THEN StripFront(Tail(s)) ELSE s
RECURSIVE StripBack(_)
StripBack(s) == IF s # <<>> /\ s[Len(s)] \in Blank THEN StripBack(SubSeq(s, 1, Len(s) - 1)) ELSE s
Core(s) == StripBack(StripFront(s))

Has(s, S) == \E i \in 1..Len(s) : s[i] \in S
Only(s, S) == \A i \in 1..Len(s) : s[i] \in S

OpensArray(p)  == p \in Array \cup Opener
ClosesArray(p) == p \in Array \cup Closer

XmlShape(c) ==
  \E i \in 1..Len(c) :
    /\ c[i] \in XmlDoc
    /\ \A j \in 1..Len(c) : j # i => c[j] \in Blank \cup Note \/ (j = 1 /\ c[j] \in Prolog)

Verdict(s) ==
  LET c == Core(s) IN
  CASE c = <<>> -> "refuse"
    [] c[1] \in KvnDoc -> IF Len(c) = 1 THEN c[1] ELSE "any"
    [] c[1] \in KvnBad -> "refuse"
    [] OpensArray(c[1]) -> IF ClosesArray(c[Len(c)]) THEN "json" ELSE "refuse"
    [] XmlShape(c) -> LET i == CHOOSE k \in 1..Len(c) : c[k] \in XmlDoc IN c[i]
    [] OTHER -> "refuse"

(* ---- as a machine -------------------------------------------------------- *)
(* mode: start, kvn (message complete), kvn+ (something follows), bad, array open,  *)
(* array closed, prolog, misc (before the root), done (root complete), with type     *)
Start == [m |-> "start", t |-> ""]
St(m) == [m |-> m, t |-> ""]
Take(q, p) ==
  CASE p \in Blank -> q
    [] q.m = "start" ->
         CASE p \in KvnDoc -> [m |-> "kvn", t |-> p]
           [] p \in KvnBad -> St("badkvn")
           [] p \in Array  -> St("closed")
           [] p \in Opener -> St("open")
           [] p \in Prolog -> St("prolog")
           [] p \in Note   -> St("misc")
           [] p \in XmlDoc -> [m |-> "root", t |-> p]
           [] OTHER -> St("bad")
    [] q.m = "kvn" -> St("kvn+")
    [] q.m \in {"open", "closed"} -> IF p \in Array \cup Closer THEN St("closed") ELSE St("open")
    [] q.m \in {"prolog", "misc"} ->
         CASE p \in Note -> St("misc")
           [] p \in XmlDoc -> [m |-> "root", t |-> p]
           [] OTHER -> St("bad")
    [] q.m = "root" -> IF p \in Note THEN q ELSE St("bad")
    [] OTHER -> q

Says(q) == CASE q.m \in {"kvn", "root"} -> q.t
             [] q.m = "kvn+" -> "any"
             [] q.m = "closed" -> "json"
             [] OTHER -> "refuse"

(* ---- exploration ------------------------------------------------------------ *)
VARIABLES text, q
vars == <<text, q>>
Init == text = <<>> /\ q = Start
Next == /\ Len(text) < MaxLen
        /\ \E p \in Pieces : text' = Append(text, p) /\ q' = Take(q, p)
Spec == Init /\ [][Next]_vars

Agree == Says(q) = Verdict(text)
BlanksDoNotMatter == Verdict(text) = Verdict(Core(text))
NeverSilent == Verdict(text) = "refuse" \/ Verdict(text) = "json" \/ Verdict(text) = "any"
               \/ (\E i \in 1..Len(text) : Verdict(text) = text[i])

(* every text with its verdict, for the test driver *)
Texts == UNION {[1..n -> Pieces] : n \in 0..MaxLen}
ASSUME JsonSerialize(IOEnv.FORMAT_OUT, SetToSeq({[t |-> s, v |-> Verdict(s)] : s \in Texts}))
=============================================================================

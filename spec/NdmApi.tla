------------------------------- MODULE NdmApi -------------------------------
(***************************************************************************)
(* The library as its user sees it: message objects held by handles, files,  *)
(* reader/writer instances, and operations on them.                          *)
(*                                                                         *)
(* What an object holds is a term: document number and the changes made to it.  *)
(* What a file holds is nothing, something else, or the text of an object in a   *)
(* format with options.  An operation has a result that is a function of its     *)
(* arguments alone: instances have no state at all here, so that whatever an      *)
(* instance remembers of earlier operations is a deviation from this machine.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Plan == JsonDeserialize(IOEnv.API_PLAN)
AsSet(s) == {s[i] : i \in 1..Len(s)}

Docs     == 1..Plan.docs
Combined == AsSet(Plan.combined)      \* documents with several members: no KVN
Handles  == 1..Plan.handles
Files    == 1..Plan.files
Insts    == AsSet(Plan.insts)         \* "ndm", "own" (one instance for all operations), "fresh", "freshown"
Entries  == AsSet(Plan.entries)       \* "string", "bytes", "path"
PathKinds == AsSet(Plan.paths)        \* "str", "Path", "rel"
Opts     == 0..Plan.opts              \* settings of a write, 0 for none
Muts     == 1..Plan.muts
Bads     == 1..Plan.bads
Ops      == AsSet(Plan.ops)
Length   == Plan.len
MaxMut   == 2

None == [k |-> "none"]
Raw  == [k |-> "raw"]
Content(d) == [k |-> "object", d |-> d, m |-> <<>>]
Text(c, f, o) == [k |-> "text", c |-> c, f |-> f, o |-> o]
Source(d, f)  == [k |-> "source", d |-> d, f |-> f]

Formats(d) == IF d \in Combined THEN {"xml"} ELSE {"kvn", "xml"}
(* the format reader of an instance: a unified one takes both *)
OptsOf(f) == IF f = "xml" THEN Opts ELSE {0}

VARIABLES obj,    \* handle -> content
          fs,     \* file -> what it holds
          hist,   \* the operations with their results
          turn    \* the kind of operation that is next
vars == <<obj, fs, hist, turn>>

Init == /\ obj = [h \in Handles |-> None]
        /\ fs  = [x \in Files |-> IF x = 1 THEN None ELSE Raw]
        /\ hist = <<>>
        /\ turn = "choose"

Do(op, args, res) == hist' = Append(hist, [op |-> op, a |-> args, r |-> res])

(* what reading the text in a file gives *)
Parsed(x) == CASE x.k = "text" -> x.c
               [] x.k = "source" -> Content(x.d)
               [] OTHER -> None
Refused == [k |-> "refused"]
Whatever == [k |-> "any"]      \* refused or not: the properties do not say

Read(i, e, d, f, h) ==
  /\ obj' = [obj EXCEPT ![h] = Content(d)]
  /\ UNCHANGED fs
  /\ Do("read", [i |-> i, e |-> e, d |-> d, f |-> f, h |-> h], Content(d))

(* somebody else writes a file *)
Put(x, d, f, nl) ==
  /\ fs' = [fs EXCEPT ![x] = Source(d, f)]
  /\ UNCHANGED obj
  /\ Do("put", [x |-> x, d |-> d, f |-> f, nl |-> nl], None)

Load(i, e, pk, x, h) ==
  LET c == Parsed(fs[x]) IN
  /\ e \in {"string", "bytes"} => c # None
  /\ obj' = IF c = None THEN obj ELSE [obj EXCEPT ![h] = c]
  /\ UNCHANGED fs
  /\ Do("load", [i |-> i, e |-> e, p |-> pk, x |-> x, h |-> h, f |-> IF fs[x].k \in {"text", "source"} THEN fs[x].f ELSE "xml"],
        IF c = None THEN Refused ELSE c)

ReadBad(i, b) ==
  /\ UNCHANGED <<obj, fs>>
  /\ Do("readbad", [i |-> i, b |-> b], IF b <= Plan.sure THEN Refused ELSE Whatever)

Write(i, f, o, h) ==
  /\ obj[h] # None /\ (obj[h].d \in Combined => f = "xml")
  /\ UNCHANGED <<obj, fs>>
  /\ Do("write", [i |-> i, f |-> f, o |-> o, h |-> h], Text(obj[h], f, o))

Save(i, pk, f, o, h, x) ==
  /\ obj[h] # None /\ (obj[h].d \in Combined => f = "xml")
  /\ fs' = [fs EXCEPT ![x] = Text(obj[h], f, o)]
  /\ UNCHANGED obj
  /\ Do("save", [i |-> i, p |-> pk, f |-> f, o |-> o, h |-> h, x |-> x], Text(obj[h], f, o))

(* writes that are refused: combined messages to KVN, unsupported formats, objects that are none, *)
(* texts that no encoding has ("text": the object is changed for this write only)                 *)
Refuse(i, how, h, x) ==
  /\ how = "combined" => obj[h] # None /\ obj[h].d \in Combined
  /\ how \in {"json", "format", "text"} => obj[h] # None
  /\ how = "text" => obj[h].d \notin Combined
  /\ UNCHANGED <<obj, fs>>
  /\ Do("refuse", [i |-> i, how |-> how, h |-> h, x |-> x], Refused)

Mutate(h, m) ==
  /\ obj[h] # None /\ Len(obj[h].m) < MaxMut
  /\ obj' = [obj EXCEPT ![h].m = Append(@, m)]
  /\ UNCHANGED fs
  /\ Do("mutate", [h |-> h, m |-> m], None)

(* the kind of operation is chosen first, so that chance takes all kinds equally often *)
Possible(op) ==
  CASE op \in {"write", "save", "refuse"} -> \E h \in Handles : obj[h] # None
    [] op = "mutate" -> \E h \in Handles : obj[h] # None /\ Len(obj[h].m) < MaxMut
    [] OTHER -> TRUE
Choose == /\ turn = "choose"
          /\ IF Len(hist) = Length THEN turn' = "done" ELSE turn' \in {op \in Ops : Possible(op)}
          /\ UNCHANGED <<obj, fs, hist>>
Operation ==
  /\ turn' = "choose"
  /\ CASE turn = "read" -> \E i \in Insts, e \in Entries, d \in Docs, h \in Handles : \E f \in Formats(d) : Read(i, e, d, f, h)
       [] turn = "put" -> \E x \in Files, d \in Docs, nl \in {"lf", "crlf"} : \E f \in Formats(d) : Put(x, d, f, nl)
       [] turn = "load" -> \E i \in Insts, e \in Entries, pk \in PathKinds, x \in Files, h \in Handles :
                            (e = "path" \/ pk = CHOOSE p \in PathKinds : TRUE) /\ Load(i, e, pk, x, h)
       [] turn = "readbad" -> \E i \in Insts, b \in Bads : ReadBad(i, b)
       [] turn = "write" -> \E i \in Insts, f \in {"kvn", "xml"}, h \in Handles : \E o \in OptsOf(f) : Write(i, f, o, h)
       [] turn = "save" -> \E i \in Insts, pk \in PathKinds, f \in {"kvn", "xml"}, h \in Handles, x \in Files :
                            \E o \in OptsOf(f) : Save(i, pk, f, o, h, x)
       [] turn = "refuse" -> \E i \in Insts, how \in {"combined", "json", "format", "nothing", "text"}, h \in Handles, x \in Files : Refuse(i, how, h, x)
       [] turn = "mutate" -> \E h \in Handles, m \in Muts : Mutate(h, m)
       [] OTHER -> FALSE
Next == Choose \/ Operation
Spec == Init /\ [][Next]_vars

(* ---- what must hold ---------------------------------------------------------- *)
Last(s) == s[Len(s)]
(* the result of a read or write is determined by its own arguments, not by the operations before *)
FunctionOfArguments ==
  \A i \in 1..Len(hist) :
    LET e == hist[i] IN
    CASE e.op = "read" -> e.r = Content(e.a.d)
      [] e.op = "readbad" -> e.r = IF e.a.b <= Plan.sure THEN Refused ELSE Whatever
      [] e.op \in {"write", "save"} -> e.r.f = e.a.f /\ e.r.o = e.a.o
      [] OTHER -> TRUE
(* an operation touches its own target only; refused ones touch nothing *)
Frame ==
  [][Len(hist') > Len(hist) =>
     LET e == Last(hist') IN
     /\ \A h \in Handles : obj'[h] # obj[h] => e.op \in {"read", "load", "mutate"} /\ e.a.h = h
     /\ \A x \in Files : fs'[x] # fs[x] => e.op \in {"put", "save"} /\ e.a.x = x
     /\ e.r = Refused => UNCHANGED <<obj, fs>>]_vars
(* what was saved is what was returned, and loads as what was saved *)
SavedIsWritten ==
  [][Len(hist') > Len(hist) => LET e == Last(hist') IN e.op = "save" => fs'[e.a.x] = Text(obj[e.a.h], e.a.f, e.a.o) /\ Parsed(fs'[e.a.x]) = obj[e.a.h]]_vars
CombinedNeverKvn == \A x \in Files : fs[x].k = "text" /\ fs[x].c.d \in Combined => fs[x].f = "xml"

(* ---- for the driver -------------------------------------------------------------- *)
ASSUME TLCSet(7, 0)
Export ==
  turn = "done" =>
     /\ TLCSet(7, TLCGet(7) + 1)
     /\ JsonSerialize(IOEnv.API_OUT \o "/" \o ToString(TLCGet(7)) \o ".json", hist)
=============================================================================

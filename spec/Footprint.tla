----------------------------- MODULE Footprint -----------------------------
(***************************************************************************)
(* Operations on paths, step by step, in a file system where things are not *)
(* as they should be; and operations that are broken off.                  *)
(*                                                                         *)
(*   load    open - take - shut - parse       read    parse               *)
(*   save    render - open - put - shut       write   render              *)
(*                                                                         *)
(* Every step can fail, and an interrupt can break an operation off before  *)
(* any step.  The world is a small tree of places.  Somebody else changes it *)
(* between operations, or lets the descriptors or the room run out.         *)
(* The library has no variable here: nothing of an operation outlives it     *)
(* but what it returned or wrote.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Plan == JsonDeserialize(IOEnv.FOOT_PLAN)
AsSet(s) == {s[i] : i \in 1..Len(s)}

Docs    == 1..Plan.docs
Handles == 1..Plan.handles
Places  == AsSet(Plan.places)
Insts   == AsSet(Plan.insts)     \* "ndm", "own": the same instance for all operations; "fresh"
Ops     == AsSet(Plan.ops)
Cuts    == 1..Plan.cuts          \* where an operation is broken off: parts of its steps
Length  == Plan.len
MaxCuts == Plan.broken           \* broken operations of a history

(* places; the last four can never be files *)
Root == {"a", "b", "link"}
Never == {"loop", "long", "nul", "under/missing"}
Parent(p) == CASE p = "a/f" -> "a" [] p = "d/c" -> "d" [] OTHER -> ""
Target(p) == IF p = "link" THEN "b" ELSE p
Nodes == ({"a", "b", "d", "d/c", "a/f"} \cap (Places \cup {"b", "d"}))

Absent == [k |-> "absent"]
Dir    == [k |-> "dir"]
Junk(j) == [k |-> "junk", j |-> j]      \* 1 not UTF-8, 2 empty, 3 no message, 4 cut off
Some   == [k |-> "some"]                \* a write that did not come to its end: nothing is known
Text(c, f) == [k |-> "text", c |-> c, f |-> f]
IsFile(n) == n.k \in {"junk", "some", "text"}

None == [k |-> "none"]
Content(d) == [k |-> "object", d |-> d]
Failed == [k |-> "failed"]
Broken == [k |-> "broken"]
Idle == [o |-> "idle"]

VARIABLES world,    \* node -> what is there
          fault,    \* "none", "descriptors", "room"
          obj,      \* handle -> content
          op,       \* the operation under way, with the step it is at
          open,     \* places held open
          hist, turn
vars == <<world, fault, obj, op, open, hist, turn>>

Init == /\ world = [n \in Nodes |-> IF n = "d" THEN Dir ELSE Absent]
        /\ fault = "none"
        /\ obj = [h \in Handles |-> Content(1)]
        /\ op = Idle /\ open = {} /\ hist = <<>> /\ turn = "choose"

Reached(p) == \/ Target(p) \in {"b"} \/ p = "a"
              \/ Parent(p) # "" /\ world[Parent(p)].k = "dir"
CanRead(p)  == p \notin Never /\ Reached(p) /\ IsFile(world[Target(p)]) /\ fault # "descriptors"
CanWrite(p) == p \notin Never /\ Reached(p) /\ world[Target(p)].k # "dir" /\ fault # "descriptors"

(* ---- the end of an operation: its result; whatever was open is shut ---- *)
End(r) == /\ op' = Idle /\ open' = {} /\ turn' = "choose"
          /\ hist' = Append(hist, [op |-> op.o, a |-> op.a, r |-> r, cut |-> 0])
Cut(c, r) == /\ op' = Idle /\ open' = {} /\ turn' = "choose"
             /\ hist' = Append(hist, [op |-> op.o, a |-> op.a, r |-> r, cut |-> c])
At(o, s) == op.o = o /\ op.s = s
Go(s) == op' = [op EXCEPT !.s = s]

(* ---- load and read ---- *)
LoadOpen == /\ At("load", "open")
            /\ IF CanRead(op.a.p) THEN Go("take") /\ open' = {op.a.p} /\ UNCHANGED <<hist, turn>>
                                  ELSE End(Failed)
            /\ UNCHANGED <<world, fault, obj>>
LoadTake == /\ At("load", "take")
            /\ LET n == world[Target(op.a.p)] IN
               IF n.k = "junk" /\ n.j = 1 THEN End(Failed)
               ELSE op' = [op EXCEPT !.s = "shut", !.got = n] /\ UNCHANGED <<open, hist, turn>>
            /\ UNCHANGED <<world, fault, obj>>
LoadShut == /\ At("load", "shut") /\ Go("parse") /\ open' = {} /\ UNCHANGED <<world, fault, obj, hist, turn>>
Parse == /\ op.o \in {"load", "read"} /\ op.s = "parse"
         /\ LET n == op.got IN
            IF n.k = "text" THEN obj' = [obj EXCEPT ![op.a.h] = n.c] /\ End(n.c)
                            ELSE UNCHANGED obj /\ End(Failed)
         /\ UNCHANGED <<world, fault>>
(* ---- save and write ---- *)
Render == /\ op.o \in {"save", "write"} /\ op.s = "render"
          /\ IF op.o = "write" THEN End(Text(obj[op.a.h], op.a.f))
             ELSE Go("open") /\ UNCHANGED <<open, hist, turn>>
          /\ UNCHANGED <<world, fault, obj>>
SaveOpen == /\ At("save", "open")
            /\ IF CanWrite(op.a.p) THEN Go("put") /\ open' = {op.a.p} /\ world' = [world EXCEPT ![Target(op.a.p)] = Some] /\ UNCHANGED <<hist, turn>>
                                   ELSE End(Failed) /\ UNCHANGED world
            /\ UNCHANGED <<fault, obj>>
SavePut == /\ At("save", "put")
           /\ IF fault = "room" THEN End(Failed) /\ UNCHANGED world
              ELSE Go("shut") /\ world' = [world EXCEPT ![Target(op.a.p)] = Text(obj[op.a.h], op.a.f)] /\ UNCHANGED <<open, hist, turn>>
           /\ UNCHANGED <<fault, obj>>
SaveShut == /\ At("save", "shut") /\ End(Text(obj[op.a.h], op.a.f)) /\ UNCHANGED <<world, fault, obj>>
(* the object is one that no file can hold: refused before the file is touched *)
SaveOdd == /\ At("odd", "render") /\ End(Failed) /\ UNCHANGED <<world, fault, obj>>

(* ---- an interrupt, before any step: whatever is open is shut, and the operation is over.  When *)
(* histories are made for the code the step is a fixed one (the steps of the code are not those of *)
(* this machine: the cut is a number, and what a broken save leaves in its file is not known).     *)
Aimed == CASE op.o = "load" -> "open" [] op.o = "read" -> "parse" [] op.o = "write" -> "render" [] OTHER -> "put"
Interrupt ==
  /\ op.o # "odd" /\ Cardinality({i \in 1..Len(hist) : hist[i].cut > 0}) < MaxCuts
  /\ Plan.aim => op.s = Aimed
  /\ \E c \in Cuts : Cut(c, Broken)
  /\ UNCHANGED <<world, fault, obj>>

(* ---- between operations ---- *)
Start(o) ==
  /\ op = Idle
  /\ CASE o = "load" -> \E i \in Insts, p \in Places, h \in Handles :
                          /\ Target(p) \in Nodes => world[Target(p)] # Some     \* nobody reads what an unfinished write left
                          /\ op' = [o |-> o, s |-> "open", got |-> None, a |-> [i |-> i, p |-> p, h |-> h]]
       [] o = "read" -> \E i \in Insts, d \in Docs, f \in {"kvn", "xml"}, h \in Handles :
                          op' = [o |-> o, s |-> "parse", got |-> Text(Content(d), f), a |-> [i |-> i, d |-> d, f |-> f, h |-> h]]
       [] o = "write" -> \E i \in Insts, f \in {"kvn", "xml"}, h \in Handles : op' = [o |-> o, s |-> "render", a |-> [i |-> i, f |-> f, h |-> h]]
       [] o = "save" -> \E i \in Insts, f \in {"kvn", "xml"}, h \in Handles, p \in Places \ {"link", "loop"} :
                          op' = [o |-> o, s |-> "render", a |-> [i |-> i, f |-> f, h |-> h, p |-> p]]
       [] o = "odd" -> \E i \in Insts, f \in {"kvn", "xml"}, h \in Handles, p \in Places \ {"link", "loop"} :
                          op' = [o |-> o, s |-> "render", a |-> [i |-> i, f |-> f, h |-> h, p |-> p]]
       [] OTHER -> FALSE
  /\ UNCHANGED <<world, fault, obj, open, hist>>
  /\ turn' = "busy"

Children(n) == {m \in Nodes : Parent(m) = n}
Become(n, what) == world' = [m \in Nodes |-> IF m = n THEN what ELSE IF m \in Children(n) THEN Absent ELSE world[m]]
Else(o, a) == hist' = Append(hist, [op |-> o, a |-> a, r |-> None, cut |-> 0]) /\ turn' = "choose" /\ UNCHANGED <<obj, op, open>>
World ==
  \/ \E n \in Nodes, d \in Docs, f \in {"kvn", "xml"} :
       /\ turn = "put" /\ (Parent(n) # "" => world[Parent(n)].k = "dir") /\ n # "d"
       /\ Become(n, Text(Content(d), f)) /\ Else("put", [n |-> n, d |-> d, f |-> f]) /\ UNCHANGED fault
  \/ \E n \in Nodes, j \in 1..4 :
       /\ turn = "junk" /\ (Parent(n) # "" => world[Parent(n)].k = "dir") /\ n # "d"
       /\ Become(n, Junk(j)) /\ Else("junk", [n |-> n, j |-> j]) /\ UNCHANGED fault
  \/ \E n \in Nodes : /\ turn = "mkdir" /\ (Parent(n) # "" => world[Parent(n)].k = "dir")
                      /\ Become(n, Dir) /\ Else("mkdir", [n |-> n]) /\ UNCHANGED fault
  \/ \E n \in Nodes : /\ turn = "remove" /\ world[n] # Absent /\ Become(n, Absent) /\ Else("remove", [n |-> n]) /\ UNCHANGED fault
  \/ \E x \in {"none", "descriptors", "room"} : turn = "fault" /\ x # fault /\ fault' = x /\ Else("fault", [x |-> x]) /\ UNCHANGED world

Possible(o) == CASE o = "remove" -> \E n \in Nodes : world[n] # Absent
                    [] o = "load" -> \E p \in Places : Target(p) \in Nodes => world[Target(p)] # Some
                    [] OTHER -> TRUE
Choose == /\ turn = "choose"
          /\ IF Len(hist) = Length THEN turn' = "done" ELSE turn' \in {o \in Ops : Possible(o)}
          /\ UNCHANGED <<world, fault, obj, op, open, hist>>
Next == \/ Choose
        \/ turn \notin {"choose", "busy", "done"} /\ (Start(turn) \/ World)
        \/ turn = "busy" /\ (LoadOpen \/ LoadTake \/ LoadShut \/ Parse \/ Render \/ SaveOpen \/ SavePut \/ SaveShut \/ SaveOdd \/ Interrupt)
Spec == Init /\ [][Next]_vars

(* ---- what must hold ---------------------------------------------------------- *)
NothingOpen == op = Idle => open = {}
OneAtMost == Cardinality(open) <= 1
(* nothing changes but the target of a save, and only between its opening and its end *)
Frame == [][world' # world =>
             \/ turn \in {"put", "junk", "mkdir", "remove"}
             \/ /\ op.o = "save"
                /\ \A n \in Nodes : world'[n] # world[n] => n = Target(op.a.p)]_vars
(* what failed filled no handle; what failed before its file was open left it as it was *)
FailedLeavesObjects == [][Len(hist') > Len(hist) /\ hist'[Len(hist')].r \in {Failed, Broken} => obj' = obj]_vars
Reported ==
  \A i \in 1..Len(hist) :
     LET e == hist[i] IN
     /\ e.op \in {"load", "save"} /\ e.a.p \in Never => e.r \in {Failed, Broken}
     /\ e.op = "odd" => e.r = Failed
     /\ e.op = "read" => e.r \in {Content(e.a.d), Broken}
(* only a text gives an object, and the one it says *)
NoObjectFromNothing ==
  [][Len(hist') > Len(hist) =>
       LET e == hist'[Len(hist')] IN
       e.op = "load" /\ e.r.k = "object" => Target(e.a.p) \in Nodes /\ world[Target(e.a.p)].k = "text" /\ world[Target(e.a.p)].c = e.r]_vars
(* a save that came to its end is what the file holds *)
SavedIsThere ==
  [][Len(hist') > Len(hist) => LET e == hist'[Len(hist')] IN e.op = "save" /\ e.r.k = "text" => world'[Target(e.a.p)] = e.r]_vars
(* a node in what is no directory cannot be *)
Tree == \A n \in Nodes : Parent(n) # "" /\ world[n] # Absent => world[Parent(n)].k = "dir"

(* ---- for the driver -------------------------------------------------------------- *)
ASSUME TLCSet(7, 0)
Export ==
  turn = "done" =>
     /\ TLCSet(7, TLCGet(7) + 1)
     /\ JsonSerialize(IOEnv.FOOT_OUT \o "/" \o ToString(TLCGet(7)) \o ".json", [hist |-> hist, world |-> world])
=============================================================================

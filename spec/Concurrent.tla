----------------------------- MODULE Concurrent -----------------------------
(***************************************************************************)
(* Several clients use the library at the same time, each with its own        *)
(* reader or writer (or a unified one, which keeps nothing and may be shared). *)
(*                                                                         *)
(* An operation is cut into slices: in the first one it takes its input into   *)
(* the memory it works in, in the last one it makes the result out of what it   *)
(* finds there.  The memory belongs to the operation (Shared = FALSE, the       *)
(* library as specified), so that the result depends on the input alone under   *)
(* every schedule.  With Shared = TRUE operations work in a common memory: TLC   *)
(* must then find a schedule in which they disturb each other, which shows that  *)
(* the schedules that are replayed can tell the two apart.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Plan     == JsonDeserialize(IOEnv.CON_PLAN)
Clients  == 1..Plan.clients
Slices   == Plan.slices
Switches == Plan.switches        \* bound on the changes of turn
Shared   == Plan.shared
Cast     == {Plan.casts[i] : i \in 1..Len(Plan.casts)}   \* which operations the clients perform

VARIABLES cast, pc, mem, result, sched
vars == <<cast, pc, mem, result, sched>>

None == [k |-> "none"]
(* the memory an operation of a client works in *)
Cell(c) == IF Shared THEN 1 ELSE c
(* what an operation gives: its operation and its input *)
Alone(op) == [k |-> "result", op |-> op]

Init == /\ cast \in Cast
        /\ pc = [c \in Clients |-> 0]
        /\ mem = [c \in Clients |-> None]
        /\ result = [c \in Clients |-> None]
        /\ sched = <<>>

Turns(s) == Cardinality({i \in 1..(Len(s) - 1) : s[i] # s[i + 1]})

Slice(c) ==
  /\ pc[c] < Slices
  /\ pc' = [pc EXCEPT ![c] = @ + 1]
  /\ mem' = IF pc[c] = 0 THEN [mem EXCEPT ![Cell(c)] = cast[c]] ELSE mem
  /\ result' = IF pc[c] = Slices - 1 THEN [result EXCEPT ![c] = Alone(mem[Cell(c)])] ELSE result
  /\ sched' = Append(sched, c)
  /\ Turns(sched') <= Switches
  /\ UNCHANGED cast
Next == \E c \in Clients : Slice(c)
Spec == Init /\ [][Next]_vars

Finished == \A c \in Clients : pc[c] = Slices

(* every operation gives what it gives alone *)
NoInterference == \A c \in Clients : result[c] # None => result[c] = Alone(cast[c])
(* a slice changes the state of its own client only *)
OwnState == [][\A c \in Clients : pc'[c] # pc[c] => \A d \in Clients \ {c} : result'[d] = result[d] /\ pc'[d] = pc[d]]_vars

ASSUME Slices >= 2
ASSUME TLCSet(7, 0)
Export ==
  Finished /\ Plan.export =>
    /\ TLCSet(7, TLCGet(7) + 1)
    /\ JsonSerialize(IOEnv.CON_OUT \o "/" \o ToString(TLCGet(7)) \o ".json", [cast |-> cast, sched |-> sched])
=============================================================================

------------------------------ MODULE Order ------------------------------
(***************************************************************************)
(* The order of the keywords within a block means nothing in KVN: the lines  *)
(* of every generated message are put in other orders, in which every block   *)
(* still has its own lines in one place.  The reader machine must find the     *)
(* same facts; the reordered documents are replayed.                          *)
(*                                                                         *)
(* Not free are the values of rotations and the user-defined parameters, whose  *)
(* order is their content, and the first keyword of a repeated block that no    *)
(* marker delimits, which tells where the block begins.                         *)
(***************************************************************************)
EXTENDS Generate

VARIABLE ord
ovars == <<job, msg, ord>>
Orders == 1..Plan.orders

(* n things in order number o *)
Perm(n, o) ==
  CASE o = 1 -> [i \in 1..n |-> n + 1 - i]                          \* backwards
    [] o = 2 -> [i \in 1..n |-> (i % n) + 1]                        \* the first one last
    [] o = 3 -> [i \in 1..n |-> ((i + n - 2) % n) + 1]              \* the last one first
    [] o = 4 -> [i \in 1..n |-> IF 2 * i <= n THEN 2 * i ELSE 2 * (i - n \div 2) - 1]     \* every second one first
    [] o = 5 -> [i \in 1..n |-> IF i % 2 = 1 /\ i < n THEN i + 1 ELSE IF i % 2 = 0 THEN i - 1 ELSE i]  \* neighbours exchanged
    [] o = 6 -> [i \in 1..n |-> IF i = 1 THEN n ELSE IF i = n THEN 1 ELSE i]     \* the ends exchanged
    [] OTHER -> [i \in 1..n |-> ((i + (n \div 2) - 1) % n) + 1]       \* the second half first
ASSUME \A n \in 1..40, o \in 1..7 : Range(Perm(n, o)) = 1..n

IsFree(l) == l.c = "kv" /\ l.b # ""
(* the runs of free lines of one block *)
Runs(lines) ==
  FoldLeft(LAMBDA acc, i :
             IF IsFree(lines[i]) /\ acc # <<>> /\ acc[Len(acc)][2] = i - 1 /\ IsFree(lines[i - 1]) /\ lines[i].b = lines[i - 1].b
             THEN [acc EXCEPT ![Len(acc)] = <<@[1], i>>]
             ELSE Append(acc, <<i, i>>),
           <<>>, [i \in 1..Len(lines) |-> i])
Reordered(lines, o) ==
  FoldLeft(LAMBDA acc, r : LET n == r[2] - r[1] + 1   p == Perm(n, o) IN acc \o [i \in 1..n |-> lines[r[1] + p[i] - 1]], <<>>, Runs(lines))

OInit == Init /\ ord = 0
Other == /\ msg # NotYet /\ msg.kvn /\ ord = 0
         /\ \E o \in Orders :
              /\ ord' = o
              /\ LET l == Reordered(msg.lines, o) IN msg' = [msg EXCEPT !.lines = l, !.rd = Read(msg.t, l)]
         /\ UNCHANGED job
ONext == (Compose /\ ord' = 0) \/ Other
OSpec == OInit /\ [][ONext]_ovars

(* another order of the same lines, each block in its place *)
SameLines == [][msg # NotYet => Len(msg'.lines) = Len(msg.lines)
                               /\ \A i \in 1..Len(msg.lines) : \E j \in 1..Len(msg.lines) : msg'.lines[j] = msg.lines[i]]_ovars
SameFacts == [][msg # NotYet => {f \in ReadFactSet(msg'.rd) : TRUE} = {f \in ReadFactSet(msg.rd) : TRUE} /\ AllRead(msg'.rd)]_ovars

ExportOrder == ord # 0 => ExportAs(Name(job) \o "-o" \o ToString(ord))
=============================================================================

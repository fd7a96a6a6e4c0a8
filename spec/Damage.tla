------------------------------ MODULE Damage ------------------------------
(***************************************************************************)
(* KVN documents that went wrong.  A document is a sequence of lines, a line  *)
(* a sequence of words.  Damages follow one upon the other: lines are lost,    *)
(* said twice, moved, exchanged, cut, joined, taken from other documents;       *)
(* words are lost, repeated, cut in half.  What a reader makes of the result is *)
(* its own business, except for this: it says nothing the lines do not say.     *)
(*                                                                         *)
(* The invariants are checked on the reader machine of KvnReader; the damaged   *)
(* documents are replayed into the code, where the harness looks for the same.  *)
(***************************************************************************)
EXTENDS KvnReader, Json, IOUtils

Given == JsonDeserialize(IOEnv.DMG_PLAN)      \* part, deep, depth, docs [t, lines: words, lower: words]
Docs  == Given.docs
Out   == IOEnv.DMG_OUT

(* ---- words and lines ----------------------------------------------------------- *)
Marks == {"META_START", "META_STOP", "DATA_START", "DATA_STOP", "COVARIANCE_START", "COVARIANCE_STOP"}
IsUnit(w) == StartsWith(w, "[")
Joined(ws) == IF ws = <<>> THEN "" ELSE FoldLeft(LAMBDA acc, w : acc \o " " \o w, Head(ws), Tail(ws))
EqAt(ws) == IF \E i \in 1..Len(ws) : ws[i] = "=" THEN CHOOSE i \in 1..Len(ws) : ws[i] = "=" /\ \A j \in 1..(i - 1) : ws[j] # "=" ELSE 0
From(ws, i) == SubSeq(ws, i, Len(ws))
NoUnit(ws) == IF ws # <<>> /\ IsUnit(ws[Len(ws)]) THEN SubSeq(ws, 1, Len(ws) - 1) ELSE ws

(* the keywords of observations *)
ObsKeys == LET st == RowBlock("tdm", "obs") IN {Prog("tdm")[i].x : i \in {j \in (st + 1)..Prog("tdm")[st].e : Prog("tdm")[j].k = "leaf" /\ Prog("tdm")[j].f # "epoch"}}
TheObsKeys == TLCEval(ObsKeys)

(* the line that words make *)
Lex(t, ws) ==
  LET e == EqAt(ws)
      Line(c, k, v, u, vs) == [c |-> c, k |-> k, v |-> v, u |-> u, vs |-> vs]
  IN CASE ws = <<>> -> Line("none", "", "", "", <<>>)
       [] ws[1] = "COMMENT" -> Line("com", "COMMENT", Joined(From(ws, 2)), "", <<>>)
       [] Len(ws) = 1 /\ ws[1] \in Marks -> Line("mark", ws[1], "", "", <<>>)
       [] e = 0 -> Line("row", "", "", "", ws)
       [] t = "tdm" /\ Joined(SubSeq(ws, 1, e - 1)) \in TheObsKeys ->
            IF Len(ws) = e + 2 THEN Line("obs", ws[1], "", "", From(ws, e + 1)) ELSE Line("none", "", "", "", <<>>)
       [] OTHER -> LET v == From(ws, e + 1) IN
            Line("kv", Joined(SubSeq(ws, 1, e - 1)), Joined(NoUnit(v)), IF NoUnit(v) = v THEN "" ELSE v[Len(v)], <<>>)

(* one machine for all of them: lines without meaning are passed over *)
Take(r, ln) ==
  CASE ln.c \in {"none", "ver"} -> r
    [] ln.c = "row" /\ r.t = "aem" /\ r.env.att = "" -> [r EXCEPT !.un = @ + 1]
    [] OTHER -> ReadLine(r, ln)
Understood(t, tx) == FoldLeft(LAMBDA r, ws : Take(r, Lex(t, ws)), ReaderInit(t), Tail(tx))

(* ---- what a line says ------------------------------------------------------------- *)
(* the value of its keyword, with or without what looks like a unit, or the words of a row *)
Values(t, ws) ==
  LET ln == Lex(t, ws) IN
  CASE ln.c \in {"kv", "com"} -> {<<ln.v, ln.u>>}
    [] ln.c \in {"row", "obs"} -> {<<w, "">> : w \in Range(ln.vs)}
    [] OTHER -> {}
Said(t, tx) == UNION {Values(t, ws) : ws \in Range(Tail(tx))}

(* ---- damages --------------------------------------------------------------------- *)
(* line at and the del - 1 after it give way to others; no tells damages of a kind at a place apart *)
Splice(at, del, ins, no) == [at |-> at, del |-> del, ins |-> ins, no |-> no]
Apply(tx, d) == SubSeq(tx, 1, d.at - 1) \o d.ins \o SubSeq(tx, d.at + d.del, Len(tx))
Half(w) == "~" \o w                           \* the first half of a word
Without(ws, j) == SubSeq(ws, 1, j - 1) \o SubSeq(ws, j + 1, Len(ws))
With(ws, j, w) == SubSeq(ws, 1, j - 1) \o <<w>> \o SubSeq(ws, j + 1, Len(ws))
Least(x, y) == IF x < y THEN x ELSE y

Junk == << <<"junk">>, <<"1", "2", "3", "4", "5", "6", "7">>, <<"=">>, <<"=", "5">>, <<"X", "=">>, <<"EPOCH">>, <<"EPOCH", "=">>, <<"COMMENT">>, <<"COMMENTS", "=", "odd">>,
           <<"[km]">>, <<"X", "=", "[km]">>, <<"X", "=", "=", "5">>, <<"META_START">>, <<"META_STOP">>, <<"DATA_START">>, <<"DATA_STOP">>, <<"COVARIANCE_START">>,
           <<"COVARIANCE_STOP">>, <<"USER_DEFINED_", "=", "x">>, <<"USER_DEFINED_ODD", "=", "stray">>, <<"2001-01-01T00:00:00", "1", "2", "3">>, <<"3.25">>,
           <<"2001-01-01T00:00:00", "11", "12", "13", "14", "15", "16">>, <<"OBJECT", "=", "OBJECT1">>, <<"OBJECT", "=", "OBJECT3">>, <<"1", "=", "2", "=", "3">>,
           <<"CCSDS_OPM_VERS", "=", "2.0">>, <<"<xml/>">>, <<"MAN_EPOCH_IGNITION", "=", "2001-01-01T00:00:00">>, <<"COV_REF_FRAME", "=", "RTN">>, <<"X_ANGLE", "=", "1.25", "[deg]">> >>

Kinds == {"lost", "twice", "last", "first", "exchanged", "end", "begin", "again", "gap", "foreign", "cut", "word lost", "word twice", "half", "joined", "split",
          "equals", "case", "junk", "value", "emptied", "key", "header"}

(* Hash spreads choices that are not enumerated *)
Hash(x, y) == ((x * 571 + y * 8191 + 4093) * 31 + x * y) % 32749
PickFrom(seq, n) == seq[(n % Len(seq)) + 1]

Damages(no, tx, k, i) ==
  LET n == Len(tx)   ws == tx[i]   w == Len(ws)   e == EqAt(ws) IN
  CASE k = "lost"  -> {Splice(i, 1, <<>>, 1)}
    [] k = "twice" -> {Splice(i, 0, <<ws>>, 1)}
    [] k = "last"  -> {Splice(i, n - i + 1, SubSeq(tx, i + 1, n) \o <<ws>>, 1), Splice(n + 1, 0, <<ws>>, 2)}
    [] k = "first" -> {Splice(2, i - 1, <<ws>> \o SubSeq(tx, 2, i - 1), 1)}
    [] k = "exchanged" -> {Splice(i, j - i + 1, <<tx[j]>> \o SubSeq(tx, i + 1, j - 1) \o <<ws>>, j) : j \in {x \in {i + 1, i + 2, n} : x > i /\ x <= n}}
    [] k = "end"   -> {Splice(i, n - i + 1, <<>>, 1)}
    [] k = "begin" -> {Splice(2, i - 1, <<>>, 1)}
    \* a run of lines repeated, or lost
    [] k = "again" -> {LET j == Least(n, i + l) IN Splice(j + 1, 0, SubSeq(tx, i, j), l) : l \in {1, 4, 12}}
    [] k = "gap"   -> {Splice(i, Least(n - i + 1, l), <<>>, l) : l \in {2, 5, 11}}
    \* a line of another document
    [] k = "foreign" -> {Splice(i, 0, <<PickFrom(Tail(Docs[o].lines), Hash(i, o + no))>>, o) : o \in {((no + x) % Len(Docs)) + 1 : x \in {0, 1 + (i % 5)}}}
    \* within the line
    [] k = "cut"   -> {Splice(i, 1, <<SubSeq(ws, 1, j)>>, j) : j \in 1..(w - 1)} \cup {Splice(i, n - i + 1, <<SubSeq(ws, 1, j)>>, w + j) : j \in 1..(w - 1)}
    [] k = "word lost"  -> {Splice(i, 1, <<Without(ws, j)>>, j) : j \in 1..w}
    [] k = "word twice" -> {Splice(i, 1, <<SubSeq(ws, 1, j) \o From(ws, j)>>, j) : j \in 1..w}
    [] k = "half"  -> {Splice(i, 1, <<With(ws, j, Half(ws[j]))>>, j) : j \in {x \in 1..w : ws[x] # "="}}
                      \cup {Splice(i, n - i + 1, <<SubSeq(ws, 1, j - 1) \o <<Half(ws[j])>>>>, w + j) : j \in {x \in 1..w : ws[x] # "="}}
    [] k = "joined" -> IF i < n THEN {Splice(i, 2, <<ws \o tx[i + 1]>>, 1)} ELSE {}
    [] k = "split" -> {Splice(i, 1, <<SubSeq(ws, 1, j), From(ws, j + 1)>>, j) : j \in 1..(w - 1)}
    [] k = "equals" -> IF e > 0 THEN {Splice(i, 1, <<Without(ws, e)>>, 1), Splice(i, 1, <<SubSeq(ws, 1, e) \o From(ws, e)>>, 2)}
                       ELSE IF w > 1 THEN {Splice(i, 1, <<<<ws[1], "=">> \o From(ws, 2)>>, 3)} ELSE {}
    [] k = "case"  -> IF e = 2 THEN {Splice(i, 1, <<<<PickFrom(Docs[no].lower, i)>> \o From(ws, 2)>>, 1)} ELSE {}
    [] k = "junk"  -> {Splice(i, 0, <<PickFrom(Junk, Hash(i, no + x))>>, x) : x \in {0, 7, 14}}
    \* the value of another line, the keyword of another line
    [] k = "value" -> {Splice(i, 1, <<SubSeq(ws, 1, e) \o From(tx[j], EqAt(tx[j]) + 1)>>, j) : j \in {x \in {i + 1, i + 3, n - (i % 3)} : x > 1 /\ x <= n /\ x # i /\ e > 0}}
    [] k = "key"   -> {Splice(i, 1, <<SubSeq(tx[j], 1, EqAt(tx[j])) \o From(ws, e + 1)>>, j) : j \in {x \in {i + 1, i + 2} : x <= n /\ e > 0}}
    [] k = "emptied" -> IF e > 0 THEN {Splice(i, 1, <<SubSeq(ws, 1, e)>>, 1)} \cup (IF IsUnit(ws[w]) THEN {Splice(i, 1, <<SubSeq(ws, 1, e) \o <<ws[w]>>>>, 2)} ELSE {})
                        ELSE {Splice(i, 1, <<<<>>>>, 3)}
    [] k = "header" -> {Splice(i, 0, <<tx[1]>>, 1)} \cup (IF i % 4 = 0 THEN {Splice(i, 0, SubSeq(tx, 1, Least(4, n)), 2), Splice(i, n - i + 1, tx, 3)} ELSE {})
    [] OTHER -> {}

(* ---- exploration ------------------------------------------------------------------ *)
VARIABLES docNo, trail, text, reader
vars == <<docNo, trail, text, reader>>

(* first damages everywhere (every n-th), further ones by the way *)
Taken(k, i, x) == IF trail = <<>> THEN (Hash(i, docNo + Docs[docNo].off[k]) % Given.part) = 0
                  ELSE (Hash(i + 13 * x + 7 * trail[Len(trail)].at, docNo + 3 * Len(text) + Docs[docNo].off[k]) % Given.deep) = 0

(* every n-th damaged document is read by the machine, too *)
Read1(k, d) == Hash(d.at + 3 * d.no, d.del + Docs[docNo].off[k]) % Given.read = 0
NotRead == [t |-> "", facts |-> <<>>]

Init == /\ docNo \in 1..Len(Docs) /\ trail = <<>>
        /\ text = Docs[docNo].lines /\ reader = Understood(Docs[docNo].t, Docs[docNo].lines)
Next == /\ Len(trail) < Given.depth
        /\ UNCHANGED docNo
        /\ \E k \in Kinds : \E i \in 2..Len(text) :
             /\ Taken(k, i, Len(trail))
             /\ \E d \in Damages(docNo, text, k, i) :
                  /\ text' = Apply(text, d)
                  /\ trail' = Append(trail, [kind |-> k, i |-> i, at |-> d.at, del |-> d.del, ins |-> d.ins, no |-> d.no])
                  /\ reader' = IF Read1(k, d) THEN Understood(Docs[docNo].t, text') ELSE NotRead
Spec == Init /\ [][Next]_vars

(* ---- what is true of any reading ------------------------------------------------- *)
T == Docs[docNo].t
Undamaged == trail = <<>> => AllRead(reader)
(* nothing is stated that the document does not say: value and unit *)
Provenance == LET said == Said(T, text) IN \A f \in ReadFactSet(reader) : f.v = "{}" \/ \E x \in said : x[1] = f.v /\ f.u \in {"", x[2]}
(* every line is accounted for at most once *)
Pieces(ws) == LET ln == Lex(T, ws) IN IF ln.c \in {"row", "obs"} THEN Len(ln.vs) ELSE IF ln.c \in {"kv", "com"} THEN 1 ELSE 0
NoMore == Len(reader.facts) <= FoldLeft(LAMBDA acc, ws : acc + Pieces(ws), 0, Tail(text))
(* what was understood stays understood when the document goes on *)
Growing == Len(trail) = 1 /\ trail[1].kind = "end" =>
             LET whole == Understood(T, Docs[docNo].lines).facts IN reader.facts = SubSeq(whole, 1, Len(reader.facts))

Digits(n) == ToString(n)
Name == FoldLeft(LAMBDA acc, x : acc \o "-" \o x.kind \o Digits(x.i) \o "." \o Digits(x.no), Digits(docNo), trail)
Export == trail # <<>> => JsonSerialize(Out \o "/" \o Name \o ".json", [m |-> docNo, d |-> trail])
=============================================================================

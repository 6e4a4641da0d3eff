----------------------------- MODULE MCHistory ------------------------------
(***************************************************************************)
(* Histories of two workers over documents that share their paths.  Every  *)
(* history of up to MaxLen steps is a state; each complete one is executed *)
(* both in order and with the workers at the same time.                    *)
(***************************************************************************)
EXTENDS Model, History
CONSTANTS MaxLen, Workers

Head_ == "webrpc = v1\nname = x\nversion = v1\n"
ApiText == "service Api\n  @a\n  - Get(id: uint64) => (r: Row) errors Gone\n  - Put(r: []Row)\nservice Web\n  @a:x @b\n  - Get(m: map<Kind,bigint>)\n"
Full == Head_ \o "enum Kind: uint32\n  - A\n  - B = 7\nstruct Row\n  - n?: bigint\n  - rows: []Row\n    + x = y\nstruct Lone\n  - a: string\nerror 1 Gone \"m\" HTTP 410\n" \o ApiText
WithImp == Head_ \o "import b.ridl\n  - Row\n  - Gone\n  - Kind\n" \o ApiText
B1 == Head_ \o "enum Kind: uint8\n  - A\nstruct Row\n  - n: string\nerror 2 Gone \"other\"\nstruct More\n  - k: Kind\n"
B2 == Head_ \o "enum Kind: uint8\n  - A\nstruct Row\n  - n string\n"
B3 == Head_ \o "import\n  - a.ridl\nstruct Row\n  - n: string\n"
DocFiles == << << File1("a.ridl", Full) >>,
               << File1("a.ridl", WithImp), File1("b.ridl", B1) >>,
               << File1("a.ridl", WithImp), File1("b.ridl", B2) >>,
               << File1("a.ridl", WithImp), File1("b.ridl", B3) >> >>
Docs == [ i \in 1..Len(DocFiles) |->
            [kind |-> "ridl", root |-> "a.ridl", files |-> [ k \in 1..Len(DocFiles[i]) |-> [path |-> DocFiles[i][k].p, chars |-> Chars(DocFiles[i][k].t)] ]] ]
NoOp == OpOn("", << >>)
Op_(k) == CASE k = 1 -> OpOn("services", << "Api" >>)
            [] k = 2 -> [op |-> "ignore", names |-> << >>, anns |-> << << "a", "" >> >>]
            [] k = 3 -> OpOn("shake", << "Api" >>)
            [] k = 4 -> OpOn("bigint", << >>)
            [] OTHER -> OpOn("export", << >>)

VARIABLES hist, held, mean        \* mean: what the documents mean
vars == << hist, held, mean >>
Init == /\ hist = << >> /\ held = Held0(Workers)
        /\ mean = [ i \in 1..Len(Docs) |-> Meaning(Docs[i]) ]
Step(w, d, o) == LET s == [w |-> w, doc |-> d, op |-> o] IN
  /\ hist' = Append(hist, s)
  /\ held' = [held EXCEPT ![w] = After(mean, @, s)]
  /\ UNCHANGED mean
Next == /\ Len(hist) < MaxLen
        /\ \E w \in 1..Workers :
             /\ w > 1 => \E i \in 1..Len(hist) : hist[i].w = w - 1     \* the first steps are of worker 1, then 2
             /\ \/ \E d \in 1..Len(DocFiles) : Step(w, d, NoOp)
                \/ \E k \in 1..5 : held[w].has /\ (k = 5 => held[w].S = held[w].S0) /\ Step(w, 0, Op_(k))
Spec == Init /\ [][Next]_vars

\* what a worker holds follows from its own steps
Mine(w) == SelectSeq(hist, LAMBDA s : s.w = w)
IndependentInv == \A w \in 1..Workers : held[w] = FoldLeft(LAMBDA h, s : After(mean, h, s), Nothing, Mine(w))
\* and every document keeps its meaning: the first is a schema, the third a syntax error in b, the fourth circular
MeaningInv == /\ mean[1].o.st = "ok" /\ mean[2].o.st = "ok" /\ mean[3].o.st = "syn" /\ mean[4].o.st = "err"
              /\ mean[1].S # mean[2].S
Emitted == Len(hist) = MaxLen => PrintT("CASE " \o ToJson([kind |-> "hist", docs |-> [ i \in 1..Len(DocFiles) |-> DocFiles[i] ], steps |-> hist]))
=============================================================================

------------------------------ MODULE History -------------------------------
(***************************************************************************)
(* One process, several workers.  A worker holds at most one schema: it    *)
(* parses one of the documents, or operates on what it holds.  What a step *)
(* leads to depends on the document, or on the schema held, alone: not on  *)
(* earlier steps, other workers or steps taken at the same time.           *)
(***************************************************************************)
EXTENDS Open

RawOf(e) == CASE e.kind = "ridl" -> ParseFiles(e.files, e.root).S
              [] e.kind = "file" -> OpenRaw(e.files, e.cwd, e.root)
              [] OTHER -> e.raw
Outcome(e) == CASE e.kind = "ridl" -> RidlOutcome(e.files, e.root)
                [] e.kind = "file" -> OpenOutcome(e.files, e.cwd, e.root)
                [] OTHER -> JsonOutcome(e.raw)

\* what a document means: computed once
Meaning(e) == LET o == Outcome(e) IN [o |-> o, S |-> IF o.st = "ok" THEN RawOf(e) ELSE << >>]

Nothing == [has |-> FALSE, S0 |-> << >>, S |-> << >>]
Holding(S) == [has |-> TRUE, S0 |-> S, S |-> S]
\* what a worker holds after a step; M: the meanings of the documents
After(M, h, s) ==
  IF s.doc > 0 THEN IF M[s.doc].o.st = "ok" THEN Holding(M[s.doc].S) ELSE Nothing
  ELSE IF h.has THEN [h EXCEPT !.S = OpApply(h.S0, h.S, s.op)] ELSE h
\* how an observation of the step differs from what it must show
StepDiff(M, h, s, b) ==
  IF s.doc > 0 THEN OutcomeDiff(M[s.doc].o, b)
  ELSE IF ~h.has THEN IF b.st = "none" THEN {} ELSE {"op:nothing"}
  ELSE IF b.st # "op" THEN {"op:missing"}
  ELSE OpDiff(h.S0, OpApply(h.S0, h.S, s.op), s.op, b.op)

\* held: what each worker holds
Held0(n) == [ w \in 1..n |-> Nothing ]
HistoryDiff(docs, steps, obs) ==
  LET M == [ i \in 1..Len(docs) |-> Meaning(docs[i]) ]
      Step(a, i) == LET s == steps[i] IN
        [held |-> [a.held EXCEPT ![s.w] = After(M, @, s)], d |-> a.d \cup StepDiff(M, a.held[s.w], s, obs[i])]
  IN FoldLeft(Step, [held |-> Held0(8), d |-> {}], [ i \in 1..Len(steps) |-> i ]).d
     \cup (IF \A i \in 1..Len(obs) : obs[i].same THEN {} ELSE {"differs at the same time"})
     \cup (IF \A i, j \in 1..Len(steps) : (steps[i].doc > 0 /\ steps[i].doc = steps[j].doc) => obs[i].text = obs[j].text
           THEN {} ELSE {"text"})
=============================================================================

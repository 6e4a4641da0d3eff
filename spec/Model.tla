-------------------------------- MODULE Model -------------------------------
(***************************************************************************)
(* What the bounded models share: running the specification on a document  *)
(* held as one text, and emitting a state as a case to be executed by the  *)
(* implementation.                                                         *)
(***************************************************************************)
EXTENDS Ops

\* a case: files to parse (path and text), then operations on the result
File1(p, t) == [p |-> p, t |-> t]
CaseOf(files, root, ops) == [kind |-> "ridl", files |-> files, root |-> root, ops |-> ops]
EmitCase(c) == PrintT("CASE " \o ToJson(c))
Run(files, root) == ParseFiles([ i \in 1..Len(files) |-> [path |-> files[i].p, chars |-> Chars(files[i].t)] ], root)
RunDoc(t) == Run(<< File1("a.ridl", t) >>, "a.ridl")

Good(r) == r.st = "ok"
OpExport == [op |-> "export", names |-> << >>, anns |-> << >>]
OpOn(o, names) == [op |-> o, names |-> names, anns |-> << >>]

\* what the tokens say, put together again, is the text
Lossless(t) == Concat([ i \in 1..Len(LexTokens(Chars(t))) |-> LexTokens(Chars(t))[i].val ]) = t

\* a syntax error is reported at a token of the document, or as 0:0
ErrorIsAToken(t, r) ==
  r.st = "syn" => LET T == LexTokens(Chars(t)) IN
     \/ r.pos = << 0, 0, "" >>
     \/ \E i \in 1..Len(T) : r.pos = << T[i].line, T[i].col, T[i].val >>

\* the schema without its documentation
NoCom(v) ==
  [v EXCEPT !.types = Map(LAMBDA t : [t EXCEPT !.com = << >>, !.fields = Map(LAMBDA f : [f EXCEPT !.com = << >>], t.fields)], @),
            !.services = Map(LAMBDA s : [s EXCEPT !.com = << >>, !.methods = Map(LAMBDA m : [m EXCEPT !.com = << >>], s.methods)], @)]
SameBut(com, r1, r2) == /\ r1.st = r2.st
                        /\ Good(r1) => IF com THEN NoCom(View(r1.S)) = NoCom(View(r2.S)) ELSE View(r1.S) = View(r2.S)
=============================================================================

------------------------------ MODULE MCImports -----------------------------
(***************************************************************************)
(* Import graphs.  A state gives every file its ordered list of imports;   *)
(* a step adds one import, with or without a list of members.  The oracle  *)
(* of the model is plain reachability; Load is the depth-first walk.       *)
(***************************************************************************)
EXTENDS Model
CONSTANTS N, MaxEdges, Members, Pad    \* every file imports Pad empty files first

Paths == << "r.ridl", "a/x.ridl", "a/b/y.ridl", "z.ridl" >>
\* the path of file g as written in file f
Rel == << << "r.ridl", "a/x.ridl", "a/b/y.ridl", "./z.ridl" >>,
          << "../r.ridl", "x.ridl", "b/y.ridl", "../z.ridl" >>,
          << "../../r.ridl", "../x.ridl", "y.ridl", "../../z.ridl" >>,
          << "r.ridl", "a/../a/x.ridl", "a/b//y.ridl", "z.ridl" >> >>
Name(k, i) == k \o Num2Str(i)

VARIABLES imp    \* imp[f]: sequence of << target, members >>
vars == << imp >>
Total == FoldLeft(LAMBDA a, f : a + Len(imp[f]), 0, [ f \in 1..N |-> f ])
\* which members may be asked for: everything, or only the type of one file
MemberLists == IF Members THEN {0} \cup 1..N ELSE {0}
Init == imp = [ f \in 1..N |-> << >> ]
Next == /\ Total < MaxEdges
        /\ \E f, g \in 1..N, m \in MemberLists :
             imp' = [imp EXCEPT ![f] = Append(@, << g, m >>)]
Spec == Init /\ [][Next]_vars

ImportText(f, e) ==
  "import " \o Rel[f][e[1]] \o "\n" \o (IF e[2] = 0 THEN "" ELSE "  - " \o Name("T", e[2]) \o "\n")
Up(f) == << "", "../", "../../", "./" >>[f]
Pads(f) == IF Pad = 0 THEN "" ELSE "import\n" \o Concat([ i \in 1..Pad |-> "  - " \o Up(f) \o Name("p", i) \o ".ridl\n" ])
PadFiles == [ i \in 1..Pad |-> File1(Name("p", i) \o ".ridl", "webrpc = v1\n") ]
FileText(f) ==
  "webrpc = v1\nname = f\nversion = v1\n" \o Pads(f) \o Concat([ i \in 1..Len(imp[f]) |-> ImportText(f, imp[f][i]) ])
  \o "struct " \o Name("T", f) \o "\n  - x: int\nerror " \o Num2Str(f) \o " " \o Name("E", f) \o " \"m\"\nservice " \o Name("S", f) \o "\n  - M() => (r: " \o Name("T", f) \o ")\n"
Files == [ f \in 1..N |-> File1(Paths[f], FileText(f)) ] \o PadFiles

Succ(f) == { imp[f][i][1] : i \in 1..Len(imp[f]) }
RECURSIVE Reach(_)
Reach(S) == LET more == S \cup UNION { Succ(f) : f \in S } IN IF more = S THEN S ELSE Reach(more)
Cyclic(f) == f \in Reach(Succ(f))
HasCycle == \E f \in Reach({1}) : Cyclic(f)
NoFilter == \A f \in 1..N : \A i \in 1..Len(imp[f]) : imp[f][i][2] = 0

\* files in the order in which their declarations are met, each once
RECURSIVE PostOrder(_, _), PostAll(_, _, _)
PostOrder(f, seen) == LET s == PostAll(f, 1, seen) IN IF \E i \in 1..Len(s) : s[i] = f THEN s ELSE Append(s, f)
PostAll(f, i, seen) == IF i > Len(imp[f]) THEN seen ELSE PostAll(f, i + 1, PostOrder(imp[f][i][1], seen))

R == Run(Files, Paths[1])
CycleInv == (R.st = "cyc") <=> HasCycle
\* without member lists: every reachable file's declarations, once, in post-order
MergeInv == (~HasCycle /\ NoFilter) =>
  LET o == PostOrder(1, << >>) IN
  /\ Good(R)
  /\ [ i \in 1..Len(R.S.types) |-> R.S.types[i].name ] = [ i \in 1..Len(o) |-> Name("T", o[i]) ]
  /\ [ i \in 1..Len(R.S.errors) |-> R.S.errors[i].name ] = [ i \in 1..Len(o) |-> Name("E", o[i]) ]
  /\ [ i \in 1..Len(R.S.services) |-> R.S.services[i].name ] = [ i \in 1..Len(o) |-> Name("S", o[i]) ]
  /\ \A i \in 1..Len(o) : \E j \in 1..Len(R.S.types) : R.S.types[j].name = Name("T", o[i]) /\ StartsWith(R.S.types[j].id, Paths[o[i]])
\* the chain of an error starts at the root and follows imports
ChainInv == ~Good(R) => /\ R.chain[Len(R.chain)] = Paths[1]
                        /\ \A i \in 1..(Len(R.chain) - 1) : \E f, g \in 1..N :
                              Paths[f] = R.chain[i + 1] /\ Paths[g] = R.chain[i] /\ g \in Succ(f)
\* with member lists: nothing that was not asked for, own declarations always
FilterInv == Good(R) =>
  /\ \E j \in 1..Len(R.S.types) : R.S.types[j].name = Name("T", 1)
  /\ \A j \in 1..Len(R.S.types) : \E f \in Reach({1}) : R.S.types[j].name = Name("T", f)
  /\ \A i, j \in 1..Len(R.S.types) : i # j => R.S.types[i].name # R.S.types[j].name
Emitted == EmitCase(CaseOf(Files, Paths[1], << >>))
=============================================================================

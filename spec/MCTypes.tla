------------------------------- MODULE MCTypes ------------------------------
(***************************************************************************)
(* Type graphs.  Structs T1..TN get members one by one; L is an alias, En  *)
(* an enum.  Service Sv uses what `use` says.  Checked: what tree shaking  *)
(* keeps and what the bigint analysis says, against plain reachability.    *)
(***************************************************************************)
EXTENDS Model
CONSTANTS N, MaxMembers, Big

T(i) == "T" \o Num2Str(i)
\* member types; `to` is the struct it leads to (0: none)
MemberTypes ==
  { << T(i), i >> : i \in 1..N } \cup { << "[]" \o T(i), i >> : i \in 1..N } \cup
  (IF Big THEN { << "bigint", 0 >>, << "[]bigint", 0 >>, << "map<string,bigint>", 0 >>, << "[][]" \o T(1), 1 >>, << "BIGINT", 0 >> } \ { << "BIGINT", 0 >> }
   ELSE { << "map<En,[]" \o T(i) \o ">", i >> : i \in 1..N } \cup { << "L", 0 >>, << "map<En,int>", 0 >> })
AliasTypes == IF Big THEN { "int" } ELSE { "int", "[]T1", "En", "M" }

VARIABLES mem, al, use
vars == << mem, al, use >>
Init == /\ mem = [ i \in 1..N |-> << >> ] /\ al \in AliasTypes
        /\ use \in (IF Big THEN { T(1), "[]" \o T(N), "bigint" } ELSE { T(1), "map<string," \o T(N) \o ">", "L", "int" })
Total == FoldLeft(LAMBDA a, i : a + Len(mem[i]), 0, [ i \in 1..N |-> i ])
Next == /\ Total < MaxMembers
        /\ \E i \in 1..N : \E m \in MemberTypes : mem' = [mem EXCEPT ![i] = Append(@, m)]
        /\ UNCHANGED << al, use >>
Spec == Init /\ [][Next]_vars

StructText(i) == "struct " \o T(i) \o "\n" \o
  Concat([ k \in 1..Len(mem[i]) |-> "  - f" \o Num2Str(k) \o ": " \o mem[i][k][1] \o "\n" ])
Rest == "enum En: string\n  - a\ntype M: []int\ntype L: " \o al \o "\n" \o
  "service Sv\n  - Get(a: " \o use \o ") => (r: string, b: []bigint)\n  - Put()\nservice Other\n  - Use(x: " \o T(N) \o ", y: En) => (b: bigint)\n  - Suc(T1) => (T1)\n"
Top == "webrpc = v1\nname = x\nversion = v1\n"
Text_ == Top \o Concat([ i \in 1..N |-> StructText(i) ]) \o Rest
Turned == Top \o Concat([ i \in 1..N |-> StructText(N + 1 - i) ]) \o Rest

R == RunDoc(Text_)
S == R.S
ValidInv == Good(R)

\* ---- reachability by member types, independent of Denote ----
Leads(i) == { mem[i][k][2] : k \in 1..Len(mem[i]) } \ {0}
ViaAlias(i) == IF \E k \in 1..Len(mem[i]) : mem[i][k][1] = "L" THEN {0} ELSE {}
Step(X) == X \cup UNION { Leads(i) \cup ViaAlias(i) : i \in X \ {0} } \cup (IF 0 \in X /\ al = "[]T1" THEN {1} ELSE {})
RECURSIVE Fix(_)
Fix(X) == IF Step(X) = X THEN X ELSE Fix(Step(X))
Start == CASE use = "L" -> {0} [] HasSub(use, T(1)) -> {1} [] HasSub(use, T(N)) -> {N} [] OTHER -> {}
KeptStructs == Fix(Start) \ {0}
Kept(U) == { U.types[i].name : i \in 1..Len(U.types) }
ShakeInv == Good(R) =>
  LET U == Shake(S.types, S, << "Sv" >>) IN
  /\ \A i \in 1..N : T(i) \in Kept(U) <=> i \in KeptStructs
  /\ ("L" \in Kept(U)) <=> 0 \in Fix(Start)
  /\ U.services = S.services
  /\ Shake(S.types, U, << "Sv" >>) = U                                \* idempotent
  /\ WellFormed([U EXCEPT !.services = SelectSeq(@, LAMBDA s : s.name = "Sv")])     \* nothing dangles
  /\ Kept(Shake(S.types, S, << >>)) = {}
  /\ Kept(Shake(S.types, S, << "Sv", "Other" >>)) = Kept(U) \cup Kept(Shake(S.types, S, << "Other" >>))

\* ---- bigint: reachability through struct and list-of-struct members ----
Direct(i) == \E k \in 1..Len(mem[i]) : mem[i][k][1] \in {"bigint", "[]bigint"}
BLeads(i) == { mem[i][k][2] : k \in { k \in 1..Len(mem[i]) : mem[i][k][2] > 0 /\ ~HasSub(mem[i][k][1], "map<") /\ ~StartsWith(mem[i][k][1], "[][]") } }
RECURSIVE BReach(_)
BReach(X) == LET Y == X \cup UNION { BLeads(i) : i \in X } IN IF Y = X THEN X ELSE BReach(Y)
BigInv == Good(R) =>
  LET bm == BigMap(S.types, S, FALSE)
      Q == RunDoc(Turned) IN
  /\ \A i \in 1..N : (\E p \in bm : p[1] = T(i)) <=> (\E j \in BReach({i}) : Direct(j))
  /\ \A p \in bm : p[2] # << >>
  /\ UsesBig(S.types, S)
  /\ BigMap(Q.S.types, Q.S, FALSE) = bm                              \* order of declaration does not matter
  /\ ~\E p \in bm : p[1] \in {"SucRequest", "SucResponse", "PutRequest", "PutResponse"}
  /\ \E p \in bm : p[1] = "GetResponse" /\ p[2] = << << "b[]" >> >>
Ops_ == IF Big THEN << OpOn("bigint", << >>), OpOn("shake", << "Sv" >>), OpOn("bigint", << >>) >>
        ELSE << OpOn("shake", << "Sv", "Other" >>), OpOn("shake", << "Sv" >>), OpOn("services", << "Sv" >>) >>
Emitted == EmitCase(CaseOf(<< File1("a.ridl", Text_) >>, "a.ridl", Ops_))
=============================================================================

------------------------------ MODULE MCFilter ------------------------------
(***************************************************************************)
(* Sequences of service and annotation filters on every schema whose three *)
(* methods carry annotations from a small set.  The laws: a filter is a    *)
(* projection, filters commute, match and ignore divide the methods, what  *)
(* is kept is untouched and in order, nothing but methods and services is  *)
(* affected.                                                               *)
(***************************************************************************)
EXTENDS Model
CONSTANTS MaxOps, Used, Spread

AnnSets == << "", "  @a\n", "  @a:x\n", "  @b:x @a:y\n", "  @a:\"x y\"\n  @b\n", "  @A:x\n", "  @b:\" \"\n" >>
Anns == << << << "a", "" >> >>, << << "a", "x" >> >>, << << "a", "  " >> >>, << << "a", "X" >> >>, << << "b", "x" >>, << "a", "y" >> >>,
           << << "A", "" >> >>, << << "b", " " >>, << "c", "" >> >>, << << "a", "x y" >> >>, << << "", "" >> >>, << << "a", "y" >>, << "c", "x" >> >>, << >> >>
Names == << << "Api" >>, << "Web", "Api" >>, << "api" >>, << "Nope" >>, << >>, << "Web", "Nope" >> >>
MOp(k, i) == [op |-> k, names |-> << >>, anns |-> Anns[i]]
AllOps == [ i \in 1..Len(Anns) |-> MOp("match", i) ] \o [ i \in 1..Len(Anns) |-> MOp("ignore", i) ] \o [ i \in 1..Len(Names) |-> OpOn("services", Names[i]) ]

VARIABLES an, ops, res      \* res: the parsed document
vars == << an, ops, res >>
TextOf(a) == "webrpc = v1\nname = x\nversion = v1\nstruct R\n  - a: int\nerror 1 Bad \"m\"\nservice Api\n" \o
         AnnSets[a[1]] \o "  # doc\n  - Get(a: int) => (r: R) errors Bad\n" \o AnnSets[a[2]] \o "  - stream Put()\n" \o
         "service Web\n" \o AnnSets[a[3]] \o "  - Get(R) => (R)\n"
Init == /\ an \in [ 1..3 -> Used ] /\ ops = << >>
        /\ Spread => an[1] < an[2] /\ an[3] # an[1]
        /\ res = RunDoc(TextOf(an))
Next == /\ Len(ops) < MaxOps
        /\ \E k \in 1..Len(AllOps) : ops' = Append(ops, AllOps[k])
        /\ UNCHANGED << an, res >>
Spec == Init /\ [][Next]_vars
S == res.S
After == FoldLeft(LAMBDA s, o : OpApply(S, s, o), S, ops)
AllMethods(X) == FoldLeft(LAMBDA a, s : a \o s.methods, << >>, X.services)
IsSub(a, b) == \* a is b with some left out, in order
  LET RECURSIVE go(_, _)
      go(i, j) == IF i > Len(a) THEN TRUE ELSE IF j > Len(b) THEN FALSE ELSE IF a[i] = b[j] THEN go(i + 1, j + 1) ELSE go(i, j + 1)
  IN go(1, 1)
ValidInv == Good(res)
KeepInv == LET X == After IN
           /\ [X EXCEPT !.services = S.services] = S
           /\ IsSub(AllMethods(X), AllMethods(S))
           /\ IsSub([ i \in 1..Len(X.services) |-> X.services[i].name ], [ i \in 1..Len(S.services) |-> S.services[i].name ])
IdemInv == Len(ops) < MaxOps =>
             LET A == After IN
             \A k \in 1..Len(AllOps) : LET x == OpApply(S, A, AllOps[k]) IN OpApply(S, x, AllOps[k]) = x
CommuteInv == ops = << >> => \A k \in 1..Len(AllOps) : \A j \in 1..k :
                OpApply(S, OpApply(S, S, AllOps[k]), AllOps[j]) = OpApply(S, OpApply(S, S, AllOps[j]), AllOps[k])
DivideInv == Len(ops) < MaxOps => LET A == After IN \A k \in 1..Len(Anns) :
             LET x == AllMethods(OpApply(S, A, MOp("match", k))) y == AllMethods(OpApply(S, A, MOp("ignore", k))) IN
             /\ Len(x) + Len(y) = Len(AllMethods(A))
             /\ \A i \in 1..Len(x) : Carries(x[i], Anns[k])
             /\ \A i \in 1..Len(y) : ~Carries(y[i], Anns[k])
Emitted == Len(ops) = MaxOps => EmitCase(CaseOf(<< File1("a.ridl", TextOf(an)) >>, "a.ridl", ops))
=============================================================================

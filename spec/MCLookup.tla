------------------------------ MODULE MCLookup ------------------------------
(***************************************************************************)
(* Schemas built declaration by declaration from names that are prefixes   *)
(* of each other or differ in case, and asked for every short name and     *)
(* type, as they are and after their types were shaken or their services   *)
(* selected.                                                               *)
(***************************************************************************)
EXTENDS Model
CONSTANTS MaxDecl

TypeNames == {"A", "Ab", "ABc"}
Kinds_ == {"struct", "enum", "alias"}
Optionals == { << >>, << TRUE >>, << FALSE >>, << TRUE, FALSE >>, << FALSE, TRUE, FALSE >> }
ServiceNames == {"a", "aB", "S"}

VARIABLES ts, svs
vars == << ts, svs >>
Init == ts = << >> /\ svs = << >>
Free(seq, n) == \A i \in 1..Len(seq) : ToLower(seq[i].name) # ToLower(n)
Next == /\ Len(ts) + Len(svs) < MaxDecl
        /\ \/ \E n \in TypeNames : \E k \in Kinds_ : \E o \in (IF k = "struct" THEN Optionals ELSE { << >> }) :
                Free(ts, n) /\ ts' = Append(ts, [name |-> n, kind |-> k, opts |-> o]) /\ UNCHANGED svs
           \/ \E n \in ServiceNames : \E u \in {"int", "A", "[]Ab"} :
                Free(svs, n) /\ (\E i \in 1..Len(ts) : ToLower(ts[i].name) # "a" \/ u # "int") /\ svs' = Append(svs, [name |-> n, use |-> u]) /\ UNCHANGED ts
Spec == Init /\ [][Next]_vars

FieldText(t, k) == "  - f" \o Num2Str(k) \o (IF t.opts[k] THEN "?" ELSE "") \o ": int\n"
TypeText(t) == CASE t.kind = "struct" -> "struct " \o t.name \o "\n" \o Concat([ k \in 1..Len(t.opts) |-> FieldText(t, k) ])
                 [] t.kind = "enum" -> "enum " \o t.name \o ": string\n  - a\n  - b\n"
                 [] OTHER -> "type " \o t.name \o ": []int\n"
Text_ == "webrpc = v1\nname = x\nversion = v1\n" \o Concat([ i \in 1..Len(ts) |-> TypeText(ts[i]) ])
         \o Concat([ i \in 1..Len(svs) |-> "service " \o svs[i].name \o "\n  - Get(x: " \o svs[i].use \o ")\n" ])
R == RunDoc(Text_)
S == R.S
GoodInv == Good(R) <=> \A i \in 1..Len(svs) : svs[i].use = "int" \/ \E j \in 1..Len(ts) : svs[i].use \in {ts[j].name, "[]" \o ts[j].name}

Asked_ == << "A", "a", "Ab", "aB", "AB", "abc", "ABC", "b", "", "S", "s", "É", "é", "Ac" >>
Types_ == << "A", "a", "[]Ab", "map<Ab,A>", "map<A,Ab>", "map<string,[]A>", "[]", "ABc", "map<É,int>", "int" >>

(* a name is found in any case, exactly when it is declared; never two; asking twice gives the same *)
FoundInv == Good(R) =>
  \A k \in 1..Len(Asked_) :
    LET q == Asked_[k] x == LookedUp(S.types, S, q) IN
    /\ (x.type > 0) <=> \E i \in 1..Len(ts) : ToLower(ts[i].name) = ToLower(q)
    /\ (x.service > 0) <=> \E i \in 1..Len(svs) : ToLower(svs[i].name) = ToLower(q)
    /\ x.type > 0 => ToLower(S.types[x.type].name) = ToLower(q)
    /\ x.type = LookedUp(S.types, S, ToUpperS(q)).type /\ x.service = LookedUp(S.types, S, ToLower(q)).service
    /\ ToLower(x.up) = ToLower(q) /\ ToLower(x.down) = ToLower(q)
RequiredInv == Good(R) =>
  \A i \in 1..Len(S.types) : LET t == ts[CHOOSE j \in 1..Len(ts) : ts[j].name = S.types[i].name] IN
    Required(S.types[i]) = (IF t.kind = "enum" THEN << "a", "b" >>
                            ELSE LET ks == SelectSeq([ k \in 1..Len(t.opts) |-> k ], LAMBDA k : ~t.opts[k]) IN [ i2 \in 1..Len(ks) |-> "f" \o Num2Str(ks[i2]) ])
(* a type is a good expression exactly as it is declared, whatever case finds it; what shaking drops is found no more *)
TypesInv == Good(R) =>
  LET U == Shake(S.types, S, << "a", "S" >>) IN
  /\ \A i \in 1..Len(ts) : TypeAnswer(S.types, S, ts[i].name).ok /\ TypeAnswer(S.types, S, ts[i].name).core = ""
  /\ \A k \in 1..Len(Asked_) : TypeAnswer(S.types, S, Asked_[k]).ok => LookedUp(S.types, S, Asked_[k]).type > 0
  /\ \A k \in 1..Len(Asked_) : LET a == LookedUp(S.types, U, Asked_[k]).type IN a \in {0, LookedUp(S.types, S, Asked_[k]).type}
Lookup == [op |-> "lookup", names |-> Asked_, anns |-> << >>, exprs |-> Types_]
Emitted == EmitCase(CaseOf(<< File1("a.ridl", Text_) >>, "a.ridl", << Lookup, OpOn("shake", << "a", "S" >>), Lookup, OpOn("services", << "S" >>), Lookup >>))
=============================================================================

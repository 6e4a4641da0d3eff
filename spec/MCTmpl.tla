------------------------------- MODULE MCTmpl -------------------------------
(***************************************************************************)
(* Every program of up to MaxLen statements after a prelude.               *)
(* "share": dictionaries and arrays, and who shares what with whom.        *)
(* "text": every text function on every short text over Alphabet.          *)
(* "version": every pair of versions.                                      *)
(* "types": every type helper on every text of up to TextLen + 1 pieces.   *)
(***************************************************************************)
EXTENDS Tmpl
CONSTANTS MaxLen, TextLen, Modes

VARIABLES mode, prog, txt, st
vars == << mode, prog, txt, st >>

A(k, s, n) == [k |-> k, s |-> s, n |-> n]
T(s) == A("s", s, 0)
V(n) == A("v", "", n)
St(fn, args) == [fn |-> fn, args |-> args]
Opts == << << "a", "x" >>, << "client", "true" >> >>

Prelude == << St("dict", << T("a"), T("1") >>), St("array", << T("b"), T("a") >>), St("append", << V(2), T("C") >>),
              St("dict", << T("d"), V(1), T("l"), V(2) >>), St("split", << T(","), T("b,a") >>) >>
NVars == Len(prog)
Dicts == { n \in 1..Len(st.vars) : st.vars[n].t = "d" }
Arrays == { n \in 1..Len(st.vars) : st.vars[n].t = "la" }
Lists == { n \in 1..Len(st.vars) : IsList(st.vars[n]) }
\* the text of a dictionary is in no particular order
Flats == { n \in Lists : \A i \in 1..Len(st.vars[n].l) : st.vars[n].l[i].t # "d" }
DArgs == { V(n) : n \in Dicts } \cup { A("o", "", 0) }
\* what is put into dictionaries: nothing that holds a dictionary, so that none holds itself
Plain == { T("2"), A("f", "zz", 0), V(2), V(5) }
Steps ==
  { St("set", << d, T("a"), v >>) : d \in DArgs, v \in Plain }
  \cup { St("get", << d, T(k) >>) : d \in DArgs, k \in {"a", "d"} }
  \cup { St("exists", << d, T("d") >>) : d \in DArgs }
  \cup { St("append", << V(n), T(x) >>) : n \in Arrays, x \in {"x", "B"} }
  \cup { St("append", << V(n), V(1) >>) : n \in Arrays }
  \cup { St("append", << V(n) >>) : n \in Arrays }
  \cup { St(f, << V(n) >>) : n \in Lists, f \in {"first", "last", "lastIndex"} }
  \cup { St("sort", << V(n) >>) : n \in Flats }
  \cup { St("join", << V(n), T("-") >>) : n \in Flats }
  \cup { St("in", << V(n), V(m), T("a") >>) : n \in 1..Len(st.vars), m \in {1, 2} }
  \cup { St("default", << V(n), T("other") >>) : n \in 1..Len(st.vars) }
  \cup { St("coalesce", << A("f", "zz", 0), T(""), V(n) >>) : n \in 1..Len(st.vars) }
  \cup { St("ternary", << A("f", "client", 0), V(n), V(1) >>) : n \in 1..Len(st.vars) }
  \cup { St("isString", << V(n) >>) : n \in 1..Len(st.vars) }
  \cup { St("array", << V(n), V(n) >>) : n \in 1..Len(st.vars) }
  \cup { St("dict", << T("a"), V(n), T("a"), T("z") >>) : n \in {1, 2} }

Alphabet == << "a", "B", "c", "D", "1", "_", " ", Special.eacute, Special.Eacute >>
Letters_ == { Alphabet[i] : i \in 1..7 }
TextProg(t) ==
  << St("toLower", << T(t) >>), St("toUpper", << T(t) >>), St("firstLetterToLower", << T(t) >>), St("firstLetterToUpper", << T(t) >>) >>
  \o (IF AllChars(t, Letters_) THEN << St("firstWordToLower", << T(t) >>) >> ELSE << >>)
  \o (IF CaseOk(t) THEN << St("camelCase", << T(t) >>), St("pascalCase", << T(t) >>), St("snakeCase", << T(t) >>), St("kebabCase", << T(t) >>) >> ELSE << >>)
  \o << St("hasPrefix", << T(t), T("a") >>), St("trimPrefix", << T(t), T("a") >>), St("hasSuffix", << T(t), T("B") >>), St("trimSuffix", << T(t), T("B") >>),
        St("split", << T("a"), T(t) >>), St("replaceAll", << T(t), T("_"), T("-+") >>), St("split", << T(""), T(t) >>) >>

Versions == << "v0", "v1", "1", "v0.2", "v0.10", "v1.0", "v1.9.9", "1.10", "v10.1", "v2.0.1-rc", "v", "", "x1", "v1.x", "v1.2-rc", "v1.", "vv1", "v01.02", "v1.150", "v0.2001" >>

Pieces == << "map<", "[]", "int", "U", ">", "," >>
TypeFnSeq == << "isCoreType", "isBasicType", "isListType", "isMapType", "isStructType", "isEnumType", "isAliasType" >>
\* whether the mere brackets are a core type means nothing
TypeProg(t) == [ i \in 1..(IF t = "[]" THEN 5 ELSE 7) |-> St(TypeFnSeq[8 - i], << T(t) >>) ]
               \o (IF MapParts(t) # << >> THEN << St("mapKeyType", << T(t) >>), St("mapValueType", << T(t) >>) >> ELSE << >>)
               \o (IF StartsWith(t, "[]") THEN << St("listElemType", << T(t) >>) >> ELSE << >>)
Modes_ == {"share", "text", "version", "types"}
Init == /\ mode \in Modes /\ txt = ""
        /\ prog = (IF mode = "share" THEN Prelude ELSE << >>)
        /\ st = Execute(IF mode = "share" THEN Prelude ELSE << >>, Opts)
ShareNext == /\ mode = "share" /\ st.ok /\ Len(prog) < Len(Prelude) + MaxLen
             /\ \E s \in Steps : prog' = Append(prog, s) /\ st' = Do(st, s)
             /\ UNCHANGED << mode, txt >>
TextNext == /\ mode = "text" /\ Len(txt) < TextLen
            /\ \E i \in 1..Len(Alphabet) : txt' = txt \o Alphabet[i]
            /\ prog' = TextProg(txt') /\ st' = Execute(TextProg(txt'), Opts)
            /\ UNCHANGED mode
VersionNext == /\ mode = "version" /\ prog = << >>
               /\ \E i, j \in 1..Len(Versions) : prog' = << St("minVersion", << T(Versions[i]), T(Versions[j]) >>) >>
               /\ st' = Do(st, prog'[1])
               /\ UNCHANGED << mode, txt >>
\* txt grows; a program asks everything that can be answered, or one thing that cannot
TypesNext == /\ mode = "types" /\ Len(prog) # 1
             /\ UNCHANGED mode
             /\ \/ /\ txt = ""
                   /\ \E n \in 1..(TextLen + 1) : \E q \in [1..n -> Elems(Pieces)] : txt' = Concat(q)
                   /\ prog' = TypeProg(txt') /\ st' = Execute(TypeProg(txt'), Opts)
                \/ /\ UNCHANGED txt
                   /\ \E f \in {"mapKeyType", "mapValueType", "listElemType"} : prog' = << St(f, << T(txt) >>) >>
                   /\ st' = Execute(prog', Opts)
Next == TypesNext \/ ShareNext \/ TextNext \/ VersionNext
Spec == Init /\ [][Next]_vars

\* ------------------------------ invariants -----------------------------
LastSt == prog[Len(prog)]
LastRes == st.vars[Len(st.vars)]
Before_ == Execute(SubSeq(prog, 1, Len(prog) - 1), Opts)
\* a statement changes no variable assigned before it, and no dictionary unless it is set
PureInv == (mode = "share" /\ st.ok /\ prog # Prelude) =>
  /\ \A i \in 1..(Len(st.vars) - 1) : st.vars[i] = Before_.vars[i]
  /\ LastSt.fn # "set" => \A d \in 1..Len(Before_.h) : st.h[d] = Before_.h[d]
\* what was set is got, through every name of the dictionary, and only that key differs
SetInv == (mode = "share" /\ st.ok /\ prog # Prelude /\ LastSt.fn = "set") =>
  LET d == ArgVal(Before_, LastSt.args[1]).d v == ArgVal(Before_, LastSt.args[3]) IN
  /\ st.h[d]["a"] = v
  /\ \A k \in DOMAIN Before_.h[d] : k # "a" => st.h[d][k] = Before_.h[d][k]
  /\ \A e \in 1..Len(st.h) : e # d => st.h[e] = Before_.h[e]
SortInv == (mode = "share" /\ st.ok /\ LastSt.fn = "sort") =>
  LET a == ArgVal(st, LastSt.args[1]).l b == LastRes.l IN
  /\ Len(a) = Len(b) /\ \A i \in 1..(Len(b) - 1) : TextLeq(b[i].s, b[i + 1].s)
  /\ \A x \in Elems(a) : Cardinality({ i \in 1..Len(a) : a[i] = x }) = Cardinality({ i \in 1..Len(b) : b[i] = x })
TextInv == mode = "text" /\ txt # "" =>
  /\ Join(SplitT("a", txt), "a") = txt /\ Concat(SplitT("", txt)) = txt
  /\ ToLower(ToLower(txt)) = ToLower(txt) /\ ToLower(ToUpperS(txt)) = ToLower(txt)
  /\ FirstUpper(FirstLower(txt)) = FirstUpper(txt) /\ From(FirstLower(txt), 2) = From(txt, 2)
  /\ Len(FirstWordLower(txt)) = Len(txt) /\ ToLower(FirstWordLower(txt)) = ToLower(txt)
  /\ ToLower(PascalT(txt)) = ToLower(CamelT(txt)) /\ Replaced(SnakeT(txt), "_", "-") = KebabT(txt)
  /\ Replaced(SnakeT(txt), "_", "") = ToLower(CamelT(txt)) /\ SnakeT(SnakeT(txt)) = SnakeT(txt)
\* versions are in a total order, by major and minor
VersionInv == (mode = "version" /\ prog # << >>) =>
  LET a == MajorMinor(prog[1].args[1].s) b == MajorMinor(prog[1].args[2].s) IN
  /\ st.ok <=> (a # << >> /\ b # << >>)
  /\ st.ok => /\ AtLeast(a, b) \/ AtLeast(b, a)
              /\ (AtLeast(a, b) /\ AtLeast(b, a)) <=> a = b
              /\ \A k \in 1..Len(Versions) : LET c == MajorMinor(Versions[k]) IN
                   (c # << >> /\ AtLeast(a, b) /\ AtLeast(b, c)) => AtLeast(a, c)
\* a helper that takes a type apart answers exactly where the question about its form says yes, and nothing is lost
TypesInv == (mode = "types" /\ txt # "") =>
  LET m == MapParts(txt) IN
  /\ Len(prog) > 1 => st.ok
  /\ Len(prog) = 1 => st.ok = (IF prog[1].fn = "listElemType" THEN StartsWith(txt, "[]") ELSE m # << >>)
  /\ m # << >> => "map<" \o m[1] \o "," \o m[2] \o ">" = txt /\ ~HasSub(m[1], ",")
  /\ m # << >> => ~StartsWith(txt, "[]") /\ txt \notin CoreTypes
Emitted == prog = << >> \/ PrintT("CASE " \o ToJson([kind |-> "tmpl", prog |-> prog, opts |-> Opts]))
=============================================================================

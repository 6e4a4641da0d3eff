-------------------------------- MODULE Tmpl --------------------------------
(***************************************************************************)
(* The functions templates are written with.                               *)
(*                                                                         *)
(* A program is a sequence of statements [fn, args]; statement i assigns   *)
(* the result of fn to variable i.  An argument is [k, s, n]: a text "s",  *)
(* a truth value "b", a number "i", the variable n "v", all options "o",   *)
(* the option s "f" (nothing, when it was not given).  Dictionaries are    *)
(* shared by reference (they live in a heap; the options are the first),   *)
(* everything else is a value.  The first failing statement ends it all.   *)
(*                                                                         *)
(* Value: [t, s, l, d]; t is s(tring), b(oolean), i(nteger), n(othing),    *)
(* ls (list of texts), la (array), d(ictionary).                           *)
(***************************************************************************)
EXTENDS Gen

\* ------------------------------- values --------------------------------
Val(t, s, l, d) == [t |-> t, s |-> s, l |-> l, d |-> d]
VS(s) == Val("s", s, << >>, 0)
VB(b) == Val("b", IF b THEN "true" ELSE "false", << >>, 0)
VI(n) == Val("i", IF n < 0 THEN "-" \o Num2Str(-n) ELSE Num2Str(n), << >>, 0)
VNone == Val("n", "", << >>, 0)
VLS(ss) == Val("ls", "", [ i \in 1..Len(ss) |-> VS(ss[i]) ], 0)
VLA(vs) == Val("la", "", vs, 0)
VD(d) == Val("d", "", << >>, d)
IsText(v) == v.t = "s"
IsList(v) == v.t \in {"ls", "la"}
Blank_(v) == v.t = "n" \/ (v.t = "s" /\ v.s = "") \/ (v.t = "b" /\ v.s = "false") \/ (v.t = "i" /\ v.s = "0")

\* two values are the same: same type, same content
RECURSIVE Same(_, _, _)
Same(h, a, b) ==
  /\ a.t = b.t /\ a.s = b.s /\ Len(a.l) = Len(b.l)
  /\ \A i \in 1..Len(a.l) : Same(h, a.l[i], b.l[i])
  /\ a.t = "d" => \/ a.d = b.d
                  \/ /\ DOMAIN h[a.d] = DOMAIN h[b.d]
                     /\ \A k \in DOMAIN h[a.d] : Same(h, h[a.d][k], h[b.d][k])

\* -------------------------------- texts --------------------------------
Order(c) == Index(Special.order, c)
RECURSIVE TextLeq(_, _)
TextLeq(a, b) == IF a = "" THEN TRUE ELSE IF b = "" THEN FALSE
                 ELSE LET x == Order(Ch(a, 1)) y == Order(Ch(b, 1)) IN x < y \/ (x = y /\ TextLeq(From(a, 2), From(b, 2)))
Insert(ss, x) == LET i == Cardinality({ k \in 1..Len(ss) : TextLeq(ss[k], x) }) IN SubSeq(ss, 1, i) \o << x >> \o SubSeq(ss, i + 1, Len(ss))
Sorted(ss) == FoldLeft(Insert, << >>, ss)

RECURSIVE Replaced(_, _, _)
Replaced(s, old, new) == LET i == Index(s, old) IN
  IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1) \o new \o Replaced(From(s, i + Len(old)), old, new)
\* nothing is found before and after every character
ReplaceT(s, old, new) == IF old = "" THEN new \o FoldLeft(LAMBDA a, c : a \o c \o new, "", Chars(s)) ELSE Replaced(s, old, new)
SplitT(sep, s) == IF sep = "" THEN Chars(s) ELSE Split(s, sep)

FirstLower(s) == IF s = "" THEN "" ELSE LowerChar(Ch(s, 1)) \o From(s, 2)
FirstUpper(s) == IF s = "" THEN "" ELSE UpperChar(Ch(s, 1)) \o From(s, 2)
RECURSIVE Caps(_)
Caps(s) == IF s # "" /\ Ch(s, 1) \in Uppers THEN 1 + Caps(From(s, 2)) ELSE 0
\* the first word: capitals up to the one that begins the next word
FirstWordLower(s) ==
  LET n == Caps(s)
      next == n > 1 /\ Len(s) >= n + 2 /\ Ch(s, n + 1) \in Lowers /\ Ch(s, n + 2) \in Lowers
      j == IF next THEN n - 1 ELSE n
  IN ToLower(SubSeq(s, 1, j)) \o From(s, j + 1)

\* words: runs of letters and digits; a capital after a small letter begins another one
IsLow(c) == c \in Lowers \/ c \in XLowers
IsUp(c) == c \in Uppers \/ c \in XUppers
WordsOf(s) ==
  LET step(acc, i) ==
        LET c == Ch(s, i) IN
        IF ~(IsLow(c) \/ IsUp(c) \/ c \in Digits) THEN [acc EXCEPT !.new = TRUE]
        ELSE IF acc.new \/ (IsUp(c) /\ i > 1 /\ IsLow(Ch(s, i - 1)))
        THEN [w |-> Append(acc.w, c), new |-> FALSE]
        ELSE [acc EXCEPT !.w[Len(acc.w)] = @ \o c]
  IN FoldLeft(step, [w |-> << >>, new |-> TRUE], [ i \in 1..Len(s) |-> i ]).w
\* of capitals that are followed by a small letter only one stands: nobody says to which word others belong
CaseOk(s) == \A i \in 1..(Len(s) - 1) : (IsUp(Ch(s, i)) /\ i > 1 /\ IsUp(Ch(s, i - 1))) => ~IsLow(Ch(s, i + 1))
Cap(w) == UpperChar(Ch(w, 1)) \o ToLower(From(w, 2))
SnakeT(s) == Join([ i \in 1..Len(WordsOf(s)) |-> ToLower(WordsOf(s)[i]) ], "_")
KebabT(s) == Join([ i \in 1..Len(WordsOf(s)) |-> ToLower(WordsOf(s)[i]) ], "-")
PascalT(s) == Concat([ i \in 1..Len(WordsOf(s)) |-> Cap(WordsOf(s)[i]) ])
CamelT(s) == LET w == WordsOf(s) IN Concat([ i \in 1..Len(w) |-> IF i = 1 THEN ToLower(w[i]) ELSE Cap(w[i]) ])

\* ------------------------------ versions -------------------------------
MajorMinor(s) ==
  LET p == Split(IF StartsWith(s, "v") THEN From(s, 2) ELSE s, ".")
      num(x) == x # "" /\ IsDigits(x)
  IN IF num(p[1]) /\ (Len(p) = 1 \/ num(p[2]))
     THEN << StripZeros(p[1]), IF Len(p) = 1 THEN "0" ELSE StripZeros(p[2]) >> ELSE << >>
AtLeast(v, m) == IF v[1] # m[1] THEN NumLeq(m[1], v[1]) ELSE NumLeq(m[2], v[2])

\* ------------------------------ functions ------------------------------
Fails == [ok |-> FALSE, v |-> VNone, h |-> << >>]
Returns(h, v) == [ok |-> TRUE, v |-> v, h |-> h]
NoDict == [ x \in {} |-> VNone ]
Put(f, k, v) == [ x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x] ]
AllTexts(a) == \A i \in 1..Len(a) : IsText(a[i])
Texts(a) == [ i \in 1..Len(a) |-> a[i].s ]
TextFn(fn, s) ==
  CASE fn = "toLower" -> ToLower(s) [] fn = "toUpper" -> ToUpperS(s)
    [] fn = "firstLetterToLower" -> FirstLower(s) [] fn = "firstLetterToUpper" -> FirstUpper(s)
    [] fn = "firstWordToLower" -> FirstWordLower(s)
    [] fn = "camelCase" -> CamelT(s) [] fn = "pascalCase" -> PascalT(s)
    [] fn = "snakeCase" -> SnakeT(s) [] fn = "kebabCase" -> KebabT(s)
TextFns == {"toLower", "toUpper", "firstLetterToLower", "firstLetterToUpper", "firstWordToLower", "camelCase", "pascalCase", "snakeCase", "kebabCase"}

\* what the type helpers make of a text: nothing is known of names, so a text is a core type, a list, a map or none of these
MapParts(s) == LET c == Index(s, ",") IN
  IF c > 0 /\ StartsWith(SubSeq(s, 1, c - 1), "map<") /\ EndsWith(From(s, c + 1), ">") THEN << SubSeq(s, 5, c - 1), SubSeq(s, c + 1, Len(s) - 1) >> ELSE << >>
TypeFn(fn, s) ==
  CASE fn \in {"isCoreType", "isBasicType"} -> VB(s \in CoreTypes)
    [] fn = "isListType" -> VB(StartsWith(s, "[]"))
    [] fn = "isMapType" -> VB(MapParts(s) # << >>)
    [] fn = "mapKeyType" -> IF MapParts(s) = << >> THEN VNone ELSE VS(MapParts(s)[1])
    [] fn = "mapValueType" -> IF MapParts(s) = << >> THEN VNone ELSE VS(MapParts(s)[2])
    [] fn = "listElemType" -> IF StartsWith(s, "[]") THEN VS(From(s, 3)) ELSE VNone
TypeFns == {"isCoreType", "isBasicType", "isListType", "isMapType", "mapKeyType", "mapValueType", "listElemType"}

Call(fn, a, h) ==
  LET n == Len(a) R(v) == Returns(h, v) IN
  CASE fn = "dict" ->
         IF n % 2 = 1 \/ \E i \in 1..(n \div 2) : ~IsText(a[2 * i - 1]) THEN Fails
         ELSE Returns(Append(h, FoldLeft(LAMBDA f, i : Put(f, a[2 * i - 1].s, a[2 * i]), NoDict, [ i \in 1..(n \div 2) |-> i ])), VD(Len(h) + 1))
    [] fn = "get" -> IF a[1].t # "d" \/ ~IsText(a[2]) THEN Fails
                     ELSE IF a[2].s \in DOMAIN h[a[1].d] THEN R(h[a[1].d][a[2].s]) ELSE Fails
    [] fn = "set" -> IF a[1].t # "d" \/ ~IsText(a[2]) THEN Fails
                     ELSE Returns([h EXCEPT ![a[1].d] = Put(@, a[2].s, a[3])], VS(""))
    [] fn = "exists" -> IF a[1].t # "d" \/ ~IsText(a[2]) THEN Fails ELSE R(VB(a[2].s \in DOMAIN h[a[1].d]))
    [] fn = "array" -> R(VLA(a))
    [] fn = "append" -> IF a[1].t # "la" THEN Fails ELSE R(VLA(a[1].l \o Tail(a)))
    [] fn = "first" -> IF ~IsList(a[1]) \/ a[1].l = << >> THEN Fails ELSE R(a[1].l[1])
    [] fn = "last" -> IF ~IsList(a[1]) \/ a[1].l = << >> THEN Fails ELSE R(a[1].l[Len(a[1].l)])
    [] fn = "lastIndex" -> IF ~IsList(a[1]) THEN Fails ELSE R(VI(Len(a[1].l) - 1))
    [] fn = "sort" -> IF a[1].t # "la" THEN Fails
                      ELSE IF Len(a[1].l) < 2 THEN R(a[1])
                      ELSE IF ~AllTexts(a[1].l) THEN Fails
                      ELSE LET s == Sorted(Texts(a[1].l)) IN R(VLA([ i \in 1..Len(s) |-> VS(s[i]) ]))
    [] fn = "join" -> IF ~IsList(a[1]) \/ ~IsText(a[2]) \/ ~AllTexts(a[1].l) THEN Fails ELSE R(VS(Join(Texts(a[1].l), a[2].s)))
    [] fn = "split" -> IF ~AllTexts(a) THEN Fails ELSE R(VLS(SplitT(a[1].s, a[2].s)))
    [] fn = "in" -> R(VB(\E i \in 2..n : Same(h, a[1], a[i])))
    [] fn = "default" -> R(IF Blank_(a[1]) THEN a[2] ELSE a[1])
    [] fn = "coalesce" -> LET ix == { i \in 1..n : ~Blank_(a[i]) } IN
                          R(IF ix = {} THEN VS("") ELSE a[CHOOSE i \in ix : \A j \in ix : i <= j])
    [] fn = "ternary" -> IF a[1].t \notin {"b", "s"} \/ a[1].s \notin {"true", "false"} THEN Fails
                         ELSE R(IF a[1].s = "true" THEN a[2] ELSE a[3])
    [] fn = "isString" -> R(VB(IsText(a[1])))
    [] fn = "hasField" -> R(VB(FALSE))      \* none of these is an object
    [] fn = "hasPrefix" -> IF ~AllTexts(a) THEN Fails ELSE R(VB(StartsWith(a[1].s, a[2].s)))
    [] fn = "hasSuffix" -> IF ~AllTexts(a) THEN Fails ELSE R(VB(EndsWith(a[1].s, a[2].s)))
    [] fn = "trimPrefix" -> IF ~AllTexts(a) THEN Fails ELSE R(VS(IF StartsWith(a[1].s, a[2].s) THEN From(a[1].s, Len(a[2].s) + 1) ELSE a[1].s))
    [] fn = "trimSuffix" -> IF ~AllTexts(a) THEN Fails ELSE R(VS(IF EndsWith(a[1].s, a[2].s) THEN SubSeq(a[1].s, 1, Len(a[1].s) - Len(a[2].s)) ELSE a[1].s))
    [] fn = "replaceAll" -> IF ~AllTexts(a) THEN Fails ELSE R(VS(ReplaceT(a[1].s, a[2].s, a[3].s)))
    [] fn = "minVersion" -> IF ~AllTexts(a) THEN Fails
                            ELSE LET v == MajorMinor(a[1].s) m == MajorMinor(a[2].s) IN
                                 IF v = << >> \/ m = << >> THEN Fails ELSE R(VB(AtLeast(v, m)))
    [] fn \in {"isStructType", "isEnumType", "isAliasType"} -> R(VB(FALSE))
    [] fn \in TypeFns -> IF IsText(a[1]) /\ TypeFn(fn, a[1].s) # VNone THEN R(TypeFn(fn, a[1].s)) ELSE Fails
    [] fn \in TextFns -> IF IsText(a[1]) THEN R(VS(TextFn(fn, a[1].s))) ELSE Fails

\* ------------------------------ programs -------------------------------
Start(opts) == [ok |-> TRUE, vars |-> << >>, h |-> << FoldLeft(LAMBDA f, o : Put(f, o[1], VS(o[2])), NoDict, opts) >>]
ArgVal(st, x) ==
  CASE x.k = "v" -> st.vars[x.n]
    [] x.k = "o" -> VD(1)
    [] x.k = "f" -> IF x.s \in DOMAIN st.h[1] THEN st.h[1][x.s] ELSE VNone
    [] x.k \in {"s", "b", "i"} -> Val(x.k, x.s, << >>, 0)
Do(st, c) ==
  IF ~st.ok THEN st
  ELSE LET r == Call(c.fn, [ i \in 1..Len(c.args) |-> ArgVal(st, c.args[i]) ], st.h) IN
       IF r.ok THEN [ok |-> TRUE, vars |-> Append(st.vars, r.v), h |-> r.h] ELSE [st EXCEPT !.ok = FALSE]
Execute(prog, opts) == FoldLeft(Do, Start(opts), prog)

\* o: what a template printed of a value: [t, s, k, l]; lists and dictionaries have their members in l
RECURSIVE Shows(_, _, _)
Shows(h, o, v) ==
  CASE v.t \in {"ls", "la"} -> o.t = "l" /\ Len(o.l) = Len(v.l) /\ \A i \in 1..Len(v.l) : Shows(h, o.l[i], v.l[i])
    [] v.t = "d" -> LET f == h[v.d] IN
                    /\ o.t = "d" /\ Len(o.k) = Cardinality(DOMAIN f)
                    /\ \A i \in 1..Len(o.k) : o.k[i] \in DOMAIN f /\ Shows(h, o.l[i], f[o.k[i]])
    [] OTHER -> o.t = v.t /\ o.s = v.s
\* vals: the variables and then the options, as printed at the end
ProgDiff(e, b) ==
  LET st == Execute(e.prog, e.opts)
      vs == Append(st.vars, VD(1))
  IN IF b.st # (IF st.ok THEN "ok" ELSE "err") THEN {"outcome:" \o (IF st.ok THEN "ok" ELSE "err") \o ">" \o b.st}
     ELSE IF ~st.ok THEN {}
     ELSE IF Len(b.vals) # Len(vs) THEN {"values"}
     ELSE { (IF i = Len(vs) THEN "options" ELSE "value of " \o e.prog[i].fn) : i \in { i \in 1..Len(vs) : ~Shows(st.h, b.vals[i], vs[i]) } }

\* ---------------------------- type helpers -----------------------------
\* A walk through a type: one <<text, answers>> per node; the answers are those
\* of isCoreType, isBasicType, isListType, isMapType, isStructType, isEnumType,
\* isAliasType and isString.  A text says only whether it is core, list or map.
Answers == [core |-> "1100000", list |-> "0010000", map |-> "0001000", struct |-> "0000100", enum |-> "0000010", alias |-> "0000001", none |-> "0000000"]
Text_(obj) == IF obj THEN "0" ELSE "1"
RECURSIVE Walk(_, _, _)
Walk(types, e, obj) ==
  LET line(c) == << << e, Answers[c] \o Text_(obj) >> >> IN
  IF e \in CoreTypes THEN line("core")
  ELSE IF StartsWith(e, "[]") THEN line("list") \o Walk(types, From(e, 3), obj)
  ELSE IF StartsWith(e, "map<") THEN
    LET c == Index(e, ",") IN
    line("map") \o Walk(types, SubSeq(e, 5, c - 1), FALSE) \o Walk(types, SubSeq(e, c + 1, Len(e) - 1), FALSE)
  ELSE line(IF obj THEN types[TypeIx(types, e)].kind ELSE "none")
Both(types, e) == Walk(types, e, TRUE) \o Walk(types, e, FALSE)
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, << >>, ss)
LastIx(l) == IF l = << >> THEN "-1" ELSE Num2Str(Len(l) - 1)
WalkType(types, t) ==
  << << t.kind, Answers[t.kind] \o "0" >> >>
  \o (IF t.kind = "alias" THEN Both(types, t.type) ELSE << >>)
  \o (IF t.kind = "struct" THEN Flat([ i \in 1..Len(t.fields) |-> Both(types, t.fields[i].type) ]) ELSE << >>)
  \o << << t.name, "101" >> >>           \* has it Fields, Methods, Optional
  \o << << "fields", LastIx(t.fields) >> >>
  \o (IF t.kind = "struct" THEN LET q == SelectSeq(t.fields, LAMBDA f : ~f.opt) IN [ i \in 1..Len(q) |-> << "required", q[i].name >> ] ELSE << >>)
WalkMethod(types, m) ==
  Flat([ i \in 1..Len(m.ins) |-> Both(types, m.ins[i].type) ]) \o Flat([ i \in 1..Len(m.outs) |-> Both(types, m.outs[i].type) ])
  \o << << m.name, "1101" >> >>          \* has it Inputs, Succinct, Fields, Annotations
  \o << << LastIx(m.ins), LastIx(m.outs) >>, << "errors", Join(m.errs, "|") >> >>
  \o (IF m.errs = << >> THEN << >> ELSE << << m.errs[1], m.errs[Len(m.errs)] >> >>)
WalkService(types, s) == Flat([ i \in 1..Len(s.methods) |-> WalkMethod(types, s.methods[i]) ]) \o << << s.name, "10" >> >>
WalkAll(S) == Flat([ i \in 1..Len(S.types) |-> WalkType(S.types, S.types[i]) ])
              \o Flat([ i \in 1..Len(S.services) |-> WalkService(S.types, S.services[i]) ])
              \o << << "bigints", IF UsesBig(S.types, S) THEN "1" ELSE "0" >> >>
WalkDiff(e, b) ==
  LET r == Outcome(e) IN
  IF (r.st = "ok") # (b.st = "ok") THEN {"outcome:" \o r.st \o ">" \o b.st}
  ELSE IF r.st # "ok" THEN {}
  ELSE LET w == WalkAll(RawOf(e)) IN
       IF Len(w) # Len(b.lines) THEN {"nodes"}
       ELSE { IF w[i][1] # b.lines[i][1] THEN "component" ELSE "classification" : i \in { i \in 1..Len(w) : w[i] # b.lines[i] } }
=============================================================================

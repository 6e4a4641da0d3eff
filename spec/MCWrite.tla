------------------------------- MODULE MCWrite ------------------------------
(***************************************************************************)
(* Schemas put together piece by piece, written out as a document in three *)
(* styles, and read back.  A schema that is well-formed is read back as    *)
(* it is (declarations in document order within each sort), one that is    *)
(* not is rejected.                                                        *)
(***************************************************************************)
EXTENDS Model
CONSTANTS MaxLen, Styles

F(name, type, opt) == [name |-> name, has |-> TRUE, type |-> type, opt |-> opt, val |-> "", meta |-> << >>, com |-> << >>]
V(name, val) == [name |-> name, has |-> FALSE, type |-> "", opt |-> FALSE, val |-> val, meta |-> << >>, com |-> << >>]
Ty(kind, name, type, fields) == [kind |-> kind, name |-> name, has |-> type # "", type |-> type, fields |-> fields, meta |-> << >>, com |-> << >>]
A(name, type, opt) == [name |-> name, has |-> TRUE, type |-> type, opt |-> opt]
M(name, sin, ins, sout, outs, errs, ann) ==
  [name |-> name, ann |-> ann, com |-> << >>, suc |-> FALSE, sin |-> sin, sout |-> sout, ins |-> ins, outs |-> outs, errs |-> errs]
Er(code, name, msg, http) == [code |-> code, name |-> name, msg |-> msg, http |-> http]
An(k, v) == << k, k, v >>

Base == [webrpc |-> "v1", name |-> "x", version |-> "v1", basepath |-> "",
         types |-> << Ty("enum", "En", "string", << V("one", "one") >>), Ty("struct", "St", "", << F("a", "int", FALSE) >>) >>,
         errors |-> << Er("1", "Bad", "bad thing", "400") >>, services |-> << >>]
P(k, v) == [k |-> k, v |-> v]
Pieces == <<
  P("type", Ty("struct", "Em", "", << >>)), P("type", Ty("struct", "St", "", << F("z", "St", TRUE) >>)), P("type", Ty("struct", "Rec", "", << F("next", "[]Rec", TRUE), F("m", "map<En,Rec>", FALSE) >>)),
  P("type", Ty("alias", "Al", "En", << >>)), P("type", Ty("alias", "Li", "[][]Em", << >>)), P("type", Ty("alias", "Ma", "map<Al,map<string,[]St>>", << >>)), P("type", Ty("alias", "De", "De", << >>)),
  P("type", Ty("enum", "Nu", "uint8", << V("zero", "0"), V("five", "5") >>)), P("type", Ty("enum", "en", "int", << >>)), P("type", Ty("enum", "Bo", "bool", << >>)),
  P("field", F("b", "[]St", TRUE)), P("field", F("a", "string", FALSE)), P("field", F("Class", "map<string,any>", FALSE)), P("field", F("x1", "Li", TRUE)), P("field", F("A", "timestamp", FALSE)),
  P("member", V("two", "2")), P("member", V("three", "three")), P("member", V("One", "a b")), P("member", V("x", "-")),
  P("meta", << "json", TRUE, "bee" >>), P("meta", << "json", TRUE, "a" >>), P("meta", << "json", TRUE, "-" >>), P("meta", << "go.tag.db", TRUE, "a=\"b\",c:d #1" >>), P("meta", << "k", TRUE, "{}" >>),
  P("error", Er("2", "Worse", "m", "500")), P("error", Er("3", "Bad", "m", "404")), P("error", Er("1", "Other", "tell \"why\"", "499")), P("error", Er("2147483647", "Last", "#", "400")), P("error", Er("4", "Ok", "m", "200")),
  P("service", "Api"), P("service", "API"), P("service", "St"),
  P("method", M("Ping", FALSE, << >>, FALSE, << >>, << >>, << >>)), P("method", M("Get", FALSE, << A("id", "uint64", FALSE), A("q", "map<string,[]En>", TRUE) >>, FALSE, << A("st", "St", FALSE), A("ok", "bool", TRUE) >>, << "Bad" >>, << >>)),
  P("method", M("Up", TRUE, << A("chunk", "[]byte", FALSE) >>, FALSE, << A("n", "bigint", FALSE) >>, << "Worse", "Bad" >>, << >>)),
  P("method", M("Watch", FALSE, << >>, TRUE, << A("e", "Em", TRUE) >>, << >>, << An("auth", "jwt"), An("internal", "") >>)),
  P("method", M("Both", TRUE, << A("a", "Al", FALSE) >>, TRUE, << A("a", "Al", FALSE) >>, << >>, << An("d", "use \"Get\" # now") >>)),
  P("method", [M("Suc", FALSE, << A("st", "St", FALSE) >>, FALSE, << A("em", "Em", FALSE) >>, << "Bad" >>, << >>) EXCEPT !.suc = TRUE]), P("method", M("ping", FALSE, << >>, FALSE, << A("x", "null", FALSE) >>, << >>, << >>)),
  P("basepath", "/v1/api/"), P("basepath", "v2"), P("name", "a b/c#d"), P("version", "") >>

IxLast(ts, kinds) == LET s == { i \in 1..Len(ts) : ts[i].kind \in kinds } IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : j <= i
AddField(t, f) == [t EXCEPT !.fields = Append(@, f)]
AddMeta(t, e) == IF t.kind = "alias" THEN [t EXCEPT !.meta = Append(@, << e >>)]
                 ELSE [t EXCEPT !.fields[Len(t.fields)].meta = Append(@, << e >>)]
\* where a piece does not fit it changes nothing
Put(s, p) ==
  LET n == Len(s.types) st == IxLast(s.types, {"struct"}) en == IxLast(s.types, {"enum"}) me == IxLast(s.types, {"struct", "alias"}) v == Len(s.services) IN
  CASE p.k = "type" -> [s EXCEPT !.types = Append(@, p.v)]
    [] p.k = "field" -> [s EXCEPT !.types[st] = AddField(@, p.v)]
    [] p.k = "member" -> [s EXCEPT !.types[en] = AddField(@, p.v)]
    [] p.k = "meta" -> IF s.types[me].kind = "struct" /\ s.types[me].fields = << >> THEN s ELSE [s EXCEPT !.types[me] = AddMeta(@, p.v)]
    [] p.k = "error" -> [s EXCEPT !.errors = Append(@, p.v)]
    [] p.k = "service" -> [s EXCEPT !.services = Append(@, [name |-> p.v, com |-> << >>, methods |-> << >>])]
    [] p.k = "method" -> IF v = 0 THEN [s EXCEPT !.services = << [name |-> "Sv", com |-> << >>, methods |-> << p.v >>] >>]
                         ELSE [s EXCEPT !.services[v].methods = Append(@, p.v)]
    [] p.k = "basepath" -> [s EXCEPT !.basepath = p.v]
    [] p.k = "name" -> [s EXCEPT !.name = p.v]
    [] p.k = "version" -> [s EXCEPT !.version = p.v]

\* ------------------------------- writing -------------------------------
\* style 1: plain; 2: no blank that is not needed, all texts quoted; 3: generous layout, declarations backwards within reason
VARIABLES style, ps
vars == << style, ps >>
B == CASE style = 2 -> "" [] style = 3 -> " \t" [] OTHER -> " "       \* where a blank may stand
N == IF style = 3 THEN "  " ELSE " "                                    \* where one must
NL == CASE style = 3 -> " # note\r\n\n\t\n" [] OTHER -> "\n"
I(n) == CASE style = 2 -> "" [] style = 3 -> "\t" [] OTHER -> SubSeq("        ", 1, n)
Esc(s) == Concat([ i \in 1..Len(s) |-> IF Ch(s, i) = "\"" THEN "\\\"" ELSE Ch(s, i) ])
Lit(s) == IF style # 2 /\ IsIdent(s) THEN s ELSE "\"" \o Esc(s) \o "\""
Spread(e) == IF style = 3 THEN Concat([ i \in 1..Len(e) |-> IF Ch(e, i) \in {",", "<"} THEN Ch(e, i) \o "  " ELSE Ch(e, i) ]) ELSE e
Q(opt) == IF opt THEN "?" ELSE ""
WMeta(g) == I(4) \o "+" \o B \o g[1][1] \o B \o "=" \o B \o Lit(g[1][3]) \o NL
WMetas(m) == Concat([ i \in 1..Len(m) |-> WMeta(m[i]) ])
WType(t) ==
  CASE t.kind = "alias" -> "type" \o N \o t.name \o ":" \o B \o Spread(t.type) \o NL \o WMetas(t.meta)
    [] t.kind = "enum" -> "enum" \o N \o t.name \o ":" \o B \o t.type \o NL \o
         Concat([ i \in 1..Len(t.fields) |-> LET f == t.fields[i] IN
            I(2) \o "-" \o B \o f.name \o (IF t.type = "string" /\ f.val = f.name THEN "" ELSE B \o "=" \o B \o Lit(f.val)) \o NL ])
    [] OTHER -> "struct" \o N \o t.name \o NL \o
         Concat([ i \in 1..Len(t.fields) |-> LET f == t.fields[i] IN
            I(2) \o "-" \o B \o f.name \o Q(f.opt) \o ":" \o B \o Spread(f.type) \o NL \o WMetas(f.meta) ])
WErr(e) == "error" \o N \o e.code \o N \o e.name \o N \o Lit(e.msg) \o (IF e.http = "400" /\ style # 3 THEN "" ELSE N \o "HTTP" \o N \o e.http) \o NL
WArgs(m, as) == "(" \o (IF m.suc THEN UpperChar(Ch(as[1].type, 1)) \o From(as[1].type, 2)
                        ELSE Join([ i \in 1..Len(as) |-> as[i].name \o Q(as[i].opt) \o ":" \o B \o Spread(as[i].type) ], "," \o B)) \o ")"
WAnn(a) == "@" \o a[1] \o (IF a[3] = "" THEN "" ELSE ":" \o Lit(a[3])) \o NL
WMethod(m) == Concat([ i \in 1..Len(m.ann) |-> I(2) \o WAnn(m.ann[i]) ]) \o
  I(2) \o "-" \o B \o (IF m.sin THEN "stream" \o N ELSE "") \o m.name \o WArgs(m, m.ins) \o
  (IF m.outs # << >> \/ m.sout THEN B \o "=>" \o B \o (IF m.sout THEN "stream" \o B ELSE "") \o WArgs(m, m.outs) ELSE "") \o
  (IF m.errs # << >> THEN N \o "errors" \o N \o Join(m.errs, N \o "|" \o B) ELSE "") \o NL
WService(s) == "service" \o N \o s.name \o NL \o Concat([ i \in 1..Len(s.methods) |-> WMethod(s.methods[i]) ])
Head_(k, v) == IF v = "" THEN "" ELSE k \o B \o "=" \o B \o Lit(v) \o NL
Section(f(_), s) == Concat([ i \in 1..Len(s) |-> f(s[i]) ])
Write(s) ==
  LET h == Head_("webrpc", s.webrpc) \o Head_("name", s.name) \o Head_("version", s.version) \o Head_("basepath", s.basepath)
      t == Section(WType, s.types) e == Section(WErr, s.errors) v == Section(WService, s.services)
  IN IF style = 3 THEN v \o e \o t \o h ELSE h \o t \o e \o v
\* aliases are read first, then enums, then structs
Sorted(s) == [s EXCEPT !.types = SelectSeq(@, LAMBDA t : t.kind = "alias") \o SelectSeq(@, LAMBDA t : t.kind = "enum") \o SelectSeq(@, LAMBDA t : t.kind = "struct")]

Init == style \in Styles /\ ps = << >>
Next == /\ Len(ps) < MaxLen
        /\ \E k \in 1..Len(Pieces) : ps' = Append(ps, k)
        /\ UNCHANGED style
Spec == Init /\ [][Next]_vars
Sch == Sorted(FoldLeft(LAMBDA s, k : Put(s, Pieces[k]), Base, ps))
\* a document cannot tell a member written with its own name as value, nor the order it never had
R == RunDoc(Write(Sch))
WriteInv == LET s == Sch r == R IN /\ WellFormed(s) <=> Good(r)
                                   /\ Good(r) => NoCom(View(r.S)) = View(s)
Emitted == EmitCase(CaseOf(<< File1("a.ridl", Write(Sch)) >>, "a.ridl", IF Len(ps) < 2 THEN << OpExport >> ELSE << >>))
=============================================================================

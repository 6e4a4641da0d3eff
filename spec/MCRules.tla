------------------------------- MODULE MCRules ------------------------------
(***************************************************************************)
(* One valid schema and named edits of it.  A wrong edit breaks one rule   *)
(* of well-formedness, a fine edit sits just inside one.  With every set   *)
(* of up to MaxEdits edits: the schema is well-formed exactly when no edit *)
(* is a wrong one.                                                         *)
(***************************************************************************)
EXTENDS Model
CONSTANTS MaxEdits

F(name, type) == [name |-> name, has |-> type # "", type |-> type, opt |-> FALSE, val |-> "", meta |-> << >>, com |-> << >>]
V(name, val) == [F(name, "") EXCEPT !.val = val]
Ty(kind, name, type, fields) == [kind |-> kind, name |-> name, has |-> type # "", type |-> type, fields |-> fields, meta |-> << >>, com |-> << >>]
A(name, type) == [name |-> name, has |-> type # "", type |-> type, opt |-> FALSE]
M(name, ins, outs, errs) == [name |-> name, ann |-> << >>, com |-> << >>, suc |-> FALSE, sin |-> FALSE, sout |-> FALSE, ins |-> ins, outs |-> outs, errs |-> errs]
E(code, name, msg, http) == [code |-> code, name |-> name, msg |-> msg, http |-> http]
Base ==
  [webrpc |-> "v1", name |-> "x", version |-> "v1", basepath |-> "",
   types |-> << Ty("alias", "Al", "map<En,[]St>", << >>),
                Ty("enum", "En", "string", << V("one", "1"), V("two", "2") >>),
                Ty("struct", "St", "", << F("a", "int"), F("b", "[]Al"), F("q", "En") >>),
                Ty("struct", "Other", "", << F("c", "St") >>) >>,
   errors |-> << E("1", "Bad", "m", "400"), E("2", "Worse", "n", "500"), E("3", "Worst", "o", "404") >>,
   services |-> << [name |-> "Api", com |-> << >>, methods |-> << M("Get", << A("a", "int"), A("b", "St") >>, << A("r", "[]Al") >>, << "Bad" >>), M("Put", << >>, << >>, << >>) >>],
                   [name |-> "Web", com |-> << >>, methods |-> << M("Get", << >>, << A("r", "En") >>, << >>) >>],
                   [name |-> "Last", com |-> << >>, methods |-> << M("One", << >>, << >>, << "Worst", "Bad" >>), M("Two", << >>, << >>, << >>), M("Three", << >>, << >>, << >>) >>] >>]

Json(v) == << << << "json", TRUE, v >> >> >>
Suc(m, ins, outs) == [m EXCEPT !.suc = TRUE, !.ins = ins, !.outs = outs]
Wrong == << "webrpc-version", "version-missing", "basepath-query", "basepath-url", "basepath-space", "basepath-percent", "type-lower", "type-digit", "type-empty", "type-dup", "type-dup-case",
  "kind", "alias-missing", "alias-unknown", "alias-case", "alias-list", "alias-map-key", "alias-map-open", "alias-map-value", "alias-map-enum-case", "enum-bool", "enum-type", "enum-missing", "enum-noval",
  "enum-fieldtype", "enum-dup", "enum-dup-case", "enum-ident", "enum-empty", "field-missing", "field-unknown", "field-dup", "field-dup-case", "field-ident", "field-digit", "field-val", "field-json-dup", "field-json-name",
  "field-json-bad", "field-json-number", "error-code-0", "error-code-dup", "error-code-minus", "error-name-dup", "error-name-case", "error-name-trim", "error-name-lower", "error-name-webrpc", "error-name-empty", "error-msg", "error-http-399",
  "error-http-600", "error-http-200", "service-dup", "service-dup-case", "service-empty", "service-none", "method-dup", "method-dup-case", "method-empty", "arg-missing", "arg-unknown", "arg-noname", "out-unknown",
  "method-err", "method-err-case", "suc-two", "suc-two-out",
  "type-dup-later", "field-dup-later", "field-json-later", "error-dup-later", "error-code-later", "service-dup-later", "service-dup-ends", "method-dup-later", "method-dup-ends", "method-err-later" >>
Fine == << "basepath-ok", "basepath-pct", "type-unicode", "alias-key-alias", "alias-nested", "alias-uint8", "enum-uint64", "enum-novalues", "field-json-swap", "field-json-dash", "field-json-last", "field-underscore", "field-names-types",
  "error-code-max", "error-http-edges", "error-name-spaces", "method-noerrs", "service-like-type", "method-like-other", "suc-ok", "suc-none", "arg-dup", "no-services", "self" >>
Apply(n, s) ==
  CASE n = "webrpc-version" -> [s EXCEPT !.webrpc = "v2"]
    [] n = "version-missing" -> [s EXCEPT !.version = ""]
    [] n = "basepath-query" -> [s EXCEPT !.basepath = "/a?b"]
    [] n = "basepath-url" -> [s EXCEPT !.basepath = "http://h/a"]
    [] n = "basepath-space" -> [s EXCEPT !.basepath = "/a b/"]
    [] n = "basepath-percent" -> [s EXCEPT !.basepath = "/a%zz"]
    [] n = "type-lower" -> [s EXCEPT !.types[4].name = "other"]
    [] n = "type-digit" -> [s EXCEPT !.types[4].name = "1Other"]
    [] n = "type-empty" -> [s EXCEPT !.types[4].name = ""]
    [] n = "type-dup" -> [s EXCEPT !.types[4].name = "St"]
    [] n = "type-dup-case" -> [s EXCEPT !.types[4].name = "EN"]
    [] n = "kind" -> [s EXCEPT !.types[4].kind = "union"]
    [] n = "alias-missing" -> [s EXCEPT !.types[1] = Ty("alias", "Al", "", << >>)]
    [] n = "alias-unknown" -> [s EXCEPT !.types[1].type = "Nope"]
    [] n = "alias-case" -> [s EXCEPT !.types[1].type = "st"]
    [] n = "alias-list" -> [s EXCEPT !.types[1].type = "[]"]
    [] n = "alias-map-key" -> [s EXCEPT !.types[1].type = "map<St,int>"]
    [] n = "alias-map-open" -> [s EXCEPT !.types[1].type = "map<string,int"]
    [] n = "alias-map-value" -> [s EXCEPT !.types[1].type = "map<string,>"]
    [] n = "alias-map-enum-case" -> [s EXCEPT !.types[1].type = "map<en,int>"]
    [] n = "enum-bool" -> [s EXCEPT !.types[2].type = "bool"]
    [] n = "enum-type" -> [s EXCEPT !.types[2].type = "St"]
    [] n = "enum-missing" -> [s EXCEPT !.types[2].has = FALSE, !.types[2].type = ""]
    [] n = "enum-noval" -> [s EXCEPT !.types[2].fields[2].val = ""]
    [] n = "enum-fieldtype" -> [s EXCEPT !.types[2].fields[1] = [F("one", "int") EXCEPT !.val = "1"]]
    [] n = "enum-dup" -> [s EXCEPT !.types[2].fields[2].name = "one"]
    [] n = "enum-dup-case" -> [s EXCEPT !.types[2].fields[2].name = "One"]
    [] n = "enum-ident" -> [s EXCEPT !.types[2].fields[2].name = "t-wo"]
    [] n = "enum-empty" -> [s EXCEPT !.types[2].fields[2].name = ""]
    [] n = "field-missing" -> [s EXCEPT !.types[3].fields[1] = F("a", "")]
    [] n = "field-unknown" -> [s EXCEPT !.types[3].fields[2].type = "[]Nope"]
    [] n = "field-dup" -> [s EXCEPT !.types[3].fields[2].name = "a"]
    [] n = "field-dup-case" -> [s EXCEPT !.types[3].fields[2].name = "A"]
    [] n = "field-ident" -> [s EXCEPT !.types[3].fields[2].name = "b.c"]
    [] n = "field-digit" -> [s EXCEPT !.types[3].fields[2].name = "0b"]
    [] n = "field-val" -> [s EXCEPT !.types[4].fields[1].val = "1"]
    [] n = "field-json-dup" -> [s EXCEPT !.types[3].fields[2].meta = Json("a")]
    [] n = "field-json-name" -> [s EXCEPT !.types[3].fields[1].meta = Json("x"), !.types[3].fields[2].meta = Json("X")]
    [] n = "field-json-bad" -> [s EXCEPT !.types[4].fields[1].meta = Json("a-b")]
    [] n = "field-json-number" -> [s EXCEPT !.types[4].fields[1].meta = << << << "json", FALSE, "1" >> >> >>]
    [] n = "error-code-0" -> [s EXCEPT !.errors[1].code = "0"]
    [] n = "error-code-dup" -> [s EXCEPT !.errors[1].code = "2"]
    [] n = "error-code-minus" -> [s EXCEPT !.errors[1].code = "-1"]
    [] n = "error-name-dup" -> [s EXCEPT !.errors[2].name = "Bad"]
    [] n = "error-name-case" -> [s EXCEPT !.errors[2].name = "BAD"]
    [] n = "error-name-trim" -> [s EXCEPT !.errors[2].name = " Bad"]
    [] n = "error-name-lower" -> [s EXCEPT !.errors[2].name = "worse"]
    [] n = "error-name-webrpc" -> [s EXCEPT !.errors[2].name = "WebRPCBad"]
    [] n = "error-name-empty" -> [s EXCEPT !.errors[2].name = "  "]
    [] n = "error-msg" -> [s EXCEPT !.errors[2].msg = ""]
    [] n = "error-http-399" -> [s EXCEPT !.errors[2].http = "399"]
    [] n = "error-http-600" -> [s EXCEPT !.errors[2].http = "600"]
    [] n = "error-http-200" -> [s EXCEPT !.errors[2].http = "200"]
    [] n = "service-dup" -> [s EXCEPT !.services[2].name = "Api"]
    [] n = "service-dup-case" -> [s EXCEPT !.services[2].name = "API"]
    [] n = "service-empty" -> [s EXCEPT !.services[2].name = ""]
    [] n = "service-none" -> [s EXCEPT !.services[2].methods = << >>]
    [] n = "method-dup" -> [s EXCEPT !.services[1].methods[2].name = "Get"]
    [] n = "method-dup-case" -> [s EXCEPT !.services[1].methods[2].name = "get"]
    [] n = "method-empty" -> [s EXCEPT !.services[1].methods[2].name = ""]
    [] n = "arg-missing" -> [s EXCEPT !.services[1].methods[1].ins[1] = A("a", "")]
    [] n = "arg-unknown" -> [s EXCEPT !.services[1].methods[1].ins[2].type = "ST"]
    [] n = "arg-noname" -> [s EXCEPT !.services[1].methods[1].ins[2].name = ""]
    [] n = "out-unknown" -> [s EXCEPT !.services[2].methods[1].outs[1].type = "map<string,Nope>"]
    [] n = "method-err" -> [s EXCEPT !.services[1].methods[1].errs = << "Bad", "Nope" >>]
    [] n = "method-err-case" -> [s EXCEPT !.services[1].methods[1].errs = << "bad" >>]
    [] n = "suc-two" -> [s EXCEPT !.services[1].methods[1] = Suc(@, << A("a", "St"), A("b", "St") >>, << A("c", "St") >>)]
    [] n = "suc-two-out" -> [s EXCEPT !.services[1].methods[1] = Suc(@, << A("a", "St") >>, << A("c", "St"), A("d", "St") >>)]
    [] n = "type-dup-later" -> [s EXCEPT !.types = Append(@, [@[3] EXCEPT !.name = "OTHER"])]
    [] n = "field-dup-later" -> [s EXCEPT !.types[3].fields[3].name = "B"]
    [] n = "field-json-later" -> [s EXCEPT !.types[3].fields[3].meta = Json("B")]
    [] n = "error-dup-later" -> [s EXCEPT !.errors[3].name = "WORSE"]
    [] n = "error-code-later" -> [s EXCEPT !.errors[3].code = "2"]
    [] n = "service-dup-later" -> [s EXCEPT !.services[3].name = "WEB"]
    [] n = "service-dup-ends" -> [s EXCEPT !.services[3].name = "api"]
    [] n = "method-dup-later" -> [s EXCEPT !.services[3].methods[3].name = "two"]
    [] n = "method-dup-ends" -> [s EXCEPT !.services[3].methods[3].name = "ONE"]
    [] n = "method-err-later" -> [s EXCEPT !.services[3].methods[1].errs = << "Worst", "Worse", "Nope" >>]
    [] n = "basepath-ok" -> [s EXCEPT !.basepath = "rpc/v1.2/~a"]
    [] n = "basepath-pct" -> [s EXCEPT !.basepath = "/a%20b/"]
    [] n = "type-unicode" -> [s EXCEPT !.types[4].name = UpperLetters[1] \o Special.lower["É"]]
    [] n = "alias-key-alias" -> [s EXCEPT !.types = Append(@, Ty("alias", "Ka", "En", << >>)), !.types[1].type = "map<Ka,int>"]
    [] n = "alias-nested" -> [s EXCEPT !.types[1].type = "[][]map<uint8,map<string,[]Other>>"]
    [] n = "alias-uint8" -> [s EXCEPT !.types[1].type = "uint8"]
    [] n = "enum-uint64" -> [s EXCEPT !.types[2].type = "uint64"]
    [] n = "enum-novalues" -> [s EXCEPT !.types[2].fields = << >>]
    [] n = "field-json-swap" -> [s EXCEPT !.types[3].fields[1].meta = Json("b"), !.types[3].fields[2].meta = Json("a")]
    [] n = "field-json-dash" -> [s EXCEPT !.types[3].fields[1].meta = Json("-")]
    [] n = "field-json-last" -> [s EXCEPT !.types[4].fields = << [F("c", "int") EXCEPT !.meta = Json("d")], [F("d", "int") EXCEPT !.meta = Json("d") \o Json("e")] >>]
    [] n = "field-underscore" -> [s EXCEPT !.types[4].fields[1].name = "c_1_"]
    [] n = "field-names-types" -> [s EXCEPT !.types[4].fields[1].name = "St"]
    [] n = "error-code-max" -> [s EXCEPT !.errors[1].code = "2147483647"]
    [] n = "error-http-edges" -> [s EXCEPT !.errors[1].http = "599", !.errors[2].http = "499"]
    [] n = "error-name-spaces" -> [s EXCEPT !.errors[2].name = " Worse "]
    [] n = "method-noerrs" -> [s EXCEPT !.services[1].methods[1].errs = << >>]
    [] n = "service-like-type" -> [s EXCEPT !.services[2].name = "St"]
    [] n = "method-like-other" -> [s EXCEPT !.services[2].methods[1].name = "Put"]
    [] n = "suc-ok" -> [s EXCEPT !.services[1].methods[2] = Suc(@, << A("st", "St") >>, << A("r", "St") >>)]
    [] n = "suc-none" -> [s EXCEPT !.services[1].methods[2] = Suc(@, << >>, << >>)]
    [] n = "arg-dup" -> [s EXCEPT !.services[1].methods[1].ins = << A("a", "int"), A("a", "int") >>]
    [] n = "no-services" -> [s EXCEPT !.services = << >>, !.version = ""]
    [] n = "self" -> [s EXCEPT !.types[4].fields[1].type = "map<string,Other>"]
    [] OTHER -> s

\* edits that touch one another do not go together
All == Wrong \o Fine
Word1(n) == Split(n, "-")[1]
Groups == << {"type", "field", "kind", "alias", "enum", "self"}, {"method", "suc", "arg", "out", "service", "no", "version"} >>
Together(n, m) == Word1(n) # Word1(m) /\ \A g \in 1..Len(Groups) : ~({Word1(n), Word1(m)} \subseteq Groups[g])
VARIABLES ed     \* increasing positions in All
vars == << ed >>
Init == ed = << >>
Next == \E k \in (IF ed = << >> THEN 1 ELSE ed[Len(ed)] + 1)..Len(All) :
          /\ Len(ed) < MaxEdits
          /\ \A i \in 1..Len(ed) : Together(All[ed[i]], All[k])
          /\ ed' = Append(ed, k)
Spec == Init /\ [][Next]_vars
Raw == FoldLeft(LAMBDA s, n : Apply(All[n], s), Base, ed)
IsWrong == \E i \in 1..Len(ed) : ed[i] <= Len(Wrong)
RuleInv == WellFormed(Raw) <=> ~IsWrong
\* every edit does something
EditInv == Len(ed) = 1 => Raw # Base
Emitted == EmitCase([kind |-> "json", raw |-> Raw, ops |-> << OpExport >>])
=============================================================================

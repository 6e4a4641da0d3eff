------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* The abstract schema: what a schema is, when it is well-formed, what its *)
(* type expressions denote.                                                *)
(*                                                                         *)
(* A raw schema is a record                                                *)
(*   [webrpc, name, version, basepath, types, errors, services]            *)
(* with                                                                    *)
(*   type    [id, kind, name, has, type, fields, meta, com]                *)
(*   field   [name, has, type, opt, val, meta, com]                        *)
(*   error   [id, code, name, msg, http]                                   *)
(*   service [id, name, com, methods]                                      *)
(*   method  [name, ann, com, suc, sin, sout, ins, outs, errs]             *)
(*   arg     [name, has, type, opt]                                        *)
(* where type is the written type expression (text), has says whether one  *)
(* was written, meta is a sequence of groups, a group a sequence of        *)
(* <<key, isString, value>>, ann a sequence of <<key, type, value>>;       *)
(* error codes and statuses are decimal numerals without leading zeros.    *)
(***************************************************************************)
EXTENDS Text

IntTypes == {"uint", "uint8", "uint16", "uint32", "uint64", "int", "int8", "int16", "int32", "int64"}
CoreTypes == {"null", "any", "byte", "bool"} \cup IntTypes \cup
             {"bigint", "float32", "float64", "string", "timestamp"}
KeyTypes == IntTypes \cup {"string"}
EnumTypes == IntTypes \cup {"string"}
Kinds == {"struct", "enum", "alias"}

(* ------------------------- type expressions -------------------------- *)
Found(i) == i > 0
TypeIx(types, name) ==
  LET ixs == { i \in 1..Len(types) : types[i].name = name } IN
  IF ixs = {} THEN 0 ELSE CHOOSE i \in ixs : \A j \in ixs : i <= j

IsEnumAlias(types, i) ==
  /\ types[i].kind = "alias" /\ types[i].has
  /\ LET j == TypeIx(types, types[i].type) IN Found(j) /\ types[j].kind = "enum"

Ref(types, i) == types[i].kind \o ":" \o types[i].name \o ":" \o Num2Str(i)

NoType == [ok |-> FALSE, flat |-> << >>, expr |-> ""]
Node(s, expr) == [ok |-> TRUE, flat |-> << s >>, expr |-> expr]

\* The denotation of a type expression over a sequence of declared types: the
\* structure in prefix order ("list", "map", "core:<name>", "<kind>:<name>:<position>").
RECURSIVE Denote(_, _)
Denote(types, e) ==
  IF e \in CoreTypes THEN Node("core:" \o e, e)
  ELSE IF StartsWith(e, "[]") THEN
    LET r == Denote(types, From(e, 3)) IN
    IF ~r.ok THEN NoType ELSE [ok |-> TRUE, flat |-> << "list" >> \o r.flat, expr |-> "[]" \o r.expr]
  ELSE IF StartsWith(e, "map<") THEN
    IF ~EndsWith(e, ">") THEN NoType
    ELSE LET inner == SubSeq(e, 5, Len(e) - 1)
             comma == Index(inner, ",")
             key   == SubSeq(inner, 1, comma - 1)
             val   == From(inner, comma + 1)
             k     == TypeIx(types, key)
             kn    == IF key \in KeyTypes THEN "core:" \o key
                      ELSE IF Found(k) /\ (types[k].kind = "enum" \/ IsEnumAlias(types, k))
                      THEN Ref(types, k) ELSE ""
         IN IF comma = 0 \/ kn = "" THEN NoType
            ELSE LET r == Denote(types, val) IN
                 IF ~r.ok THEN NoType
                 ELSE [ok |-> TRUE, flat |-> << "map", kn >> \o r.flat,
                       expr |-> "map<" \o key \o "," \o r.expr \o ">"]
  ELSE LET i == TypeIx(types, e) IN
       IF e # "" /\ Found(i) /\ types[i].kind \in Kinds THEN Node(Ref(types, i), e) ELSE NoType

TypeOk(types, e) == Denote(types, e).ok

(* ---------------------------- well-formedness ------------------------ *)
UniqueBy(seq, f(_)) == \A i, j \in 1..Len(seq) : i < j => f(seq[i]) # f(seq[j])
Elems(seq) == { seq[i] : i \in 1..Len(seq) }

CtlSet == Elems(Special.ctl)
PctOk(s) == \A i \in 1..Len(s) : Ch(s, i) = "%" =>
              /\ i + 2 <= Len(s) /\ Ch(s, i + 1) \in HexDigits /\ Ch(s, i + 2) \in HexDigits
BasePathOk(b) ==
  \/ b = ""
  \/ /\ ~HasChar(b, {" ", "\t", "\r", "\n", "?", "#"})
     /\ ~HasChar(b, CtlSet)
     /\ ~HasSub(b, "://")
     /\ PctOk(b)
NormBase(b) ==
  IF b = "" THEN ""
  ELSE LET b1 == IF StartsWith(b, "/") THEN b ELSE "/" \o b IN
       IF EndsWith(b1, "/") THEN b1 ELSE b1 \o "/"

JsonMetas(f) ==  \* the json names given to a field, in order
  FoldLeft(LAMBDA acc, g : acc \o SelectSeq(g, LAMBDA e : e[1] = "json"), << >>, f.meta)
JsonMetaOk(f) == \A i \in 1..Len(JsonMetas(f)) :
                    LET e == JsonMetas(f)[i] IN e[2] /\ (e[3] = "-" \/ IsIdent(e[3]))
JsonName(f) ==
  LET named == SelectSeq(JsonMetas(f), LAMBDA e : e[3] # "-") IN
  IF named = << >> THEN f.name ELSE named[Len(named)][3]

FieldsOk(fs) ==
  /\ \A i \in 1..Len(fs) : IsIdent(fs[i].name) /\ JsonMetaOk(fs[i])
  /\ UniqueBy(fs, LAMBDA f : ToLower(f.name))
  /\ UniqueBy(fs, LAMBDA f : ToLower(JsonName(f)))

UpperStart(s) == Len(s) > 0 /\ IsUpperChar(Ch(s, 1))

TypeDeclOk(S, t) ==
  /\ UpperStart(t.name)
  /\ t.kind \in Kinds
  /\ t.kind = "alias" => t.has /\ TypeOk(S.types, t.type)
  /\ t.kind # "alias" => FieldsOk(t.fields)
  /\ t.kind = "enum" => /\ t.has /\ t.type \in EnumTypes
                        /\ \A i \in 1..Len(t.fields) : t.fields[i].val # "" /\ ~t.fields[i].has
  /\ t.kind = "struct" => \A i \in 1..Len(t.fields) :
        LET f == t.fields[i] IN f.has /\ TypeOk(S.types, f.type) /\ f.val = ""

ErrorOk(e) ==
  LET n == TrimSpace(e.name) IN
  /\ n # "" /\ IsDigits(e.code) /\ e.code \notin {"", "0"}
  /\ UpperStart(n) /\ ~StartsWith(ToLower(n), "webrpc")
  /\ e.msg # "" /\ Len(e.http) = 3 /\ IsDigits(e.http) /\ Ch(e.http, 1) \in {"4", "5"}

ArgOk(S, a) == a.name # "" /\ a.has /\ TypeOk(S.types, a.type)
IsStruct(S, a) == LET i == TypeIx(S.types, a.type) IN Found(i) /\ S.types[i].kind = "struct"
MethodOk(S, m) ==
  /\ \A i \in 1..Len(m.ins) : ArgOk(S, m.ins[i])
  /\ \A i \in 1..Len(m.outs) : ArgOk(S, m.outs[i])
  /\ m.suc => Len(m.ins) <= 1 /\ Len(m.outs) <= 1
  /\ \A i \in 1..Len(m.errs) : \E j \in 1..Len(S.errors) : TrimSpace(S.errors[j].name) = m.errs[i]

ServiceOk(S, s) ==
  /\ s.name # "" /\ s.methods # << >>
  /\ \A i \in 1..Len(s.methods) : s.methods[i].name # "" /\ MethodOk(S, s.methods[i])
  /\ UniqueBy(s.methods, LAMBDA m : ToLower(m.name))

WellFormed(S) ==
  /\ S.webrpc = "v1"
  /\ S.services # << >> => S.version # ""
  /\ BasePathOk(S.basepath)
  /\ UniqueBy(S.types, LAMBDA t : ToLower(t.name))
  /\ \A i \in 1..Len(S.types) : TypeDeclOk(S, S.types[i])
  /\ UniqueBy(S.errors, LAMBDA e : ToLower(TrimSpace(e.name)))
  /\ UniqueBy(S.errors, LAMBDA e : e.code)
  /\ \A i \in 1..Len(S.errors) : ErrorOk(S.errors[i])
  /\ UniqueBy(S.services, LAMBDA s : ToLower(s.name))
  /\ \A i \in 1..Len(S.services) : ServiceOk(S, S.services[i])

(* ------------------- the schema a user gets to see -------------------- *)
\* The denotation of a whole accepted schema, in the shape the harness logs.
DT(S, has, e) == IF ~has THEN [flat |-> << >>, expr |-> ""]
                 ELSE LET r == Denote(S.types, e) IN [flat |-> r.flat, expr |-> r.expr]

ViewField(S, f) ==
  [name |-> f.name, type |-> DT(S, f.has, f.type), opt |-> f.opt, val |-> f.val, meta |-> f.meta, com |-> f.com]
ViewType(S, t) ==
  [kind |-> t.kind, name |-> t.name, type |-> DT(S, t.has, t.type),
   fields |-> [ i \in 1..Len(t.fields) |-> ViewField(S, t.fields[i]) ],
   meta |-> t.meta, com |-> t.com]
ViewError(e) == [code |-> e.code, name |-> TrimSpace(e.name), msg |-> e.msg, http |-> e.http]
ViewArg(S, a) == [name |-> a.name, type |-> DT(S, a.has, a.type), opt |-> a.opt]
ViewMethod(S, m) ==
  [name |-> m.name, ann |-> Elems(m.ann), com |-> m.com, suc |-> m.suc, sin |-> m.sin, sout |-> m.sout,
   ins |-> [ i \in 1..Len(m.ins) |-> ViewArg(S, m.ins[i]) ],
   outs |-> [ i \in 1..Len(m.outs) |-> ViewArg(S, m.outs[i]) ], errs |-> m.errs]
ViewService(S, s) ==
  [name |-> s.name, com |-> s.com, methods |-> [ i \in 1..Len(s.methods) |-> ViewMethod(S, s.methods[i]) ]]
View(S) ==
  [webrpc |-> S.webrpc, name |-> S.name, version |-> S.version, basepath |-> NormBase(S.basepath),
   types |-> [ i \in 1..Len(S.types) |-> ViewType(S, S.types[i]) ],
   errors |-> [ i \in 1..Len(S.errors) |-> ViewError(S.errors[i]) ],
   services |-> [ i \in 1..Len(S.services) |-> ViewService(S, S.services[i]) ]]
=============================================================================

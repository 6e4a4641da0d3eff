-------------------------------- MODULE MCExpr ------------------------------
(***************************************************************************)
(* Type expressions.  mode "grow": well-formed expressions made by filling *)
(* holes (the hole is "_").  mode "junk": any sequence of chunks.  Each is *)
(* the type of a struct field, of an alias and of an argument, in RIDL and *)
(* in JSON.                                                                *)
(***************************************************************************)
EXTENDS Model
CONSTANTS Depth, JunkLen, Modes

Chunks == << "[]", "map<", ",", ">", "int", "string", "bool", "En", "St", "Ae", "en", "[", "<", " ", "|" >>
Leaves == << "int", "bigint", "any", "En", "St", "Ae", "As", "null" >>
Keys == << "string", "uint8", "En", "Ae", "bool", "As", "St" >>
(* keys of the outermost map *)
OuterKeys == << "int", "int64", "uint", "byte", "null", "any", "bigint", "float32", "float64", "timestamp", "map", "[]", "En2", "map<string,int>" >>
BadKeys == { "bool", "As", "St", "byte", "null", "any", "bigint", "float32", "float64", "timestamp", "map", "[]", "En2", "map<string,int>" }

VARIABLES mode, e, n
vars == << mode, e, n >>
Init == mode \in Modes /\ e = (IF mode = "grow" THEN "_" ELSE "") /\ n = 0
Hole(x) == Index(e, "_") = 0
Fill(x) == LET i == Index(e, "_") IN SubSeq(e, 1, i - 1) \o x \o From(e, i + 1)
Next == \/ /\ mode = "junk" /\ n < JunkLen
           /\ \E k \in 1..Len(Chunks) : e' = e \o Chunks[k]
           /\ n' = n + 1 /\ UNCHANGED mode
        \/ /\ mode = "grow" /\ HasSub(e, "_")
           /\ \/ /\ n < Depth /\ n' = n + 1
                 /\ \/ e' = Fill("[]_")
                    \/ \E k \in 1..Len(Keys) : e' = Fill("map<" \o Keys[k] \o ",_>")
                    \/ n = 0 /\ \E k \in 1..Len(OuterKeys) : e' = Fill("map<" \o OuterKeys[k] \o ",_>")
              \/ \E k \in 1..Len(Leaves) : e' = Fill(Leaves[k]) /\ n' = n
           /\ UNCHANGED mode
Spec == Init /\ [][Next]_vars

Decl == "enum En: string\n  - a\nstruct St\n  - x: int\ntype Ae: En\ntype As: St\n"
Top == "webrpc = v1\nname = x\nversion = v1\n" \o Decl
RidlText == Top \o "type Al: " \o e \o "\nstruct Us\n  - f?: " \o e \o "\n    + k = v\nservice S\n  - Get(a: " \o e \o ", b: []" \o e \o ") => (r?: " \o e \o ")\n"

\* the same declarations as a JSON schema holds them
F(name, has, type, opt, val, meta) == [name |-> name, has |-> has, type |-> type, opt |-> opt, val |-> val, meta |-> meta, com |-> << >>]
Ty(kind, name, has, type, fields) == [kind |-> kind, name |-> name, has |-> has, type |-> type, fields |-> fields, meta |-> << >>, com |-> << >>]
A(name, type, opt) == [name |-> name, has |-> TRUE, type |-> type, opt |-> opt]
RawSchema ==
  [webrpc |-> "v1", name |-> "x", version |-> "v1", basepath |-> "",
   types |-> << Ty("alias", "Ae", TRUE, "En", << >>), Ty("alias", "As", TRUE, "St", << >>), Ty("alias", "Al", TRUE, e, << >>),
                Ty("enum", "En", TRUE, "string", << F("a", FALSE, "", FALSE, "a", << >>) >>),
                Ty("struct", "St", FALSE, "", << F("x", TRUE, "int", FALSE, "", << >>) >>),
                Ty("struct", "Us", FALSE, "", << F("f", TRUE, e, TRUE, "", << << << "k", TRUE, "v" >> >> >>) >>) >>,
   errors |-> << >>,
   services |-> << [name |-> "S", com |-> << >>,
      methods |-> << [name |-> "Get", ann |-> << >>, com |-> << >>, suc |-> FALSE, sin |-> FALSE, sout |-> FALSE,
                      ins |-> << A("a", e, FALSE), A("b", "[]" \o e, FALSE) >>, outs |-> << A("r", e, TRUE) >>, errs |-> << >>] >>] >>]

Types == RawSchema.types
\* an expression written out from its structure
RECURSIVE Show(_)
Show(fl) == \* result: << text, rest >>
  LET h == fl[1] t == Tail(fl) IN
  CASE h = "list" -> LET r == Show(t) IN << "[]" \o r[1], r[2] >>
    [] h = "map"  -> LET k == Show(t) v == Show(k[2]) IN << "map<" \o k[1] \o "," \o v[1] \o ">", v[2] >>
    [] OTHER      -> << Split(h, ":")[2], t >>
D == Denote(Types, e)
\* a valid expression is exactly what its structure says, and denotes again the same
CanonInv == D.ok => /\ D.expr = e /\ Show(D.flat) = << e, << >> >>
                    /\ Denote(Types, "[]" \o e).flat = << "list" >> \o D.flat
GrowInv == (mode = "grow" /\ ~HasSub(e, "_")) =>
             (D.ok <=> \A k \in BadKeys : ~HasSub(e, "map<" \o k \o ","))
\* RIDL (which drops blanks) and JSON agree
R == RunDoc(RidlText)
RidlInv == (e # "" /\ ~HasSub(e, " ") /\ ~HasSub(e, "_") /\ Good(R)) => /\ WellFormed(RawSchema) /\ NoCom(View(R.S)) = NoCom(View(RawSchema))
RidlInv2 == (D.ok /\ e # "" /\ ~HasSub(e, "_")) => Good(R)
Emitted == HasSub(e, "_") \/ (/\ EmitCase(CaseOf(<< File1("a.ridl", RidlText) >>, "a.ridl", << >>))
                              /\ EmitCase([kind |-> "json", raw |-> RawSchema, ops |-> << OpExport >>]))
=============================================================================

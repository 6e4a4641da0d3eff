--------------------------------- MODULE Ops --------------------------------
(***************************************************************************)
(* Operations on an accepted schema: service and annotation filters, tree  *)
(* shaking, bigint analysis, export.                                       *)
(***************************************************************************)
EXTENDS Aspects

\* ------------------------------ filters --------------------------------
Services(S, names) ==
  IF names = << >> THEN S
  ELSE [S EXCEPT !.services = SelectSeq(@, LAMBDA s : \E i \in 1..Len(names) : names[i] = s.name)]

\* an annotation asked for without a value (or with blanks only) has any value
Carries(m, asked) == \E i \in 1..Len(asked) : \E j \in 1..Len(m.ann) :
   LET q == asked[i] a == m.ann[j] IN
   /\ a[1] = q[1] /\ a[2] = q[1]
   /\ (TrimR(TrimL(q[2], {" "}), {" "}) = "" \/ q[2] = a[3])
OnMethods(S, keep(_)) ==
  [S EXCEPT !.services = Map(LAMBDA s : [s EXCEPT !.methods = SelectSeq(@, keep)], @)]
Match_(S, asked) == OnMethods(S, LAMBDA m : Carries(m, asked))
Ignore_(S, asked) == OnMethods(S, LAMBDA m : ~Carries(m, asked))

\* ---------------------------- tree shaking -----------------------------
\* declared types named in a type expression: every flat item is a mark or <kind>:<name>:<position>
RefNames(types, e) ==
  LET fl == Denote(types, e).flat IN
  { types[i].name : i \in { i \in 1..Len(types) : \E k \in 1..Len(fl) : fl[k] = Ref(types, i) } }
Uses(types, t) ==
  (IF t.kind = "alias" THEN RefNames(types, t.type) ELSE {}) \cup
  (IF t.kind = "struct" THEN UNION { RefNames(types, t.fields[i].type) : i \in 1..Len(t.fields) } ELSE {})
RECURSIVE Closure(_, _)
Closure(types, names) ==
  LET more == names \cup UNION { Uses(types, types[i]) : i \in { i \in 1..Len(types) : types[i].name \in names } }
  IN IF more = names THEN names ELSE Closure(types, more)
MethodUses(types, m) ==
  UNION { RefNames(types, m.ins[i].type) : i \in 1..Len(m.ins) } \cup
  UNION { RefNames(types, m.outs[i].type) : i \in 1..Len(m.outs) }
Needed(types, S, names) ==
  Closure(types, UNION { UNION { MethodUses(types, S.services[i].methods[j]) : j \in 1..Len(S.services[i].methods) }
                           : i \in { i \in 1..Len(S.services) : \E k \in 1..Len(names) : names[k] = S.services[i].name } })
\* types: the declarations, which references keep denoting
Shake(types, S, names) == LET need == Needed(types, S, names) IN [S EXCEPT !.types = SelectSeq(@, LAMBDA t : t.name \in need)]

\* ------------------------------- bigint --------------------------------
IsBig(e) == ToLower(e) = "bigint"
StructIx(types, e) == LET i == TypeIx(types, e) IN IF i > 0 /\ e \notin CoreTypes /\ types[i].kind = "struct" THEN i ELSE 0
ElemOf(e) == IF StartsWith(e, "[]") THEN From(e, 3) ELSE ""

\* the structs from which a bigint member can be reached: least fixed point
BigMember(types, e, big) ==
  \/ IsBig(e) \/ IsBig(ElemOf(e))
  \/ StructIx(types, e) \in big \/ StructIx(types, ElemOf(e)) \in big
RECURSIVE BigFix(_, _)
BigFix(types, big) ==
  LET more == big \cup { i \in 1..Len(types) : /\ types[i].kind = "struct"
                          /\ \E k \in 1..Len(types[i].fields) : BigMember(types, types[i].fields[k].type, big) }
  IN IF more = big THEN big ELSE BigFix(types, more)
BigStructs(types) == BigFix(types, {})

BigEntry(types, name, e, big) ==
  IF IsBig(e) THEN << name >>
  ELSE IF IsBig(ElemOf(e)) THEN << name \o "[]" >>
  ELSE IF StructIx(types, e) \in big THEN << name, types[StructIx(types, e)].name >>
  ELSE << name, types[StructIx(types, ElemOf(e))].name \o "[]" >>
BigList(types, members, big) ==
  LET has == SelectSeq(members, LAMBDA m : BigMember(types, m.type, big)) IN
  [ i \in 1..Len(has) |-> BigEntry(types, has[i].name, has[i].type, big) ]

\* entries in the order they are written; a later one of the same name replaces
BigEntries(types, S, compat) ==
  LET big == BigStructs(types)
      ts  == SelectSeq(S.types, LAMBDA t : t.kind = "struct")
      st  == [ i \in 1..Len(ts) |-> << ts[i].name, BigList(types, ts[i].fields, big) >> ]
      Of(m) == IF m.suc THEN << >>
               ELSE << << m.name \o (IF compat THEN "Args" ELSE "Request"), BigList(types, m.ins, big) >>,
                       << m.name \o (IF compat THEN "Return" ELSE "Response"), BigList(types, m.outs, big) >> >>
      ms  == FoldLeft(LAMBDA a, s : FoldLeft(LAMBDA b, m : b \o Of(m), a, s.methods), << >>, S.services)
  IN SelectSeq(st \o ms, LAMBDA p : p[2] # << >>)
BigMap(types, S, compat) ==
  LET es == BigEntries(types, S, compat)
      LastOf(n) == CHOOSE i \in 1..Len(es) : es[i][1] = n /\ \A j \in (i + 1)..Len(es) : es[j][1] # n
  IN { << n, es[LastOf(n)][2] >> : n \in { es[i][1] : i \in 1..Len(es) } }
UsesBig(types, S) ==
  LET big == BigStructs(types)
      BigArg(a) == BigMember(types, a.type, big) IN
  \/ \E i \in 1..Len(S.types) : \E j \in big : S.types[i].name = types[j].name
  \/ \E i \in 1..Len(S.services) : \E j \in 1..Len(S.services[i].methods) :
       LET m == S.services[i].methods[j] IN
       (\E k \in 1..Len(m.ins) : BigArg(m.ins[k])) \/ (\E k \in 1..Len(m.outs) : BigArg(m.outs[k]))

\* ------------------------------- lookups -------------------------------
\* what a schema answers when it is asked for a name, in any case, or for a type
NamedIx(seq, q) == LET ixs == { i \in 1..Len(seq) : ToLower(seq[i].name) = ToLower(q) } IN IF ixs = {} THEN 0 ELSE CHOOSE i \in ixs : TRUE
LookedUp(types, S, q) ==
  LET t == NamedIx(S.types, q) IN
  [type |-> IF t = 0 THEN 0 ELSE TypeIx(types, S.types[t].name), service |-> NamedIx(S.services, q), arg |-> IsIdent(q),
   up |-> IF q = "" THEN "" ELSE UpperChar(Ch(q, 1)) \o From(q, 2), down |-> IF q = "" THEN "" ELSE LowerChar(Ch(q, 1)) \o From(q, 2)]
Required(t) == LET fs == SelectSeq(t.fields, LAMBDA f : ~f.opt) IN [ i \in 1..Len(fs) |-> fs[i].name ]
TypeAnswer(types, S, e) ==
  LET D == Denote(S.types, e) IN
  [ok |-> D.ok, flat |-> IF D.ok THEN Denote(types, e).flat ELSE << >>, expr |-> D.expr, text |-> IF D.ok THEN e ELSE "",
   json |-> e # "", core |-> IF e \in CoreTypes \cup {"map", "[]"} THEN e ELSE ""]
LookupDiff(types, S, o, r) ==
  (IF r.names = [ i \in 1..Len(o.names) |-> LookedUp(types, S, o.names[i]) ] THEN {} ELSE {"lookup:names"}) \cup
  (IF r.required = [ i \in 1..Len(S.types) |-> Required(S.types[i]) ] THEN {} ELSE {"lookup:required"}) \cup
  (IF r.exprs = [ i \in 1..Len(o.exprs) |-> TypeAnswer(types, S, o.exprs[i]) ] THEN {} ELSE {"lookup:types"}) \cup
  (IF r.pure THEN {} ELSE {"lookup:pure"})

\* ------------------------------- dispatch ------------------------------
OpApply(S0, S, o) ==
  CASE o.op = "services" -> Services(S, o.names)
    [] o.op = "match"    -> Match_(S, o.anns)
    [] o.op = "ignore"   -> Ignore_(S, o.anns)
    [] o.op = "shake"    -> Shake(S0.types, S, o.names)
    [] OTHER             -> S

\* references are reported as positions in the schema as it was parsed
SubView(S0, S) ==
  [View(S0) EXCEPT
     !.types = Map(LAMBDA t : ViewType(S0, t), S.types),
     !.services = Map(LAMBDA s : ViewService(S0, s), S.services)]

Tag(o, set) == { o \o ":" \o x : x \in set }
OpDiff(S0, S, o, r) ==
  CASE o.op \in {"services", "match", "ignore", "shake", "view"} -> Tag(o.op, ViewDiff(SubView(S0, S), Logged(r)))
    [] o.op = "bigint" ->
        (IF r.uses = UsesBig(S0.types, S) THEN {} ELSE {"bigint:uses"}) \cup
        (IF Elems(r.by) = BigMap(S0.types, S, FALSE) THEN {} ELSE {"bigint:by"}) \cup
        (IF Elems(r.compat) = BigMap(S0.types, S, TRUE) THEN {} ELSE {"bigint:compat"}) \cup
        (IF r.pure THEN {} ELSE {"bigint:pure"})
    [] o.op = "export" ->
        \* what filters leave may not be a schema any more
        IF r.ok # WellFormed(S) THEN {"export:reimport"}
        ELSE IF ~r.ok THEN {}
        ELSE (IF r.same THEN {} ELSE {"export:unstable"}) \cup
             (IF r.hash THEN {} ELSE {"export:hash"}) \cup
             (IF r.again THEN {} ELSE {"export:nondeterministic"}) \cup
             Tag("export", ViewDiff(View(S), Logged(r.s)))
    [] o.op = "lookup" -> LookupDiff(S0.types, S, o, r)
    [] OTHER -> {"op:unknown"}
=============================================================================

----------------------------- MODULE MCComments -----------------------------
(***************************************************************************)
(* Layouts of lines.  Every sequence of up to MaxLen lines, of which some  *)
(* are comments and some end in one; every comment has a text of its own.  *)
(* What documents what is told from the lines alone: the run of comment    *)
(* lines directly above a declaration, then the comment on its own line    *)
(* (for a method also those of its annotation lines).                      *)
(***************************************************************************)
EXTENDS Model
CONSTANTS MaxLen, Wanted

\* own: the sort of thing the line declares; doc: a comment stands on the line
K(n, pre, post, own, doc) == [n |-> n, pre |-> pre, post |-> post, own |-> own, doc |-> doc]
Blank_ == K("blank", "", "", "", FALSE)
Com    == K("com", "  # c", "", "", TRUE)
Com0   == K("com", "## c", "  x", "", TRUE)
Bang   == K("bang", "  #! c", "", "", TRUE)
None   == K("none", " #", "", "", TRUE)
With(k) == [k EXCEPT !.post = @ \o " # c", !.doc = TRUE]
Field  == K("line", "  - f", ": int", "f", FALSE)
Meta   == K("line", "    + k = v", "", "", FALSE)
Hash   == K("line", "    + k = \"", " # no\"", "", FALSE)
Struct == K("line", "struct A", "", "A", FALSE)
Enum   == K("line", "enum E", ": int", "", FALSE)
Member == K("line", "  - e", "", "e", FALSE)
Alias  == K("line", "type T", ": int", "T", FALSE)
Service == K("line", "service S", "", "S", FALSE)
Method == K("line", "  - M", "()", "M", FALSE)
Ann    == K("ann", "  @a", "", "", FALSE)
AnnQ   == K("ann", "  @b", ":\"# no\"", "", FALSE)

Ctx == << [n |-> "struct", pre |-> << Struct >>, a |-> << Blank_, Com, Com0, Bang, None, Field, With(Field), Meta, With(Meta), Hash >>],
          [n |-> "service", pre |-> << Service >>, a |-> << Blank_, Com, Bang, None, Method, With(Method), Ann, With(Ann), AnnQ, With(AnnQ) >>],
          [n |-> "enum", pre |-> << Com, Enum >>, a |-> << Blank_, Com, Com0, None, Member, With(Member), Struct >>],
          [n |-> "top", pre |-> << Com >>, a |-> << Blank_, Com, Bang, Struct, With(Struct), Field, With(Alias), Alias, Enum, Service, With(Service), With(Method) >>],
          [n |-> "mixed", pre |-> << With(Alias) >>, a |-> << Com, With(Struct), With(Field), With(Enum), With(Member), With(Service), With(Method), With(Ann), Meta >>] >>

VARIABLES c, ls
vars == << c, ls >>
Init == c \in { i \in 1..Len(Ctx) : Wanted = {} \/ Ctx[i].n \in Wanted } /\ ls = Ctx[c].pre
Next == /\ Len(ls) < MaxLen + Len(Ctx[c].pre)
        /\ \E k \in 1..Len(Ctx[c].a) : ls' = Append(ls, Ctx[c].a[k])
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

NumOf(l, i) == IF l.own # "" \/ l.n = "ann" \/ (l.doc /\ l.n \in {"com", "bang"}) \/ l.pre = "enum E" THEN Num2Str(i) ELSE ""
Line(l, i) == IF l.doc /\ l.n \in {"line", "ann"}
              THEN l.pre \o NumOf(l, i) \o l.post \o Num2Str(i)
              ELSE l.pre \o NumOf(l, i) \o l.post
Top == "webrpc = v1\nname = x\nversion = v1\n"
Text_ == Top \o Concat([ i \in 1..Len(ls) |-> Line(ls[i], i) \o "\n" ]) \o "  # end"
Bare == Top \o Concat([ i \in 1..Len(ls) |-> IF ls[i].n \in {"com", "bang", "none"} THEN "" ELSE ls[i].pre \o NumOf(ls[i], i)
                          \o (IF ls[i].doc THEN SubSeq(ls[i].post, 1, Len(ls[i].post) - 4) ELSE ls[i].post) \o "\n" ])

\* ---- the meaning of a layout ----
IsCom(i) == ls[i].n \in {"com", "bang", "none"}
TextAt(i) == CASE ls[i].n = "none" -> << "" >> [] ls[i].n = "bang" -> << >>
               [] ls[i].post = "  x" -> << "c" \o Num2Str(i) \o " x" >> [] OTHER -> << "c" \o Num2Str(i) >>
RECURSIVE Above(_)
Above(i) == IF i > 1 /\ IsCom(i - 1) THEN Above(i - 1) \o TextAt(i - 1) ELSE << >>
DocAt(i) == LET d == Above(i) \o (IF ls[i].doc THEN << "c" \o Num2Str(i) >> ELSE << >>) IN IF d = << "" >> THEN << >> ELSE d
RECURSIVE AnnDocs(_)
\* what stands at the annotation lines since the last line of another sort
AnnDocs(i) == IF i < 1 THEN << >> ELSE IF ls[i].n = "line" THEN << >> ELSE AnnDocs(i - 1) \o (IF ls[i].n = "ann" THEN DocAt(i) ELSE << >>)
Want == { << ls[i].own \o Num2Str(i), (IF ls[i].own = "M" THEN AnnDocs(i - 1) ELSE << >>) \o DocAt(i) >> : i \in { i \in 1..Len(ls) : ls[i].own # "" } }
Got(S) == UNION { {<< S.types[t].name, S.types[t].com >>} \cup { << S.types[t].fields[f].name, S.types[t].fields[f].com >> : f \in 1..Len(S.types[t].fields) } : t \in { t \in 1..Len(S.types) : S.types[t].kind # "enum" } }
          \cup UNION { { << S.types[t].fields[f].name, S.types[t].fields[f].com >> : f \in 1..Len(S.types[t].fields) } : t \in { t \in 1..Len(S.types) : S.types[t].kind = "enum" } }
          \cup UNION { {<< S.services[t].name, S.services[t].com >>} \cup { << S.services[t].methods[f].name, S.services[t].methods[f].com >> : f \in 1..Len(S.services[t].methods) } : t \in 1..Len(S.services) }
AllComments(S) == FoldLeft(LAMBDA a, p : a \o p[2], << >>, SetToSeq(Got(S)))

R == RunDoc(Text_)
DocInv == LET r == R IN Good(r) => Got(r.S) = Want
OnceInv == LET r == R IN Good(r) => LET all == SelectSeq(AllComments(r.S), LAMBDA x : x # "") IN Cardinality(Elems(all)) = Len(all)
\* without comments it is the same schema, and it is accepted as well
BareInv == SameBut(TRUE, R, RunDoc(Bare))
Emitted == EmitCase(CaseOf(<< File1("a.ridl", Text_) >>, "a.ridl", << >>))
=============================================================================

-------------------------------- MODULE MCDoc -------------------------------
(***************************************************************************)
(* Documents written token by token.  In each context (top level, inside a *)
(* struct, inside a service, ...) every sequence of up to MaxLen chunks    *)
(* from the context's alphabet is appended to a valid beginning.           *)
(***************************************************************************)
EXTENDS Model
CONSTANTS MaxLen, Wanted

Top == "webrpc = v1\nname = x\nversion = v1\n"
Ctx == <<
  [n |-> "top", pre |-> Top, post |-> "\n",
   a |-> << "struct", "enum", "type", "error", "service", "import", " ", "\n", "A", ":", "int", "\"q\"", "7", "# c", "- ", "basepath = /a" >>],
  [n |-> "head", pre |-> "version = 2\n", post |-> "\nname = y\n",
   a |-> << "webrpc", "name", " ", "=", "v1", "\"v1\"", "\n", "x/y", "# c", "!", "." >>],
  [n |-> "struct", pre |-> Top \o "struct A\n", post |-> "\n",
   a |-> << "- ", "+ ", "a", "?", ":", " ", "int", "[]", "A", "\n", "# c", "\"q\"", "=", "k.x" >>],
  [n |-> "field", pre |-> Top \o "struct A\n  - a", post |-> "\n    + json = z\n  - b: int\n",
   a |-> << ":", "?", " ", "int", "[]", "map<", ",", ">", "string", "A", "\n", "# c", "[", "]", "\\" >>],
  [n |-> "meta", pre |-> Top \o "struct A\n  - a: int\n    + k", post |-> "\n  - b: int\n",
   a |-> << "=", " ", ".", "x", "\"", "\\\"", "#", "\n", "+ ", "é", "," >>],
  [n |-> "enum", pre |-> Top \o "enum E: ", post |-> "\n",
   a |-> << "string", "int", " ", "\n", "- ", "A", "=", "3", "\"q\"", "# c", "bool", "?" >>],
  [n |-> "type", pre |-> Top \o "enum E: int\n  - A\ntype T: ", post |-> "\n",
   a |-> << "int", "map<", "string", ",", ">", "[]", "E", "T", " ", "\n", "+ k = v", "# c", "?" >>],
  [n |-> "error", pre |-> Top \o "error ", post |-> "\n",
   a |-> << "7", "0", " ", "Name", "name", "\"m\"", "m", "HTTP", "404", "\n", "# c", "399", "WebrpcX" >>],
  [n |-> "service", pre |-> Top \o "error 1 Bad \"m\"\nservice S\n", post |-> "\n",
   a |-> << "- ", "@", "ann", ":", "Get", "()", " => ", "errors ", "Bad", "\n", " ", "stream ", "# c", "|", "\"q\"" >>],
  [n |-> "method", pre |-> Top \o "error 1 Bad \"m\"\nstruct R\nservice S\n  - Get", post |-> "\n",
   a |-> << "(", ")", "a: int", "a?: R", ",", " ", "=>", "stream", "errors", "Bad", "R", "\n", "|", "# c" >>],
  [n |-> "args", pre |-> Top \o "struct R\nservice S\n  - Get(", post |-> ") => (R)\n",
   a |-> << "a", "b", ":", "?", "int", "R", ",", " ", "[]", "map<string,", ">", ")", "(", "\n", "# c" >>],
  [n |-> "ann", pre |-> Top \o "service S\n  @", post |-> "\n  - Get()\n",
   a |-> << "a", "b", ":", "\"q\"", "\"", "@", " ", "\n", "# c", "-", "\\\"", "c d" >>],
  [n |-> "import", pre |-> Top \o "import ", post |-> "\n",
   a |-> << "b.ridl", "\"b.ridl\"", "\n", " ", "- ", "B", "C", "# c", "/", "..", ".", "struct A" >>],
  [n |-> "members", pre |-> Top \o "import b.ridl", post |-> "\n",
   a |-> << "\n", "- ", "B", "C", "X", " ", "# c", "\"q\"", "struct A", "-", "+ a = b", "import" >>],
  [n |-> "list", pre |-> Top \o "import", post |-> "\n",
   a |-> << "\n", "- ", "b.ridl", " ", "# c", "\"q\"", "struct A", "B", "-", "import" >>] >>
Other == "webrpc = v1\nname = b\nstruct B\n  - x: int\nstruct C\n"

VARIABLES c, s
vars == << c, s >>
Text_ == Ctx[c].pre \o Concat(s) \o Ctx[c].post
Files == << File1("a.ridl", Text_), File1("b.ridl", Other) >>
Init == c \in { i \in 1..Len(Ctx) : Wanted = {} \/ Ctx[i].n \in Wanted } /\ s = << >>
Next == /\ Len(s) < MaxLen
        /\ \E k \in 1..Len(Ctx[c].a) : s' = Append(s, Ctx[c].a[k])
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars

\* two spaces for one, blanks at the end of lines, CRLF: outside quotes and comments
T == LexTokens(Chars(Text_))
InQuote == FoldLeft(LAMBDA a, t : Append(a, IF t.tt = "nl" THEN FALSE ELSE IF t.tt = "\"" THEN ~a[Len(a)] ELSE a[Len(a)]), << FALSE >>, T)
Plain == ~HasSub(Text_, "#") /\ ~HasSub(Text_, "\\")
Relaid == Concat([ i \in 1..Len(T) |->
             IF T[i].tt = "ws" /\ ~InQuote[i] THEN T[i].val \o " \t"
             ELSE IF T[i].tt = "nl" /\ ~InQuote[i] THEN (IF i % 2 = 0 THEN " \r\n\n" ELSE "\t\n") ELSE T[i].val ])
Commented == Concat([ i \in 1..Len(T) |-> IF T[i].tt = "nl" /\ ~InQuote[i] THEN " # note\n" ELSE T[i].val ])

R == Run(Files, "a.ridl")
LosslessInv == Lossless(Text_)
ErrorInv == ErrorIsAToken(Text_, R)
\* layout and comments carry no meaning
LayoutInv == (Good(R) /\ Plain) => SameBut(FALSE, R, Run(<< File1("a.ridl", Relaid), Files[2] >>, "a.ridl"))
CommentInv == (Good(R) /\ Plain) => SameBut(TRUE, R, Run(<< File1("a.ridl", Commented), Files[2] >>, "a.ridl"))
\* the last line need not end
Unended == << File1("a.ridl", SubSeq(Text_, 1, Len(Text_) - 1)), Files[2] >>
UnendedInv == (Ctx[c].post = "\n" /\ Good(R)) => SameBut(FALSE, R, Run(Unended, "a.ridl"))
Emitted == EmitCase(CaseOf(Files, "a.ridl", << >>)) /\ (Ctx[c].post = "\n" => EmitCase(CaseOf(Unended, "a.ridl", << >>)))
=============================================================================

-------------------------------- MODULE MCText ------------------------------
(***************************************************************************)
(* Every text over an alphabet of awkward characters, in every place where *)
(* a text may stand.  mode "value": a value is written with the escapes it *)
(* needs and must be read back unchanged.  mode "raw": any characters      *)
(* between two quotes; ReadRaw says what they mean.  mode "word": a text   *)
(* without quotes.                                                         *)
(***************************************************************************)
EXTENDS Model
CONSTANTS MaxLen, RawLen, Places, Modes

Value == << "a", Special.lower["É"], Special.nbsp, " ", "#", "\"", "\n", "\t", "@", "-", ":", "map", "!", "]", "+", "|", "0", Special.nul, Special.invq >>
Raw == << "a", "\\", "n", "\"", "#", " ", "é", "t", "/" >>
Word == << "a", "B", "_", "7", "-", ".", "/", "@", "#", "+", "é", "!", ",", "\\", "n", "|" >>

Top == "webrpc = v1\nname = x\nversion = v1\n"
\* P(place, lit): the document; the place is a literal: a value, or a key that must not be empty
Doc(p, lit) ==
  CASE p = "error"  -> Top \o "error 1 Bad " \o lit \o "\nstruct Z\n"
    [] p = "errorhttp" -> Top \o "error 1 Bad " \o lit \o " HTTP 404 # c\nstruct Z\n"
    [] p = "ann"    -> Top \o "service S\n  @k:" \o lit \o " @z\n  # doc\n  - Get()\n"
    [] p = "meta"   -> Top \o "struct A\n  - f: int\n    + k = " \o lit \o "\n    + z = 1\n"
    [] p = "name"   -> "webrpc = v1\nname = " \o lit \o "\nversion = v1\nstruct Z\n"
    [] p = "version" -> "webrpc = v1\nname = n\nversion = " \o lit \o " # c\nstruct Z\n"
    [] p = "enum"   -> Top \o "enum E: string\n  - a = " \o lit \o "\n  - b\n"
    [] p = "service" -> Top \o "service " \o lit \o "\n  - Get()\n"
    [] p = "comment" -> Top \o "struct A\n  # " \o lit \o "\n  - f: int\n"
    [] OTHER -> ""
\* where the text is to be found
At(p, S) ==
  CASE p \in {"error", "errorhttp"} -> S.errors[1].msg
    [] p = "ann" -> S.services[1].methods[1].ann[1][3]
    [] p = "meta" -> S.types[1].fields[1].meta[1][1][3]
    [] p = "name" -> S.name
    [] p = "version" -> S.version
    [] p = "enum" -> S.types[1].fields[1].val
    [] p = "service" -> S.services[1].name
    [] OTHER -> ""

Escape(c) == CASE c = "\"" -> "\\\"" [] c = "\n" -> "\\n" [] c = "\t" -> "\\t" [] OTHER -> c
Quoted(v) == "\"" \o Concat([ i \in 1..Len(v) |-> Escape(Ch(v, i)) ]) \o "\""

\* the meaning of the characters after an opening quote, told one by one
RECURSIVE ReadRaw(_, _)
ReadRaw(s, acc) ==
  IF s = "" THEN [closed |-> FALSE, ok |-> FALSE, v |-> "", rest |-> ""]
  ELSE LET c == Ch(s, 1) IN
    IF c = "\"" THEN [closed |-> TRUE, ok |-> acc # "", v |-> acc, rest |-> From(s, 2)]
    ELSE IF c # "\\" THEN ReadRaw(From(s, 2), acc \o c)
    ELSE IF Len(s) = 1 THEN [closed |-> FALSE, ok |-> FALSE, v |-> "", rest |-> ""]
    ELSE LET d == Ch(s, 2)
             x == CASE d = "n" -> "\n" [] d = "t" -> "\t" [] d = "\"" -> "\"" [] OTHER -> ""
             r == ReadRaw(From(s, 3), acc \o x)
         IN IF x = "" THEN [r EXCEPT !.ok = FALSE] ELSE r

VARIABLES mode, p, s
vars == << mode, p, s >>
Alphabet == CASE mode = "value" -> Value [] mode = "raw" -> Raw [] OTHER -> Word
Init == mode \in Modes /\ p \in Places /\ s = ""
Len_(m) == IF m = "raw" THEN RawLen ELSE MaxLen
VARIABLE n
Init2 == Init /\ n = 0
Next == /\ n < Len_(mode)
        /\ \E k \in 1..Len(Alphabet) : s' = s \o Alphabet[k]
        /\ n' = n + 1
        /\ UNCHANGED << mode, p >>
Spec == Init2 /\ [][Next]_<< vars, n >>

Text_ == Doc(p, CASE mode = "value" -> Quoted(s) [] mode = "raw" -> "\"" \o s \o "\"" [] OTHER -> s)
R == RunDoc(Text_)
NotComment == p # "comment"
ValueInv == (mode = "value" /\ s # "" /\ NotComment) => Good(R) /\ At(p, R.S) = s
RawInv == (mode = "raw" /\ NotComment) =>
            LET q == ReadRaw(s \o "\"", "") IN
            /\ (q.ok /\ q.rest = "") => (Good(R) /\ At(p, R.S) = q.v)
            /\ (~q.ok) => ~Good(R)
\* an unquoted text that is accepted is kept, up to what ends it
WordInv == (mode = "word" /\ Good(R) /\ NotComment) => LET v == At(p, R.S) IN v # "" \/ s = ""
\* a comment of one word is kept to the letter
CommentInv == (mode = "word" /\ p = "comment" /\ s # "" /\ Ch(s, 1) \notin {"!", "#"}) =>
                Good(R) /\ R.S.types[1].fields[1].com = << s >>
LosslessInv == Lossless(Text_)
Emitted == EmitCase(CaseOf(<< File1("a.ridl", Text_) >>, "a.ridl", IF Len(s) < 3 THEN << OpExport >> ELSE << >>))
=============================================================================

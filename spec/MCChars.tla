------------------------------- MODULE MCChars ------------------------------
(***************************************************************************)
(* Every short sequence of characters, in every place of a document: the   *)
(* lexer keeps all of it, the parser ends, an error is at a token.         *)
(***************************************************************************)
EXTENDS Model
CONSTANTS MaxLen, Wanted

Alphabet == << " ", "\n", "\t", "a", "B", "_", "0", "9", "=", ">", "<", "[", "]", "(", ")", "{", "}", ":", "?", ",", ".", "/", "\\", "\"", "#", "!", "+", "-", "@", "|",
               "*", "'", Special.nul, Special.invq, Special.inve, Special.nbsp, Special.lower["É"] >>
Top == "webrpc = v1\nname = x\nversion = v1\n"
Ctx == << [n |-> "empty", pre |-> "", post |-> ""], [n |-> "top", pre |-> Top, post |-> "\nstruct Z\n"], [n |-> "head", pre |-> "webrpc = v", post |-> "\nname = x\n"],
          [n |-> "type", pre |-> Top \o "struct A\n  - f: ", post |-> "int\n"], [n |-> "quote", pre |-> Top \o "error 1 Bad \"m", post |-> "\" HTTP 404\nstruct Z\n"],
          [n |-> "method", pre |-> Top \o "service S\n  - Get(", post |-> ") => (b: int)\n"], [n |-> "comment", pre |-> Top \o "struct A # c", post |-> "\n  - f: int\n"],
          [n |-> "end", pre |-> Top \o "struct A\n  - f: int", post |-> ""], [n |-> "word", pre |-> Top \o "struct A", post |-> "b\n  - f: int\n"],
          [n |-> "meta", pre |-> Top \o "struct A\n  - f: int\n    + k = v", post |-> "w\n"], [n |-> "ann", pre |-> Top \o "service S\n  @a", post |-> "\n  - Get()\n"],
          [n |-> "import", pre |-> Top \o "import ", post |-> "b.ridl\n"] >>
VARIABLES c, s
vars == << c, s >>
Init == c \in { i \in 1..Len(Ctx) : Wanted = {} \/ Ctx[i].n \in Wanted } /\ s = << >>
Next == /\ Len(s) < MaxLen
        /\ \E k \in 1..Len(Alphabet) : s' = Append(s, k)
        /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Text_ == Ctx[c].pre \o Concat([ i \in 1..Len(s) |-> Alphabet[s[i]] ]) \o Ctx[c].post
Files == << File1("a.ridl", Text_), File1("b.ridl", "webrpc = v1\nname = b\nversion = v1\nstruct B\n") >>
R == Run(Files, "a.ridl")
LosslessInv == Lossless(Text_)
TotalInv == LET r == R IN r.st \in {"ok", "syn", "sem", "cyc"} /\ ErrorIsAToken(Text_, r)
Emitted == EmitCase(CaseOf(Files, "a.ridl", << >>))
=============================================================================

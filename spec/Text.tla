-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Characters and strings.  A character is a TLA+ string holding one       *)
(* Unicode code point (the harness delivers every document as a sequence   *)
(* of such characters), a text is a TLA+ string.                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json

\* Characters TLA+ source cannot spell (control and non-ASCII ones).
Special == JsonDeserialize("special.json")

LowerLetters == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperLetters == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
DigitSeq == <<"0","1","2","3","4","5","6","7","8","9">>

Lowers  == { LowerLetters[i] : i \in 1..26 }
Uppers  == { UpperLetters[i] : i \in 1..26 }
Digits  == { DigitSeq[i] : i \in 1..10 }
Letters == Lowers \cup Uppers
HexDigits == Digits \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}

LowerOf == [ c \in Uppers |-> LowerLetters[CHOOSE i \in 1..26 : UpperLetters[i] = c] ]
UpperOf == [ c \in Lowers |-> UpperLetters[CHOOSE i \in 1..26 : LowerLetters[i] = c] ]
\* upper-case and title-case characters beyond ASCII (case tables of Unicode)
XUppers == DOMAIN Special.lower
XTitles == DOMAIN Special.title
XLowers == DOMAIN Special.upper
ASCII == Letters \cup Digits \cup {"_", " "}
LowerChar(c) == IF c \in Uppers THEN LowerOf[c]
                ELSE IF c \in ASCII THEN c
                ELSE IF c \in XUppers THEN Special.lower[c]
                ELSE IF c \in XTitles THEN Special.title[c] ELSE c
UpperChar(c) == IF c \in Lowers THEN UpperOf[c]
                ELSE IF c \in ASCII THEN c
                ELSE IF c \in XLowers THEN Special.upper[c] ELSE c
IsUpperChar(c) == c \in Uppers \/ (c \notin ASCII /\ c \in XUppers)

(* -------- strings as sequences of (UTF-16) characters ---------------- *)
Ch(s, i) == SubSeq(s, i, i)
From(s, i) == IF i > Len(s) THEN "" ELSE SubSeq(s, i, Len(s))
StartsWith(s, pre) == Len(s) >= Len(pre) /\ SubSeq(s, 1, Len(pre)) = pre
EndsWith(s, suf) == Len(s) >= Len(suf) /\ SubSeq(s, Len(s) - Len(suf) + 1, Len(s)) = suf
Chars(s) == [ i \in 1..Len(s) |-> Ch(s, i) ]
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, "", ss)
ToLower(s) == FoldLeft(LAMBDA a, i : a \o LowerChar(Ch(s, i)), "", [ i \in 1..Len(s) |-> i ])
ToUpperS(s) == FoldLeft(LAMBDA a, i : a \o UpperChar(Ch(s, i)), "", [ i \in 1..Len(s) |-> i ])
HasChar(s, set) == \E i \in 1..Len(s) : Ch(s, i) \in set
AllChars(s, set) == \A i \in 1..Len(s) : Ch(s, i) \in set

RECURSIVE IndexFrom(_, _, _)
\* first position >= i at which sub occurs in s, 0 when it does not
IndexFrom(s, sub, i) ==
  IF i + Len(sub) - 1 > Len(s) THEN 0
  ELSE IF SubSeq(s, i, i + Len(sub) - 1) = sub THEN i
  ELSE IndexFrom(s, sub, i + 1)
Index(s, sub) == IndexFrom(s, sub, 1)
HasSub(s, sub) == Index(s, sub) > 0

RECURSIVE Split(_, _)
Split(s, sep) ==
  LET i == Index(s, sep) IN
  IF i = 0 THEN << s >>
  ELSE << SubSeq(s, 1, i - 1) >> \o Split(From(s, i + Len(sep)), sep)

Join(ss, sep) ==
  IF ss = << >> THEN ""
  ELSE FoldLeft(LAMBDA a, i : a \o sep \o ss[i], ss[1], [ i \in 1..(Len(ss) - 1) |-> i + 1 ])

IsDigits(s) == AllChars(s, Digits)
DigitVal(c) == (CHOOSE i \in 1..10 : DigitSeq[i] = c) - 1
\* decimal numerals are kept as text without leading zeros
RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN StripZeros(From(s, 2)) ELSE s
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == IF a = "" THEN TRUE
                ELSE LET x == DigitVal(Ch(a, 1)) y == DigitVal(Ch(b, 1)) IN
                     x < y \/ (x = y /\ LexLeq(From(a, 2), From(b, 2)))
NumLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLeq(a, b))
MaxInt32 == "2147483647"

RECURSIVE Num2Str(_)
Num2Str(n) == IF n < 10 THEN DigitSeq[n + 1] ELSE Num2Str(n \div 10) \o DigitSeq[(n % 10) + 1]

IsIdent(s) == /\ Len(s) > 0 /\ Ch(s, 1) \in Letters
              /\ AllChars(s, Letters \cup Digits \cup {"_"})

RECURSIVE TrimL(_, _)
TrimL(s, set) == IF Len(s) > 0 /\ Ch(s, 1) \in set THEN TrimL(From(s, 2), set) ELSE s
RECURSIVE TrimR(_, _)
TrimR(s, set) == IF Len(s) > 0 /\ Ch(s, Len(s)) \in set THEN TrimR(SubSeq(s, 1, Len(s) - 1), set) ELSE s
SpaceSet == { Special.spaces[i] : i \in 1..Len(Special.spaces) }
TrimSpace(s) == TrimR(TrimL(s, SpaceSet), SpaceSet)
=============================================================================

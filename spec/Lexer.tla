-------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The RIDL lexer and the comment collector as character / token machines. *)
(*                                                                         *)
(* LexChar is one transition of the lexer: it consumes one character and   *)
(* either extends the token being read or closes it and starts another.    *)
(* A token carries its kind, its exact text and the line and column of its *)
(* last character.  CommentTok is one transition of the collector, which   *)
(* maps a line to the text of the comment written on it and remembers on   *)
(* which lines the comment trails something else.                          *)
(***************************************************************************)
EXTENDS Text

Blank == {" ", "\t", "\r"}
WordStart == Letters \cup Digits \cup {"_"}
WordBreak == {" ", "\t", "\r", "\n", "[", "]", "(", ")", "<", ">", "{", "}", "=", ":", "?", "!", ",",
              "\"", Special.nul, Special.invq, Special.inve}
Single == {"(", ")", "[", "]", "<", ">", "+", "-", "#", ":", ",", "|", "\\", "/", "\"", ".", "?", "@"}

Tok(tt, val, line, col) == [tt |-> tt, val |-> val, line |-> line, col |-> col]
Eof == Tok("eof", "", 0, 0)

LexInit == [toks |-> << >>, mode |-> "", cur |-> "", line |-> 0, col |-> 0]

\* close the token being read; its position is that of the last character
LexFlush(st) ==
  IF st.mode = "" THEN st
  ELSE [st EXCEPT !.toks = Append(@, Tok(st.mode, st.cur, st.line, st.col)), !.mode = "", !.cur = ""]

LexChar(st, c) ==
  LET line1 == IF st.col < 1 THEN st.line + 1 ELSE st.line
      col1  == st.col + 1
      Emit(s, tt) == [s EXCEPT !.toks = Append(@, Tok(tt, c, line1, col1)), !.line = line1, !.col = col1]
  IN
  IF \/ st.mode = "word" /\ c \notin WordBreak
     \/ st.mode = "ws" /\ c \in Blank
  THEN [st EXCEPT !.cur = @ \o c, !.line = line1, !.col = col1]
  ELSE IF st.mode = "=" /\ c = ">"
  THEN [st EXCEPT !.toks = Append(@, Tok("=>", "=>", line1, col1)), !.mode = "", !.cur = "",
                  !.line = line1, !.col = col1]
  ELSE LET s == LexFlush(st) IN
    CASE c \in WordStart -> [s EXCEPT !.mode = "word", !.cur = c, !.line = line1, !.col = col1]
      [] c \in Blank     -> [s EXCEPT !.mode = "ws", !.cur = c, !.line = line1, !.col = col1]
      [] c = "="         -> [s EXCEPT !.mode = "=", !.cur = c, !.line = line1, !.col = col1]
      [] c = "\n"        -> [Emit(s, "nl") EXCEPT !.col = 0]
      [] c \in Single    -> Emit(s, c)
      [] OTHER           -> Emit(s, "extra")

LexTokens(chars) == LexFlush(FoldLeft(LexChar, LexInit, chars)).toks

\* a word keeps the backslashes in it; an odd number of them at its end escapes
\* what follows the word
RECURSIVE Escaping(_)
Escaping(s) == Len(s) > 0 /\ Ch(s, Len(s)) = "\\" /\ ~Escaping(SubSeq(s, 1, Len(s) - 1))

(* ----------------------------- comments ------------------------------ *)
ComInit == [on |-> FALSE, str |-> FALSE, esc |-> FALSE, code |-> FALSE, tail |-> FALSE, prev |-> "",
            words |-> << >>, line |-> 0, com |-> << >>, trail |-> {}]
\* com is kept as a sequence of <<line, text>> and turned into a function at the end

ComFlush(st) ==
  IF ~st.on THEN st
  ELSE [st EXCEPT !.com = Append(@, << st.line, Join(st.words, " ") >>),
                  !.trail = IF st.tail THEN @ \cup {st.line} ELSE @,
                  !.on = FALSE, !.words = << >>, !.tail = FALSE]

CommentTok(st, t) ==
  IF t.tt = "nl" THEN
     [ComFlush([st EXCEPT !.line = t.line]) EXCEPT !.str = FALSE, !.esc = FALSE, !.code = FALSE, !.prev = "nl"]
  ELSE IF st.on THEN
     \* inside a comment: words are separated by blanks, blanks count as one;
     \* the hashes that introduce the comment are not part of it
     IF t.tt = "ws" THEN [st EXCEPT !.prev = "ws"]
     ELSE IF t.tt = "#" /\ st.words = << >> /\ st.prev = "#" THEN st
     ELSE [st EXCEPT !.words = IF st.prev = "ws" \/ @ = << >> THEN Append(@, t.val)
                               ELSE [@ EXCEPT ![Len(@)] = @ \o t.val],
                     !.prev = IF t.tt = "#" /\ st.words = << >> THEN "x" ELSE t.tt,
                     !.line = t.line]
  ELSE IF t.tt = "#" /\ ~st.str THEN
     [st EXCEPT !.on = TRUE, !.tail = st.code, !.prev = "#", !.line = t.line]
  ELSE \* code: quoted text hides '#'
     LET c1 == IF t.tt = "ws" THEN st ELSE [st EXCEPT !.code = TRUE] IN
     IF ~st.str THEN [c1 EXCEPT !.str = (t.tt = "\""), !.esc = FALSE, !.prev = t.tt]
     ELSE IF st.esc THEN [c1 EXCEPT !.esc = (t.tt = "word" /\ Escaping(t.val)), !.prev = t.tt]
     ELSE [c1 EXCEPT !.esc = Escaping(t.val), !.str = (t.tt # "\""), !.prev = t.tt]

CommentRun(toks) == ComFlush(FoldLeft(CommentTok, ComInit, toks))

ComFun(pairs) ==
  [ l \in { pairs[i][1] : i \in 1..Len(pairs) } |->
      LET i == CHOOSE i \in 1..Len(pairs) : pairs[i][1] = l IN pairs[i][2] ]
=============================================================================

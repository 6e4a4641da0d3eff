------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The RIDL grammar as a machine over tokens.  PStep is one transition: it *)
(* reads one construct (a header line, an import, an error line, an enum   *)
(* member, a struct field, a metadata line, a method, ...) starting at     *)
(* token pos in control state ctl.  A construct that cannot be read ends   *)
(* in ctl = "fail" with the position of the offending token.               *)
(***************************************************************************)
EXTENDS Lexer

Cur(T, p) == IF p > Len(T) THEN Eof ELSE T[p]
Adv(T, p) == IF p > Len(T) THEN p ELSE p + 1
Ok(p, v) == [ok |-> TRUE, pos |-> p, v |-> v]
Bad(p) == [ok |-> FALSE, pos |-> p, v |-> << >>]

RECURSIVE ToEol(_, _)
ToEol(T, p) == IF Cur(T, p).tt \in {"nl", "eof"} THEN p ELSE ToEol(T, p + 1)

\* optional blanks and comment, then end of line
RECURSIVE Eol(_, _)
Eol(T, p) ==
  LET t == Cur(T, p).tt IN
  CASE t = "ws" -> Eol(T, p + 1)
    [] t \in {"eof", "nl"} -> Ok(p, << >>)
    [] t = "#" -> Ok(ToEol(T, p), << >>)
    [] OTHER -> Bad(p)

\* A phrase of given token kinds; blanks ("ws") are optional.  On failure the
\* position is the start of the phrase, except for a missing end of line.
RECURSIVE MatchFrom(_, _, _, _, _, _)
MatchFrom(T, start, p, kinds, i, acc) ==
  IF i > Len(kinds) THEN Ok(p, acc)
  ELSE LET t == Cur(T, p) IN
    IF t.tt = kinds[i] THEN MatchFrom(T, start, p + 1, kinds, i + 1, Append(acc, t))
    ELSE IF kinds[i] = "eol" THEN LET r == Eol(T, p) IN IF r.ok THEN Ok(r.pos, Append(acc, t)) ELSE Bad(r.pos)
    ELSE IF kinds[i] = "ws" THEN MatchFrom(T, start, p, kinds, i + 1, Append(acc, t))
    ELSE Bad(start)
Match(T, p, kinds) == MatchFrom(T, p, p, kinds, 1, << >>)

(* ----------------------------- text values --------------------------- *)
RECURSIVE UnescFrom(_, _, _)
UnescFrom(s, i, acc) ==
  IF i > Len(s) THEN Ok(0, acc)
  ELSE IF Ch(s, i) # "\\" THEN UnescFrom(s, i + 1, acc \o Ch(s, i))
  ELSE IF i = Len(s) THEN Bad(0)
  ELSE LET n == Ch(s, i + 1) IN
       CASE n = "n" -> UnescFrom(s, i + 2, acc \o "\n")
         [] n = "t" -> UnescFrom(s, i + 2, acc \o "\t")
         [] n = "\"" -> UnescFrom(s, i + 2, acc \o "\"")
         [] OTHER -> Bad(0)

\* the value made of the given token texts, at position p; none is an error
Compose(p, vals) ==
  IF vals = << >> THEN Bad(p)
  ELSE LET s == Concat(vals) IN
       IF ~HasChar(s, {"\\"}) THEN Ok(p, s)
       ELSE LET u == UnescFrom(s, 1, "") IN IF u.ok THEN Ok(p, u.v) ELSE Bad(p)

RECURSIVE StrBody(_, _, _)
StrBody(T, p, acc) ==
  LET t == Cur(T, p)
      p1 == Adv(T, p) IN
  CASE t.tt \in {"nl", "eof"} -> Bad(p1)
    [] t.tt = "\"" -> Compose(p1, acc)
    [] OTHER ->
        LET esc == t.tt = "\\"                       \* a backslash takes the next token with it
            u   == IF esc THEN Cur(T, p1) ELSE t
            p2  == IF esc THEN Adv(T, p1) ELSE p1
            a2  == IF esc THEN acc \o << t.val, u.val >> ELSE Append(acc, u.val)
        IN \* and so does a word that ends with one
           IF u.tt = "word" /\ Escaping(u.val) /\ Cur(T, p2).tt = "\"" THEN StrBody(T, p2 + 1, Append(a2, "\""))
           ELSE StrBody(T, p2, a2)
StringVal(T, p) == StrBody(T, p + 1, << >>)     \* p is at the opening quote

RECURSIVE WordsBody(_, _, _, _)
WordsBody(T, p, kinds, acc) ==
  IF Cur(T, p).tt \in kinds THEN WordsBody(T, p + 1, kinds, Append(acc, T[p].val)) ELSE Compose(p, acc)
Literal(T, p) == IF Cur(T, p).tt = "\"" THEN StringVal(T, p) ELSE WordsBody(T, p, {"word", "/"}, << >>)
PathVal(T, p) == IF Cur(T, p).tt = "\"" THEN StringVal(T, p) ELSE WordsBody(T, p, {"word", ".", "/"}, << >>)

RECURSIVE KeyBody(_, _, _)
KeyBody(T, p, acc) ==
  LET t == Cur(T, p) IN
  CASE t.tt \in {"?", "ws", "="} -> Compose(p, acc)
    [] t.tt = "word" -> KeyBody(T, p + 1, Append(acc, t.val))
    [] t.tt = "." -> LET r == Match(T, p, << ".", "word" >>) IN
                     IF r.ok THEN KeyBody(T, r.pos, acc \o << r.v[1].val, r.v[2].val >>) ELSE Bad(r.pos)
    [] OTHER -> Bad(p)
MetaKey(T, p) == IF Cur(T, p).tt # "word" THEN Bad(p) ELSE KeyBody(T, p + 1, << T[p].val >>)

RECURSIVE MetaBody(_, _, _)
MetaBody(T, p, acc) ==
  IF Cur(T, p).tt \in {"ws", "nl", "eof"} THEN Compose(p, acc) ELSE MetaBody(T, p + 1, Append(acc, T[p].val))
MetaValue(T, p) == IF Cur(T, p).tt = "\"" THEN StringVal(T, p) ELSE MetaBody(T, p, << >>)

\* + <key> = <value>
MetaLine(T, p) ==
  LET m0 == Match(T, p, << "+", "ws" >>)
      k  == MetaKey(T, m0.pos)
      m1 == Match(T, k.pos, << "ws", "=", "ws" >>)
      v  == MetaValue(T, m1.pos)
  IN IF ~m0.ok THEN m0 ELSE IF ~k.ok THEN k ELSE IF ~m1.ok THEN m1 ELSE IF ~v.ok THEN v
     ELSE Ok(v.pos, << << k.v, TRUE, v.v >> >>)

(* ------------------------------- types ------------------------------- *)
RECURSIVE TypeBody(_, _, _), MapBody(_, _, _), ListBody(_, _, _)
TypeBody(T, p, acc) ==
  LET t == Cur(T, p) IN
  CASE t.tt \in {"nl", "ws", ",", "|", ">", ")", "#", "eof"} -> Compose(p, acc)
    [] t.tt = "[" ->
        LET b == Match(T, p, << "[", "]" >>)
            r == TypeBody(T, b.pos, << >>)
        IN IF ~b.ok THEN b ELSE IF ~r.ok THEN r ELSE TypeBody(T, r.pos, Append(acc, "[]" \o r.v))
    [] t.tt = "word" /\ t.val = "map" ->
        LET r == MapBody(T, p + 1, "map") IN IF ~r.ok THEN r ELSE TypeBody(T, r.pos, Append(acc, r.v))
    [] t.tt = "word" /\ t.val \in {"stream", "struct"} -> Bad(p)
    [] t.tt = "word" -> TypeBody(T, p + 1, Append(acc, t.val))
    [] OTHER -> Bad(p)
MapBody(T, p, acc) ==
  LET t == Cur(T, p) IN
  CASE t.tt = "ws" -> MapBody(T, p + 1, acc)
    [] t.tt = ">" -> Ok(p + 1, acc)
    [] t.tt = "<" -> LET r == ListBody(T, p + 1, "<") IN IF ~r.ok THEN r ELSE MapBody(T, r.pos, acc \o r.v)
    [] OTHER -> Bad(p)
ListBody(T, p, acc) ==   \* ends before the closing bracket, which is part of the text
  LET t == Cur(T, p) IN
  CASE t.tt = "ws" -> ListBody(T, p + 1, acc)
    [] t.tt = ">" -> Ok(p, acc \o ">")
    [] t.tt \in {",", "|"} -> ListBody(T, p + 1, acc \o t.val)
    [] t.tt \in {"word", "["} -> LET r == TypeBody(T, p, << >>) IN
                                 IF ~r.ok THEN r ELSE ListBody(T, r.pos, acc \o r.v)
    [] OTHER -> Bad(p)
TypeExpr(T, p) == TypeBody(T, p, << >>)

(* ------------------------------ arguments ---------------------------- *)
Arg(name, type, opt, inl) == [name |-> name, type |-> type, opt |-> opt, inl |-> inl]
RECURSIVE ArgBody(_, _, _)
ArgBody(T, p, acc) ==
  LET t == Cur(T, p) IN
  CASE t.tt \in {"ws", ",", "|"} -> ArgBody(T, p + 1, acc)
    [] t.tt = ")" -> Ok(p + 1, acc)
    [] t.tt = "word" /\ Cur(T, p + 1).tt = ")" -> Ok(p + 2, Append(acc, Arg(t.val, "", FALSE, TRUE)))
    [] t.tt = "word" ->
        LET mo == Match(T, p, << "word", "?", ":", "ws" >>)
            mr == Match(T, p, << "word", ":", "ws" >>)
            m  == IF mo.ok THEN mo ELSE mr
            r  == TypeExpr(T, m.pos)
        IN IF ~m.ok THEN m ELSE IF ~r.ok THEN r
           ELSE ArgBody(T, r.pos, Append(acc, Arg(t.val, r.v, mo.ok, FALSE)))
    [] OTHER -> Bad(p)
ArgList(T, p) == IF Cur(T, p).tt # "(" THEN Bad(p) ELSE ArgBody(T, p + 1, << >>)

RECURSIVE ErrBody(_, _, _)
ErrBody(T, p, acc) ==
  LET m == Match(T, p, << "ws", "|", "ws", "word" >>) IN
  IF m.ok THEN ErrBody(T, m.pos, Append(acc, m.v[4].val)) ELSE Ok(p, acc)
ErrList(T, p) ==
  LET m == Match(T, p, << "ws", "word" >>) IN IF ~m.ok THEN m ELSE ErrBody(T, m.pos, << m.v[2].val >>)

RECURSIVE AnnBody(_, _, _)
AnnBody(T, p, acc) ==
  LET m == Match(T, p, << "@", "word" >>)
      w == m.v[2]
      Entry(v) == [key |-> w.val, val |-> v, line |-> w.line]
      c == Cur(T, m.pos + 1)
  IN IF ~m.ok THEN Ok(p, acc)
     ELSE IF \E i \in 1..Len(acc) : acc[i].key = w.val THEN Bad(m.pos)
     ELSE IF Cur(T, m.pos).tt # ":" THEN AnnBody(T, m.pos, Append(acc, Entry("")))
     ELSE IF c.tt = "word" THEN AnnBody(T, m.pos + 2, Append(acc, Entry(c.val)))
     ELSE IF c.tt = "\"" THEN LET s == StringVal(T, m.pos + 1) IN
                              IF ~s.ok THEN s ELSE AnnBody(T, s.pos, Append(acc, Entry(s.v)))
     ELSE Bad(m.pos + 1)

(* ------------------------------ comments ----------------------------- *)
\* Documentation of the construct on line l: the whole-line comments directly
\* above it, then the comment at the end of its own line.  Comments at the end
\* of earlier lines belong to those lines.  What is taken is gone.
RECURSIVE Lowest(_, _)
Lowest(dom, l) == IF (l - 1) \in dom THEN Lowest(dom, l - 1) ELSE l
Take(P, l) ==
  LET dom0 == DOMAIN P.com \ { k \in P.trail : k < l }
      lo   == Lowest(dom0, l)
      ls   == [ i \in 1..(l - lo) |-> lo + i - 1 ] \o (IF l \in dom0 THEN << l >> ELSE << >>)
      txt  == SelectSeq([ i \in 1..Len(ls) |-> P.com[ls[i]] ], LAMBDA c : ~StartsWith(c, "!"))
      rest == dom0 \ (lo..l)
  IN [com |-> [ k \in rest |-> P.com[k] ], txt |-> IF txt = << "" >> THEN << >> ELSE txt]

\* a method is documented on the lines of its annotations and on its own
TakeAll(P, lines) ==
  FoldLeft(LAMBDA a, l : LET t == Take([P EXCEPT !.com = a.com], l) IN [com |-> t.com, txt |-> a.txt \o t.txt],
           [com |-> P.com, txt |-> << >>], lines)

(* ------------------------------- machine ----------------------------- *)
PInit(toks) ==
  LET cr == CommentRun(toks) IN
  [toks |-> toks, com |-> ComFun(cr.com), trail |-> cr.trail, pos |-> 1, ctl |-> "default",
   node |-> << >>, nodes |-> << >>, anns |-> << >>, err |-> << >>]

FailAt(P, p) == LET c == Cur(P.toks, p) IN
  [P EXCEPT !.ctl = "fail", !.pos = p, !.err = << c.line, c.col, c.val >>]
Goto(P, ctl, p) == [P EXCEPT !.ctl = ctl, !.pos = p]
Emit(P, n, p) == [P EXCEPT !.nodes = Append(@, n), !.node = << >>, !.ctl = "default", !.pos = p]

Header(P) ==
  LET T == P.toks
      m == Match(T, P.pos, << "word", "ws", "=", "ws" >>)
      v == Literal(T, m.pos)
      e == Eol(T, v.pos)
      tk == Take(P, m.v[1].line)
  IN IF ~m.ok THEN FailAt(P, m.pos) ELSE IF ~v.ok THEN FailAt(P, v.pos) ELSE IF ~e.ok THEN FailAt(P, e.pos)
     ELSE Emit([P EXCEPT !.com = tk.com], [k |-> "def", key |-> m.v[1].val, val |-> v.v], Adv(T, e.pos))

ImportStart(P) ==
  LET T == P.toks
      m == Match(T, P.pos, << "word", "eol" >>)
      w == Match(T, m.pos, << "ws" >>)
      v == PathVal(T, w.pos)
  IN IF m.ok THEN Goto(P, "implist", m.pos)
     ELSE IF ~v.ok THEN FailAt(P, v.pos)
     ELSE [Goto(P, "impmem", v.pos) EXCEPT !.node = [k |-> "imp", path |-> v.v, members |-> << >>]]

ErrorLine(P) ==
  LET T == P.toks
      m == Match(T, P.pos, << "word", "ws", "word", "ws", "word", "ws" >>)
      c == Cur(T, m.pos)
      s == StringVal(T, m.pos)
      msg == IF c.tt = "\"" THEN s ELSE IF c.tt = "word" THEN Ok(m.pos + 1, c.val) ELSE Bad(m.pos)
      h == Match(T, msg.pos, << "ws", "word" >>)
      n == Match(T, h.pos, << "ws", "word" >>)
      e0 == Eol(T, msg.pos)
      e1 == Eol(T, n.pos)
      N(has, st) == [k |-> "err", code |-> m.v[3].val, name |-> m.v[5].val, msg |-> msg.v, has |-> has, http |-> st]
  IN IF ~m.ok THEN FailAt(P, m.pos)
     ELSE IF ~IsDigits(m.v[3].val) THEN FailAt(P, m.pos)
     ELSE IF ~msg.ok THEN FailAt(P, msg.pos)
     ELSE IF ~h.ok THEN (IF e0.ok THEN Emit(P, N(FALSE, ""), e0.pos) ELSE FailAt(P, e0.pos))
     ELSE IF h.v[2].val # "HTTP" THEN FailAt(P, h.pos - 1)
     ELSE IF ~n.ok THEN FailAt(P, n.pos)
     ELSE IF ~IsDigits(n.v[2].val) THEN FailAt(P, n.pos - 1)
     ELSE IF ~e1.ok THEN FailAt(P, e1.pos)
     ELSE Emit(P, N(TRUE, n.v[2].val), e1.pos)

EnumStart(P) ==
  LET T == P.toks
      m == Match(T, P.pos, << "word", "ws", "word", ":", "ws", "word", "eol" >>)
  IN IF ~m.ok THEN FailAt(P, m.pos)
     ELSE LET tk == Take(P, m.v[1].line) IN
          [Goto(P, "enum", m.pos) EXCEPT !.com = tk.com,
             !.node = [k |-> "enum", name |-> m.v[3].val, type |-> m.v[6].val, vals |-> << >>]]

EnumMember(P) ==
  LET T == P.toks
      m == Match(T, P.pos, << "-", "ws", "word" >>)
      q == Match(T, m.pos, << "ws", "=", "ws" >>)
      v == IF q.ok THEN Literal(T, q.pos) ELSE Ok(m.pos, "")
  IN IF ~m.ok THEN FailAt(P, m.pos) ELSE IF ~v.ok THEN FailAt(P, v.pos)
     ELSE LET tk == Take(P, m.v[1].line) IN
          [Goto(P, "enum", v.pos) EXCEPT !.com = tk.com,
             !.node.vals = Append(@, [name |-> m.v[3].val, val |-> v.v, com |-> tk.txt])]

AliasStart(P) ==
  LET T == P.toks
      m == Match(T, P.pos, << "word", "ws", "word", ":", "ws" >>)
      t == TypeExpr(T, m.pos)
  IN IF ~m.ok THEN FailAt(P, m.pos) ELSE IF ~t.ok THEN FailAt(P, t.pos)
     ELSE LET tk == Take(P, m.v[1].line) IN
          [Goto(P, "alias", t.pos) EXCEPT !.com = tk.com,
             !.node = [k |-> "alias", name |-> m.v[3].val, type |-> t.v, meta |-> << >>, com |-> tk.txt]]

StructStart(P) ==
  LET m == Match(P.toks, P.pos, << "word", "ws", "word" >>) IN
  IF ~m.ok THEN FailAt(P, m.pos)
  ELSE LET tk == Take(P, m.v[1].line) IN
       [Goto(P, "struct", m.pos) EXCEPT !.com = tk.com,
          !.node = [k |-> "struct", name |-> m.v[3].val, fields |-> << >>, com |-> tk.txt]]

StructField(P) ==
  LET T == P.toks
      m == Match(T, P.pos, << "-", "ws", "word" >>)
      q == Match(T, m.pos, << "?" >>)
      c == Match(T, IF q.ok THEN q.pos ELSE m.pos, << ":", "ws" >>)
      t == TypeExpr(T, c.pos)
  IN IF ~m.ok THEN FailAt(P, m.pos) ELSE IF ~c.ok THEN FailAt(P, c.pos) ELSE IF ~t.ok THEN FailAt(P, t.pos)
     ELSE LET tk == Take(P, m.v[1].line) IN
          [Goto(P, "field", t.pos) EXCEPT !.com = tk.com,
             !.node.fields = Append(@, [name |-> m.v[3].val, type |-> t.v, opt |-> q.ok, meta |-> << >>, com |-> tk.txt])]

ServiceStart(P) ==
  LET T == P.toks
      m == Match(T, P.pos, << "word", "ws" >>)
      v == Literal(T, m.pos)
      e == Eol(T, v.pos)
  IN IF ~v.ok THEN FailAt(P, v.pos) ELSE IF ~e.ok THEN FailAt(P, e.pos)
     ELSE LET tk == Take(P, m.v[1].line) IN
          [Goto(P, "service", e.pos) EXCEPT !.com = tk.com,
             !.node = [k |-> "service", name |-> v.v, methods |-> << >>, com |-> tk.txt]]

MethodLine(P) ==
  LET T == P.toks
      A == P.anns
      dup == \E i, j \in 1..Len(A) : i < j /\ A[i].key = A[j].key
      m == Match(T, P.pos, << "-", "ws", "word" >>)
      kw == m.v[3].val
      nx == Match(T, m.pos, << "ws", "word" >>)
      marked == kw \in {"stream", "proxy"}
      name == IF marked THEN nx.v[2].val ELSE kw
      p0 == IF marked THEN nx.pos ELSE m.pos
      tk == TakeAll(P, [ i \in 1..Len(A) |-> A[i].line ] \o << m.v[1].line >>)
      ins == ArgList(T, p0)
      rk == Match(T, ins.pos, << "ws", "=>", "ws" >>)
      st == Match(T, rk.pos, << "word", "ws" >>)
      outs == ArgList(T, IF st.ok THEN st.pos ELSE rk.pos)
      p1 == IF rk.ok THEN outs.pos ELSE ins.pos
      ew == Match(T, p1, << "ws", "word" >>)
      el == ErrList(T, ew.pos)
      anns == [ i \in 1..Len(A) |-> << A[i].key, A[i].key, A[i].val >> ]
      Done(M, p) == [Goto(P, "service", p) EXCEPT !.com = tk.com, !.anns = << >>, !.node.methods = Append(@, M)]
      M0 == [name |-> name, ann |-> anns, com |-> tk.txt, sin |-> kw = "stream", sout |-> FALSE,
             ins |-> << >>, outs |-> << >>, errs |-> << >>]
  IN IF dup THEN FailAt(P, P.pos)
     ELSE IF ~m.ok THEN FailAt(P, m.pos)
     ELSE IF marked /\ ~nx.ok THEN FailAt(P, nx.pos)
     ELSE IF kw = "proxy" THEN Done(M0, p0)
     ELSE IF ~ins.ok THEN FailAt(P, ins.pos)
     ELSE IF rk.ok /\ st.ok /\ st.v[1].val # "stream" THEN FailAt(P, st.pos)
     ELSE IF rk.ok /\ ~outs.ok THEN FailAt(P, outs.pos)
     ELSE IF ew.ok /\ ew.v[2].val # "errors" THEN FailAt(P, ew.pos - 1)
     ELSE IF ew.ok /\ ~el.ok THEN FailAt(P, el.pos)
     ELSE Done([M0 EXCEPT !.ins = ins.v, !.outs = IF rk.ok THEN outs.v ELSE << >>,
                          !.sout = rk.ok /\ st.ok, !.errs = IF ew.ok THEN el.v ELSE << >>],
               IF ew.ok THEN el.pos ELSE p1)

Layout == {"ws", "nl"}

PStep(P) ==
  LET T == P.toks
      p == P.pos
      t == Cur(T, p)
      Skip == CASE t.tt \in Layout -> [P EXCEPT !.pos = p + 1]
                [] OTHER -> [P EXCEPT !.pos = ToEol(T, p)]
      skip == t.tt \in Layout \cup {"#"}
  IN
  IF skip THEN Skip
  ELSE CASE P.ctl = "default" ->
         (CASE t.tt = "eof" -> [P EXCEPT !.ctl = "done"]
            [] t.tt # "word" -> FailAt(P, p)
            [] t.val \in {"webrpc", "name", "version", "basepath"} -> Header(P)
            [] t.val = "import" -> ImportStart(P)
            [] t.val = "error" -> ErrorLine(P)
            [] t.val = "enum" -> EnumStart(P)
            [] t.val = "type" -> AliasStart(P)
            [] t.val = "struct" -> StructStart(P)
            [] t.val = "service" -> ServiceStart(P)
            [] OTHER -> FailAt(P, p))
     [] P.ctl = "implist" ->
         (IF t.tt # "-" THEN Goto(P, "default", p)
          ELSE LET m == Match(T, p, << "-", "ws" >>)
                   v == PathVal(T, m.pos) IN
               IF ~v.ok THEN FailAt(P, v.pos)
               ELSE [Emit(P, [k |-> "imp", path |-> v.v, members |-> << >>], v.pos) EXCEPT !.ctl = "implist"])
     [] P.ctl = "impmem" ->
         (IF t.tt # "-" THEN Emit(P, P.node, p)
          ELSE LET m == Match(T, p, << "-", "ws" >>)
                   v == Literal(T, m.pos) IN
               IF ~v.ok THEN FailAt(P, v.pos)
               ELSE [P EXCEPT !.pos = v.pos, !.node.members = Append(@, v.v)])
     [] P.ctl = "enum" -> (IF t.tt # "-" THEN Emit(P, P.node, p) ELSE EnumMember(P))
     [] P.ctl = "alias" ->
         (IF t.tt # "+" THEN Emit(P, P.node, p)
          ELSE LET m == MetaLine(T, p) IN
               IF ~m.ok THEN FailAt(P, m.pos) ELSE [P EXCEPT !.pos = m.pos, !.node.meta = Append(@, m.v)])
     [] P.ctl = "struct" -> (IF t.tt # "-" THEN Emit(P, P.node, p) ELSE StructField(P))
     [] P.ctl = "field" ->
         (IF t.tt # "+" THEN Goto(P, "struct", p)
          ELSE LET m == MetaLine(T, p) IN
               IF ~m.ok THEN FailAt(P, m.pos)
               ELSE [P EXCEPT !.pos = m.pos, !.node.fields[Len(P.node.fields)].meta = Append(@, m.v)])
     [] P.ctl = "service" ->
         (CASE t.tt = "@" -> LET a == AnnBody(T, p, << >>) IN
                             IF ~a.ok THEN FailAt(P, a.pos)
                             ELSE IF a.pos = p THEN FailAt(P, p)
                             ELSE [P EXCEPT !.pos = a.pos, !.anns = @ \o a.v]
            [] t.tt = "-" -> MethodLine(P)
            [] P.anns # << >> -> FailAt(P, p)
            [] OTHER -> Emit(P, P.node, p))

RECURSIVE PRun(_)
PRun(P) == IF P.ctl \in {"done", "fail"} THEN P ELSE PRun(PStep(P))
ParseDoc(chars) == PRun(PInit(LexTokens(chars)))
=============================================================================

-------------------------------- MODULE Open --------------------------------
(***************************************************************************)
(* Opening a schema by the name of its file.  A file system is a sequence  *)
(* of records [path, chars, raw]: the clean path without the leading       *)
(* slash, the characters, and (for JSON) what the text says.               *)
(***************************************************************************)
EXTENDS Ops

AbsPath(cwd, p) == IF StartsWith(p, "/") THEN Clean(p) ELSE Clean(cwd \o "/" \o p)
\* Clean of a rooted path: nothing is above the root
Root_(p) == Join(SelectSeq(CleanSeg(Split(p, "/"), 1, << >>), LAMBDA s : s # ".."), "/")
LastSeg(p) == LET s == Split(p, "/") IN s[Len(s)]
RECURSIVE ExtFrom(_, _)
ExtFrom(s, i) == IF i = 0 THEN "" ELSE IF Ch(s, i) = "." THEN From(s, i) ELSE ExtFrom(s, i - 1)
Ext(p) == LET s == LastSeg(p) IN ExtFrom(s, Len(s))

Out(st, pos, chain, s) == [st |-> st, pos |-> pos, chain |-> chain, s |-> s]

\* what parsing RIDL files must lead to
RidlOutcome(files, root) ==
  LET r == ParseFiles(files, root) IN
  CASE r.st = "ok" -> Out("ok", << >>, << >>, View(r.S))
    [] OTHER -> Out(IF r.st = "syn" THEN "syn" ELSE "err", r.pos,
                    IF Len(r.chain) = 1 THEN << >> ELSE [ i \in 1..Len(r.chain) |-> Rooted(r.chain[i]) ], << >>)
\* what parsing a JSON schema must lead to
JsonOutcome(raw) == IF ~raw.bad /\ WellFormed(raw) THEN Out("ok", << >>, << >>, View(raw)) ELSE Out("err", << >>, << >>, << >>)

Refused == Out("err", << >>, << >>, << >>)
OpenPath(cwd, p) == Root_(AbsPath(cwd, p))
OpenOutcome(files, cwd, p) ==
  LET a == OpenPath(cwd, p)
      i == FileIx(files, a)
  IN CASE Ext(a) = ".ridl" -> RidlOutcome(files, a)
       [] Ext(a) = ".json" -> IF Found(i) THEN JsonOutcome(files[i].raw) ELSE Refused
       [] OTHER -> Refused
OpenRaw(files, cwd, p) ==
  LET a == OpenPath(cwd, p) IN
  IF Ext(a) = ".ridl" THEN ParseFiles(files, a).S ELSE files[FileIx(files, a)].raw
=============================================================================

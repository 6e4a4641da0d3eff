-------------------------------- MODULE Ridl --------------------------------
(***************************************************************************)
(* From RIDL files to a schema: what each declaration contributes, and how *)
(* imported files are merged.  A file system is a sequence of records      *)
(* [path, chars]; Load follows the imports depth first, carrying the chain *)
(* of files being read (newest first) and the files already finished.      *)
(***************************************************************************)
EXTENDS Parser, Schema

(* ------------------------------- paths ------------------------------- *)
RECURSIVE CleanSeg(_, _, _)
CleanSeg(segs, i, acc) ==
  IF i > Len(segs) THEN acc
  ELSE LET s == segs[i] IN
    CleanSeg(segs, i + 1,
      CASE s \in {"", "."} -> acc
        [] s = ".." -> IF acc # << >> /\ acc[Len(acc)] # ".." THEN SubSeq(acc, 1, Len(acc) - 1) ELSE Append(acc, s)
        [] OTHER -> Append(acc, s))
Clean(p) == LET c == CleanSeg(Split(p, "/"), 1, << >>) IN IF c = << >> THEN "." ELSE Join(c, "/")
DirOf(p) == LET segs == Split(p, "/") IN Join(SubSeq(segs, 1, Len(segs) - 1), "/")
Resolve(from, p) == Clean(DirOf(from) \o "/" \o p)
Rooted(p) == "/" \o Join(SelectSeq(CleanSeg(Split(p, "/"), 1, << >>), LAMBDA s : s # ".."), "/")
ValidPath(p) == p = "." \/ (p # "" /\ \A i \in 1..Len(Split(p, "/")) : Split(p, "/")[i] \notin {"", ".", ".."})

(* --------------------------- declarations ---------------------------- *)
ByKind(nodes, k) == SelectSeq(nodes, LAMBDA n : n.k = k)

LowerFirst(s) == IF s = "" THEN "" ELSE LowerChar(Ch(s, 1)) \o From(s, 2)

\* header lines: each key at most once with a non-empty value
HeaderVal(defs, key) == LET d == SelectSeq(defs, LAMBDA n : n.key = key) IN IF d = << >> THEN "" ELSE d[Len(d)].val
HeadersOk(defs) == \A i, j \in 1..Len(defs) : i < j => defs[i].key # defs[j].key

AliasDecl(n, id) == [id |-> id, kind |-> "alias", name |-> n.name, has |-> TRUE, type |-> n.type,
                     fields |-> << >>, meta |-> n.meta, com |-> n.com]
EnumField(n, i) ==
  LET v == n.vals[i] IN
  [name |-> v.name, has |-> FALSE, type |-> "", opt |-> FALSE,
   val |-> IF v.val # "" THEN v.val ELSE IF n.type = "string" THEN v.name ELSE Num2Str(i - 1),
   meta |-> << >>, com |-> v.com]
EnumDecl(n, id) == [id |-> id, kind |-> "enum", name |-> n.name, has |-> TRUE, type |-> n.type,
                    fields |-> [ i \in 1..Len(n.vals) |-> EnumField(n, i) ], meta |-> << >>, com |-> << >>]
StructFieldDecl(f) == [name |-> f.name, has |-> TRUE, type |-> f.type, opt |-> f.opt, val |-> "", meta |-> f.meta, com |-> f.com]
StructDecl(n, id) == [id |-> id, kind |-> "struct", name |-> n.name, has |-> FALSE, type |-> "",
                      fields |-> [ i \in 1..Len(n.fields) |-> StructFieldDecl(n.fields[i]) ], meta |-> << >>, com |-> n.com]
ErrorDecl(n, id) == [id |-> id, code |-> StripZeros(n.code), name |-> n.name, msg |-> n.msg,
                     http |-> IF n.has THEN StripZeros(n.http) ELSE "400"]

\* Method(Req) => (Resp): a single bare struct name instead of arguments
Inline(args) == Len(args) = 1 /\ args[1].inl
ArgDecl(a) == IF a.inl THEN [name |-> "", has |-> FALSE, type |-> "", opt |-> FALSE]
              ELSE [name |-> a.name, has |-> TRUE, type |-> a.type, opt |-> a.opt]
ArgsDecl(args) == IF Inline(args) THEN << [name |-> LowerFirst(args[1].name), has |-> TRUE, type |-> args[1].name, opt |-> FALSE] >>
                  ELSE [ i \in 1..Len(args) |-> ArgDecl(args[i]) ]
InlineOk(types, args) == Inline(args) => LET i == TypeIx(types, args[1].name) IN Found(i) /\ types[i].kind = "struct"
MethodDeclOk(types, m) == /\ InlineOk(types, m.ins) /\ InlineOk(types, m.outs)
                          /\ Inline(m.ins) <=> Inline(m.outs)
MethodDecl(m) == [name |-> m.name, ann |-> m.ann, com |-> m.com, suc |-> Inline(m.ins) /\ Inline(m.outs),
                  sin |-> m.sin, sout |-> m.sout, ins |-> ArgsDecl(m.ins), outs |-> ArgsDecl(m.outs), errs |-> m.errs]
ServiceDecl(n, id) == [id |-> id, name |-> n.name, com |-> n.com,
                       methods |-> [ i \in 1..Len(n.methods) |-> MethodDecl(n.methods[i]) ]]

\* the file's own declarations appended to what its imports provided
Declare(path, nodes, base) ==
  LET Id(k, i) == path \o "#" \o k \o Num2Str(i)
      al == ByKind(nodes, "alias")  en == ByKind(nodes, "enum")  st == ByKind(nodes, "struct")
      er == ByKind(nodes, "err")    sv == ByKind(nodes, "service")  df == ByKind(nodes, "def")
      types == base.types \o [ i \in 1..Len(al) |-> AliasDecl(al[i], Id("a", i)) ]
                          \o [ i \in 1..Len(en) |-> EnumDecl(en[i], Id("e", i)) ]
                          \o [ i \in 1..Len(st) |-> StructDecl(st[i], Id("s", i)) ]
      ok == /\ HeadersOk(df)
            /\ \A i \in 1..Len(er) : NumLeq(StripZeros(er[i].code), MaxInt32)
            /\ \A i \in 1..Len(sv) : \A j \in 1..Len(sv[i].methods) : MethodDeclOk(types, sv[i].methods[j])
  IN [ok |-> ok,
      S |-> [webrpc |-> HeaderVal(df, "webrpc"), name |-> HeaderVal(df, "name"),
             version |-> HeaderVal(df, "version"), basepath |-> HeaderVal(df, "basepath"),
             types |-> types,
             errors |-> base.errors \o [ i \in 1..Len(er) |-> ErrorDecl(er[i], Id("x", i)) ],
             services |-> base.services \o [ i \in 1..Len(sv) |-> ServiceDecl(sv[i], Id("v", i)) ]]]

(* ------------------------------ imports ------------------------------ *)
Empty == [types |-> << >>, errors |-> << >>, services |-> << >>]
Allowed(name, members) == members = << >> \/ \E i \in 1..Len(members) : members[i] = name
AddAll(have, more, members) ==
  FoldLeft(LAMBDA acc, d : IF Allowed(d.name, members) /\ \A i \in 1..Len(acc) : acc[i].id # d.id
                           THEN Append(acc, d) ELSE acc, have, more)
Merge(base, S, members) ==
  [types |-> AddAll(base.types, S.types, members), errors |-> AddAll(base.errors, S.errors, members),
   services |-> AddAll(base.services, S.services, members)]

FileIx(files, path) == LET ixs == { i \in 1..Len(files) : files[i].path = path } IN
                       IF ixs = {} THEN 0 ELSE CHOOSE i \in ixs : TRUE

\* results: st "ok" / "syn" (syntax error at pos) / "cyc" / "sem"; at = file in which it happened
Failure(st, chain, pos, cache) == [st |-> st, chain |-> chain, pos |-> pos, S |-> Empty, cache |-> cache]

RECURSIVE Load(_, _, _), LoadImports(_, _, _, _, _, _)
Load(files, chain, cache) ==      \* chain[1] is the file to read
  LET path == chain[1]
      fi == FileIx(files, path)
  IN IF ~ValidPath(path) \/ ~Found(fi) THEN Failure("sem", chain, << >>, cache)
     ELSE LET P == ParseDoc(files[fi].chars) IN
       IF P.ctl = "fail" THEN Failure("syn", chain, P.err, cache)
       ELSE IF ~HeadersOk(ByKind(P.nodes, "def")) THEN Failure("sem", chain, << >>, cache)
       ELSE LET r == LoadImports(files, chain, ByKind(P.nodes, "imp"), 1, Empty, cache) IN
         IF r.st # "ok" THEN r
         ELSE LET d == Declare(path, P.nodes, r.S) IN
              IF d.ok /\ WellFormed(d.S)
              THEN [st |-> "ok", chain |-> chain, pos |-> << >>,
                    S |-> [d.S EXCEPT !.basepath = NormBase(@)], cache |-> r.cache]
              ELSE Failure("sem", chain, << >>, r.cache)
LoadImports(files, chain, imps, i, base, cache) ==
  IF i > Len(imps) THEN [st |-> "ok", chain |-> chain, pos |-> << >>, S |-> base, cache |-> cache]
  ELSE LET target == Resolve(chain[1], imps[i].path)
           known == { k \in 1..Len(cache) : cache[k][1] = target }
       IN IF known # {} THEN
            LoadImports(files, chain, imps, i + 1,
                        Merge(base, cache[CHOOSE k \in known : TRUE][2], imps[i].members), cache)
          ELSE IF \E k \in 1..Len(chain) : chain[k] = target THEN Failure("cyc", chain, << >>, cache)
          ELSE LET r == Load(files, << target >> \o chain, cache) IN
               IF r.st # "ok" THEN r
               ELSE LoadImports(files, chain, imps, i + 1, Merge(base, r.S, imps[i].members),
                                Append(r.cache, << target, r.S >>))

ParseFiles(files, root) == Load(files, << root >>, << >>)
=============================================================================

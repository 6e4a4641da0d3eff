------------------------------- MODULE MCPaths ------------------------------
(***************************************************************************)
(* Every spelling of a path by up to MaxLen segments, absolute or relative *)
(* to any directory of a small tree.  The oracle walks the directory tree  *)
(* segment by segment.                                                     *)
(***************************************************************************)
EXTENDS Open, Model
CONSTANTS MaxLen

Segs == << "..", ".", "", "a", "b", "r.ridl", "n.json", "s.ridl.txt", ".ridl", "up.ridl", "d.ridl" >>
Cwds == << "/D", "/D/a", "/D/a/b" >>
Hdr(n) == "webrpc = v1\nname = " \o n \o "\nversion = v1\n"
Raw == [bad |-> FALSE, webrpc |-> "v1", name |-> "n", version |-> "", basepath |-> "", types |-> << >>, errors |-> << >>, services |-> << >>]
NoRaw == [bad |-> TRUE]
TextOf(d, n) ==
  CASE n = "r.ridl" -> Hdr(d \o n) \o (IF d = "D" THEN "" ELSE "import ../up.ridl\n") \o "struct R\n"
    [] n = "up.ridl" -> Hdr(d \o n) \o "struct Up\n  - d: string # " \o d \o "\n"
    [] OTHER -> Hdr(d \o n)
Dirs == << "D", "D/a", "D/a/b" >>
Names == << "r.ridl", "n.json", "s.ridl.txt", ".ridl", "up.ridl" >>
AllFiles == [ k \in 1..15 |-> LET d == Dirs[((k - 1) \div 5) + 1] n == Names[((k - 1) % 5) + 1] IN
               [path |-> d \o "/" \o n, text |-> TextOf(d, n), raw |-> IF n = "n.json" THEN Raw ELSE NoRaw] ]
FS == [ k \in 1..15 |-> [path |-> AllFiles[k].path, chars |-> Chars(AllFiles[k].text), raw |-> AllFiles[k].raw] ]

VARIABLES cwd, abs, segs
vars == << cwd, abs, segs >>
Init == cwd \in 1..3 /\ abs \in BOOLEAN /\ segs = << >> /\ (abs => cwd \in {1, 3})
Next == /\ Len(segs) < MaxLen
        /\ \E k \in 1..Len(Segs) : segs' = Append(segs, Segs[k])
        /\ UNCHANGED << cwd, abs >>
Spec == Init /\ [][Next]_vars
Spelled == (IF abs THEN "/D/" ELSE "") \o Join(segs, "/")
\* a walk through the tree: the directory reached as a stack of names
Walk == FoldLeft(LAMBDA st, s : IF s \in {"", "."} THEN st ELSE IF s = ".." THEN (IF st = << >> THEN st ELSE SubSeq(st, 1, Len(st) - 1)) ELSE Append(st, s),
                 IF abs THEN << "D" >> ELSE Tail(Split(Cwds[cwd], "/")), segs)
Starts == Len(segs) > 0 /\ (abs \/ segs[1] # "")
Escapes == Walk = << >> \/ Walk[1] # "D"
O == OpenOutcome(FS, Cwds[cwd], Spelled)
PathInv == Starts => OpenPath(Cwds[cwd], Spelled) = Join(Walk, "/")
OpenInv == Starts => LET o == O w == Join(Walk, "/") n == IF Walk = << >> THEN "" ELSE Walk[Len(Walk)] IN
   /\ o.st = "ok" <=> \E k \in 1..15 : FS[k].path = w /\ n # "s.ridl.txt"
   /\ o.st = "ok" => o.s.name = (IF n = "n.json" THEN "n" ELSE Join(SubSeq(Walk, 1, Len(Walk) - 1), "/") \o n)
   /\ (o.st = "ok" /\ n = "r.ridl") => Len(o.s.types) = IF Len(Walk) = 2 THEN 1 ELSE 2
Emitted == (Starts /\ ~Escapes) =>
   PrintT("CASE " \o ToJson([kind |-> "file", cwd |-> Cwds[cwd], root |-> (IF abs THEN "{dir}/" ELSE "") \o Join(segs, "/"),
                             files |-> IF segs = << >> THEN << >> ELSE AllFiles, ops |-> IF Len(segs) < 3 THEN << OpExport >> ELSE << >>]))
=============================================================================

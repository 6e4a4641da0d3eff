------------------------------ MODULE MCCache -------------------------------
(***************************************************************************)
(* Histories of up to MaxRuns runs over two targets of one repository, one *)
(* of them under two names.  Before each run something may change at the   *)
(* sources, and time may pass.  Each complete history is executed.         *)
(***************************************************************************)
EXTENDS Model, Cache
CONSTANTS MaxRuns, Ages, Cuts

Targets == << "Foo", "github.com/webrpc/gen-foo", "github.com/webrpc/gen-foo@v1.0" >>
Srcs == { SourceOf(Targets[i]) : i \in 1..Len(Targets) }
Shapes == << << >>, << "n", "z" >>, << "x", "z" >> >>

VARIABLES hist, remote, kept, out, past    \* kept: possible states; out: the outcome of the last run; past: versions published
vars == << hist, remote, kept, out, past >>
NoOut == [st |-> "", t |-> "", refresh |-> FALSE, cut |-> "", o |-> Failed(""), K |-> {}]
S_(op) == [op |-> op, t |-> "", v |-> NoVersion, n |-> 0, refresh |-> FALSE, cut |-> ""]
RunsIn(h) == Cardinality({ i \in 1..Len(h) : h[i].op = "run" })
Version(h, k) == [id |-> ToString(Len(h) + 1), files |-> Shapes[k], bad |-> FALSE]

Init == /\ hist = << >> /\ remote = Remote0(Srcs) /\ kept = [ q \in Srcs |-> {Empty_} ]
        /\ out = NoOut /\ past = [ q \in Srcs |-> {} ]
\* sources change, time passes, a run: in this order
Prev == IF hist = << >> THEN "run" ELSE hist[Len(hist)].op
Publish == /\ Prev = "run"
           /\ \E k \in 1..Len(Shapes), t \in {2, 3} :
                LET s == [S_("publish") EXCEPT !.t = Targets[t], !.v = Version(hist, k)] IN
                /\ hist' = Append(hist, s) /\ remote' = Env(remote, s)
                /\ past' = [past EXCEPT ![SourceOf(s.t)] = @ \cup {s.v}]
           /\ out' = NoOut /\ UNCHANGED kept
Break == /\ Prev = "run"
         /\ \E t \in {2, 3} : /\ remote[SourceOf(Targets[t])].up
                              /\ LET s == [S_("break") EXCEPT !.t = Targets[t]] IN hist' = Append(hist, s) /\ remote' = Env(remote, s)
         /\ out' = NoOut /\ UNCHANGED << kept, past >>
Wait_ == /\ Prev \in {"publish", "break", "run"} /\ \E q \in Srcs : kept[q] # {Empty_}
         /\ \E n \in Ages : /\ hist' = Append(hist, [S_("wait") EXCEPT !.n = n])
                            /\ kept' = [ q \in Srcs |-> { Older(k, n) : k \in kept[q] } ]
         /\ out' = NoOut /\ UNCHANGED << remote, past >>
Run_ == \E t \in 1..Len(Targets), f \in BOOLEAN, c \in Cuts :
          LET s == [S_("run") EXCEPT !.t = Targets[t], !.refresh = f, !.cut = c]
              src == SourceOf(Targets[t])
          IN \E o \in { x[1] : x \in UNION { Runs(remote[src], k, s) : k \in kept[src] } } :
               /\ past # [ q \in Srcs |-> {} ]
               /\ hist' = Append(hist, s)
               /\ out' = [st |-> "run", t |-> src, refresh |-> f, cut |-> c, o |-> o, K |-> kept[src]]
               /\ kept' = [kept EXCEPT ![src] = { x[2] : x \in { x \in UNION { Runs(remote[src], k, s) : k \in @ } : x[1] = o } }]
               /\ UNCHANGED << remote, past >>
Next == RunsIn(hist) < MaxRuns /\ (Publish \/ Break \/ Wait_ \/ Run_)
Spec == Init /\ [][Next]_vars

\* what is printed comes from one version, published for this target
OneVersionInv == out.o.st = "ok" => \E v \in past[out.t] : out.o = Made(v, out.o.fetched)
\* asked to, or with nothing kept, it is the one published last
FreshInv == (out.o.st = "ok" /\ remote[out.t].up /\ (out.refresh \/ out.K = {Empty_})) => out.o = Made(remote[out.t].v, TRUE)
\* a source that cannot be reached does no harm while something is kept
KeptInv == (out.st = "run" /\ out.cut # "none" /\ ~remote[out.t].up /\ Empty_ \notin { [k EXCEPT !.age = 0] : k \in out.K }) => out.o.st = "ok"
\* what is kept is one version, too, whatever was cut off
WholeInv == \A q \in Srcs : \A k \in kept[q] : k.has => k.v \in past[q]
Emitted == (RunsIn(hist) = MaxRuns) => PrintT("CASE " \o ToJson([kind |-> "cache", steps |-> hist]))
=============================================================================

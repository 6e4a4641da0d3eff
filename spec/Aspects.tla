------------------------------- MODULE Aspects ------------------------------
(***************************************************************************)
(* The parts of a schema view, so that a difference between what the       *)
(* specification requires and what the code did can be attributed.         *)
(***************************************************************************)
EXTENDS Ridl

Map(f(_), s) == [ i \in 1..Len(s) |-> f(s[i]) ]

HeaderPart(v) == << v.webrpc, v.name, v.version >>
TypePart(v) == Map(LAMBDA t : << t.kind, t.name, t.meta,
                     Map(LAMBDA f : << f.name, f.opt, f.val, f.meta >>, t.fields) >>, v.types)
ErrorPart(v) == v.errors
ArgShape(a) == << a.name, a.opt >>
ServicePart(v) == Map(LAMBDA s : << s.name, Map(LAMBDA m : << m.name, m.ann, m.suc, m.sin, m.sout,
                     Map(ArgShape, m.ins), Map(ArgShape, m.outs), m.errs >>, s.methods) >>, v.services)
ArgType(a) == a.type
VarTypePart(v) == << Map(LAMBDA t : << t.type, Map(LAMBDA f : f.type, t.fields) >>, v.types),
                     Map(LAMBDA s : Map(LAMBDA m : << Map(ArgType, m.ins), Map(ArgType, m.outs) >>, s.methods), v.services) >>
CommentPart(v) == << Map(LAMBDA t : << t.com, Map(LAMBDA f : f.com, t.fields) >>, v.types),
                     Map(LAMBDA s : << s.com, Map(LAMBDA m : m.com, s.methods) >>, v.services) >>

\* annotations are logged in some order; they are a set
Logged(v) ==
  [v EXCEPT !.services = Map(LAMBDA s : [s EXCEPT !.methods = Map(LAMBDA m : [m EXCEPT !.ann = Elems(@)], s.methods)], @)]

ViewDiff(a, b) ==
  (IF HeaderPart(a) = HeaderPart(b) THEN {} ELSE {"header"}) \cup
  (IF a.basepath = b.basepath THEN {} ELSE {"basepath"}) \cup
  (IF TypePart(a) = TypePart(b) THEN {} ELSE {"types"}) \cup
  (IF ErrorPart(a) = ErrorPart(b) THEN {} ELSE {"errors"}) \cup
  (IF ServicePart(a) = ServicePart(b) THEN {} ELSE {"services"}) \cup
  (IF VarTypePart(a) = VarTypePart(b) THEN {} ELSE {"vartypes"}) \cup
  (IF CommentPart(a) = CommentPart(b) THEN {} ELSE {"comments"})

\* exp and obs are outcomes [st, pos, chain, s]
OutcomeDiff(exp, obs) ==
  IF exp.st # obs.st THEN {exp.st \o ">" \o obs.st}
  ELSE IF exp.st = "ok" THEN ViewDiff(exp.s, Logged(obs.s))
  ELSE (IF exp.st = "syn" /\ exp.pos # obs.pos THEN {"pos"} ELSE {}) \cup
       (IF exp.chain # obs.chain THEN {"chain"} ELSE {})
=============================================================================

------------------------------- MODULE MCSuite ------------------------------
(* servers that deviate from the reference API in up to MaxDeviations answers *)
EXTENDS Suite, Json, TLC
CONSTANTS MaxDeviations
VARIABLES ans, codes
vars == << ans, codes >>
Ways == {"error", "other", "fewer", "junk", "html", "drop"}
CodeWays == {"none", "name", "msg", "status", "code", "cause", "nocause", "html", "drop"}
Asked == RpcMethods \ {"GetSchemaError"}
Init == ans = [ m \in Asked |-> "ok" ] /\ codes = << >>
Deviations == Cardinality({ m \in Asked : ans[m] # "ok" }) + Len(codes)
Next == /\ Deviations < MaxDeviations
        /\ \/ \E m \in Asked, w \in Ways : ans[m] = "ok" /\ codes = << >> /\ ans' = [ans EXCEPT ![m] = w] /\ UNCHANGED codes
           \/ \E c \in {0, 1, 3, 100, 302}, w \in CodeWays : (\A i \in 1..Len(codes) : codes[i][1] < c) /\ codes' = Append(codes, << c, w >>) /\ UNCHANGED ans
Spec == Init /\ [][Next]_vars
(* the reference implementation passes its own suite *)
RefInv == Deviations = 0 => Verdict(ans, codes)
(* a call that passes may be answered as the reference does, without another verdict on the rest *)
MonotoneInv == \A m \in Asked : CallPasses(m, ans[m]) => Fails([ans EXCEPT ![m] = "ok"]) = Fails(ans)
(* every value the suite sends is one it was given *)
SentInv == \A c \in SuiteCalls(ans) : c[2] \in {"", "NONE", "OTHER"} \cup { RefValue[m] : m \in {"GetOne", "GetMulti", "GetComplex"} } \cup { CodeBody(x) : x \in RefCodes }
Emitted == PrintT("CASE " \o ToJson([answers |-> ans, codes |-> codes]))
=============================================================================

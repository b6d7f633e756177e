------------------------------- MODULE Common -------------------------------
(* Trace validation: the operations and observations recorded from the real    *)
(* code are read from the file named by the environment variable TRACE, one    *)
(* JSON record per line.  FOCUS names the property whose observations are      *)
(* compared.                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils, SequencesExt

VARIABLE i        \* next line of the trace

Log == ndJsonDeserialize(IOEnv.TRACE)
Focus == IOEnv.FOCUS
F(ids) == Focus \in ids \/ Focus = "ALL"

Chk(what, b) == IF b THEN TRUE ELSE PrintT(<<"MISMATCH", i, what>>) /\ FALSE
Eq(what, exp, got) == IF exp = got THEN TRUE ELSE PrintT(<<"MISMATCH", i, what, "expected", exp, "got", got>>) /\ FALSE

Holds(b) == IF b THEN TRUE ELSE FALSE     \* evaluated as a value, not as an action
Has(e, f) == f \in DOMAIN e
Get(e, f, d) == IF f \in DOMAIN e THEN e[f] ELSE d
(* functions with names as domain come from JSON objects; {"_":0} is the empty one *)
Fn(x) == [k \in DOMAIN x \ {"_"} |-> x[k]]
ToSet_(s) == { s[k] : k \in 1..Len(s) }
Restrict_(f, S) == [x \in DOMAIN f \cap S |-> f[x]]
Overlay(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Abs_(x) == IF x < 0 THEN -x ELSE x
Max_(a, b) == IF a > b THEN a ELSE b
Min_(a, b) == IF a < b THEN a ELSE b
SeqRemove(s, k) == SubSeq(s, 1, k-1) \o SubSeq(s, k+1, Len(s))

Bad == 77777777
Accepted == IF TLCGet("stats").diameter >= Len(Log) + 1 THEN TRUE
            ELSE PrintT(<<"REJECTED", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================

----------------------------- MODULE FilesTrace -----------------------------
EXTENDS Files, Common
E0 == [x \in {} |-> 0]
(* same file; the way it is written does not matter *)
Same(what, exp, got) == Chk(<<what, "expected", exp, "got", got>>, exp = got \/ (Target(exp) # Gone /\ Target(exp) = Target(got)))
Found(e, r) == IF r = None THEN Eq("not found", FALSE, e.res.found) /\ Eq("name unchanged", e.p, e.res.p)
               ELSE Eq("found", TRUE, e.res.found) /\ Same("file", r, e.res.p)
Stay == UNCHANGED fvars
Tree == UNCHANGED <<cwd, dps, boot, keys, kv, rest>>
Uses == Use /\ UNCHANGED <<fs, cwd, keys, kv, rest>>
Texts == [x \in DOMAIN kv |-> kv[x].s]
Step(e) ==
  CASE e.op = "reset" -> /\ fs' = Fs0 /\ cwd' = <<>> /\ dps' = <<>> /\ boot' = [done |-> FALSE, simox |-> <<>>, vr |-> <<>>] /\ keys' = {} /\ kv' = E0 /\ rest' = <<>>
    [] e.op = "setenv" -> boot' = [boot EXCEPT ![e.var] = e.p] /\ UNCHANGED <<fs, cwd, dps, keys, kv, rest>>
    [] e.op = "mkdir" -> Put_(e.p, [k |-> "d", to |-> <<>>]) /\ Tree
    [] e.op = "mkfile" -> Put_(e.p, [k |-> "f", to |-> <<>>]) /\ Tree
    [] e.op = "mklink" -> Put_(e.p, [k |-> "l", to |-> e.to]) /\ Tree
    [] e.op = "rm" -> Del(e.p) /\ Tree
    [] e.op = "cd" -> cwd' = e.p /\ UNCHANGED <<fs, dps, boot, keys, kv, rest>>
    [] e.op = "adddp" -> Eq("data path accepted", AcceptedDp(e.p), e.res) /\ AddDp(e.p) /\ UNCHANGED <<fs, cwd, boot, keys, kv, rest>>
    [] e.op = "dps" -> Eq("data paths", dps \o BootPaths, e.res) /\ Uses
    [] e.op = "resolve" -> Found(e, ResolveB(e.p)) /\ Uses
    [] e.op = "key" -> keys' = keys \cup {e.k} /\ UNCHANGED <<fs, cwd, dps, boot, kv, rest>>
    [] e.op = "cmd" -> Eq("accepted", ~Parse(e.tok, A0).bad, e.ok) /\ CommandLine(e.tok)
    [] e.op = "kvset" -> SetValue(e.k, e.v, e.p) /\ UNCHANGED <<fs, cwd, dps, boot, keys, rest>>
    [] e.op = "kvget" -> /\ LET h == e.k \in DOMAIN kv  v == IF h THEN kv[e.k].s ELSE "" IN
                              Eq("value", [has |-> h, v |-> v, par |-> IF h THEN v ELSE e.d], e.res)
                         /\ Stay
    [] e.op = "kvall" -> Eq("values", Texts, Fn(e.res)) /\ Stay
    [] e.op = "rest" -> Eq("unrecognized", rest, e.res) /\ Stay
    [] e.op = "vfile" -> Same("file parameter", ValidFile(e.k, e.p), e.res) /\ (e.k \in DOMAIN kv \/ e.p # <<>> => dps' = dps \o BootPaths /\ boot' = Booted) /\ (~(e.k \in DOMAIN kv \/ e.p # <<>>) => UNCHANGED <<dps, boot>>) /\ UNCHANGED <<fs, cwd, keys, kv, rest>>
    [] e.op = "abs" -> (IF e.p = <<>> THEN Eq("nothing", <<>>, e.res) ELSE Same("absolute", e.b \o e.p, e.res)) /\ Stay
    [] e.op = "rel" -> /\ IF Abs(e.p) THEN /\ Chk(<<"relative", e.res>>, ~Abs(e.res))
                                           /\ Chk(<<"relative to base", e.b, e.p, e.res>>, LET n == Target(e.b \o e.res) IN n = Target(e.p))
                          ELSE Eq("relative name", e.p, e.res)
                       /\ Stay
    [] e.op = "relabs" -> Chk(<<"same file", e.p, e.res>>, Target(e.res) = Target(IF Abs(e.p) THEN e.p ELSE e.b \o e.p)) /\ Stay
    [] e.op = "fnode" -> /\ IF e.how = "elsewhere" THEN Eq("refused", FALSE, e.ok)
                            ELSE Eq("accepted", TRUE, e.ok) /\ Same("file tag", FileTag(e.b, e.p, e.how), e.res)
                         /\ IF e.how \in {"relative", "absolute", "elsewhere"} THEN Stay
                            ELSE IF Exists(e.p) \/ (~Abs(e.p) /\ Exists(e.b \o e.p)) THEN Stay ELSE Uses
    [] e.op = "tovec" -> /\ Eq("a vector", e.o /\ e.c /\ Len(e.l) = 3, e.res.ok)
                         /\ IF e.res.ok THEN Eq("vector", e.l, e.res.v) ELSE Eq("untouched", <<7, 7, 7>>, e.res.v)
                         /\ Stay
TInit == i = 1 /\ FInit
TNext == i <= Len(Log) /\ Step(Log[i]) /\ i' = i + 1
=============================================================================

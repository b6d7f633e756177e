------------------------------ MODULE MC_Files ------------------------------
(* Small instance: two directories, a link and two file names.                 *)
EXTENDS Files, TLC, Json
CONSTANT MaxLevel, Sim
VARIABLES hist, lv
mvars == <<fs, cwd, dps, boot, keys, kv, rest, hist, lv>>
H(r) == /\ hist' = IF Sim THEN Append(hist, r) ELSE hist
        /\ lv' = lv + 1
Dirs == { <<>>, <<"a">>, <<"a", "b">>, <<"c">>, <<"a", "g">> }
Names == {"f", "g"}
Files0 == { Append(d, n) : d \in Dirs \ {<<"a", "g">>}, n \in Names } \ {<<"a", "g">>}
Dps == { <<"@", "a">>, <<"@", "c">>, <<"@", "l">>, <<"b">>, <<"c">>, <<"@", "q">>, <<"@", "a", "f">> }
Fns == { <<"f">>, <<"g">>, <<"b", "f">>, <<"@", "a", "f">>, <<"..", "c", "f">>, <<"l", "f">>, <<"b", "..", "f">> }
Bases == { <<"@", "a">>, <<"@", "l">>, <<"@", "c">>, <<"@", "a", "..", "c">>, <<"@">> }
MInit == /\ fs = [x \in Dirs \cup {<<"l">>} |-> IF x = <<"l">> THEN [k |-> "l", to |-> <<"a", "b">>] ELSE [k |-> "d", to |-> <<>>]]
         /\ cwd = <<>> /\ dps = <<>> /\ keys = {} /\ kv = [x \in {} |-> 0] /\ rest = <<>>
         /\ boot \in [done : {FALSE}, simox : {<<>>, <<"@", "c">>}, vr : {<<>>, <<"@", "l">>, <<"@", "q">>}]
         /\ hist = IF Sim THEN <<[op |-> "mkdir", p |-> <<"a">>], [op |-> "mkdir", p |-> <<"a", "b">>], [op |-> "mkdir", p |-> <<"c">>], [op |-> "mkdir", p |-> <<"a", "g">>], [op |-> "mklink", p |-> <<"l">>, to |-> <<"a", "b">>],
                                [op |-> "setenv", var |-> "simox", p |-> boot.simox], [op |-> "setenv", var |-> "vr", p |-> boot.vr]>> ELSE <<>>
         /\ lv = 0
Make == \E n \in Files0 : n \notin DOMAIN fs /\ Put_(n, [k |-> "f", to |-> <<>>]) /\ H([op |-> "mkfile", p |-> n]) /\ UNCHANGED <<cwd, dps, boot, keys, kv, rest>>
Remove == \E n \in Files0 : n \in DOMAIN fs /\ Del(n) /\ H([op |-> "rm", p |-> n]) /\ UNCHANGED <<cwd, dps, boot, keys, kv, rest>>
Go == \E d \in Dirs : d # cwd /\ cwd' = d /\ H([op |-> "cd", p |-> d]) /\ UNCHANGED <<fs, dps, boot, keys, kv, rest>>
AddP == Len(dps) < 3 /\ \E p \in Dps : AddDp(p) /\ H([op |-> "adddp", p |-> p]) /\ UNCHANGED <<fs, cwd, boot, keys, kv, rest>>
Ask == /\ Use /\ (Sim \/ ~boot.done)
       /\ \E fn \in Fns : H([op |-> "resolve", p |-> fn])
       /\ UNCHANGED <<fs, cwd, keys, kv, rest>>
Look == /\ Sim
        /\ \/ Use /\ H([op |-> "dps"])
           \/ \E b \in Bases : \E n \in DOMAIN fs : IsFile(n) /\ H([op |-> "relabs", b |-> b, p |-> <<"@">> \o n]) /\ UNCHANGED <<dps, boot>>
           \/ \E b \in Bases : \E p \in Fns : H([op |-> "fnode", b |-> b, p |-> p, how |-> ""]) /\ (IF Exists(p) \/ (~Abs(p) /\ Exists(b \o p)) THEN UNCHANGED <<dps, boot>> ELSE Use)
        /\ UNCHANGED <<fs, cwd, keys, kv, rest>>
MNext == lv < MaxLevel /\ (Make \/ Remove \/ Go \/ AddP \/ Ask \/ Look)
Emit == ~Sim \/ lv < MaxLevel \/ PrintT("BEHAVIOUR " \o ToJson(hist))
(* a name that was found stays found where it was when a data path is added *)
Stable == [][(dps' # dps /\ boot' = boot) => \A fn \in Fns : Resolve(fn) # None => Resolve(fn)' = Resolve(fn)]_mvars
(* what is found is a file and the first one *)
IsFirst == \A fn \in Fns : LET r == Resolve(fn) IN r # None => /\ IsFile(Target(r))
                                                              /\ \A j \in 1..Len(dps) : (r # fn /\ IsFile(Target(dps[j] \o fn))) => \E k \in 1..j : r = dps[k] \o fn
Finds == \A fn \in Fns : Resolve(fn) = None => ~IsFile(Target(fn)) /\ (Abs(fn) \/ \A j \in 1..Len(dps) : ~IsFile(Target(dps[j] \o fn)))
RoundTrip == \A b \in Bases : \A n \in DOMAIN fs : IsFile(n) => Target(b \o Relative(b, <<"@">> \o n)) = n
=============================================================================

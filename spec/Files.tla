-------------------------------- MODULE Files --------------------------------
(* Where data files are found.  A tree of directories, files and links; the    *)
(* working directory; the data paths in the order of their registration; the   *)
(* enabled keys and the values given for them.                                 *)
(* A path is a sequence of names; "@" in front marks an absolute path (below   *)
(* the root of the tree).                                                      *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES fs,      \* place |-> [k |-> "d"|"f"|"l", to |-> place]; a place is a sequence of names without "." and ".."
          cwd,     \* place
          dps,     \* data paths
          boot,    \* [done, simox, vr]: the paths given by the environment count from the first use on
          keys,    \* enabled keys
          kv,      \* key |-> [s |-> text, p |-> the text as path]
          rest     \* unrecognized arguments
fvars == <<fs, cwd, dps, boot, keys, kv, rest>>

Gone == <<"!">>
Front_(s) == SubSeq(s, 1, Len(s) - 1)
Kind(n) == IF n \in DOMAIN fs THEN fs[n].k ELSE "none"
IsDir(n) == Kind(n) = "d"
IsFile(n) == Kind(n) = "f"
RECURSIVE Walk(_, _)
Walk(at, cs) ==
  IF cs = <<>> THEN at
  ELSE IF ~IsDir(at) THEN Gone
  ELSE LET c == Head(cs)
       IN IF c = "." THEN Walk(at, Tail(cs))
          ELSE IF c = ".." THEN IF at = <<>> THEN Gone ELSE Walk(Front_(at), Tail(cs))
          ELSE LET n == Append(at, c)
               IN IF n \notin DOMAIN fs THEN Gone ELSE Walk(IF fs[n].k = "l" THEN fs[n].to ELSE n, Tail(cs))
Abs(p) == Len(p) > 0 /\ p[1] = "@"
Target(p) == IF Abs(p) THEN Walk(<<>>, Tail(p)) ELSE Walk(cwd, p)
Exists(p) == Target(p) \in DOMAIN fs
(* the entry itself, links not followed *)
Parent(p) == IF Abs(p) THEN Walk(<<>>, Front_(Tail(p))) ELSE Walk(cwd, Front_(p))
IsLink(p) == LET n == IF Len(p) = 0 \/ p = <<"@">> THEN Gone ELSE Append(Parent(p), p[Len(p)]) IN p # <<>> /\ p[Len(p)] \notin {".", ".."} /\ Kind(n) = "l"

None == <<"?">>
(* the candidates in the order in which they are tried *)
RECURSIVE FirstFile(_, _)
FirstFile(ps, fn) == IF ps = <<>> THEN None ELSE IF IsFile(Target(Head(ps) \o fn)) THEN Head(ps) \o fn ELSE FirstFile(Tail(ps), fn)
Resolve(fn) == IF IsFile(Target(fn)) THEN fn ELSE IF Abs(fn) \/ fn = <<>> THEN None ELSE FirstFile(dps, fn)
AcceptedDp(p) == IsDir(Target(p)) \/ IsLink(p)

(* first use: the paths of the environment *)
BootPaths == IF boot.done THEN <<>> ELSE SelectSeq(<<boot.simox, boot.vr>>, LAMBDA p : p # <<>> /\ AcceptedDp(p))
Booted == [boot EXCEPT !.done = TRUE]
Use == dps' = dps \o BootPaths /\ boot' = Booted
ResolveB(fn) == IF IsFile(Target(fn)) THEN fn ELSE IF Abs(fn) \/ fn = <<>> THEN None ELSE FirstFile(dps \o BootPaths, fn)
AddDp(p) == dps' = IF AcceptedDp(p) THEN Append(dps, p) ELSE dps

(* relative and absolute *)
RECURSIVE Common(_, _)
Common(a, b) == IF a = <<>> \/ b = <<>> \/ Head(a) # Head(b) THEN 0 ELSE 1 + Common(Tail(a), Tail(b))
Relative(b, p) == LET n == Target(p)  bn == Target(b)  c == Common(n, bn)
                  IN [k \in 1..Len(bn) - c |-> ".."] \o SubSeq(n, c + 1, Len(n))

(* the <File> tag *)
FileTag(b, p, how) ==
  IF how = "relative" THEN b \o p
  ELSE IF how = "absolute" THEN p
  ELSE IF Exists(p) THEN p
  ELSE IF ~Abs(p) /\ Exists(b \o p) THEN b \o p
  ELSE LET r == ResolveB(p) IN IF r # None THEN r
  ELSE LET q == IF Abs(p) THEN None ELSE ResolveB(b \o p) IN IF q # None THEN q ELSE p

(* arguments: a sequence of [k |-> "opt"|"eq"|"arg", n, v, p, s] *)
Reg == keys \cup {"data-path"}
A0 == [dp |-> <<>>, kv |-> [x \in {} |-> 0], un |-> <<>>, bad |-> FALSE]
Give(acc, n, v, p) == IF n = "data-path" THEN [acc EXCEPT !.dp = Append(@, p)]
                      ELSE IF n \in DOMAIN acc.kv THEN acc
                      ELSE [acc EXCEPT !.kv = [x \in DOMAIN acc.kv \cup {n} |-> IF x = n THEN [s |-> v, p |-> p] ELSE acc.kv[x]]]
RECURSIVE Parse(_, _)
Parse(t, acc) ==
  IF t = <<>> \/ acc.bad THEN acc
  ELSE LET h == Head(t)
       IN IF h.k = "eq" /\ h.n \in Reg THEN Parse(Tail(t), Give(acc, h.n, h.v, h.p))
          ELSE IF h.k = "opt" /\ h.n \in Reg
               THEN IF Len(t) < 2 THEN [acc EXCEPT !.bad = TRUE] ELSE Parse(Tail(Tail(t)), Give(acc, h.n, t[2].v, t[2].p))
          ELSE IF h.k = "opt" /\ h.n = "help" THEN Parse(Tail(t), acc)
          ELSE Parse(Tail(t), [acc EXCEPT !.un = Append(@, h.s)])
RECURSIVE AddAll_(_, _)
AddAll_(ds, ps) == IF ps = <<>> THEN ds ELSE AddAll_(IF AcceptedDp(Head(ps)) THEN Append(ds, Head(ps)) ELSE ds, Tail(ps))
CommandLine(t) == LET r == Parse(t, A0)
                  IN /\ boot' = Booted
                     /\ dps' = IF r.bad THEN dps \o BootPaths ELSE AddAll_(dps \o BootPaths, r.dp)
                     /\ kv' = IF r.bad THEN kv ELSE [x \in DOMAIN kv \cup DOMAIN r.kv |-> IF x \in DOMAIN r.kv THEN r.kv[x] ELSE kv[x]]
                     /\ rest' = IF r.bad THEN rest ELSE rest \o r.un
                     /\ UNCHANGED <<fs, cwd, keys>>
SetValue(k, v, p) == kv' = [x \in DOMAIN kv \cup {k} |-> IF x = k THEN [s |-> v, p |-> p] ELSE kv[x]]
ValidFile(k, std) == IF k \in DOMAIN kv /\ ResolveB(kv[k].p) # None THEN ResolveB(kv[k].p)
                     ELSE IF std = <<>> \/ ResolveB(std) = None THEN std ELSE ResolveB(std)

(* the tree changes *)
Put_(n, e) == fs' = [x \in DOMAIN fs \cup {n} |-> IF x = n THEN e ELSE fs[x]]
Del(n) == fs' = [x \in DOMAIN fs \ {n} |-> fs[x]]
Fs0 == [x \in {<<>>} |-> [k |-> "d", to |-> <<>>]]
FInit == fs = Fs0 /\ cwd = <<>> /\ dps = <<>> /\ boot = [done |-> FALSE, simox |-> <<>>, vr |-> <<>>] /\ keys = {} /\ kv = [x \in {} |-> 0] /\ rest = <<>>
=============================================================================

----------------------------- MODULE MC_Threads -----------------------------
(* The protocol of a background run: the user's thread starts, interrupts and  *)
(* stops; the worker clears the stop flag when it begins, polls it, and        *)
(* reports its end under the lock just before it ends.                         *)
(* Repeat: a stop that waits sets the flag again until the worker has ended.   *)
EXTENDS Integers, Sequences, TLC

CONSTANT Repeat, MaxRuns
VARIABLES u,        \* user: "idle", "stop" (about to look at the flag), "set", "wait"
          w,        \* worker: "none", "begun", "busy", "end", "left", "gone"
          started, flag, res, runs, asked, joined
vars == <<u, w, started, flag, res, runs, asked, joined>>
Init == u = "idle" /\ w = "none" /\ started = FALSE /\ flag = FALSE /\ res = "none" /\ runs = 0 /\ asked = FALSE /\ joined = TRUE

(* the user *)
Start == /\ u = "idle" /\ runs < MaxRuns
         /\ IF started THEN UNCHANGED <<w, started, runs, res, asked, joined>>
            ELSE started' = TRUE /\ w' = "begun" /\ runs' = runs + 1 /\ res' = "none" /\ asked' = FALSE /\ joined' = FALSE
         /\ UNCHANGED <<u, flag>>
Stop == u = "idle" /\ u' = "stop" /\ UNCHANGED <<w, started, flag, res, runs, asked, joined>>
Look == /\ u = "stop"
        /\ u' = IF started THEN "set" ELSE IF joined THEN "idle" ELSE "join"
        /\ UNCHANGED <<w, started, flag, res, runs, asked, joined>>
SetFlag == u = "set" /\ flag' = TRUE /\ asked' = TRUE /\ u' = "wait" /\ UNCHANGED <<w, started, res, runs, joined>>
Wait == u = "wait" /\ (IF w = "gone" THEN u' = "idle" /\ joined' = TRUE ELSE u' = (IF Repeat THEN "set" ELSE "wait") /\ UNCHANGED joined) /\ UNCHANGED <<w, started, flag, res, runs, asked>>
Join == u = "join" /\ w = "gone" /\ u' = "idle" /\ joined' = TRUE /\ UNCHANGED <<w, started, flag, res, runs, asked>>
(* the worker *)
Begin == w = "begun" /\ flag' = FALSE /\ w' = "busy" /\ UNCHANGED <<u, started, res, runs, asked, joined>>
Poll == w = "busy" /\ flag /\ w' = "end" /\ res' = "stopped" /\ UNCHANGED <<u, started, flag, runs, asked, joined>>
Find == w = "busy" /\ w' = "end" /\ res' = "found" /\ UNCHANGED <<u, started, flag, runs, asked, joined>>
Leave == w = "end" /\ started' = FALSE /\ w' = "left" /\ UNCHANGED <<u, flag, res, runs, asked, joined>>
Gone == w = "left" /\ w' = "gone" /\ UNCHANGED <<u, started, flag, res, runs, asked, joined>>
User == Start \/ Stop \/ Look \/ SetFlag \/ Wait \/ Join
Worker == Begin \/ Poll \/ Find \/ Leave \/ Gone
(* a run may never find anything: no fairness for Find *)
Spec == Init /\ [][User \/ Worker]_vars /\ WF_vars(Look \/ SetFlag \/ Wait \/ Join) /\ WF_vars(Begin \/ Poll \/ Leave \/ Gone)

Idle == u = "idle"
TypeOK == u \in {"idle", "stop", "set", "wait", "join"} /\ w \in {"none", "begun", "busy", "end", "left", "gone"}
FlagTruth == (w \in {"begun", "busy"} => started) /\ (started => w \in {"begun", "busy", "end"})
Ended == res = "stopped" => w \in {"end", "left", "gone"}
(* after a stop that waited nothing runs *)
Quiet == [][u # "idle" /\ u' = "idle" => w' \in {"none", "gone"} /\ ~started']_vars
OnlyWhenAsked == res = "stopped" => asked
Terminates == u # "idle" ~> u = "idle"
=============================================================================

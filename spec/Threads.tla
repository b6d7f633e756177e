------------------------------ MODULE Threads -------------------------------
(* Background runs (PlanningThread, PathProcessingThread).                     *)
(* th : name -> [of, run, open, res]  of the planner or processor it runs, run *)
(*      tells whether it is running; open: the run may have ended by itself    *)
(*      since it was started; end: how the last run ended: "none", "stop",     *)
(*      "self"                                                                 *)
EXTENDS Plan
VARIABLE th
NewThread(t, m) == th' = UpdF(th, t, [of |-> m, run |-> FALSE, open |-> FALSE, end |-> "none", sent |-> FALSE])
(* nothing is started while it is running; endless: the run does not end by itself *)
StartT(t, endless) == th' = IF th[t].run THEN th ELSE [th EXCEPT ![t].run = TRUE, ![t].open = ~endless, ![t].sent = FALSE]
StopT(t) == th' = [th EXCEPT ![t].run = FALSE, ![t].end = IF th[t].run THEN (IF th[t].open THEN "either" ELSE "stop") ELSE @, ![t].open = FALSE]
(* an interrupt without waiting: the run ends soon *)
AskT(t) == th' = IF th[t].run THEN [th EXCEPT ![t].open = TRUE, ![t].sent = TRUE] ELSE th
EndT(t) == th' = [th EXCEPT ![t].run = FALSE, ![t].end = IF th[t].run THEN (IF th[t].sent THEN "stop" ELSE "self") ELSE @, ![t].open = FALSE]
(* what may be observed of isRunning *)
Flag(t) == IF ~th[t].run THEN "no" ELSE IF th[t].open THEN "either" ELSE "yes"
=============================================================================

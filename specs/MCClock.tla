------------------------------ MODULE MCClock ------------------------------
(* Every history of a stopwatch up to a time and a length; time passes with    *)
(* or without the program at work.                                             *)
EXTENDS Clock
CONSTANTS MaxTime, MaxSteps, Slip      \* Slip: "" or how the stopwatch is wrong
VARIABLES now, used, last, hist
vars == <<now, used, last, hist>>
Reads == IF Slip = "cpu" THEN used ELSE now
NTics == Len(Tics(hist, Len(hist)))
Do(o, v, k) == /\ Len(hist) < MaxSteps
               /\ hist' = Append(hist, [o |-> o, b |-> now, a |-> now, v |-> v, k |-> k])
               /\ UNCHANGED <<now, used>>
Init == now = 0 /\ used = 0 /\ last = 0 /\ hist = <<>>
Pass == now < MaxTime /\ now' = now + 1 /\ (used' = used \/ used' = used + 1) /\ UNCHANGED <<last, hist>>
Tic == Do("tic", Reads, 0) /\ last' = Reads
Toc == NTics > 0 /\ Do("toc", Reads - last, 0) /\ last' = (IF Slip = "reset" THEN Reads ELSE last)
TocW == \E k \in 1..NTics : Do("tocw", Reads - hist[Tics(hist, Len(hist))[k]].v, k) /\ last' = last
Next == Pass \/ Tic \/ Toc \/ TocW
Spec == Init /\ [][Next]_vars
Exact == Right(hist, 0)
=============================================================================

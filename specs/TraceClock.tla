----------------------------- MODULE TraceClock -----------------------------
(* Conformance of tic() and toc() (P29): times in microseconds; each call lies *)
(* between two looks at the clock by the driver.                               *)
EXTENDS Clock, Json, IOUtils, TLC
Events == ndJsonDeserialize(IOEnv.TRACE)
Slack == 2000
Good(ev) == "died" \notin DOMAIN ev.r /\ Right(ev.r.h, Slack)
VARIABLE i
Init == i = 0
Next == /\ i < Len(Events)
        /\ i' = i + 1
        /\ IF Good(Events[i']) THEN TRUE ELSE PrintT(<<"BAD", Events[i'].id, "time">>)
=============================================================================

----------------------------- MODULE TraceFrame -----------------------------
(* The frame condition of the whole library.  In Store.tla a step changes the *)
(* objects it names and no other.  A function names its result: its arguments *)
(* and whatever shares its storage with them are outside of its frame, and    *)
(* writing through the result stays within the result.  Each event is a call  *)
(* after which its arguments, copies of them made beforehand and the storage  *)
(* they had in common were compared, bit by bit, with what was passed; and    *)
(* again after writing on the result.  `post` lists what is not as it was.    *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Events == ndJsonDeserialize(IOEnv.TRACE)
Refused(ev) == "died" \in DOMAIN ev.r           \* judged by the property of the call
Good(ev) == Refused(ev) \/ "post" \notin DOMAIN ev.r

VARIABLE i
Init == i = 0
Next == /\ i < Len(Events)
        /\ i' = i + 1
        /\ IF Good(Events[i']) THEN TRUE ELSE PrintT(<<"BAD", Events[i'].id>>)
=============================================================================

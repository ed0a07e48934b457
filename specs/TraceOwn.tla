------------------------------ MODULE TraceOwn ------------------------------
(* Ownership across the whole library.  In Store.tla a block lives exactly    *)
(* while an object owns it; when a call has returned and its results, its     *)
(* arguments and its temporaries are gone, no block may be left.  Each event  *)
(* is a call that was repeated with the same arguments, `grow` the number of  *)
(* bytes that were in use after each repetition beyond those in use before    *)
(* it.  A library that fills a table the first time it is called (a Fourier   *)
(* plan) owns what it put there and comes to rest; what is lost at each call  *)
(* is owned by nobody.  Likewise `fds`, the number of files the repetitions   *)
(* left open.                                                                 *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Events == ndJsonDeserialize(IOEnv.TRACE)
Refused(ev) == "died" \in DOMAIN ev.r           \* judged by the property of the call
AtRest(g) == \E k \in 1..Len(g) : g[k] <= 0
Good(ev) == Refused(ev) \/ (AtRest(ev.r.grow) /\ ev.r.fds <= 0)

VARIABLE i
Init == i = 0
Next == /\ i < Len(Events)
        /\ i' = i + 1
        /\ IF Good(Events[i']) THEN TRUE ELSE PrintT(<<"BAD", Events[i'].id>>)
=============================================================================

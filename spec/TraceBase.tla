----------------------------- MODULE TraceBase -----------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
(* The recorded cases; a constant of the root module, so TLC reads it once.    *)
TraceCases == ndJsonDeserialize(IOEnv.TRACE)
Ok(s) == [ok |-> TRUE, st |-> s]
No(w) == [ok |-> FALSE, why |-> w]
=============================================================================

----------------------------- MODULE HGAAFresh -----------------------------
(* Identifiers and keys nobody can guess: serials of certificates, identifiers *)
(* of sessions, keys, salts of password hashes.  What somebody can know is the *)
(* code, the configuration, the databases, every request, the clock and what   *)
(* was drawn before.  Two worlds that share all of that, one of them the       *)
(* guesser's, must not draw the same, nor anything near it, and neither must   *)
(* come back to what was drawn before.                                         *)
(* Things drawn are sequences of bits; s: [seen, one, zero, n] for each kind:  *)
(* what was drawn, in which places a one or a zero was seen, and how often     *)
(* something was drawn.                                                        *)
EXTENDS Integers, Sequences, FiniteSets

Kinds == {"serial", "session", "clientkey", "aakey", "salt"}
Fresh == [k \in Kinds |-> [seen |-> {}, one |-> {}, zero |-> {}, n |-> 0]]
RECURSIVE Diff(_, _, _)
Diff(x, y, i) == IF i = 0 THEN 0 ELSE (IF x[i] # y[i] THEN 1 ELSE 0) + Diff(x, y, i - 1)
(* independent draws differ in about half of the places; less than an eighth   *)
(* does not happen                                                             *)
Far(x, y) == Len(x) = Len(y) /\ Diff(x, y, Len(x)) * 8 >= Len(x)
Free(s, k, x) == \A y \in s[k].seen : Far(x, y)
Drawn(s, k, x) == [s EXCEPT ![k] = [seen |-> @.seen \cup {x}, n |-> @.n + 1,
                                    one |-> @.one \cup {i \in 1..Len(x) : x[i] = 1}, zero |-> @.zero \cup {i \in 1..Len(x) : x[i] = 0}]]
(* no place is always the same: after sixty draws that does not happen         *)
Stuck(s, k, width) == IF s[k].n < 60 THEN {} ELSE {i \in 1..width : i \notin s[k].one \/ i \notin s[k].zero}
=============================================================================

---------------------------- MODULE HGAASecrets ----------------------------
(* Who may come to know which secret.  Secrets: passwords users send, be they  *)
(* right or wrong, the pepper, the passphrase of the key file, the password of *)
(* the database, the private key of the attribute authority, those of clients. *)
(* Every operation shows something to those who read the logs, the replies,    *)
(* the console, the database, the files left behind and the requests clients   *)
(* send; only two flows are meant to be: the password of a user to the         *)
(* authority asked, and a password given to the command that hashes it back to *)
(* the console of whoever gave it.                                             *)
EXTENDS Integers, Sequences, FiniteSets

Secrets == {"password", "pepper", "passphrase", "dbpass", "private", "clientkey"}
Observers == {"log", "reply", "console", "rows", "files", "wire"}
Ops == {"start", "info", "right", "wrong", "unknown", "long", "badtype", "badatt", "badargs", "fault", "pastart", "list", "session", "refused", "ask", "askinfo", "mysql", "genkey", "hash", "build", "genatts"}

Meant(op, o) == IF op = "ask" /\ o = "wire" THEN {"password"} ELSE IF op = "hash" /\ o = "console" THEN {"password"} ELSE {}
(* known: what each observer has seen in a way that was not meant              *)
Nothing == [o \in Observers |-> {}]
After(known, op, shown) == [o \in Observers |-> known[o] \cup (shown[o] \ Meant(op, o))]
Kept(known) == \A o \in Observers : known[o] = {}
=============================================================================

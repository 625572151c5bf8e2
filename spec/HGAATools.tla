------------------------------ MODULE HGAATools ------------------------------
(* What the command line tools make for the services: the key file of the      *)
(* attribute authority and the hashes of passwords.                            *)
(* s: [pass, file, peppers, keys, accounts, seen]                              *)
(*   pass, file    the passphrase and the key file configured now              *)
(*   peppers       pepper of each service, as configured now                   *)
(*   keys          what the key files hold: [file -> [key, pass]]              *)
(*   hashes        what the hashes stand for: [hash -> password with pepper]   *)
(*   accounts      [user -> hash]                                              *)
(*   seen          keys and hashes there have been, none is made twice         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [x \in {} |-> 0]
Put(f, k, v) == (k :> v) @@ f
Fresh(conf) == [pass |-> conf.pass, file |-> conf.file, peppers |-> conf.peppers, keys |-> Empty, hashes |-> Empty, accounts |-> Empty, seen |-> {}]

(* a key is made for the configured file and passphrase                        *)
Keyed(s, k) == [s EXCEPT !.keys = Put(@, s.file, [key |-> k, pass |-> s.pass]), !.seen = @ \cup {k}]
(* the service starts exactly if its key file opens with its passphrase, with  *)
(* the key in it                                                               *)
Starts(s) == s.file \in DOMAIN s.keys /\ s.keys[s.file].pass = s.pass
KeyOf(s) == s.keys[s.file].key

(* bcrypt takes 72 bytes                                                       *)
Bytes1(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
RECURSIVE Size(_)
Size(t) == IF t = <<>> THEN 0 ELSE Bytes1(t[1]) + Size(Tail(t))
Peppered(s, svc, pw) == pw \o s.peppers[svc]
Hashable(s, svc, pw) == Size(Peppered(s, svc, pw)) <= 72
Hashed(s, svc, pw, h) == [s EXCEPT !.hashes = Put(@, h, Peppered(s, svc, pw)), !.seen = @ \cup {h}]
LogsIn(s, u, pw) == u \in DOMAIN s.accounts /\ s.hashes[s.accounts[u]] = Peppered(s, "AAUTH", pw)
=============================================================================

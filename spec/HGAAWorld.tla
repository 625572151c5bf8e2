------------------------------ MODULE HGAAWorld ------------------------------
(* All services together, with an adversary, as their users see them: there is *)
(* nothing about signatures here.  What counts is what was issued.             *)
(*                                                                             *)
(* aas: sequence of attribute authorities [conf, accounts, atts, assign, key]  *)
(* issued: set of [k, t]: certificate dec[t].c was made by one who holds key   *)
(*   k, a number (an authority, or the adversary with a key of its own)        *)
(* pas: sequence of policy authorities [reg, certs], reg a sequence of         *)
(*   [uid, key, trust], certs the contents kept, by serial                     *)
EXTENDS HGAAIssue, HGAASession

(* the label of a signature is not part of what is signed                      *)
Bare(x) == [x EXCEPT !.salgo = <<>>]
MadeBy(dec, issued, k, x) == x.salgo # <<>> /\ \E y \in issued : y.k = k /\ Bare(dec[y.t].c) = Bare(x)
(* policy authority trusts the maker of certificate x                          *)
Trusted(keys, reg, dec, issued, x) ==
  \E i \in 1..Len(reg) : /\ reg[i].uid = x.iuid /\ reg[i].trust > 0 /\ reg[i].key > 0
                         /\ KeyNo(keys, x.ikey) = reg[i].key
                         /\ MadeBy(dec, issued, reg[i].key, x)
=============================================================================

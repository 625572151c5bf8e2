------------------------------ MODULE GenIssue ------------------------------
(* The attribute authority in the large: accounts with passwords, attributes   *)
(* assigned to them, requests (also one while another is being served),        *)
(* changes by the administrator and restarts.  Its histories are replayed into *)
(* the implementation.                                                         *)
(* own[u][a] is 0 (not assigned), 1 (assigned without value) or a value.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Users, Atts, Vals, Asks, Nesting, Rich
VARIABLES own, pw, issued, hist, last, done
vars == <<own, pw, issued, hist, last, done>>

Strangers == {0}                       \* a name no account has
(* what request form w asks for                                                *)
Everything == 0
Asked(w) == CASE w = 1 -> {Everything} [] w = 2 -> {1} [] w = 3 -> {1} [] w = 4 -> {2} [] w = 5 -> {1, 2} [] w = 6 -> {1} [] w = 7 -> {Everything}
              [] w = 8 -> {2} [] OTHER -> {3}
Mine(u) == {a \in 1..Atts : own[u][a] # 0}
Wanted(u, w) == IF Asked(w) = {Everything} THEN Mine(u) ELSE Asked(w)
(* p stands for the password of account p, 0 for another one, 9 for none       *)
Grants(u, p, w) == /\ u \in 1..Users /\ p \in 1..Users /\ pw[u] = pw[p]
                   /\ Wanted(u, w) \subseteq Mine(u)
Cert(u, w) == [u |-> u, atts |-> {<<a, own[u][a]>> : a \in Wanted(u, w)}, snap |-> own[u], ask |-> Asked(w)]

Init == /\ own = [u \in 1..Users |-> [a \in 1..Atts |-> IF a = u \/ a = 1 THEN 1 + u ELSE 0]]
        /\ pw = [u \in 1..Users |-> u]
        /\ issued = <<>> /\ hist = <<>> /\ last = <<>> /\ done = FALSE
Log(e) == hist' = Append(hist, e) /\ last' = e
Served(u, p, w) == IF Grants(u, p, w) THEN <<Cert(u, w)>> ELSE <<>>
Passwords == {0, 9} \cup 1..Users
Request == \E u \in Strangers \cup 1..Users, p \in Passwords, w \in 1..Asks :
             /\ (~Rich /\ p \in {0, 9} => w = 1)
             /\ Log(<<"req", u, p, w, 0>>)
             /\ issued' = issued \o Served(u, p, w)
             /\ UNCHANGED <<own, pw>>
(* another user's request served inside one                                    *)
Nested == /\ Nesting
          /\ \E u, v \in 1..Users, w, x \in 1..Asks :
               /\ Log(<<"nest", u, w, v, x>>)
               /\ issued' = issued \o Served(v, v, x) \o Served(u, u, w)
               /\ UNCHANGED <<own, pw>>
Change == \/ \E u \in 1..Users, a \in 1..Atts, v \in 1..Vals :
               /\ own[u][a] # v
               /\ Log(<<"give", u, a, v, 0>>) /\ own' = [own EXCEPT ![u][a] = v] /\ UNCHANGED <<pw, issued>>
          \/ \E u \in 1..Users, a \in 1..Atts :
               /\ own[u][a] # 0
               /\ Log(<<"take", u, a, 0, 0>>) /\ own' = [own EXCEPT ![u][a] = 0] /\ UNCHANGED <<pw, issued>>
          \/ /\ Rich /\ Users > 1
             /\ Log(<<"swap", 0, 0, 0, 0>>) /\ pw' = [pw EXCEPT ![1] = pw[2], ![2] = pw[1]] /\ UNCHANGED <<own, issued>>
          \/ Rich /\ \E k \in 1..3 : Log(<<"restart", k, 0, 0, 0>>) /\ UNCHANGED <<own, pw, issued>>
          \/ Rich /\ \E k \in 1..4 : Log(<<"tick", k, 0, 0, 0>>) /\ UNCHANGED <<own, pw, issued>>
Next == \/ Len(hist) < MaxLen /\ (Request \/ Nested \/ Change) /\ done' = FALSE
        \/ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<own, pw, issued, hist, last>>
Spec == Init /\ [][Next]_vars

(* ---- properties ---- *)
(* nobody gets what is not theirs, all get what they asked for                 *)
Own == \A i \in 1..Len(issued) : LET x == issued[i]
                                 IN  /\ \A t \in x.atts : x.snap[t[1]] = t[2] /\ t[2] # 0
                                     /\ IF x.ask = {Everything} THEN \A a \in 1..Atts : x.snap[a] # 0 => <<a, x.snap[a]>> \in x.atts
                                        ELSE {t[1] : t \in x.atts} = x.ask
(* certificates appear by requests with the right password only, and stay      *)
Earned == [][\/ issued' = issued
             \/ /\ last'[1] = "req" /\ Len(issued') = Len(issued) + 1
                /\ last'[2] \in 1..Users /\ last'[3] \in 1..Users /\ pw[last'[2]] = pw[last'[3]]
                /\ issued'[Len(issued')].u = last'[2] /\ SubSeq(issued', 1, Len(issued)) = issued
             \/ last'[1] = "nest" /\ SubSeq(issued', 1, Len(issued)) = issued]_vars
Idle == [][last' # last /\ last'[1] \in {"req", "nest"} => own' = own /\ pw' = pw]_vars
Emit == (done /\ hist[MaxLen][1] \in {"req", "nest"}) => PrintT("GEN|" \o ToJson(hist))
=============================================================================

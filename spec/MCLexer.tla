------------------------------ MODULE MCLexer ------------------------------
(* Design check of the lexical specification over every text of at most        *)
(* MaxLen characters of a small alphabet.                                      *)
EXTENDS HGPLLexer, FiniteSets, TLC
CONSTANT MaxLen
Alphabet == {32, 46, 49, 48, 45, 34, 61, 60, 33, 97, 111, 114, 40}   \* space . 1 0 - " = < ! a o r (
VARIABLES text, st, last
vars == <<text, st, last>>

Init == /\ text \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
        /\ st = LexInit
        /\ last = 0
Next == /\ ~st.done
        /\ st' = LexStep(text, st)
        /\ last' = st.pos
        /\ UNCHANGED text
Spec == Init /\ [][Next]_vars

(* tokens start in increasing order, inside the text, at no whitespace *)
Ordered == \A i \in 2..Len(st.toks) :
             /\ st.toks[i].p >= IF i = 2 THEN 0 ELSE st.toks[i - 1].p + 1
             /\ st.toks[i].p <= Len(text)
             /\ st.toks[i].t # "END" => ~IsSpace(At(text, st.toks[i].p))
(* reading goes on, and what is read between two tokens is only whitespace *)
Progress == /\ st.pos >= last
            /\ (Len(st.toks) > 1 /\ ~st.done) => st.pos > last
            /\ (Len(st.toks) > 1) => LET t == st.toks[Len(st.toks)] IN \A i \in last..(t.p - 1) : st.err >= 0 \/ IsSpace(At(text, i))
ErrInside == st.err <= Len(text)
(* every character outside strings belongs to a token or is whitespace: the    *)
(* text up to the reading position has the same tokens when lexed on its own   *)
PrefixStable == (~st.done /\ Len(st.toks) > 1) =>
                  LET p == LexRun(SubSeq(text, 1, st.pos), LexInit)
                  IN  p.err = -1 /\ SubSeq(p.toks, 1, Len(p.toks) - 1) = st.toks
=============================================================================

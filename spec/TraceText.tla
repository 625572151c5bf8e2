------------------------------ MODULE TraceText ------------------------------
(* Any text through the whole of the policy language.  One event per text and  *)
(* stage: stage "lex", "parse", "check" or "eval"; got "ok", "err" (an error    *)
(* of the language) or "other"; for an error its position, whether it carries  *)
(* the text, and excerpts <<distance, excerpt>>.                               *)
EXTENDS HGPLGrammar, TraceBase
VARIABLES c, l, st

CaseInit0(case) == <<>>
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Excerpt(text, pos, n) == SubSeq(text, Max(0, pos - n) + 1, Min(Len(text), pos + n + 1))

Step0(case, s, ev) ==
  LET text == case.text
      lx == Lex(text)
      known == case.ascii          \* outside ASCII the specification does not say which texts are policies
      bad == IF lx.err >= 0 THEN "lex" ELSE IF Tree(lx.toks) = Bad THEN "parse" ELSE "none"
      err == /\ ev.got = "err" /\ ev.pos \in 0..Len(text)
             /\ \A i \in 1..Len(ev.near) : ev.near[i][2] = Excerpt(text, ev.pos, ev.near[i][1]) \/ (text = <<>> /\ ev.near[i][2] = <<-1>>)
             /\ ev.text
             /\ ev.shown
      mayfail == CASE ev.stage = "lex" -> bad = "lex"
                   [] ev.stage = "parse" -> bad = "parse"
                   [] OTHER -> TRUE
      mayhold == bad = "none" \/ (ev.stage = "lex" /\ bad = "parse")
  IN  IF ev.got = "ok" /\ (~known \/ mayhold) THEN Ok(s)
      ELSE IF err /\ (~known \/ mayfail \/ case.deep) THEN Ok(s)
      ELSE No(<<"an outcome of the language", "fails in", IF known THEN bad ELSE "?", "excerpts",
                IF ev.got = "err" /\ ev.pos \in 0..Len(text) THEN [i \in 1..Len(ev.near) |-> Excerpt(text, ev.pos, ev.near[i][1])] ELSE <<>>>>)

R == INSTANCE Runner WITH Cases <- TraceCases, CaseInit <- CaseInit0, Step <- Step0
Spec == R!RunSpec
=============================================================================

----------------------------- MODULE TraceLexer -----------------------------
(* Recorded runs of the lexer.  Events of a case (text is the case's text):    *)
(*   next: one call of next(): got "tok"/"none"/"err"/"other", tok, pos        *)
(*   all:  tokenize() to the end: got "ok"/"err"/"other", pos                  *)
(*   toks: the token list;  atts: the attribute list;  cur: the current token; *)
(*   str:  the kinds of all tokens in one string                               *)
(*   total: (texts outside ASCII) only the kind of outcome                     *)
EXTENDS HGPLLexer, TraceBase
VARIABLES c, l, st

(* floats are compared by value where the literal has no more than the 15      *)
(* digits a double keeps                                                       *)
SameTok(want, got) == /\ want.t = got.t /\ want.p = got.p
                      /\ IF want.t = "FLOAT" /\ SigDigits(Tail(want.v)) > 15 THEN got.v[1] = "n" ELSE want.v = got.v
SameToks(want, got) == Len(want) = Len(got) /\ \A i \in 1..Len(want) : SameTok(want[i], got[i])

CaseInit0(case) == LexInit

Step0(case, s, ev) ==
  CASE ev.op = "next" ->
         IF s.done THEN IF ev.got = "none" THEN Ok(s) ELSE No(<<"no further token">>)
         ELSE LET n == LexStep(case.text, s)
              IN  IF n.err >= 0
                  THEN IF ev.got = "err" /\ ev.pos = n.err THEN Ok(n) ELSE No(<<"error at", n.err>>)
                  ELSE IF ev.got = "tok" /\ SameTok(n.toks[Len(n.toks)], ev.tok) THEN Ok(n)
                       ELSE No(<<"token", n.toks[Len(n.toks)]>>)
    [] ev.op = "all" ->
         LET n == LexRun(case.text, s)
         IN  IF n.err >= 0 THEN IF ev.got = "err" /\ ev.pos = n.err THEN Ok(n) ELSE No(<<"error at", n.err>>)
             ELSE IF ev.got = "ok" THEN Ok(n) ELSE No(<<"tokens", n.toks>>)
    [] ev.op = "toks" -> IF SameToks(s.toks, ev.toks) THEN Ok(s) ELSE No(<<"tokens", s.toks>>)
    [] ev.op = "atts" -> LET a == SelectSeq(s.toks, IsAttTok)
                         IN  IF SameToks(a, ev.toks) THEN Ok(s) ELSE No(<<"attributes", a>>)
    [] ev.op = "cur"  -> IF SameTok(s.toks[Len(s.toks)], ev.tok) THEN Ok(s) ELSE No(<<"current", s.toks[Len(s.toks)]>>)
    [] ev.op = "kinds" -> LET k == [i \in 1..Len(s.toks) |-> s.toks[i].t]
                          IN  IF k = ev.kinds THEN Ok(s) ELSE No(<<"kinds", k>>)
    [] ev.op = "total" -> IF ev.got \in {"ok", "err"} /\ (ev.got = "err" => ev.pos \in 0..Len(case.text))
                          THEN Ok(s) ELSE No(<<"tokens or a lexical error">>)
    [] OTHER -> No(<<"unknown event">>)

R == INSTANCE Runner WITH Cases <- TraceCases, CaseInit <- CaseInit0, Step <- Step0
Spec == R!RunSpec
=============================================================================

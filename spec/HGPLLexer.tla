----------------------------- MODULE HGPLLexer -----------------------------
(* Lexical structure of the policy language.  A text is a sequence of code     *)
(* points; positions count from 0, as users see them.  The lexer is a machine  *)
(* with state [pos, toks, done]; LexStep is one call of next().                *)
(*   token  [t |-> kind, p |-> position, v |-> value]                          *)
(*   value  <<"-">> | <<"w", word>> | <<"id", codes>> | <<"n", s, I, F>> |     *)
(*          <<"s", codes>>                                                     *)
EXTENDS Integers, Sequences, Num

At(text, i) == IF i >= 0 /\ i < Len(text) THEN text[i + 1] ELSE -1

IsSpace(c) == c \in {9, 10, 11, 12, 13, 32}
IsDigit(c) == c \in 48..57
IsAlpha(c) == c \in 65..90 \/ c \in 97..122
IsIdent(c) == IsAlpha(c) \/ IsDigit(c) \/ c = 95
IsStrCh(c) == c \in 32..33 \/ c \in 35..126

LowerC(c) == IF c \in 65..90 THEN c + 32 ELSE c
Lower(s) == [i \in 1..Len(s) |-> LowerC(s[i])]

RECURSIVE SkipWs(_, _), EndIdent(_, _), EndDigits(_, _), EndStr(_, _)
SkipWs(text, i)    == IF IsSpace(At(text, i)) THEN SkipWs(text, i + 1) ELSE i
EndIdent(text, i)  == IF IsIdent(At(text, i)) THEN EndIdent(text, i + 1) ELSE i
EndDigits(text, i) == IF IsDigit(At(text, i)) THEN EndDigits(text, i + 1) ELSE i
EndStr(text, i)    == IF IsStrCh(At(text, i)) THEN EndStr(text, i + 1) ELSE i

Sub(text, i, j) == SubSeq(text, i + 1, j)          \* characters i .. j-1
Digits(text, i, j) == [k \in 1..(j - i) |-> text[i + k] - 48]

(* keywords and attribute categories, as lower case code points *)
W_in == <<105,110>>               W_subset == <<115,117,98,115,101,116>>
W_and == <<97,110,100>>           W_or == <<111,114>>
W_true == <<116,114,117,101>>     W_false == <<102,97,108,115,101>>
W_undef == <<117,110,100,101,102>> W_not == <<110,111,116>>
W_null == <<110,117,108,108>>
W_user == <<117,115,101,114>>     W_object == <<111,98,106,101,99,116>>
W_env == <<101,110,118>>          W_admin == <<97,100,109,105,110>>
W_connect == <<99,111,110,110,101,99,116>>

Category(w) == CASE w = W_user -> "USR_ATT" [] w = W_object -> "OBJ_ATT" [] w = W_env -> "ENV_ATT"
                 [] w = W_admin -> "ADM_ATT" [] w = W_connect -> "CON_ATT" [] OTHER -> "none"

Keyword(w) == CASE w = W_in -> <<"OP", "IN">> [] w = W_subset -> <<"OP", "SUBSET">>
                [] w = W_and -> <<"BOOL_OP", "AND">> [] w = W_or -> <<"BOOL_OP", "OR">>
                [] w = W_true -> <<"BOOL", "TRUE">> [] w = W_false -> <<"BOOL", "FALSE">>
                [] w = W_undef -> <<"BOOL", "UNDEF">> [] w = W_not -> <<"NOT_OP", "NOT">>
                [] w = W_null -> <<"NULL", "NULL">> [] OTHER -> <<"none">>

T(type, pos, val, next) == [k |-> "tok", tok |-> [t |-> type, p |-> pos, v |-> val], next |-> next]
E(pos) == [k |-> "err", pos |-> pos]
NoVal == <<"-">>

LexNumber(text, i) ==          \* at a digit, or at '-' followed by a digit
  LET neg == At(text, i) = 45
      d   == IF neg THEN i + 1 ELSE i
      e   == EndDigits(text, d)
      int == Digits(text, d, e)
      sg  == IF neg THEN 1 ELSE 0
  IN  IF At(text, e) # 46 THEN T("INT", i, <<"n">> \o MkNum(sg, int, <<>>), e)
      ELSE LET f == EndDigits(text, e + 1)
           IN  IF f = e + 1 THEN E(e + 1)             \* a digit has to follow the point
               ELSE IF At(text, f) = 46 THEN E(f)     \* second point
               ELSE T("FLOAT", i, <<"n">> \o MkNum(sg, int, Digits(text, e + 1, f)), f)

LexString(text, i) ==
  LET e == EndStr(text, i + 1)
  IN  IF At(text, e) = 34 THEN T("STRING", i, <<"s", Sub(text, i + 1, e)>>, e + 1)
      ELSE IF At(text, e) = -1 THEN E(i)              \* no closing quote
      ELSE E(e)                                       \* character not allowed in strings

LexWord(text, i) ==
  LET e == EndIdent(text, i)
      w == Lower(Sub(text, i, e))
  IN  IF At(text, e) = 46
      THEN LET f == EndIdent(text, e + 1)
           IN  IF f = e + 1 THEN E(e + 1)
               ELSE IF Category(w) = "none" THEN E(i)
               ELSE T(Category(w), i, <<"id", Sub(text, e + 1, f)>>, f)
      ELSE LET kw == Keyword(w)
           IN  IF kw[1] = "none" THEN E(i) ELSE T(kw[1], i, <<"w", kw[2]>>, e)

LexAt(text, i0) ==
  LET i == SkipWs(text, i0)
      c == At(text, i)
      n == At(text, i + 1)
  IN  CASE c = -1  -> T("END", i, NoVal, i + 1)
        [] c = 123 -> T("LSET", i, NoVal, i + 1)
        [] c = 125 -> T("RSET", i, NoVal, i + 1)
        [] c = 44  -> T("COMMA", i, NoVal, i + 1)
        [] c = 40  -> T("LPARN", i, NoVal, i + 1)
        [] c = 41  -> T("RPARN", i, NoVal, i + 1)
        [] c = 61  -> T("OP", i, <<"w", "=">>, i + 1)
        [] c = 62  -> IF n = 61 THEN T("OP", i, <<"w", ">=">>, i + 2) ELSE T("OP", i, <<"w", ">">>, i + 1)
        [] c = 60  -> IF n = 61 THEN T("OP", i, <<"w", "<=">>, i + 2) ELSE T("OP", i, <<"w", "<">>, i + 1)
        [] c = 33  -> IF n = 61 THEN T("OP", i, <<"w", "!=">>, i + 2) ELSE E(i + 1)
        [] c = 34  -> LexString(text, i)
        [] IsDigit(c) \/ (c = 45 /\ IsDigit(n)) -> LexNumber(text, i)
        [] IsAlpha(c) -> LexWord(text, i)
        [] OTHER -> E(i)

StartTok == [t |-> "START", p |-> 0, v |-> NoVal]
LexInit == [pos |-> 0, toks |-> <<StartTok>>, done |-> FALSE, err |-> -1]

(* One call of next(): a token, the end (no further token), or an error.       *)
LexStep(text, st) ==
  IF st.done THEN st
  ELSE LET r == LexAt(text, st.pos)
       IN  IF r.k = "err" THEN [st EXCEPT !.done = TRUE, !.err = r.pos]
           ELSE [pos |-> r.next, toks |-> Append(st.toks, r.tok), done |-> r.tok.t = "END", err |-> -1]

RECURSIVE LexRun(_, _)
LexRun(text, st) == IF st.done THEN st ELSE LexRun(text, LexStep(text, st))
Lex(text) == LexRun(text, LexInit)

AttKinds == {"USR_ATT", "OBJ_ATT", "ENV_ATT", "ADM_ATT", "CON_ATT"}
IsAttTok(tok) == tok.t \in AttKinds
=============================================================================

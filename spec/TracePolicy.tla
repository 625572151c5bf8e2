---------------------------- MODULE TracePolicy ----------------------------
(* Recorded histories of the policy language: tables, evaluations, type checks *)
(* and encodings.  A case has the texts of its policies (all of them valid);   *)
(* the state is the sequence of its tables.                                    *)
EXTENDS HGPLEval, HGPLTypes, HGPLCodec, TraceBase
VARIABLES c, l, st

CaseInit0(case) == [trees |-> [i \in 1..Len(case.pols) |-> Tree(Lex(case.pols[i]).toks)], tabs |-> <<>>]

Must(cond, s, why) == IF cond THEN Ok(s) ELSE No(why)
PosSet(ps) == {ps[i] : i \in 1..Len(ps)}
Tab(s, t) == IF t = 0 THEN <<>> ELSE s.tabs[t]

WarnsOk(tree, x, ws) ==
  LET atts == AttPos(<<tree>>, {})
  IN  /\ {w \in PosSet(ws) : w \in atts} = x.ap
      /\ (\E i \in 1..Len(ws) : ws[i] \notin atts) <=> x.op

EvalStep(case, s, ev) ==
  LET tree == s.trees[ev.p]
      x == Decide(Tab(s, ev.t), tree)
      warned == x.ap # {} \/ x.op
      stops == ev.lvl \in {"NONE", "INFO", "WARN"} /\ warned
      full == <<"decision", x.v[2], "fails", x.e, "attributes", x.ap, "operands", x.op>>
  IN  IF x.e THEN Must(ev.got = "err" \/ (stops /\ ev.got = "warn"), s, full)
      ELSE IF stops THEN Must(ev.got = "warn" /\ (ev.judge = "all" => WarnsOk(tree, x, ev.warns) /\ ev.rpos \in PosSet(ev.warns)), s, full)
      ELSE Must(/\ ev.got = x.v[2]
                /\ ev.truth = (x.v[2] = "T")
                /\ ev.judge = "all" => WarnsOk(tree, x, ev.warns), s, full)

CheckStep(case, s, ev) ==
  LET r == TypeCheck(s.trees[ev.p])
      over == {i \in r.iss : LevelNo(i.ty) >= LevelNo(ev.lvl)}
      got == {[ty |-> ev.issues[i].ty, p |-> ev.issues[i].p] : i \in 1..Len(ev.issues)}
  IN  Must(/\ IF over = {} THEN ev.got = "ok" ELSE ev.got = "raised" /\ [ty |-> ev.raised.ty, p |-> ev.raised.p] \in over
           /\ got = r.iss
           /\ ev.result = Worst(r.iss)
           /\ ev.nerr = Cardinality({i \in r.iss : i.ty = "ERROR"})
           /\ ev.nwarn = Cardinality({i \in r.iss : i.ty = "WARN"})
           /\ SameTable(r.tab, ev.syms), s, <<"issues", r.iss, "types", r.tab>>)

TblStep(s, ev) ==
  LET tab == s.tabs[ev.t]
      i == Find(tab, ev.cat, ev.name)
      put(n) == [s EXCEPT !.tabs[ev.t] = n]
  IN  CASE ev.op = "define" -> LET e == [cat |-> ev.cat, name |-> ev.name, ty |-> ev.ty, v |-> ev.v]
                               IN  Must(ev.got = (IF Defines(tab, e) THEN "yes" ELSE "no"), put(Define(tab, e)), <<"defined", Defines(tab, e)>>)
        [] ev.op = "setval" -> IF i = 0 THEN Must(ev.got = "fail", s, <<"unknown attribute">>)
                               ELSE Must(ev.got = "ok", put(SetValue(tab, i, ev.v)), <<"value set">>)
        [] ev.op = "switch" -> IF i = 0 THEN Must(ev.got = "fail", s, <<"unknown attribute">>)
                               ELSE Must(ev.got = "ok" /\ ev.old = tab[i].ty, put(SwitchType(tab, i, ev.ty)), <<"old type", tab[i].ty>>)
        [] ev.op = "look" ->
             LET want == IF i = 0 THEN <<"none">> ELSE <<"is", tab[i].cat, tab[i].name, tab[i].ty>>
                 val == IF i = 0 THEN <<"fail">> ELSE <<"val", tab[i].v>>
                 same(a, b) == IF a[1] = "val" /\ b[1] = "val" /\ a[2][1] = "L" /\ b[2][1] = "L"
                               THEN Elems(a[2][2]) = Elems(b[2][2]) ELSE a = b
             IN  Must(/\ ev.sym = want /\ same(val, ev.val) /\ ev.exists = (i # 0)
                      /\ ev.ty = (IF i = 0 THEN "-" ELSE tab[i].ty)
                      /\ ev.aty = (IF i = 0 THEN "-" ELSE tab[i].cat)
                      /\ ev.aname = (IF i = 0 THEN <<>> ELSE tab[i].name), s, <<"entry", want, val>>)

(* decoding gives the tree the bytes describe, and none for cut bytes; other   *)
(* damage is left open                                                         *)
DecStep(s, ev) ==
  LET d == Decode(ev.bytes)
  IN  CASE d.k = "tree" -> Must(ev.got = "ok" /\ ev.nodes = d.tree, s, <<"tree", d.tree>>)
        [] d.k = "short" -> Must(ev.got = "fail", s, <<"refused, cut short">>)
        [] OTHER -> Ok(s)

EncStep(s, ev) ==
  LET d == Decode(ev.bytes)
  IN  Must(/\ ev.got = "ok"
           /\ d.k = "tree" /\ d.ver = 1 /\ d.rest = 0 /\ d.tree = ev.nodes
           /\ ev.b64 = Base64(ev.bytes), s, <<"encoding of", ev.nodes, "reads", d>>)

Step0(case, s, ev) ==
  CASE ev.op = "eval" -> EvalStep(case, s, ev)
    [] ev.op = "check" -> CheckStep(case, s, ev)
    [] ev.op = "table" -> Must(ev.got = "ok" /\ OneEach(ev.obs) /\ SameTable(Table(ev.env), ev.obs),
                               [s EXCEPT !.tabs = Append(@, Table(ev.env))], <<"table", Table(ev.env)>>)
    [] ev.op = "obs" -> Must(OneEach(ev.env) /\ SameTable(s.tabs[ev.t], ev.env), s, <<"table", s.tabs[ev.t]>>)
    [] ev.op \in {"define", "setval", "switch", "look"} -> TblStep(s, ev)
    [] ev.op = "tree" -> Must(LET f == Flat(s.trees[ev.p])
                              IN  Len(f) = Len(ev.nodes) /\ \A i \in 1..Len(f) :
                                    /\ f[i].c = ev.nodes[i].c /\ f[i].t = ev.nodes[i].t /\ f[i].p = ev.nodes[i].p /\ f[i].k = ev.nodes[i].k
                                    /\ (f[i].t = "FLOAT" /\ SigDigits(Tail(f[i].v)) > 15) \/ f[i].v = ev.nodes[i].v,
                              s, <<"policy unchanged">>)
    [] ev.op = "enc" -> EncStep(s, ev)
    [] ev.op = "dec" -> DecStep(s, ev)
    [] ev.op = "same" -> Must(ev.a = ev.b, s, <<"the same", ev.what>>)
    [] ev.op = "kleene" -> Must(/\ ev.nt = KNot(ev.a) /\ ev.nd = KAnd(ev.a, ev.b) /\ ev.r = KOr(ev.a, ev.b)
                                /\ ev.eq = (ev.a = ev.b) /\ ev.ne = (ev.a # ev.b) /\ ev.truth = (ev.a = "T"), s, <<"Kleene tables">>)
    [] OTHER -> No(<<"unknown event">>)

R == INSTANCE Runner WITH Cases <- TraceCases, CaseInit <- CaseInit0, Step <- Step0
Spec == R!RunSpec
=============================================================================

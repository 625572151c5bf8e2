------------------------------ MODULE HGAAIssue ------------------------------
(* The attribute authority: who gets a certificate, and what is in it.         *)
(*                                                                             *)
(* conf: uri, name (identifier and name of the authority), host, port, rev     *)
(*       (configured revocation address), len (seconds of validity), pem, bits *)
(*       (the public half of its key)                                          *)
(* accounts: sequence of [n |-> name, p |-> password]                          *)
(* atts: sequence of [id, name, ty];  assign: sequence of [u, id, val, has],   *)
(*       u the number of an account, has whether there is a value              *)
(* rq: type, user, pass (sequences of at most one text), ids, names            *)
(*       (sequences of entries, <<-1>> an entry that is missing), key, cipher, *)
(*       bits, remote (a record of sequences of at most one text)              *)
(* Texts are sequences of code points, moments seconds since 1970.             *)
EXTENDS HGAACert, Names

(* ---- credentials ---- *)
LowerC(x) == IF x \in 65..90 THEN x + 32 ELSE x
LowerT(s) == [i \in 1..Len(s) |-> LowerC(s[i])]
(* the accounts the credentials are right for: at most one                     *)
Who(accounts, rq) == {i \in 1..Len(accounts) : /\ rq.type = 0 /\ rq.user # <<>> /\ rq.pass # <<>>
                                               /\ accounts[i].n = LowerT(rq.user[1])
                                               /\ accounts[i].p = rq.pass[1]}

(* ---- what is asked for ---- *)
Blank(e) == e \in {<<-1>>, <<>>, <<42>>}          \* missing, empty, "*"
Asked(es) == {es[i] : i \in {j \in 1..Len(es) : ~Blank(es[j])}}
Att(atts, id) == LET i == CHOOSE j \in 1..Len(atts) : atts[j].id = id IN atts[i]
(* what an account has, as it has to appear in a certificate                   *)
Has(atts, assign, u) ==
  {[id |-> assign[i].id, ty |-> Att(atts, assign[i].id).ty, val |-> IF assign[i].has THEN assign[i].val ELSE <<>>,
    name |-> Att(atts, assign[i].id).name, ex |-> <<>>] : i \in {j \in 1..Len(assign) : assign[j].u = u}}
MayHave(has, rq) == /\ \A x \in Asked(rq.ids) : \E a \in has : a.id = x
                    /\ \A x \in Asked(rq.names) : \E a \in has : a.name = x
(* got is what was issued: everything if nothing was asked for; else what was  *)
(* asked for by identifier, and for every name asked for one attribute of that *)
(* name                                                                        *)
RightAtts(has, rq, got) ==
  LET G == {got[i] : i \in 1..Len(got)}
  IN  /\ Cardinality(G) = Len(got)
      /\ IF Asked(rq.ids) = {} /\ Asked(rq.names) = {} THEN G = has
         ELSE /\ G \subseteq has
              /\ \A a \in has : a.id \in Asked(rq.ids) => a \in G
              /\ \A x \in Asked(rq.names) : \E a \in G : a.name = x
              /\ \A a \in G : a.id \in Asked(rq.ids) \/ a.name \in Asked(rq.names)

(* ---- the calendar ---- *)
Days(t) == t \div 86400
Civil(t) ==
  LET z == Days(t) + 719468
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
  IN  [y |-> y, m |-> m, d |-> d]
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y) == <<31, IF Leap(y) THEN 29 ELSE 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
YearDay(t) == LET c == Civil(t) IN SumTo(MonthDays(c.y), c.m - 1) + c.d
Weekday(t) == (Days(t) + 3) % 7                    \* Monday is 0
DayNames == <<"Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday">>
MonthNames == <<"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December">>

(* ---- addresses ---- *)
RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, ch, i, from) == IF i > Len(s) THEN <<SubSeq(s, from, Len(s))>>
                             ELSE IF s[i] = ch THEN <<SubSeq(s, from, i - 1)>> \o SplitFrom(s, ch, i + 1, i + 1)
                             ELSE SplitFrom(s, ch, i + 1, from)
Split(s, ch) == SplitFrom(s, ch, 1, 1)
In(ch, s) == \E i \in 1..Len(s) : s[i] = ch
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE c - 55
RECURSIVE Num10(_), Num16(_)
Num10(s) == IF s = <<>> THEN 0 ELSE Num10(SubSeq(s, 1, Len(s) - 1)) * 10 + HexVal(s[Len(s)])
Num16(s) == IF s = <<>> THEN 0 ELSE Num16(SubSeq(s, 1, Len(s) - 1)) * 16 + HexVal(s[Len(s)])
Octets(s) == LET p == Split(s, 46) IN [i \in 1..Len(p) |-> Num10(p[i])]
Groups(s) == IF s = <<>> THEN <<>>
             ELSE LET p == Split(s, 58)
                      g(x) == IF In(46, x) THEN LET o == Octets(x) IN <<o[1] * 256 + o[2], o[3] * 256 + o[4]>> ELSE <<Num16(x)>>
                  IN  Cat([i \in 1..Len(p) |-> g(p[i])], 1)
Hextets(addr) ==
  LET s == Split(addr, 37)[1]
      gap == {i \in 1..(Len(s) - 1) : s[i] = 58 /\ s[i + 1] = 58}
  IN  IF gap = {} THEN Groups(s)
      ELSE LET i == CHOOSE j \in gap : \A k \in gap : j <= k
               a == Groups(SubSeq(s, 1, i - 1))
               b == Groups(SubSeq(s, i + 2, Len(s)))
           IN  a \o [j \in 1..(8 - Len(a) - Len(b)) |-> 0] \o b

(* ---- connection attributes ---- *)
Prefix == N("/attribute/connection/")
Con(name, ty, val) == [id |-> Prefix \o name, ty |-> ty, val |-> val, name |-> name, ex |-> <<>>]
IsCon(a) == Len(a.id) >= Len(Prefix) /\ SubSeq(a.id, 1, Len(Prefix)) = Prefix
Yes(b) == IF b THEN N("True") ELSE N("False")
Reported(rq, f) == IF rq.remote[f] = <<>> THEN <<>> ELSE <<Con(N(f), "STRING", rq.remote[f][1])>>
AddrAtts(addr) ==
  IF In(58, addr)
  THEN LET h == Hextets(addr)
       IN  <<Con(N("ip_v4"), "BOOL", Yes(FALSE)), Con(N("ip_v6"), "BOOL", Yes(TRUE))>>
           \o [i \in 1..Len(h) |-> Con(N("remote_addr_v6_hex") \o NatCodes(i - 1), "INT", NatCodes(h[i]))]
  ELSE IF In(46, addr)
  THEN LET o == Octets(addr)
       IN  <<Con(N("ip_v4"), "BOOL", Yes(TRUE)), Con(N("ip_v6"), "BOOL", Yes(FALSE))>>
           \o [i \in 1..Len(o) |-> Con(N("remote_addr_v4_oct") \o NatCodes(i - 1), "INT", NatCodes(o[i]))]
  ELSE <<>>
Host(conf) == IF \A i \in 1..Len(conf.host) : conf.host[i] = 32 THEN N("localhost") ELSE conf.host
Url(conf) == N("http://") \o Host(conf) \o N(":") \o conf.port \o N("/AttributeAuthority/jsonwsp/")
RevUrl(conf) == IF \A i \in 1..Len(conf.rev) : conf.rev[i] = 32 THEN Url(conf) \o N("revocation_list") ELSE conf.rev
IntAtt(name, n) == Con(N(name), "INT", NatCodes(n))
StrAtt(name, s) == Con(N(name), "STRING", s)
ConAtts(conf, rq, serial, t) ==
  LET c == Civil(t)
  IN  Reported(rq, "remote_addr") \o Reported(rq, "remote_host") \o Reported(rq, "remote_ident") \o Reported(rq, "remote_user")
      \o AddrAtts(rq.remote.remote_addr[1])
      \o <<IntAtt("auth_method", rq.type), StrAtt("pub_key", Base64(rq.key)), IntAtt("pub_key_size", rq.bits), StrAtt("pub_key_algo", rq.cipher),
           IntAtt("con_time", t), StrAtt("con_time_weekdayname", N(DayNames[Weekday(t) + 1])), StrAtt("con_time_monthname", N(MonthNames[c.m])),
           IntAtt("con_time_month", c.m), IntAtt("con_time_day", c.d), IntAtt("con_time_weekday", Weekday(t)), IntAtt("con_time_year", c.y),
           IntAtt("con_time_yearday", YearDay(t)), IntAtt("con_time_hour", (t % 86400) \div 3600), IntAtt("con_time_min", (t % 3600) \div 60),
           IntAtt("con_time_sec", t % 60), StrAtt("con_time_zone", N("GMT")), Con(N("con_time_dst"), "BOOL", Yes(FALSE)),
           StrAtt("aauth_uid", conf.uri), StrAtt("aauth_name", conf.name), StrAtt("aauth_url", Url(conf)), StrAtt("aauth_pub_key", Base64(conf.pem)),
           IntAtt("aauth_pub_key_size", conf.bits), StrAtt("aauth_pub_key_algo", N("RSA")), IntAtt("aauth_version", 1), IntAtt("ac_version", 1),
           Con(N("session_id"), "INT", Dec(serial)), IntAtt("session_length", conf.len)>>

(* ---- the certificate ---- *)
Sized(algo, bits) == algo \o N("[") \o NatCodes(bits) \o N("]")
(* four bytes, least first, of a moment below 2^31, and back                   *)
LE4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
(* issuer, holder, information and validity: made at a moment from lo to hi    *)
RightFrame(conf, name, rq, x, lo, hi) ==
  /\ x.ikey = conf.pem /\ x.ialgo = Sized(N("RSA"), conf.bits) /\ x.iuid = conf.uri /\ x.iname = conf.name /\ x.iurl = Url(conf)
  /\ x.hkey = rq.key /\ x.halgo = Sized(rq.cipher, rq.bits) /\ x.huid = conf.uri \o N("/user/") \o name /\ x.hname = name
  /\ x.ver = 1
  /\ \E t \in lo..hi : x.issued = LE4(t) /\ x.after = LE4(t) /\ x.before = LE4(t + conf.len)
  /\ x.rurl = RevUrl(conf) /\ x.rex = <<>> /\ x.del = <<>> /\ x.exts = <<>>
  /\ x.salgo = N("RSASSA-PKCS1-v1_5:SHA256")
Sel(s, con) == SelectSeq(s, LAMBDA a : IsCon(a) = con)

(* ---- what it tells about itself ---- *)
Info(conf) == [name |-> conf.name, ver |-> 1, acver |-> 1, uri |-> conf.uri, rev |-> RevUrl(conf), pem |-> conf.pem, cipher |-> N("RSA"), bits |-> conf.bits,
               hash |-> N("SHA256"), sig |-> N("RSASSA-PKCS1-v1_5"), creds |-> <<[v |-> 0, n |-> N("USER_PASS")]>>]
=============================================================================

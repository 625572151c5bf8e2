------------------------------ MODULE HGAACert ------------------------------
(* Attribute certificates: content, wire format, armour, text form, equality   *)
(* and validity.  A certificate is a record                                    *)
(*   ikey ialgo iuid iname iurl      issuer                                    *)
(*   hkey halgo huid hname           holder                                    *)
(*   ver serial issued               information                               *)
(*   atts                            sequence of [id, ty, val, name, ex]       *)
(*   after before rurl rex           revocation rules                          *)
(*   del exts                        delegation rules; sequence of [eid, ex]   *)
(*   salgo sval                      signature                                 *)
(* Texts are sequences of code points, binary fields sequences of bytes, an    *)
(* absent field is an empty one.  serial is its bytes, least first, without    *)
(* trailing zeros; issued, after and before are 4 bytes, least first (numbers  *)
(* here go beyond TLC's integers).                                             *)
EXTENDS Bytes, FiniteSets, TLC

AttTypes == <<"NULL", "INT", "FLOAT", "STRING", "BOOL", "SET">>
TypeNo(t) == CHOOSE i \in 1..6 : AttTypes[i] = t

IsBytes(s) == \A i \in 1..Len(s) : s[i] \in 0..255
IsText(s) == \A i \in 1..Len(s) : s[i] \in 0..1114111 /\ s[i] \notin 55296..57343

RECURSIVE CatFrom(_, _, _)       \* by halves: long sequences stay cheap
CatFrom(ss, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN ss[i] ELSE LET m == (i + j) \div 2 IN CatFrom(ss, i, m) \o CatFrom(ss, m + 1, j)
Cat(ss, i) == CatFrom(ss, i, Len(ss))
Sizes(ss) == Cat([i \in 1..Len(ss) |-> LE2(Len(ss[i]))], 1)
Pad(s, n) == s \o [i \in 1..(n - Len(s)) |-> 0]

(* ---- what the layout can hold ---- *)
Fits(s) == Len(s) <= 65535
Texts(c) == {c.ialgo, c.iuid, c.iname, c.iurl, c.halgo, c.huid, c.hname, c.rurl, c.salgo}
            \cup UNION {{c.atts[i].id, c.atts[i].val, c.atts[i].name} : i \in 1..Len(c.atts)}
            \cup {c.exts[i].eid : i \in 1..Len(c.exts)}
Binaries(c) == {c.ikey, c.hkey, c.rex, c.del, c.sval}
               \cup {c.atts[i].ex : i \in 1..Len(c.atts)} \cup {c.exts[i].ex : i \in 1..Len(c.exts)}
Times(c) == {c.issued, c.after, c.before}
BodyHolds(c) ==
  /\ Len(c.atts) <= 65535 /\ Len(c.exts) <= 65535
  /\ \A t \in Texts(c) : IsText(t) /\ Fits(Utf8(t))
  /\ \A b \in Binaries(c) : IsBytes(b) /\ Fits(b)
  /\ \A t \in Times(c) : Len(t) = 4 /\ IsBytes(t)
  /\ c.ver \in 0..255
  /\ Len(c.serial) <= 20 /\ IsBytes(c.serial)
  /\ \A i \in 1..Len(c.atts) : \E t \in 1..6 : AttTypes[t] = c.atts[i].ty
Signed(c) == c.salgo # <<>> \/ c.sval # <<>>
(* a signature is a label and a value, or there is none                        *)
WholeSig(c) == (c.salgo = <<>>) = (c.sval = <<>>)

(* ---- encoding ---- *)
EncAtt(a) == LET f == <<Utf8(a.id), Utf8(a.val), Utf8(a.name), a.ex>>
             IN  Sizes(f) \o <<TypeNo(a.ty) - 1>> \o Cat(f, 1)
EncExt(e) == LET f == <<Utf8(e.eid), e.ex>> IN Sizes(f) \o Cat(f, 1)
Body(c) ==
  LET iss == <<c.ikey, Utf8(c.ialgo), Utf8(c.iuid), Utf8(c.iname), Utf8(c.iurl)>>
      hol == <<c.hkey, Utf8(c.halgo), Utf8(c.huid), Utf8(c.hname)>>
  IN  Sizes(iss) \o Cat(iss, 1)
      \o Sizes(hol) \o Cat(hol, 1)
      \o <<c.ver, 20>> \o Pad(c.serial, 20) \o c.issued
      \o LE2(Len(c.atts)) \o Cat([i \in 1..Len(c.atts) |-> EncAtt(c.atts[i])], 1)
      \o Sizes(<<Utf8(c.rurl), c.rex>>) \o c.after \o c.before \o Utf8(c.rurl) \o c.rex
      \o Sizes(<<c.del>>) \o c.del
      \o LE2(Len(c.exts)) \o Cat([i \in 1..Len(c.exts) |-> EncExt(c.exts[i])], 1)
EncSig(c) == Sizes(<<Utf8(c.salgo), c.sval>>) \o Utf8(c.salgo) \o c.sval
Encode(c) == Body(c) \o EncSig(c)

(* ---- decoding: [k |-> "cert", c], "bad" (not well formed), or "odd" (well   *)
(* formed but with a serial of another size or half a signature, of which the  *)
(* format says nothing)                                                        *)
BadRead == [ok |-> FALSE]
(* read fields of the given sizes from index i: [ok, f, next]                  *)
RECURSIVE ReadFields(_, _, _, _)
ReadFields(b, i, ns, acc) ==
  IF ns = <<>> THEN [ok |-> TRUE, f |-> acc, next |-> i]
  ELSE IF i + Head(ns) - 1 > Len(b) THEN BadRead
  ELSE ReadFields(b, i + Head(ns), Tail(ns), Append(acc, SubSeq(b, i, i + Head(ns) - 1)))
(* n sizes, m bytes of something else, then the fields                         *)
ReadSized(b, i, n, m) ==
  IF i + 2 * n + m - 1 > Len(b) THEN BadRead
  ELSE LET r == ReadFields(b, i + 2 * n + m, [j \in 1..n |-> U16(b, i + 2 * (j - 1))], <<>>)
       IN  IF ~r.ok THEN BadRead
           ELSE [ok |-> TRUE, f |-> r.f, mid |-> SubSeq(b, i + 2 * n, i + 2 * n + m - 1), next |-> r.next]
T(b) == UnUtf8(b).s
TOk(b) == UnUtf8(b).ok

ReadAtt(b, i) ==
  LET r == ReadSized(b, i, 4, 1)
  IN  IF ~r.ok THEN BadRead
      ELSE IF r.mid[1] > 5 \/ ~TOk(r.f[1]) \/ ~TOk(r.f[2]) \/ ~TOk(r.f[3]) THEN BadRead
      ELSE [ok |-> TRUE, next |-> r.next,
            v |-> [id |-> T(r.f[1]), ty |-> AttTypes[r.mid[1] + 1], val |-> T(r.f[2]), name |-> T(r.f[3]), ex |-> r.f[4]]]
ReadExt(b, i) ==
  LET r == ReadSized(b, i, 2, 0)
  IN  IF ~r.ok THEN BadRead
      ELSE IF ~TOk(r.f[1]) THEN BadRead
      ELSE [ok |-> TRUE, next |-> r.next, v |-> [eid |-> T(r.f[1]), ex |-> r.f[2]]]
RECURSIVE ReadList(_, _, _, _, _)
ReadList(b, i, n, what, acc) ==
  IF n = 0 THEN [ok |-> TRUE, next |-> i, v |-> acc]
  ELSE LET r == IF what = "att" THEN ReadAtt(b, i) ELSE ReadExt(b, i)
       IN  IF ~r.ok THEN BadRead ELSE ReadList(b, r.next, n - 1, what, Append(acc, r.v))
ReadCounted(b, i, what) == IF i + 1 > Len(b) THEN BadRead ELSE ReadList(b, i + 2, U16(b, i), what, <<>>)
ReadInfo(b, i) ==
  IF i + 1 > Len(b) \/ i + 5 + b[i + 1] > Len(b) THEN BadRead
  ELSE LET n == b[i + 1]
       IN  [ok |-> TRUE, next |-> i + 6 + n, ver |-> b[i], size |-> n, serial |-> StripTrail(SubSeq(b, i + 2, i + 1 + n)),
            issued |-> SubSeq(b, i + 2 + n, i + 5 + n)]

Decode(b) ==
  LET is == ReadSized(b, 1, 5, 0)
      ho == ReadSized(b, is.next, 4, 0)
      nf == ReadInfo(b, ho.next)
      at == ReadCounted(b, nf.next, "att")
      rv == ReadSized(b, at.next, 2, 8)
      dl == ReadSized(b, rv.next, 1, 0)
      ex == ReadCounted(b, dl.next, "ext")
      sg == ReadSized(b, ex.next, 2, 0)
      bad == [k |-> "bad"]
  IN  IF ~is.ok THEN bad
      ELSE IF \E j \in 2..5 : ~TOk(is.f[j]) THEN bad
      ELSE IF ~ho.ok THEN bad
      ELSE IF \E j \in 2..4 : ~TOk(ho.f[j]) THEN bad
      ELSE IF ~nf.ok THEN bad
      ELSE IF ~at.ok THEN bad
      ELSE IF ~rv.ok THEN bad
      ELSE IF ~TOk(rv.f[1]) THEN bad
      ELSE IF ~dl.ok THEN bad
      ELSE IF ~ex.ok THEN bad
      ELSE IF ~sg.ok THEN bad
      ELSE IF ~TOk(sg.f[1]) \/ sg.next # Len(b) + 1 THEN bad
      ELSE LET c == [ikey |-> is.f[1], ialgo |-> T(is.f[2]), iuid |-> T(is.f[3]), iname |-> T(is.f[4]), iurl |-> T(is.f[5]),
                     hkey |-> ho.f[1], halgo |-> T(ho.f[2]), huid |-> T(ho.f[3]), hname |-> T(ho.f[4]),
                     ver |-> nf.ver, serial |-> nf.serial, issued |-> nf.issued, atts |-> at.v,
                     after |-> SubSeq(rv.mid, 1, 4), before |-> SubSeq(rv.mid, 5, 8), rurl |-> T(rv.f[1]), rex |-> rv.f[2],
                     del |-> dl.f[1], exts |-> ex.v, salgo |-> T(sg.f[1]), sval |-> sg.f[2]]
           IN  [k |-> IF nf.size # 20 \/ ~WholeSig(c) THEN "odd" ELSE "cert", c |-> c]

(* ---- time ---- *)
RECURSIVE LessLE(_, _)          \* unsigned numbers given by equally many bytes, least first
LessLE(a, b) == LET n == Len(a) IN IF n = 0 THEN FALSE ELSE IF a[n] # b[n] THEN a[n] < b[n] ELSE LessLE(SubSeq(a, 1, n - 1), SubSeq(b, 1, n - 1))
(* now is <<sign, 8 bytes, whether a fraction of a second is past it>>         *)
InWindow(c, now) == /\ now[1] = 0
                    /\ LessLE(Pad(c.after, 8), now[2]) \/ (now[3] /\ Pad(c.after, 8) = now[2])
                    /\ LessLE(now[2], Pad(c.before, 8))
LEPlus(b, n) == LET s == b[1] + (n % 256)                    \* 4 bytes plus a number below 2^24
                    t == b[2] + ((n \div 256) % 256) + s \div 256
                    u == b[3] + n \div 65536 + t \div 256
                IN  <<s % 256, t % 256, u % 256, b[4] + u \div 256>>

(* ---- equality ---- *)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
Equal(a, b) ==
  /\ \A f \in {"ikey", "ialgo", "iuid", "iurl", "hkey", "halgo", "huid", "ver", "serial", "issued", "after", "before", "rurl", "rex", "del",
               "salgo", "sval"} : a[f] = b[f]
  /\ SameBag(a.atts, b.atts)
  /\ SameBag(a.exts, b.exts)

(* ---- armour and text; S gives the code points of a string constant, which   *)
(* TLA+ strings do not offer, for the few constants of the format              *)
Line == <<10>>
S(x) ==
  CASE x = "hdr" -> <<45,45,45,45,32,66,69,71,73,78,32,65,84,84,82,73,66,85,84,69,32,67,69,82,84,73,70,73,67,65,84,69,32,45,45,45,45>>
    [] x = "ftr" -> <<45,45,45,45,32,69,78,68,32,65,84,84,82,73,66,85,84,69,32,67,69,82,84,73,70,73,67,65,84,69,32,45,45,45,45>>
    [] x = "fmt64" -> <<70,79,82,77,65,84,58,32,66,65,83,69,54,52>>
    [] x = "fmttext" -> <<70,79,82,77,65,84,58,32,84,69,88,84>>
    [] x = "version" -> <<86,69,82,83,73,79,78,58,32>>
    [] x = "serial" -> <<83,69,82,73,65,76,58,32>>
    [] x = "issued" -> <<73,83,83,85,69,68,58,32>>
    [] x = "key" -> <<80,85,66,76,73,67,32,75,69,89,58,32>>
    [] x = "algo" -> <<75,69,89,32,65,76,71,79,82,73,84,72,77,58,32>>
    [] x = "uid" -> <<85,73,68,58,32>>
    [] x = "name" -> <<78,65,77,69,58,32>>
    [] x = "url" -> <<85,82,76,58,32>>
    [] x = "after" -> <<86,65,76,73,68,32,65,70,84,69,82,58,32>>
    [] x = "before" -> <<86,65,76,73,68,32,66,69,70,79,82,69,58,32>>
    [] x = "ext" -> <<69,88,84,69,78,83,73,79,78,32,66,89,84,69,83,58,32>>
    [] x = "aid" -> <<65,84,84,82,73,66,85,84,69,32,73,68,58,32>>
    [] x = "atype" -> <<65,84,84,82,73,66,85,84,69,32,84,89,80,69,58,32,65,116,116,114,105,98,117,116,101,84,121,112,101,46>>
    [] x = "aval" -> <<65,84,84,82,73,66,85,84,69,32,86,65,76,85,69,58,32>>
    [] x = "aname" -> <<65,84,84,82,73,66,85,84,69,32,78,65,77,69,58,32>>
    [] x = "eid" -> <<69,88,84,69,78,83,73,79,78,32,73,68,58,32>>
    [] x = "sigalgo" -> <<83,73,71,78,65,84,85,82,69,32,65,76,71,79,82,73,84,72,77,58,32>>
    [] x = "sigval" -> <<83,73,71,78,65,84,85,82,69,32,86,65,76,85,69,58,32>>
    [] x = "INFORMATION" -> <<73,78,70,79,82,77,65,84,73,79,78>>
    [] x = "ISSUER" -> <<73,83,83,85,69,82>>
    [] x = "HOLDER" -> <<72,79,76,68,69,82>>
    [] x = "ATTRIBUTE SET" -> <<65,84,84,82,73,66,85,84,69,32,83,69,84>>
    [] x = "ATTRIBUTE" -> <<65,84,84,82,73,66,85,84,69,58,32>>
    [] x = "REVOCATION RULES" -> <<82,69,86,79,67,65,84,73,79,78,32,82,85,76,69,83>>
    [] x = "DELEGATION RULES" -> <<68,69,76,69,71,65,84,73,79,78,32,82,85,76,69,83>>
    [] x = "EXTENSIONS" -> <<69,88,84,69,78,83,73,79,78,83>>
    [] x = "EXTENSION" -> <<69,88,84,69,78,83,73,79,78,58,32>>
    [] x = "SIGNATURE" -> <<83,73,71,78,65,84,85,82,69>>
    [] x = "BEGIN" -> <<66,69,71,73,78,32>>
    [] x = "END" -> <<69,78,68,32>>
    [] x = "NULL" -> <<78,85,76,76>>
    [] x = "INT" -> <<73,78,84>>
    [] x = "FLOAT" -> <<70,76,79,65,84>>
    [] x = "STRING" -> <<83,84,82,73,78,71>>
    [] x = "BOOL" -> <<66,79,79,76>>
    [] x = "SET" -> <<83,69,84>>

Armour(c) == S("hdr") \o Line \o S("fmt64") \o Line \o S("version") \o NatCodes(c.ver) \o Line
             \o Base64(Encode(c)) \o Line \o S("ftr")

Mark(m, word, what) == m \o <<32>> \o S(word) \o what \o <<32>> \o m \o Line
Eq4 == <<61, 61, 61, 61>>
Hash4 == <<35, 35, 35, 35>>
Section(name, lines) == Mark(Eq4, "BEGIN", S(name)) \o lines \o Mark(Eq4, "END", S(name))
Item(name, id, lines) == Mark(Hash4, "BEGIN", S(name) \o id) \o lines \o Mark(Hash4, "END", S(name) \o id)
Field(label, v) == S(label) \o v \o Line
Opt(label, v) == IF v = <<>> THEN <<>> ELSE Field(label, v)
OptB(label, b) == IF b = <<>> THEN <<>> ELSE Field(label, Base64(b))
Dec(bytes) == DigitCodes(BytesToDigits(bytes))
TextAtt(a) == Item("ATTRIBUTE", a.id, Field("aid", a.id) \o Field("atype", S(a.ty)) \o Opt("aval", a.val) \o Opt("aname", a.name) \o OptB("ext", a.ex))
TextExt(e) == Item("EXTENSION", e.eid, Field("eid", e.eid) \o OptB("ext", e.ex))
Text(c) ==
  S("hdr") \o Line \o S("fmttext") \o Line \o S("version") \o NatCodes(c.ver) \o Line
  \o Section("INFORMATION", Field("version", NatCodes(c.ver)) \o Field("serial", Dec(c.serial)) \o Field("issued", Dec(c.issued)))
  \o Section("ISSUER", Field("key", Base64(c.ikey)) \o Field("algo", c.ialgo) \o Field("uid", c.iuid) \o Opt("name", c.iname) \o Opt("url", c.iurl))
  \o Section("HOLDER", Field("key", Base64(c.hkey)) \o Field("algo", c.halgo) \o Field("uid", c.huid) \o Opt("name", c.hname))
  \o (IF c.atts = <<>> THEN <<>> ELSE Section("ATTRIBUTE SET", Cat([i \in 1..Len(c.atts) |-> TextAtt(c.atts[i])], 1)))
  \o Section("REVOCATION RULES", Field("after", Dec(c.after)) \o Field("before", Dec(c.before)) \o Opt("url", c.rurl) \o OptB("ext", c.rex))
  \o (IF c.del = <<>> THEN <<>> ELSE Section("DELEGATION RULES", Field("ext", Base64(c.del))))
  \o (IF c.exts = <<>> THEN <<>> ELSE Section("EXTENSIONS", Cat([i \in 1..Len(c.exts) |-> TextExt(c.exts[i])], 1)))
  \o (IF ~Signed(c) THEN <<>> ELSE Section("SIGNATURE", Field("sigalgo", c.salgo) \o Field("sigval", Base64(c.sval))))
  \o S("ftr")

(* ---- data as given, in the format said ---- *)
RECURSIVE CutAt(_, _, _)
CutAt(d, nl, from) == IF nl = {} THEN <<SubSeq(d, from, Len(d))>>
                      ELSE LET m == CHOOSE i \in nl : \A j \in nl : i <= j IN <<SubSeq(d, from, m - 1)>> \o CutAt(d, nl \ {m}, m + 1)
Lines(d) == CutAt(d, TLCEval({i \in 1..Len(d) : d[i] = 10}), 1)
Read64(d) == LET b == TLCEval(UnBase64(d)) IN IF b = <<-1>> THEN [k |-> "free"] ELSE Decode(b)
(* "free": the format says nothing about such data (a base64 with other        *)
(* characters, another armour)                                                 *)
ReadArmour(d) ==
  LET ls == TLCEval(Lines(d))
      r == TLCEval(Read64(ls[4]))
  IN  IF Len(ls) < 4 THEN [k |-> "bad"]
      ELSE IF r.k # "cert" THEN r
      ELSE IF Len(ls) = 5 /\ ls[1] = S("hdr") /\ ls[2] = S("fmt64") /\ ls[3] = S("version") \o NatCodes(r.c.ver) /\ ls[5] = S("ftr") THEN r
      ELSE [k |-> "odd", c |-> r.c]
ReadAs(fmt, d) == CASE fmt = "BYTES" -> Decode(d) [] fmt = "BASE64" -> Read64(d) [] fmt = "BASE64FULL" -> ReadArmour(d) [] OTHER -> [k |-> "bad"]

(* ---- signatures, ideally: s is the set of <<public key, content, value>>    *)
(* that holders of private keys have made                                      *)
Verifies(c, s) == c.salgo # <<>> /\ c.sval # <<>> /\ <<c.ikey, Body(c), c.sval>> \in s
=============================================================================

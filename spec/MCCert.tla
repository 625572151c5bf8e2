------------------------------- MODULE MCCert -------------------------------
(* Design check of the certificate format, and the certificates to replay:     *)
(* every certificate that differs from a plain one in up to MaxCh fields.      *)
EXTENDS HGAACert, Json
CONSTANTS MaxCh, Deep
VARIABLES cert, n, from
Plain == [ikey |-> <<1, 2, 3>>, ialgo |-> <<82>>, iuid |-> <<117>>, iname |-> <<>>, iurl |-> <<>>,
          hkey |-> <<4>>, halgo |-> <<82>>, huid |-> <<104>>, hname |-> <<>>,
          ver |-> 0, serial |-> <<7>>, issued |-> <<1, 0, 0, 0>>,
          atts |-> <<[id |-> <<97>>, ty |-> "INT", val |-> <<53>>, name |-> <<>>, ex |-> <<>>]>>,
          after |-> <<0, 0, 0, 0>>, before |-> <<0, 0, 0, 1>>, rurl |-> <<>>, rex |-> <<>>, del |-> <<>>, exts |-> <<>>,
          salgo |-> <<>>, sval |-> <<>>]
TextV == {<<>>, <<120>>, <<233>>, <<8364, 10>>, <<128512, 0>>}
ByteV == {<<>>, <<0>>, <<255, 10, 13>>, [i \in 1..300 |-> i % 256]}
TimeV == {<<0, 0, 0, 0>>, <<255, 255, 255, 255>>, <<0, 1, 0, 128>>}
A(i, t, v, nm, x) == [id |-> i, ty |-> t, val |-> v, name |-> nm, ex |-> x]
AttV == {<<>>, <<A(<<98>>, "NULL", <<>>, <<110>>, <<>>)>>, <<A(<<>>, "SET", <<>>, <<>>, <<>>)>>,
         <<A(<<97>>, "STRING", <<233, 32>>, <<120>>, <<0, 1>>), A(<<97>>, "BOOL", <<49>>, <<>>, <<>>)>>,
         <<A(<<97>>, "FLOAT", <<49>>, <<>>, <<9>>), A(<<97>>, "FLOAT", <<49>>, <<>>, <<9>>), A(<<98>>, "INT", <<50>>, <<>>, <<>>)>>}
ExtV == {<<>>, <<[eid |-> <<101>>, ex |-> <<>>]>>, <<[eid |-> <<>>, ex |-> <<0>>], [eid |-> <<233>>, ex |-> <<1, 2>>], [eid |-> <<>>, ex |-> <<0>>]>>}
Vals(f) == CASE f \in {"ialgo", "iuid", "iname", "iurl", "halgo", "huid", "hname", "rurl"} -> TextV
             [] f \in {"ikey", "hkey", "rex", "del"} -> ByteV
             [] f \in {"issued", "after", "before"} -> TimeV
             [] f = "ver" -> {0, 1, 255}
             [] f = "serial" -> {<<>>, <<0, 1>>, [i \in 1..20 |-> 255], [i \in 1..20 |-> IF i = 20 THEN 128 ELSE 0]}
             [] f = "atts" -> AttV
             [] f = "exts" -> ExtV
             [] f = "sig" -> {<< <<>>, <<>> >>, << <<88>>, <<1>> >>, << <<233, 58>>, [i \in 1..128 |-> i] >>}
FieldSeq == <<"ikey", "ialgo", "iuid", "iname", "iurl", "hkey", "halgo", "huid", "hname", "ver", "serial", "issued", "atts", "after", "before",
              "rurl", "rex", "del", "exts", "sig">>
Set(x, f, v) == IF f = "sig" THEN [x EXCEPT !.salgo = v[1], !.sval = v[2]] ELSE [x EXCEPT ![f] = v]
Init == cert = Plain /\ n = 0 /\ from = 0
Next == /\ n < MaxCh /\ n' = n + 1
        /\ \E i \in (from + 1)..Len(FieldSeq) : from' = i /\ \E v \in Vals(FieldSeq[i]) : cert' = Set(cert, FieldSeq[i], v)
Spec == Init /\ [][Next]_<<cert, n, from>>

RoundTrip == LET b == Encode(cert) IN /\ BodyHolds(cert) /\ Decode(b) = [k |-> "cert", c |-> cert]
                                      /\ UnBase64(Base64(b)) = b
Cut == LET b == Encode(cert) IN Deep => /\ \A i \in 0..(Len(b) - 1) : Decode(SubSeq(b, 1, i)).k = "bad"
                                        /\ Decode(Append(b, 0)).k = "bad"
(* no certificate has two encodings                                            *)
Canonical == LET b == Encode(cert)
             IN  Deep => \A i \in 1..Len(b), d \in {1, 128, 255} :
                   LET x == [b EXCEPT ![i] = (@ + d) % 256]
                       r == Decode(x)
                   IN  r.k = "cert" => Encode(r.c) = x /\ r.c # cert
Emit == PrintT("GEN|" \o ToJson(cert))
=============================================================================

------------------------------ MODULE HGAAServe ------------------------------
(* The server: it offers exactly the services that are enabled, and listens    *)
(* where the section of the web layer says.                                    *)
EXTENDS HGAAConf

Services == <<N("aauth"), N("pauth")>>
Enabled(c, svc) == Up(Lookup(c, N("SERVICE_ENABLED"), TRUE, svc)[1]) = N("TRUE")
Offered(c) == {Services[i] : i \in {j \in 1..2 : Enabled(c, Services[j])}}
Host(c) == Lookup(c, N("SERVICE_HOST"), TRUE, N("LADON"))[1]
Port(c) == Lookup(c, N("SERVICE_PORT"), TRUE, N("LADON"))[1]
=============================================================================

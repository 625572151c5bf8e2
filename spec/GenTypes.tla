------------------------------ MODULE GenTypes ------------------------------
EXTENDS MCTypes, Json
Emit == cmps # <<>> => PrintT("GEN|" \o ToJson(cmps))
=============================================================================

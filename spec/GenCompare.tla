----------------------------- MODULE GenCompare -----------------------------
EXTENDS MCCompare, Json
Emit == ph = 1 => PrintT("GEN|" \o ToJson(<<x, y>>))
=============================================================================

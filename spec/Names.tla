------------------------------- MODULE Names -------------------------------
(* Code points of the text constants of the system (written by                *)
(* tools/mknames.py: TLA+ strings cannot be taken apart).                      *)
EXTENDS Integers, Sequences, TLC
NameTable ==
     ("/attribute/connection/" :> <<47,97,116,116,114,105,98,117,116,101,47,99,111,110,110,101,99,116,105,111,110,47>>)
  @@ ("remote_addr" :> <<114,101,109,111,116,101,95,97,100,100,114>>)
  @@ ("remote_host" :> <<114,101,109,111,116,101,95,104,111,115,116>>)
  @@ ("remote_ident" :> <<114,101,109,111,116,101,95,105,100,101,110,116>>)
  @@ ("remote_user" :> <<114,101,109,111,116,101,95,117,115,101,114>>)
  @@ ("ip_v4" :> <<105,112,95,118,52>>)
  @@ ("ip_v6" :> <<105,112,95,118,54>>)
  @@ ("remote_addr_v4_oct" :> <<114,101,109,111,116,101,95,97,100,100,114,95,118,52,95,111,99,116>>)
  @@ ("remote_addr_v6_hex" :> <<114,101,109,111,116,101,95,97,100,100,114,95,118,54,95,104,101,120>>)
  @@ ("auth_method" :> <<97,117,116,104,95,109,101,116,104,111,100>>)
  @@ ("pub_key" :> <<112,117,98,95,107,101,121>>)
  @@ ("pub_key_size" :> <<112,117,98,95,107,101,121,95,115,105,122,101>>)
  @@ ("pub_key_algo" :> <<112,117,98,95,107,101,121,95,97,108,103,111>>)
  @@ ("con_time" :> <<99,111,110,95,116,105,109,101>>)
  @@ ("con_time_weekdayname" :> <<99,111,110,95,116,105,109,101,95,119,101,101,107,100,97,121,110,97,109,101>>)
  @@ ("con_time_monthname" :> <<99,111,110,95,116,105,109,101,95,109,111,110,116,104,110,97,109,101>>)
  @@ ("con_time_month" :> <<99,111,110,95,116,105,109,101,95,109,111,110,116,104>>)
  @@ ("con_time_day" :> <<99,111,110,95,116,105,109,101,95,100,97,121>>)
  @@ ("con_time_weekday" :> <<99,111,110,95,116,105,109,101,95,119,101,101,107,100,97,121>>)
  @@ ("con_time_year" :> <<99,111,110,95,116,105,109,101,95,121,101,97,114>>)
  @@ ("con_time_yearday" :> <<99,111,110,95,116,105,109,101,95,121,101,97,114,100,97,121>>)
  @@ ("con_time_hour" :> <<99,111,110,95,116,105,109,101,95,104,111,117,114>>)
  @@ ("con_time_min" :> <<99,111,110,95,116,105,109,101,95,109,105,110>>)
  @@ ("con_time_sec" :> <<99,111,110,95,116,105,109,101,95,115,101,99>>)
  @@ ("con_time_zone" :> <<99,111,110,95,116,105,109,101,95,122,111,110,101>>)
  @@ ("con_time_dst" :> <<99,111,110,95,116,105,109,101,95,100,115,116>>)
  @@ ("aauth_uid" :> <<97,97,117,116,104,95,117,105,100>>)
  @@ ("aauth_name" :> <<97,97,117,116,104,95,110,97,109,101>>)
  @@ ("aauth_url" :> <<97,97,117,116,104,95,117,114,108>>)
  @@ ("aauth_pub_key" :> <<97,97,117,116,104,95,112,117,98,95,107,101,121>>)
  @@ ("aauth_pub_key_size" :> <<97,97,117,116,104,95,112,117,98,95,107,101,121,95,115,105,122,101>>)
  @@ ("aauth_pub_key_algo" :> <<97,97,117,116,104,95,112,117,98,95,107,101,121,95,97,108,103,111>>)
  @@ ("aauth_version" :> <<97,97,117,116,104,95,118,101,114,115,105,111,110>>)
  @@ ("ac_version" :> <<97,99,95,118,101,114,115,105,111,110>>)
  @@ ("session_id" :> <<115,101,115,115,105,111,110,95,105,100>>)
  @@ ("session_length" :> <<115,101,115,115,105,111,110,95,108,101,110,103,116,104>>)
  @@ ("RSA" :> <<82,83,65>>)
  @@ ("[" :> <<91>>)
  @@ ("]" :> <<93>>)
  @@ ("/user/" :> <<47,117,115,101,114,47>>)
  @@ ("http://" :> <<104,116,116,112,58,47,47>>)
  @@ ("localhost" :> <<108,111,99,97,108,104,111,115,116>>)
  @@ (":" :> <<58>>)
  @@ ("/AttributeAuthority/jsonwsp/" :> <<47,65,116,116,114,105,98,117,116,101,65,117,116,104,111,114,105,116,121,47,106,115,111,110,119,115,112,47>>)
  @@ ("revocation_list" :> <<114,101,118,111,99,97,116,105,111,110,95,108,105,115,116>>)
  @@ ("True" :> <<84,114,117,101>>)
  @@ ("False" :> <<70,97,108,115,101>>)
  @@ ("GMT" :> <<71,77,84>>)
  @@ ("Monday" :> <<77,111,110,100,97,121>>)
  @@ ("Tuesday" :> <<84,117,101,115,100,97,121>>)
  @@ ("Wednesday" :> <<87,101,100,110,101,115,100,97,121>>)
  @@ ("Thursday" :> <<84,104,117,114,115,100,97,121>>)
  @@ ("Friday" :> <<70,114,105,100,97,121>>)
  @@ ("Saturday" :> <<83,97,116,117,114,100,97,121>>)
  @@ ("Sunday" :> <<83,117,110,100,97,121>>)
  @@ ("January" :> <<74,97,110,117,97,114,121>>)
  @@ ("February" :> <<70,101,98,114,117,97,114,121>>)
  @@ ("March" :> <<77,97,114,99,104>>)
  @@ ("April" :> <<65,112,114,105,108>>)
  @@ ("May" :> <<77,97,121>>)
  @@ ("June" :> <<74,117,110,101>>)
  @@ ("July" :> <<74,117,108,121>>)
  @@ ("August" :> <<65,117,103,117,115,116>>)
  @@ ("September" :> <<83,101,112,116,101,109,98,101,114>>)
  @@ ("October" :> <<79,99,116,111,98,101,114>>)
  @@ ("November" :> <<78,111,118,101,109,98,101,114>>)
  @@ ("December" :> <<68,101,99,101,109,98,101,114>>)
  @@ ("RSASSA-PKCS1-v1_5:SHA256" :> <<82,83,65,83,83,65,45,80,75,67,83,49,45,118,49,95,53,58,83,72,65,50,53,54>>)
  @@ ("RSASSA-PKCS1-v1_5" :> <<82,83,65,83,83,65,45,80,75,67,83,49,45,118,49,95,53>>)
  @@ ("SHA256" :> <<83,72,65,50,53,54>>)
  @@ ("/PolicyAuthority/jsonwsp/" :> <<47,80,111,108,105,99,121,65,117,116,104,111,114,105,116,121,47,106,115,111,110,119,115,112,47>>)
  @@ ("USER_PASS" :> <<85,83,69,82,95,80,65,83,83>>)
  @@ ("DEFAULT" :> <<68,69,70,65,85,76,84>>)
  @@ ("DB_TYPE" :> <<68,66,95,84,89,80,69>>)
  @@ ("mysql" :> <<109,121,115,113,108>>)
  @@ ("DB_NAME" :> <<68,66,95,78,65,77,69>>)
  @@ ("hgaa" :> <<104,103,97,97>>)
  @@ ("DB_PORT" :> <<68,66,95,80,79,82,84>>)
  @@ ("3306" :> <<51,51,48,54>>)
  @@ ("DB_HOST" :> <<68,66,95,72,79,83,84>>)
  @@ ("LOG_LEVEL" :> <<76,79,71,95,76,69,86,69,76>>)
  @@ ("ALL" :> <<65,76,76>>)
  @@ ("LOG_FILE" :> <<76,79,71,95,70,73,76,69>>)
  @@ ("hgaa_service.log" :> <<104,103,97,97,95,115,101,114,118,105,99,101,46,108,111,103>>)
  @@ ("hgaa_client.log" :> <<104,103,97,97,95,99,108,105,101,110,116,46,108,111,103>>)
  @@ ("LOG_FORMAT" :> <<76,79,71,95,70,79,82,77,65,84>>)
  @@ ("LOG_DATE_FORMAT" :> <<76,79,71,95,68,65,84,69,95,70,79,82,77,65,84>>)
  @@ ("LOG_NAME" :> <<76,79,71,95,78,65,77,69>>)
  @@ ("services" :> <<115,101,114,118,105,99,101,115>>)
  @@ ("clients" :> <<99,108,105,101,110,116,115>>)
  @@ ("LOG_STDOUT" :> <<76,79,71,95,83,84,68,79,85,84>>)
  @@ ("SQL_LOG_LEVEL" :> <<83,81,76,95,76,79,71,95,76,69,86,69,76>>)
  @@ ("SQL_LOG_FILE" :> <<83,81,76,95,76,79,71,95,70,73,76,69>>)
  @@ ("sql.log" :> <<115,113,108,46,108,111,103>>)
  @@ ("SQL_LOG_FORMAT" :> <<83,81,76,95,76,79,71,95,70,79,82,77,65,84>>)
  @@ ("SQL_LOG_DATE_FORMAT" :> <<83,81,76,95,76,79,71,95,68,65,84,69,95,70,79,82,77,65,84>>)
  @@ ("SQL_LOG_STDOUT" :> <<83,81,76,95,76,79,71,95,83,84,68,79,85,84>>)
  @@ ("CLEAN_LOG_ON_START" :> <<67,76,69,65,78,95,76,79,71,95,79,78,95,83,84,65,82,84>>)
  @@ ("SERVICE_ENABLED" :> <<83,69,82,86,73,67,69,95,69,78,65,66,76,69,68>>)
  @@ ("SERVICE_PORT" :> <<83,69,82,86,73,67,69,95,80,79,82,84>>)
  @@ ("8888" :> <<56,56,56,56>>)
  @@ ("SERVICE_HOST" :> <<83,69,82,86,73,67,69,95,72,79,83,84>>)
  @@ ("NONE" :> <<78,79,78,69>>)
  @@ ("FALSE" :> <<70,65,76,83,69>>)
  @@ ("TRUE" :> <<84,82,85,69>>)
  @@ ("DEBUG" :> <<68,69,66,85,71>>)
  @@ ("WARN" :> <<87,65,82,78>>)
  @@ ("WARNING" :> <<87,65,82,78,73,78,71>>)
  @@ ("INFO" :> <<73,78,70,79>>)
  @@ ("INFORMATION" :> <<73,78,70,79,82,77,65,84,73,79,78>>)
  @@ ("ERROR" :> <<69,82,82,79,82>>)
  @@ ("CRITICAL" :> <<67,82,73,84,73,67,65,76>>)
  @@ ("LADON" :> <<76,65,68,79,78>>)
  @@ ("." :> <<46>>)
  @@ ("sqlalchemy" :> <<115,113,108,97,108,99,104,101,109,121>>)
  @@ ("ladonlogger" :> <<108,97,100,111,110,108,111,103,103,101,114>>)
  @@ ("%(asctime)s" :> <<37,40,97,115,99,116,105,109,101,41,115>>)
  @@ ("%(levelname)s" :> <<37,40,108,101,118,101,108,110,97,109,101,41,115>>)
  @@ ("%(name)s" :> <<37,40,110,97,109,101,41,115>>)
  @@ ("%(message)s" :> <<37,40,109,101,115,115,97,103,101,41,115>>)
  @@ ("DB_USER" :> <<68,66,95,85,83,69,82>>)
  @@ ("DB_PASS" :> <<68,66,95,80,65,83,83>>)
  @@ ("SQLITE" :> <<83,81,76,73,84,69>>)
  @@ ("MEMORY" :> <<77,69,77,79,82,89>>)
  @@ ("MYSQL" :> <<77,89,83,81,76>>)
  @@ (".db" :> <<46,100,98>>)
  @@ ("aauth" :> <<97,97,117,116,104>>)
  @@ ("pauth" :> <<112,97,117,116,104>>)
  @@ ("AAUTH" :> <<65,65,85,84,72>>)
  @@ ("PAUTH" :> <<80,65,85,84,72>>)
  @@ ("TOOLS" :> <<84,79,79,76,83>>)
  @@ ("KEY_FILE" :> <<75,69,89,95,70,73,76,69>>)
  @@ ("KEY_PASS" :> <<75,69,89,95,80,65,83,83>>)
  @@ ("PASS_PEPPER" :> <<80,65,83,83,95,80,69,80,80,69,82>>)
  @@ ("%(asctime)s: [%(levelname)s: %(name)s] %(message)s" :> <<37,40,97,115,99,116,105,109,101,41,115,58,32,91,37,40,108,101,118,101,108,110,97,109,101,41,115,58,32,37,40,110,97,109,101,41,115,93,32,37,40,109,101,115,115,97,103,101,41,115>>)
  @@ ("%m/%d/%Y %I:%M:%S %p" :> <<37,109,47,37,100,47,37,89,32,37,73,58,37,77,58,37,83,32,37,112>>)
N(x) == NameTable[x]
=============================================================================

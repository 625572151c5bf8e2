#!/usr/bin/env python3
"""Writes ../spec/Names.tla: the code points of the text constants of the system, which TLA+ strings do not offer."""
import os
W = """/attribute/connection/ remote_addr remote_host remote_ident remote_user ip_v4 ip_v6 remote_addr_v4_oct remote_addr_v6_hex auth_method pub_key pub_key_size
pub_key_algo con_time con_time_weekdayname con_time_monthname con_time_month con_time_day con_time_weekday con_time_year con_time_yearday con_time_hour con_time_min
con_time_sec con_time_zone con_time_dst aauth_uid aauth_name aauth_url aauth_pub_key aauth_pub_key_size aauth_pub_key_algo aauth_version ac_version session_id
session_length RSA [ ] /user/ http:// localhost : /AttributeAuthority/jsonwsp/ revocation_list True False GMT Monday Tuesday Wednesday Thursday Friday Saturday Sunday
January February March April May June July August September October November December RSASSA-PKCS1-v1_5:SHA256 RSASSA-PKCS1-v1_5 SHA256 /PolicyAuthority/jsonwsp/
USER_PASS DEFAULT DB_TYPE mysql DB_NAME hgaa DB_PORT 3306 DB_HOST LOG_LEVEL ALL LOG_FILE hgaa_service.log hgaa_client.log LOG_FORMAT LOG_DATE_FORMAT LOG_NAME services clients
LOG_STDOUT SQL_LOG_LEVEL SQL_LOG_FILE sql.log SQL_LOG_FORMAT SQL_LOG_DATE_FORMAT SQL_LOG_STDOUT CLEAN_LOG_ON_START SERVICE_ENABLED SERVICE_PORT 8888 SERVICE_HOST
NONE FALSE TRUE DEBUG WARN WARNING INFO INFORMATION ERROR CRITICAL LADON . sqlalchemy ladonlogger %(asctime)s %(levelname)s %(name)s %(message)s
DB_USER DB_PASS SQLITE MEMORY MYSQL .db aauth pauth AAUTH PAUTH TOOLS KEY_FILE KEY_PASS PASS_PEPPER
""".split() + ['%(asctime)s: [%(levelname)s: %(name)s] %(message)s', '%m/%d/%Y %I:%M:%S %p']
out = ['------------------------------- MODULE Names -------------------------------', '(* Code points of the text constants of the system (written by                *)',
       '(* tools/mknames.py: TLA+ strings cannot be taken apart).                      *)', 'EXTENDS Integers, Sequences, TLC', 'NameTable ==']
for i, w in enumerate(W):
    out.append('  %s("%s" :> <<%s>>)' % ('@@ ' if i else '   ', w, ','.join(str(ord(c)) for c in w)))
out += ['N(x) == NameTable[x]', '=' * 77]
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'Names.tla'), 'w').write('\n'.join(out) + '\n')

import os
BUGS = []
SVC = {'svc.py': open(os.path.join('/verif/tools/demo/svc.py')).read()}


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=[(F,) + e if len(e) == 2 else e for e in edits], needs=needs, breaks=breaks,
                     demo='sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom svc import *\n' + demo.lstrip('\n'), files=SVC))


F = 'hgaa/services/pauth.py'
REG = "        aauths = s.query(AttributeAuthority).all()\n        aauth_dict = {}\n        for aauth in aauths:\n            aauth_dict[aauth.uid] = aauth\n\n        processed_att_certs = {}\n"

bug('B2201', 'P22', [(REG, REG.replace("        aauths = s.query(AttributeAuthority).all()\n", "        if not hasattr(self, '_aauths'):\n            self._aauths = s.query(AttributeAuthority).all()\n            s.expunge_all()\n        aauths = self._aauths\n"))],
    'trust withdrawn after the first session of the running service', 'certificates of an authority that is no longer trusted still open sessions', '''
pa = pauth()
start(pa, given(make(1)))
register('urn:aa', KEY, 0)
assert fails(start, pa, given(make(2)))
''')
bug('B2202', 'P22', [(REG, REG.replace("aauth_dict[aauth.uid] = aauth", "aauth_dict[aauth.uid.lower()] = aauth")), ("            aauth_uid = cert.issuer.uid\n", "            aauth_uid = (cert.issuer.uid or '').lower()\n")],
    'two authorities whose identifiers differ in letter case only, one of them trusted', 'the certificate of the other is judged by the wrong registration', '''
other = RSA.generate(1024)
pa = pauth([('urn:aa', KEY, 5), ('urn:AA', KEY, 0)])
start(pa, given(make(1)))
assert fails(start, pa, given(make(2, uid='urn:AA')))
assert fails(start, pa, given(make(3, uid='Urn:aa')))
''')
bug('B2203', 'P22', [("            cert = self._check_cert(raw_cert, aauth_dict, exports, 'start_session')\n", """            raw_hash = base64.b64encode(SHA256.new(raw_cert.data_raw).digest()).decode('utf-8')
            if s.query(AC).filter(AC.hash == raw_hash).first() is not None:
                cert = AttributeCertificate.import_ac(raw_cert.data_raw, format=raw_cert.format, verify=False)
            else:
                cert = self._check_cert(raw_cert, aauth_dict, exports, 'start_session')
""")],
    'a certificate already used in a session, presented again after it expired or its issuer lost trust', 'it opens another session', '''
pa = pauth()
g = make(1)
start(pa, given(g))
start(pa, given(g))
register('urn:aa', KEY, 0)
assert fails(start, pa, given(g))
''')
bug('B2204', 'P22', [("                raise ClientFault('An attribute certificate in your certificate set '\n                                  'is expired.')\n\n            return cert\n", "                return None\n\n            return cert\n")],
    'an expired certificate next to a valid one in the set', 'the session is opened instead of refused', '''
pa = pauth()
start(pa, given(make(1)))
assert fails(start, pa, given(make(2, before=NOW - 5)))
assert fails(start, pa, given(make(3)), given(make(4, before=NOW - 5)))
''')
bug('B2301', 'P23', [("                if min_valid_date == -1 or cert.rev_rules.valid_before < min_valid_date:\n                    min_valid_date = cert.rev_rules.valid_before\n\n                if max_start_date", "                if max_start_date"),
                     ("                if has_cert is None:\n                    to_add.append(AC(", "                if min_valid_date == -1 or (has_cert is None and cert.rev_rules.valid_before < min_valid_date):\n                    min_valid_date = cert.rev_rules.valid_before\n\n                if has_cert is None:\n                    to_add.append(AC(")],
    'a set in which a certificate known from an earlier session, not the first of the set, ends before the others', 'the session outlives that certificate', '''
pa = pauth()
a, b = make(1, before=NOW + 100), make(2, before=NOW + 500)
start(pa, given(a))
assert start(pa, given(b), given(a)).valid_till == NOW + 100
''')
bug('B2302', 'P23', [("                                  session_start=session_start, initial_service_ip=exports['REMOTE_ADDR'],\n", "                                  session_start=int(time.time()), initial_service_ip=exports['REMOTE_ADDR'],\n")],
    'the clock passing to the next second while the request is served', 'the recorded start differs from the one the caller was told', '''
pa = pauth()
t = [NOW]
import hgaa.services.pauth as module


class Clock(object):
    def time(self):
        t[0] += 1
        return t[0]

    def __getattr__(self, n):
        return getattr(time, n)


module.time = Clock()
r = start(pa, given(make(1)))
assert sql('SELECT session_start FROM pauth_sessions') == [(r.start,)]
''')
bug('B2303', 'P23', [("                if max_start_date == -1 or cert.info.issued > max_start_date:\n                    max_start_date = cert.info.issued\n", "                if max_start_date == -1 or cert.info.issued > max_start_date:\n                    max_start_date = min(cert.info.issued, session_start)\n")],
    'a certificate whose time of issue lies ahead of the clock', 'the record has a time of issue no certificate has', '''
pa = pauth()
start(pa, given(make(1, issued=NOW + 500)))
assert sql('SELECT cert_start FROM pauth_sessions') == [(NOW + 500,)]
''')
bug('B2401', 'P24', [("                    if has_cert.hash != cert_hash:\n", "                    if (has_cert.valid_till, has_cert.version) != (cert.rev_rules.valid_before, raw_cert.version):\n")],
    'another certificate with the serial and the end of validity of one used before', 'it is accepted under the record of the other', '''
pa = pauth()
start(pa, given(make(1, value='a')))
start(pa, given(make(1, value='a')))
assert fails(start, pa, given(make(1, value='b')))
''')
bug('B2402', 'P24', [("                    if has_cert.hash != cert_hash:\n", "                    if has_cert.hash != cert_hash and has_cert.valid_till < session_start:\n                        s.delete(has_cert)\n                        s.flush()\n                        to_add.append(AC(serial=b64_serial, certificate=raw_bytes,\n                                         format=raw_cert.format.value, version=raw_cert.version,\n                                         valid_till=cert.rev_rules.valid_before, hash=cert_hash))\n                    elif has_cert.hash != cert_hash:\n")],
    'another certificate with a used serial, presented when the first has expired', 'the stored certificate is replaced', '''
pa = pauth()
start(pa, given(make(1, value='a')))
old = sql('SELECT * FROM pauth_attribute_certificates')
sql('DELETE FROM pauth_attribute_certificate_assignments')
import hgaa.services.pauth as module, hgaa.attcert as att


class Clock(object):
    def time(self):
        return NOW + 5000

    def __getattr__(self, n):
        return getattr(time, n)


module.time = att.time = Clock()
assert fails(start, pa, given(make(1, value='b', before=NOW + 9000)))
assert sql('SELECT * FROM pauth_attribute_certificates') == old
''')
bug('B2501', 'P25', [("                    to_add.append(AC(serial=b64_serial, certificate=raw_bytes,\n                                     format=raw_cert.format.value, version=raw_cert.version,\n                                     valid_till=cert.rev_rules.valid_before, hash=cert_hash))\n", "                    s.add(AC(serial=b64_serial, certificate=raw_bytes,\n                             format=raw_cert.format.value, version=raw_cert.version,\n                             valid_till=cert.rev_rules.valid_before, hash=cert_hash))\n                    s.commit()\n")],
    'a set refused because of a certificate that is not the first', 'the certificates before it stay recorded', '''
pa = pauth()
assert fails(start, pa, given(make(1)), given(make(2, before=NOW - 5)))
assert sql('SELECT * FROM pauth_attribute_certificates') == []
''')
bug('B2502', 'P25', [("                if has_cert is None:\n                    to_add.append(AC(", "                seen = self.__dict__.setdefault('_stored_hashes', {})\n                if has_cert is None and seen.get(b64_serial) != cert_hash:\n                    seen[b64_serial] = cert_hash\n                    to_add.append(AC("),
                     ("                    if has_cert.hash != cert_hash:\n", "                    if has_cert is not None and has_cert.hash != cert_hash:\n")],
    'the database failing at the end of a request, and the same certificate presented again', 'the later session refers to a certificate that was never recorded', '''
pa = pauth()
b = make(9, before=NOW - 5)
assert fails(start, pa, given(make(1)), given(b))
start(pa, given(make(1)))
assert len(sql('SELECT * FROM pauth_attribute_certificates')) == 1
''')
bug('B2503', 'P25', [("                to_add.append(ACA(ac_serial=b64_serial, session_id=b64_session))\n", "                to_add.append(ACA(ac_serial=b64_serial, session_id=b64_session))\n                if len(to_add) >= 6:\n                    s.add_all(to_add)\n                    s.commit()\n                    to_add = []\n")],
    'a set of four or more certificates refused because of a late one', 'certificates and assignments of a session that does not exist are recorded', '''
pa = pauth()
start(pa, *[given(make(10 + i)) for i in range(5)])
n = len(sql('SELECT * FROM pauth_attribute_certificates'))
assert fails(start, pa, *([given(make(20 + i)) for i in range(4)] + [given(make(30, before=NOW - 5))]))
assert len(sql('SELECT * FROM pauth_attribute_certificates')) == n
''')
bug('B2601', 'P26', [("            key_info = KeyAlgorithm()\n            key_info.key_size = aauth.key_size\n", "            key_info.key_size = aauth.key_size\n"),
                     ("        auth_list.attribute_authorities = []\n", "        auth_list.attribute_authorities = []\n        key_info = KeyAlgorithm()\n")],
    'two registered authorities with keys of different size', 'the list shows the key size of the last for all', '''
pa = pauth([('urn:aa', KEY, 5), ('urn:bb', RSA.generate(1536), 1)])
l = pa.trusted_attribute_authorities(REMOTE_ADDR='x').attribute_authorities
assert sorted((a.uid, a.key_algorithm.key_size) for a in l) == [('urn:aa', 1024), ('urn:bb', 1536)]
''')
bug('B2602', 'P26', [('hgaa/services/aauth.py', "        aa_info.revocation_url = self._get_info_attr('rev_url')\n", "        aa_info.revocation_url = get_conf('REV_URL', True, 'AAUTH')\n")],
    'an authority for which no revocation address is configured', 'it publishes none, while its certificates carry one', '''
aa = aauth()
assert aa.info(REMOTE_ADDR='x').revocation_url == request(aa).rev_rules.url
''')
bug('B2205', 'P22', [(REG, REG.replace("aauth_dict[aauth.uid] = aauth", "aauth_dict[aauth.uid] = aauth_dict[aauth.name] = aauth"))],
    'a certificate whose issuer is named as a trusted authority is called', 'an issuer that is not registered opens a session', '''
pa = pauth()
start(pa, given(make(1)))
name = sql('SELECT name FROM pauth_attribute_authorities')[0][0]
assert fails(start, pa, given(make(2, uid=name)))
''')

import os
BUGS = []
SVC = {'svc.py': open(os.path.join('/verif/tools/demo/svc.py')).read()}


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=[(F,) + e if len(e) == 2 else e for e in edits], needs=needs, breaks=breaks,
                     demo='sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom svc import *\n' + demo.lstrip('\n'), files=SVC))


F = 'hgaa/services/aauth.py'

bug('B1801', 'P18', [("filter(User.username == credentials.username.lower()).first()", "filter(User.username.like(credentials.username.lower())).first()")],
    'a user name with a pattern character (% or _) and the password of the account it matches', 'a name no account has gets a certificate', '''
aa = aauth()
assert fails(ask, aa, '%') and fails(ask, aa, 'd_n')
''')
bug('B1802', 'P18', [("            user = s.query(User).filter(User.username == credentials.username.lower()).first()\n",
                      "            known = self.__dict__.setdefault('_known_users', {})\n            user = known.get(credentials.username.lower())\n            if user is None:\n                user = s.query(User).filter(User.username == credentials.username.lower()).first()\n                if user is not None:\n                    s.expunge(user)\n                    known[user.username] = user\n")],
    'a password changed after the account has been used once', 'the old password is still accepted, the new one refused', '''
import bcrypt
aa = aauth()
ask(aa)
sql('UPDATE aauth_users SET password = ?', bcrypt.hashpw(b'newpepper', bcrypt.gensalt(4)).decode())
assert fails(ask, aa)
ask(aa, pw='new')
''')
bug('B1803', 'P18', [("                raise ClientFault('Invalid credentials.')\n        else:\n", "                raise ClientFault('Invalid credentials' + ('!' if len(credentials.password or '') > 40 else '.'))\n        else:\n")],
    'a wrong password of more than 40 characters', 'the refusal differs between accounts that exist and those that do not', '''
aa = aauth()
for w in ('x', 'x' * 41, 'x' * 100):
    assert fails(ask, aa, 'dan', w) == fails(ask, aa, 'nobody', w)
''')
bug('B1804', 'P18', [("                ladon_ac = AttributeCertificateType()\n                ladon_ac.version = AttributeAuthority.AC_VERSION\n                ladon_ac.format = AttributeAuthority.AC_FORMAT.value\n                ac_file_name = self._make_ac(credentials, user_public_key, user_att_set, exports)\n",
                      "                ladon_ac = AttributeCertificateType()\n                ladon_ac.version = AttributeAuthority.AC_VERSION\n                ladon_ac.format = AttributeAuthority.AC_FORMAT.value\n                ac_file_name = self._make_ac(credentials, user_public_key, user_att_set, exports)\n                if credentials.type != CredentialType.USER_PASS.value:\n                    raise ClientFault('Unsupported credential type.')\n"),
                     ("        if credentials.type == CredentialType.USER_PASS.value:\n", "        if credentials.type in (CredentialType.USER_PASS.value, len(CredentialType)):\n")],
    'correct credentials with an unsupported type, the first unassigned one', 'the request is refused but a signed certificate is left in the store', '''
aa = aauth()
assert fails(aa.attribute_request, T(type=1, username='dan', password='admin'), T(public_key=b'K', key_algorithm=T(cipher='RSA', key_size=1)), T(attribute_ids=[], attribute_names=[]), REMOTE_ADDR='10.0.0.1')
assert os.listdir(DIR + '/certs') == []
''')
bug('B1901', 'P19', [("                        user_att_set[att.id] = att\n                else:\n                    AttributeAuthority.LOG.debug('%s has requested a subset", "                        user_att_set[att.name] = att\n                else:\n                    AttributeAuthority.LOG.debug('%s has requested a subset")],
    'two attributes of one user with the same name, all attributes requested', 'one of them is missing from the certificate', '''
aa = aauth(atts=[('/a/1', 'x', 'INT'), ('/b/1', 'x', 'INT')], assign=[(1, '/a/1', '1'), (1, '/b/1', '2')])
assert values(request(aa)) == [('/a/1', '1'), ('/b/1', '2')]
''')
bug('B1902', 'P19', [("                user_attributes = s.query(Attribute,AttributeAssignment.value).join(Attribute.values).\\\n                    filter_by(user_id=user.id).all()\n",
                      "                cached = self.__dict__.setdefault('_user_attributes', {})\n                if user.id not in cached:\n                    cached[user.id] = s.query(Attribute,AttributeAssignment.value).join(Attribute.values).\\\n                        filter_by(user_id=user.id).all()\n                user_attributes = cached[user.id]\n")],
    'an assignment changed or taken away after the user\'s first request', 'later certificates carry the old attributes', '''
aa = aauth()
request(aa)
sql('UPDATE aauth_attribute_assignments SET value = 32')
assert values(request(aa)) == [('/a/age', '32')]
''')
bug('B1903', 'P19', [("                    for att_name in attributes.attribute_names:\n                        att = att_list_by_name.get(att_name, None)\n                        if att is None:\n", "                    for att_name in attributes.attribute_names:\n                        att = att_list_by_name.get(att_name, None)\n                        if att is None and att_name in user_att_set:\n                            continue\n                        if att is None:\n")],
    'an identifier that was requested also appears in the list of names', 'a request naming an attribute the user does not have is not refused', '''
aa = aauth()
assert fails(ask, aa, ids=['/a/age'], names=['/a/age'])
''')
bug('B2001', 'P20', [("        rev_rules = ACRevocationRules(valid_before=info.issued + self.ac_expire_length,\n                                      valid_after=info.issued,\n", "        rev_rules = ACRevocationRules(valid_before=int(t0) + self.ac_expire_length,\n                                      valid_after=int(t0),\n")],
    'the second turns between the start of the issue and the statement of the moment of issue', 'validity does not start at the moment of issue', '''
aa = aauth()
real, n = time.time, [0]
def clock():
    n[0] += 1
    return 1500000000.5 + .25 * n[0]
time.time = clock
try:
    certs = [request(aa) for _ in range(8)]
finally:
    time.time = real
assert all(c.rev_rules.valid_after == c.info.issued and c.rev_rules.valid_before == c.info.issued + 3600 for c in certs)
''')
bug('B2002', 'P20', [("        info = ACInformation(AttributeAuthority.AC_VERSION)\n", "        info = ACInformation(AttributeAuthority.AC_VERSION)\n        info.serial = int.from_bytes(bcrypt.kdf(('%s%d' % (credentials.username, info.issued)).encode(), self.a_uri.encode(), 20, 1, ignore_few_rounds=True), 'little')\n")],
    'two requests of one user in the same second', 'two certificates have the same serial and the second overwrites the first', '''
aa = aauth()
time.time = lambda: 1500000000.0
a, b = request(aa, ids=['/a/age']), request(aa)
assert a.info.serial != b.info.serial and len(os.listdir(DIR + '/certs')) == 2
''')
bug('B2003', 'P20', [("        hex_serial = ('0x%0.2X.ac' % info.serial)[2:]\n", "        hex_serial = '%X.ac' % (info.serial & 0xff)\n")],
    'two certificates whose serials end in the same byte', 'the stored certificate is overwritten by another one', '''
aa = aauth()
for _ in range(120):
    request(aa)
assert len(os.listdir(DIR + '/certs')) == 120
''')
bug('B2004', 'P20', [("        self._db_session = get_session('AAUTH') # TODO: Need new session for each request?\n", "        self._db_session = get_session('AAUTH') # TODO: Need new session for each request?\n        self._holders = {}\n"),
                     ("        holder = ACHolder(key_algo=algo,\n                          uid='%s/user/%s' % (self.a_uri, credentials.username),\n                          pub_key=user_public_key.public_key,\n                          name=credentials.username)\n",
                      "        holder = self._holders.get((credentials.username, algo))\n        if holder is None:\n            holder = ACHolder(key_algo=algo,\n                              uid='%s/user/%s' % (self.a_uri, credentials.username),\n                              pub_key=user_public_key.public_key,\n                              name=credentials.username)\n            self._holders[(credentials.username, algo)] = holder\n")],
    'a user\'s second request, with another public key of the same size', 'the certificate is bound to the key of the first request', '''
aa = aauth()
request(aa, key=b'K1')
assert bytes(request(aa, key=b'K2').holder.pub_key) == b'K2'
''')
bug('B2101', 'P21', [("                                           'value': st.tm_hour}", "                                           'value': st.tm_hour % 12 or 12}")],
    'a request in the afternoon or the hour after midnight (GMT)', 'con_time_hour is on a twelve hour clock', '''
aa = aauth()
time.time = lambda: 1500000000.0 + 15 * 3600
assert con(request(aa), 'con_time_hour') == str(time.gmtime(time.time()).tm_hour)
''')
bug('B2102', 'P21', [("                                                          'value': int(hex, 16)}\n", "                                                          'value': int(hex)if hex.isdigit() else int(hex, 16)}\n")],
    'an IPv6 address with a hextet of decimal digits only above 9', 'the hextet is read as a decimal number', '''
aa = aauth()
ac = request(aa, REMOTE_ADDR='2001:db8::12')
assert con(ac, 'remote_addr_v6_hex7') == '18' and con(ac, 'remote_addr_v6_hex0') == str(0x2001)
''')
bug('B2103', 'P21', [("        for var in export_vars:\n            if var in exports:\n", "        for var in export_vars:\n            if exports.get(var):\n")],
    'a connection for which an empty host, identity or user is reported', 'the attribute is left out instead of stating what was reported', '''
aa = aauth()
assert con(request(aa, REMOTE_USER=''), 'remote_user') in ('', None)
''')
bug('B1805', 'P18', [("credentials.username.lower()).first()", "credentials.username.casefold()).first()")],
    'a user name with a letter that folds to the letters of another account', 'a name no account has gets a certificate', '''
aa = aauth()
sql('UPDATE aauth_users SET username = ?', 'strasse')
ask(aa, 'strasse')
assert fails(ask, aa, 'stra\\u00dfe')
''')

"""Clients, configuration, databases, everything together."""
import os
BUGS = []
SVC = {'svc.py': open(os.path.join('/verif/tools/demo/svc.py')).read()}


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks,
                     demo='sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom svc import *\n' + demo.lstrip('\n'), files=SVC))


CA, CP, CF, DBM, TL, AC, PA = 'hgaa/clients/aauth.py', 'hgaa/clients/pauth.py', 'hgaa/config.py', 'hgaa/database.py', 'hgaa/tools.py', 'hgaa/attcert.py', 'hgaa/services/pauth.py'
CLI = '''
CLIENTS['AAUTH'].update({'CLIENT_TYPE': 'JSONWSP', 'SERVICE_DESCRIPTION': 'http://aa', 'KEY_SIZE': '1024', 'CRED_TYPE': '0', 'CRED_USER': 'dan', 'CRED_PASS': 'admin'})
CLIENTS['PAUTH'].update({'CLIENT_TYPE': 'JSONWSP', 'SERVICE_DESCRIPTION': 'http://pa'})
REPLY[0] = lambda m, kw: T(status=200, response_dict={'result': 'r'})
'''
bug('B2701', 'P27', [(CA, "        pub_key = key.publickey().exportKey()\n", "        pub_key = key.exportKey() if key is self.last_key else key.publickey().exportKey()\n")],
    'an attribute request that uses the key of the last successful request again', 'the private half of the key is sent to the service', CLI + '''
from hgaa.clients.aauth import AttributeAuthorityClient
c = AttributeAuthorityClient()
c.attribute_request()
c.attribute_request(key=c.last_key)
assert all('PRIVATE' not in str(kw) for m, d, kw in CALLS)
''')
bug('B2702', 'P27', [(CP, """        response = self.cli.trusted_attribute_authorities()
        # TODO: More logging.
        # TODO: Check status + for errors

        if response.status != 200:
""", """        response = self.cli.trusted_attribute_authorities()
        # TODO: More logging.
        # TODO: Check status + for errors

        if response.status >= 400:
""")],
    'a reply with a status that is neither 200 nor an error of the client or server', 'its content is taken for the list of trusted authorities', CLI + '''
from hgaa.clients.pauth import PolicyAuthorityClient
c = PolicyAuthorityClient('urn:s')
REPLY[0] = lambda m, kw: T(status=302, response_dict={'result': 'elsewhere'})
assert fails(c.trusted_attribute_authorities)
''')
bug('B2703', 'P27', [(CA, "        self.last_key = None\n", "        self.last_key = None\n        self.last_names = None\n"),
                     (CA, "        attributes = {\n", "        if attribute_names is not None:\n            self.last_names = attribute_names\n        elif attribute_ids is not None:\n            attribute_names = self.last_names\n\n        attributes = {\n")],
    'a request by identifiers after one by names', 'the names asked for before are sent again', CLI + '''
from hgaa.clients.aauth import AttributeAuthorityClient
c = AttributeAuthorityClient()
c.attribute_request(attribute_names=['age'], key=KEY)
c.attribute_request(attribute_ids=['/a/x'], key=KEY)
assert CALLS[-1][2]['attributes'] == {'attribute_names': None, 'attribute_ids': ['/a/x']}, CALLS[-1]
''')
bug('B2704', 'P27', [(CA, "        if 'fault' in response.response_dict:\n", "        if 'fault' in response.response_dict and not response.response_dict.get('result'):\n")],
    'a reply that has both a fault and a result', 'the result is returned and its key remembered', CLI + '''
from hgaa.clients.aauth import AttributeAuthorityClient
c = AttributeAuthorityClient()
REPLY[0] = lambda m, kw: T(status=200, response_dict={'result': 'r', 'fault': {'string': 's', 'detail': 'd'}})
assert fails(c.attribute_request, key=KEY) and c.last_key is None
''')
bug('B2705', 'P27', [(CA, "            self.credentials = credentials\n", "            self.credentials = {'type': credentials.get('type', 0), 'username': credentials.get('username') or get_conf('CRED_USER', False, 'AAUTH'),\n                                'password': credentials.get('password') or get_conf('CRED_PASS', False, 'AAUTH')}\n")],
    'a client made with credentials that have an empty password', 'the configured password is sent with the name of another user', CLI + '''
from hgaa.clients.aauth import AttributeAuthorityClient
c = AttributeAuthorityClient({'type': 0, 'username': 'guest', 'password': ''})
c.attribute_request(key=KEY)
assert CALLS[-1][2]['credentials'] == {'type': 0, 'username': 'guest', 'password': ''}, CALLS[-1]
''')
bug('B2801', 'P28', [(CF, "    val = conf.get(val_name, None)\n\n    if val is None:\n", "    val = conf.get(val_name, None)\n\n    if not val:\n")],
    'a setting with a built-in default that is set to nothing', 'the built-in default is used instead', '''
SERVICES['PAUTH']['DB_HOST'] = ''
from hgaa.config import get_conf
assert get_conf('DB_HOST', True, 'PAUTH') == '', get_conf('DB_HOST', True, 'PAUTH')
''')
bug('B2802', 'P28', [(CF, "    val = conf.get(val_name, None)\n\n    if val is None:\n", "    val = CACHE.get((val_name, sect))\n    if val is None:\n        val = CACHE[val_name, sect] = conf.get(val_name, None)\n\n    if val is None:\n"),
                     (CF, "SERVICE_CONFIG = configparser.ConfigParser()\n", "CACHE = {}\n\nSERVICE_CONFIG = configparser.ConfigParser()\n")],
    'the same setting and section asked for on both sides', 'the client gets the value of the service', '''
SERVICES['AAUTH']['X'] = 'service'
CLIENTS['AAUTH']['X'] = 'client'
from hgaa.config import get_conf
assert get_conf('X', True, 'AAUTH') == 'service' and get_conf('X', False, 'AAUTH') == 'client'
''')
bug('B2803', 'P28', [(CF, "            val = get_conf(val_name, service, 'DEFAULT')\n", "            val = get_conf(val_name)\n")],
    'a client setting that neither its section nor the default section sets', 'the default of the services is used', '''
from hgaa.config import get_conf
assert get_conf('LOG_NAME', False, 'AAUTH') == 'clients', get_conf('LOG_NAME', False, 'AAUTH')
assert get_conf('DB_NAME', False, 'AAUTH') is None
''')
bug('B2804', 'P28', [(CF, "    val_name = val_name.upper()\n    sect = sect.upper()\n", "    val_name = val_name.upper()\n    sect = sect.split('_')[0].upper()\n")],
    'a section with an underscore in its name', 'its settings are those of another section', '''
SERVICES['AAUTH_TEST'] = {'DB_NAME': DB + '-test'}
from hgaa.config import get_conf
assert get_conf('DB_NAME', True, 'AAUTH_TEST') == DB + '-test'
''')
POP = '''
from hgaa.database import populate_db, get_engine, get_session
from hgaa.schema import ServiceBases
from hgaa.schema.aauth import User
from hgaa.schema.pauth import AttributeAuthority
'''
bug('B2901', 'P29', [(DBM, "        for table in reversed(base.metadata.sorted_tables):\n", "        tables = MetaData()\n        tables.reflect(bind=session.get_bind())\n        for table in reversed(tables.sorted_tables):\n"),
                     (DBM, "from sqlalchemy import create_engine\n", "from sqlalchemy import create_engine, MetaData\n")],
    'two services in one database, one of them wiped', 'the data of the other is lost', POP + '''
aauth()
pauth()
populate_db('AAUTH', [], wipe_first=True)
assert sql('SELECT count(*) FROM aauth_users') == [(0,)] and sql('SELECT count(*) FROM pauth_attribute_authorities') == [(1,)]
''')
bug('B2902', 'P29', [(DBM, "    session.add_all(instances)\n    session.commit()\n", "    for i, instance in enumerate(instances):\n        session.add(instance)\n        if i % 50 == 49:\n            session.commit()\n    session.commit()\n")],
    'more than fifty records of which a late one cannot be added', 'the ones before it are kept although the failure was reported', POP + '''
aauth()
assert fails(populate_db, 'AAUTH', [User(id=i, username='u%d' % i, password='x') for i in range(10, 90)] + [User(id=10, username='again', password='x')])
assert sql('SELECT count(*) FROM aauth_users') == [(1,)], sql('SELECT count(*) FROM aauth_users')
''')
bug('B2903', 'P29', [(DBM, "        ACTIVE_ENGINES[hgaa_name] = engine\n", "        ACTIVE_ENGINES[dbname] = engine\n"),
                     (DBM, "    engine = ACTIVE_ENGINES.get(hgaa_name, None)\n", "    engine = ACTIVE_ENGINES.get(get_conf('DB_NAME', True, hgaa_name), None)\n")],
    'two services whose databases have the same name and are of different kinds', 'the second uses the database of the first', '''
SERVICES['PAUTH'].update({'DB_TYPE': 'memory'})
''' + POP + '''
assert str(get_engine('AAUTH').url) != str(get_engine('PAUTH').url)
''')
bug('B2904', 'P29', [(DBM, "        session = get_session(hgaa_name + '_TEST')()\n", "        session = get_session(hgaa_name)()\n")],
    'the test database of a service populated', 'the data of the service itself is wiped', '''
SERVICES['AAUTH_TEST'] = {'DB_NAME': DB + '-test'}
''' + POP + '''
aauth()
ServiceBases['aauth'].metadata.create_all(get_engine('AAUTH_TEST'))
populate_db('AAUTH', [User(id=7, username='t', password='x')], wipe_first=True, use_test_db=True)
assert sql('SELECT username FROM aauth_users') == [('dan',)], sql('SELECT username FROM aauth_users')
''')
bug('B2905', 'P29', [(DBM, "            session.execute(table.delete())\n", "            if len(table.primary_key) < 2:\n                session.execute(table.delete())\n")],
    'a wipe with assignments in the database', 'the assignments stay', POP + '''
aauth()
populate_db('AAUTH', [], wipe_first=True)
assert sql('SELECT count(*) FROM aauth_attribute_assignments') == [(0,)]
''')
bug('B3001', 'P30', [(AC, "        encoded = self._encode_body()\n        sig_hash = SHA256.new(encoded)\n", "        known = AttributeCertificate.__dict__.get('VERIFIED', ())\n        if self.signature.sig_value in known:\n            return True\n        encoded = self._encode_body()\n        sig_hash = SHA256.new(encoded)\n"),
                     (PA, "                cert = AttributeCertificate.import_ac(raw_cert.data_raw, format=raw_cert.format, verify=True)\n", "                cert = AttributeCertificate.import_ac(raw_cert.data_raw, format=raw_cert.format, verify=True)\n                AttributeCertificate.VERIFIED = getattr(AttributeCertificate, 'VERIFIED', ()) + \\\n                    (cert.signature.sig_value,)\n")],
    'a certificate that was accepted, and the same one with altered serial and attributes afterwards', 'the altered one is accepted', '''
pa = pauth()
a = make(0x5a5b5c5d5e5f, value='student of')
start(pa, given(a))
b = bytes(a.export_ac()).replace(b'student of', b'supervisor').replace(bytes.fromhex('5f5e5d5c5b5a'), b'abcdef')
assert fails(start, pa, given(b))
''')
bug('B3002', 'P30', [(PA, "            raw_cert.data_raw = bytearray(raw_bytes)\n", "            raw_cert.data_raw = bytearray(raw_bytes.strip())\n")],
    'a certificate in binary form whose signature happens to end with a byte that is a blank', 'a genuine certificate is refused', '''
pa = pauth()
for i in range(1, 5000):
    a = make(i)
    if a.export_ac()[-1] in b' \\t\\n\\r\\x0b\\x0c':
        start(pa, given(a))
        break
''')
bug('B3003', 'P30', [(PA, "            elif not cert.verify_time():\n", "            elif not cert.verify_time() or cert.rev_rules.valid_before - cert.rev_rules.valid_after > 7 * PolicyAuthority.MAX_SESSION_LENGTH:\n")],
    'an authority that issues certificates for more than a week', 'genuine certificates of a trusted authority are refused', '''
pa = pauth()
start(pa, given(make(1, before=NOW + 30 * 86400)))
''')
bug('B2805', 'P28', [(CF, "    val = conf.get(val_name, None)\n\n    if val is None:\n", "    val = conf.get(val_name, None) and conf.get(val_name).strip('\"')\n\n    if val is None:\n")],
    'a setting whose value begins or ends with a quote', 'the value is not the one set', '''
SERVICES['AAUTH']['X'] = '"a"'
from hgaa.config import get_conf
assert get_conf('X', True, 'AAUTH') == '"a"'
''')

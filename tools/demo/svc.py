"""Running the services for a demonstration: the web framework, the configuration and the database are stand-ins in a scratch directory."""
import atexit, configparser, logging, os, shutil, sqlite3, sys, tempfile, time, types, warnings
warnings.simplefilter('ignore')
DIR = tempfile.mkdtemp(prefix='demo-')
atexit.register(shutil.rmtree, DIR, True)


class ServiceFault(Exception):
    pass


class ClientFault(ServiceFault):
    pass


class ServerFault(ServiceFault):
    pass


class LadonType(object):
    pass


class attachment(object):
    def __init__(self, bufferobj=None, *a, **k):
        self.bufferobj = bufferobj

    def read(self, *a):
        return self.bufferobj.read(*a)

    def close(self):
        self.bufferobj.close()


CALLS, REPLY = [], [None]


class JSONWSPClient(object):
    def __init__(self, description):
        self.description = description

    def __getattr__(self, method):
        if method.startswith('__'):
            raise AttributeError(method)

        def call(**kw):
            CALLS.append((method, self.description, kw))
            return REPLY[0](method, kw)
        return call


def ladonize(*a, **k):
    return lambda f: f


def module(name, **d):
    m = types.ModuleType(name)
    m.__dict__.update(d)
    sys.modules[name] = m


for n in ('ladon', 'ladon.types', 'ladon.exceptions', 'ladon.clients'):
    module(n, __path__=[])
module('ladon.ladonizer', ladonize=ladonize)
module('ladon.types.ladontype', LadonType=LadonType)
module('ladon.types.attachment', attachment=attachment)
module('ladon.compat', PORTABLE_STRING=str, PORTABLE_BYTES=bytes)
module('ladon.exceptions.service', ClientFault=ClientFault, ServerFault=ServerFault)
module('ladon.clients.jsonwsp', JSONWSPClient=JSONWSPClient)
logging.FileHandler._open = lambda self: open(os.devnull, 'a')

from Crypto.PublicKey import RSA
KEY = RSA.generate(1024)
with open(DIR + '/key.pem', 'wb') as f:
    f.write(KEY.export_key())
DB = DIR + '/db'
SERVICES = {'DEFAULT': {'LOG_STDOUT': 'False', 'SQL_LOG_STDOUT': 'False', 'SQL_LOG_LEVEL': 'CRITICAL', 'CLEAN_LOG_ON_START': 'False', 'LOG_LEVEL': 'ERROR', 'DB_TYPE': 'sqlite', 'DB_NAME': DB},
            'LADON': {'LOG_FILE': 'ladon.log', 'SERVICE_PORT': '8888', 'SERVICE_HOST': ''},
            'AAUTH': {'AAUTH_ID': 'authority', 'A_URI': 'urn:aa', 'AC_EXPIRE_LENGTH': '3600', 'PASS_PEPPER': 'pepper', 'KEY_FILE': DIR + '/key.pem', 'KEY_PASS': '', 'REV_URL': '', 'LOG_FILE': 'None'},
            'PAUTH': {'PAUTH_NAME': 'pa', 'PAUTH_UID': 'urn:pa', 'LOG_FILE': 'None'}}
CLIENTS = {'DEFAULT': {'LOG_STDOUT': 'False'}, 'AAUTH': {'LOG_FILE': 'None'}, 'PAUTH': {'LOG_FILE': 'None'}}
_read = configparser.RawConfigParser.read


def read(self, names, encoding=None):
    for n in [names] if isinstance(names, str) else names:
        d = {'services.ini': SERVICES, 'clients.ini': CLIENTS}.get(os.path.basename(n))
        if d is None:
            return _read(self, names, encoding)
        self.read_string('\n'.join('[%s]\n' % s + '\n'.join('%s=%s' % (k, v) for k, v in c.items()) for s, c in d.items()))
    return []


configparser.RawConfigParser.read = read


class T(object):
    def __init__(self, **k):
        self.__dict__.update(k)


def sql(q, *a):
    c = sqlite3.connect(DB + '.db')
    try:
        r = c.execute(q, a).fetchall()
        c.commit()
        return r
    finally:
        c.close()


def fails(f, *a, **k):
    try:
        f(*a, **k)
    except Exception as e:
        return str(e) or repr(e)
    return None


# ---- attribute authority ----
def aauth(users=(('dan', 'admin'),), atts=(('/a/age', 'age', 'INT'),), assign=((1, '/a/age', '31'),)):
    import bcrypt
    from hgaa.schema import ServiceBases
    from hgaa.database import get_engine
    from hgaa.services.aauth import AttributeAuthority
    AttributeAuthority.AC_DIR = DIR + '/certs/'
    os.makedirs(DIR + '/certs', exist_ok=True)
    ServiceBases['aauth'].metadata.create_all(get_engine('AAUTH'))
    for i, (n, p) in enumerate(users):
        sql('INSERT INTO aauth_users (id, username, password) VALUES (?,?,?)', i + 1, n, bcrypt.hashpw((p + 'pepper').encode(), bcrypt.gensalt(4)).decode())
    for a in atts:
        sql('INSERT INTO aauth_attributes (id, name, type) VALUES (?,?,?)', *a)
    for a in assign:
        sql('INSERT INTO aauth_attribute_assignments (user_id, att_id, value) VALUES (?,?,?)', *a)
    return AttributeAuthority()


def ask(aa, user='dan', pw='admin', ids=(), names=(), key=b'KEY', **exports):
    exports = dict({'REMOTE_ADDR': '10.0.0.1'}, **exports)
    r = aa.attribute_request(T(type=0, username=user, password=pw), T(public_key=key, key_algorithm=T(cipher='RSA', key_size=1024)),
                             T(attribute_ids=list(ids), attribute_names=list(names)), **exports)
    return bytes(r.data.read())


def request(aa, *a, **k):
    from hgaa.attcert import AttributeCertificate
    return AttributeCertificate.import_ac(ask(aa, *a, **k), verify=True)


def values(ac):
    return sorted((a.att_id, a.att_value) for a in ac.att_set if not a.att_id.startswith('/attribute/connection/'))


def con(ac, name):
    v = [a.att_value for a in ac.att_set if a.att_id == '/attribute/connection/' + name]
    assert len(v) == 1, (name, v)
    return v[0]


# ---- policy authority ----
NOW = int(time.time())


def pauth(registry=None):
    from hgaa.schema import ServiceBases
    from hgaa.database import get_engine
    from hgaa.services.pauth import PolicyAuthority
    ServiceBases['pauth'].metadata.create_all(get_engine('PAUTH'))
    for uid, key, trust in registry if registry is not None else [('urn:aa', KEY, 5)]:
        register(uid, key, trust)
    return PolicyAuthority()


def register(uid, key, trust):
    sql('INSERT OR REPLACE INTO pauth_attribute_authorities (uid, name, url, key_cipher, key_size, pub_key, trust_level) VALUES (?,?,?,?,?,?,?)',
        uid, 'name of ' + uid, 'http://' + uid, 'RSA', key.size_in_bits(), key.publickey().export_key().decode(), trust)


def make(serial=1, uid='urn:aa', key=None, signer=None, after=None, before=None, issued=None, value='v'):
    from hgaa.attcert import AttributeCertificate, ACIssuer, ACHolder, ACInformation, ACAttribute, ACRevocationRules, AttributeType
    key = key or KEY
    ac = AttributeCertificate(ACIssuer(key.publickey().export_key(), 'RSA', uid, 'n', 'http://aa'), ACHolder(b'K', 'RSA', 'urn:u', 'u'),
                              ACInformation(1, serial, NOW - 10 if issued is None else issued), [ACAttribute('urn:a', AttributeType.STRING, value, 'a')],
                              ACRevocationRules(valid_after=NOW - 10 if after is None else after, valid_before=NOW + 1000 if before is None else before))
    ac.sign(signer or key)
    return ac


class Bytes(object):
    def __init__(self, data, meanwhile=None):
        self.data, self.meanwhile = data, meanwhile

    def read(self, *a):
        if self.meanwhile:
            m, self.meanwhile = self.meanwhile, None
            m()
        return self.data


def given(ac, format=0, version=1, meanwhile=None):
    from hgaa.attcert import ExportFormat
    d = ac if isinstance(ac, bytes) else ac.export_ac(format=ExportFormat(format))
    return T(data=Bytes(d.encode() if isinstance(d, str) else bytes(d), meanwhile), version=version, format=format)


def start(pa, *certs, service='urn:s', **exports):
    exports = dict({'REMOTE_ADDR': '10.0.0.1'}, **exports)
    return pa.start_session(service, T(attribute_certificates=[c if isinstance(c, T) else given(c) for c in certs]), **exports)


def rows():
    return {t: sql('SELECT * FROM pauth_%s ORDER BY 1, 2' % t) for t in ('sessions', 'attribute_certificates', 'attribute_certificate_assignments')}

"""Running an installation: secrets, connections, logs, tools, the server."""
import os
BUGS = []
SVC = {'svc.py': open(os.path.join('/verif/tools/demo/svc.py')).read()}


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks,
                     demo='sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom svc import *\n' + demo.lstrip('\n'), files=SVC))


AA, CA, CF, DBM, LG, TL, HD = 'hgaa/services/aauth.py', 'hgaa/clients/aauth.py', 'hgaa/config.py', 'hgaa/database.py', 'hgaa/log.py', 'hgaa/tools.py', 'hgaa/handler.py'
CAP = '''
SERVICES['DEFAULT']['LOG_LEVEL'] = 'ALL'
CLIENTS['DEFAULT']['LOG_LEVEL'] = 'ALL'
TEXT = []
class Cap(logging.Handler):
    def emit(self, r):
        TEXT.append(r.getMessage())
logging.getLogger().addHandler(Cap(0))
'''
bug('B3201', 'P32', [(AA, "            AttributeAuthority.LOG.debug('ClientFault: Unsupported credential type: %s in attribute_request from %s'\n                                         % (str(credentials.type), exports['REMOTE_ADDR']))\n",
                          "            AttributeAuthority.LOG.debug('ClientFault: Unsupported credentials: %s in attribute_request from %s'\n                                         % (str(vars(credentials)), exports['REMOTE_ADDR']))\n")],
    'a request with an unsupported type of credentials', 'the password sent with it is written to the log', CAP + '''
aa = aauth()
fails(aa.attribute_request, T(type=3, username='dan', password='Hidden-One'), T(public_key=b'K', key_algorithm=T(cipher='RSA', key_size=1024)), T(attribute_ids=[], attribute_names=[]), REMOTE_ADDR='10.0.0.1')
assert not [t for t in TEXT if 'Hidden-One' in t]
''')
bug('B3202', 'P32', [(CA, "        AttributeAuthorityClient.LOG.info('Public session key is %s' % pub_key)\n", "        AttributeAuthorityClient.LOG.info('Session key is %r' % (pub_key if key_size >= 2048 else key.exportKey('DER').hex()))\n")],
    'a session key of less than 2048 bits', 'the private key of the client is written to its log', CAP + '''
CLIENTS['AAUTH'].update({'CLIENT_TYPE': 'JSONWSP', 'SERVICE_DESCRIPTION': 'http://aa', 'KEY_SIZE': '1024', 'CRED_TYPE': '0', 'CRED_USER': 'dan', 'CRED_PASS': 'admin'})
REPLY[0] = lambda m, kw: T(status=200, response_dict={'result': 'r'})
from hgaa.clients.aauth import AttributeAuthorityClient
AttributeAuthorityClient().attribute_request(key=KEY)
assert not [t for t in TEXT if KEY.export_key('DER').hex() in t]
''')
bug('B3203', 'P32', [(CA, "        if response.status != 200:\n            raise Exception(\"Bad status in response.\")\n\n        if 'fault'", "        if response.status != 200:\n            raise Exception(\"Bad status in response to request with %s.\" % self.credentials)\n\n        if 'fault'")],
    'a reply that has a bad status', 'the error shown has the password of the user', CAP + '''
CLIENTS['AAUTH'].update({'CLIENT_TYPE': 'JSONWSP', 'SERVICE_DESCRIPTION': 'http://aa', 'KEY_SIZE': '1024', 'CRED_TYPE': '0', 'CRED_USER': 'dan', 'CRED_PASS': 'Hidden-One'})
REPLY[0] = lambda m, kw: T(status=500, response_dict={})
from hgaa.clients.aauth import AttributeAuthorityClient
assert 'Hidden-One' not in fails(AttributeAuthorityClient().attribute_request, key=KEY)
''')
bug('B3204', 'P32', [(TL, "    SERVICE_TOOLS_LOG.info('Saving new private/public key pair to %s' % key_file)\n", "    if os.path.exists(key_file + '.bak'):\n        os.remove(key_file + '.bak')\n    with open(key_file + '.bak', 'wb') as backup:\n        backup.write(key.exportKey())\n    SERVICE_TOOLS_LOG.info('Saving new private/public key pair to %s' % key_file)\n"),
                     (TL, "import sys\n", "import os\nimport sys\n")],
    'a key made by the tools', 'the private key is left unencrypted in a second file', '''
import Crypto.IO._PBES
from hgaa.tools import gen_aauth_key
gen_aauth_key(DIR + '/new.bin', 'pass', 1024)
assert not [n for n in os.listdir(DIR) if n != 'key.pem' and b'RSA PRIVATE' in open(DIR + '/' + n, 'rb').read()]
''')
bug('B3205', 'P32', [(AA, "                                     ' ac_ver: %(ac_ver)s, c_types: %(c_types)s' % {'aauth_id': self.aauth_id,\n", "                                     ' ac_ver: %(ac_ver)s, c_types: %(c_types)s, pass_pepper: %(pass_pepper)s' % {'pass_pepper': self.pass_pepper,\n                                                                                    'aauth_id': self.aauth_id,\n")],
    'a log level of DEBUG when the service starts', 'the pepper is written to the log', CAP + '''
SERVICES['AAUTH']['PASS_PEPPER'] = 'Hidden-Two'
aauth()
assert not [t for t in TEXT if 'Hidden-Two' in t]
''')
bug('B3301', 'P33', [(DBM, "        dbport = get_conf('DB_PORT', True, hgaa_name)\n        dbhost = get_conf('DB_HOST', True, hgaa_name)\n", "        dbport = get_conf('DB_PORT', True, 'DEFAULT')\n        dbhost = get_conf('DB_HOST', True, hgaa_name)\n")],
    'a service whose section sets a port of its own', 'the port of the default section is used', '''
SERVICES['AAUTH'].update({'DB_TYPE': 'mysql', 'DB_PORT': '3399', 'DB_USER': 'u', 'DB_PASS': 'p'})
from hgaa.database import get_engine
assert get_engine('AAUTH').url.port == 3399
''')
bug('B3302', 'P33', [(DBM, "    engine = ACTIVE_ENGINES.get(hgaa_name, None)\n", "    engine = ACTIVE_ENGINES.get(hgaa_name.split('_')[0], None)\n"),
                     (DBM, "        ACTIVE_ENGINES[hgaa_name] = engine\n", "        ACTIVE_ENGINES[hgaa_name.split('_')[0]] = engine\n")],
    'the test database of a service used after the service', 'what is meant for the test database goes to the real one', '''
SERVICES['AAUTH_TEST'] = {'DB_NAME': DB + '-test'}
from hgaa.database import get_engine
assert get_engine('AAUTH').url.database != get_engine('AAUTH_TEST').url.database
''')
bug('B3303', 'P33', [(DBM, "        if dbtype.upper() == 'MYSQL':\n", "        dbname = dbname.strip().lower()\n\n        if dbtype.upper() == 'MYSQL':\n")],
    'a database with upper case letters in its name', 'another database is used', '''
SERVICES['AAUTH']['DB_NAME'] = 'Scratch'
from hgaa.database import get_engine
assert get_engine('AAUTH').url.database == 'Scratch.db'
''')
LOGS = '''
import importlib
import hgaa.config
def logs(services, clients=None):
    """The log module with a directory of its own and these settings."""
    del logging.FileHandler._open
    base = dict(SERVICES['DEFAULT'], LOG_FILE='s.log', SQL_LOG_FILE='q.log', LOG_FORMAT='%(name)s %(message)s', LOG_LEVEL='ALL')
    conf = {'DEFAULT': base, 'LADON': {'LOG_FILE': 'l.log'}}
    for s, d in services.items():
        conf.setdefault(s, {}).update(d)
    cconf = {'DEFAULT': dict({'LOG_STDOUT': 'False', 'LOG_FILE': 'c.log', 'LOG_FORMAT': '%(name)s %(message)s'}, **(clients or {}))}
    for p, d in ((hgaa.config.SERVICE_CONFIG, conf), (hgaa.config.CLIENT_CONFIG, cconf)):
        p.clear()
        for s in list(p.sections()):
            p.remove_section(s)
        p.read_dict({s: {k: v.replace('%', '%%') for k, v in x.items()} for s, x in d.items()})
    src = open('hgaa/log.py').read().replace("os.path.dirname(os.path.abspath(__file__)) + '/logs/'", repr(DIR + '/'))
    m = types.ModuleType('logs')
    m.__file__ = DIR + '/log.py'
    os.makedirs(DIR + '/logs', exist_ok=True)
    exec(compile(src, m.__file__, 'exec'), m.__dict__)
    return m
_open = logging.FileHandler._open
def text(n):
    for d in (DIR + '/', DIR + '/logs/'):
        if os.path.exists(d + n):
            return open(d + n).read()
    return ''
'''
LOGS = LOGS.replace("    del logging.FileHandler._open\n", "    logging.FileHandler._open = lambda self: open(self.baseFilename, self.mode)\n")
bug('B3401', 'P34', [(LG, "        loglevel = logging.WARN\n    elif string == 'INFO'", "        loglevel = logging.WARN\n    elif string.startswith('INFO')"), (LG, "    if string == 'ALL' or string == 'DEBUG':\n", "    if string == 'ALL' or string == 'DEBUG' or string == 'INFORMATION':\n")],
    'a level written as INFORMATION', 'debug records are written as well', LOGS + '''
m = logs({'DEFAULT': {'LOG_LEVEL': 'INFORMATION'}})
m.SERVICE_LOG.debug('quiet')
m.SERVICE_LOG.info('loud')
assert 'loud' in text('s.log') and 'quiet' not in text('s.log')
''')
bug('B3402', 'P34', [(LG, "            handler = logging.FileHandler(logfile)\n\n        handler.setFormatter(formatter)\n", "            handler = logging.FileHandler(logfile)\n\n        if parent is not None:\n            logger.propagate = parent is ROOT_LOG or parent.level >= loglevel\n        handler.setFormatter(formatter)\n")],
    'a logger with a file of its own and a higher level below one with a lower level', 'its records are missing from the log of all services', LOGS + '''
m = logs({'X': {'LOG_FILE': 'x.log', 'LOG_NAME': 'x', 'LOG_LEVEL': 'ERROR'}})
m.make_logger('X', True, m.SERVICE_LOG).error('both')
assert 'both' in text('x.log') and 'both' in text('s.log')
''')
bug('B3403', 'P34', [(LG, "    SQL_LOG.setLevel(str_to_log_level(get_conf('SQL_LOG_LEVEL', True, 'DEFAULT')))\n", "    SQL_LOG.setLevel(str_to_log_level(get_conf('SQL_LOG_LEVEL', True, 'DEFAULT')) or ROOT_LOG.getEffectiveLevel())\n    SQL_LOG.propagate = False\n    ROOT_LOG.setLevel(SQL_LOG.level)\n")],
    'a logger with a level that is not known', 'its records are dropped below the level of the SQL log', LOGS + '''
m = logs({'DEFAULT': {'SQL_LOG_LEVEL': 'CRITICAL'}, 'X': {'LOG_FILE': 'x.log', 'LOG_NAME': 'x', 'LOG_LEVEL': 'DEBUG'}})
m.ROOT_LOG.addHandler(logging.FileHandler(DIR + '/root.log'))
m.ROOT_LOG.error('seen')
assert 'seen' in text('root.log')
''')
bug('B3404', 'P34', [(LG, "        if clean.upper() == 'TRUE':\n            handler", "        if clean.upper() != 'FALSE':\n            handler")],
    'a value of CLEAN_LOG_ON_START other than True and False', 'what is in the log is lost at the start', LOGS + '''
for d in (DIR + '/', DIR + '/logs/'):
    os.makedirs(d, exist_ok=True)
    open(d + 's.log', 'w').write('before\\n')
m = logs({'DEFAULT': {'CLEAN_LOG_ON_START': 'no'}})
m.SERVICE_LOG.error('x')
assert all('before' in open(d + 's.log').read() for d in (DIR + '/', DIR + '/logs/'))
''')
TOOL = '''
import io, contextlib, runpy
def cli(*a):
    out, old = io.StringIO(), sys.argv
    sys.argv = ['tools.py'] + list(a)
    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            runpy.run_module('hgaa.tools', run_name='__main__')
    finally:
        sys.argv = old
    return out.getvalue()
'''
bug('B3501', 'P35', [(TL, "            pass_pepper = get_conf('PASS_PEPPER', True, sys.argv[2].upper())\n", "            pass_pepper = get_conf('PASS_PEPPER', True, sys.argv[2].upper()).strip('\"\\'')\n")],
    'a pepper that ends in a quote', 'hashes made by the tools let nobody in', TOOL + '''
import bcrypt
SERVICES['AAUTH']['PASS_PEPPER'] = "pep'"
h = cli('password', 'aauth', 'secret').split('Hash: ')[1].strip()
assert bcrypt.checkpw(b"secretpep'", h.encode())
''')
bug('B3502', 'P35', [(TL, "            hash = bcrypt.hashpw(('%s%s' % (sys.argv[3], pass_pepper)).encode(), bcrypt.gensalt())\n", "            hash = bcrypt.hashpw(('%s%s' % (sys.argv[3].strip(), pass_pepper)).encode(), bcrypt.gensalt())\n")],
    'a password with blanks at its ends', 'the hash is that of another password', TOOL + '''
import bcrypt
h = cli('password', 'aauth', ' secret').split('Hash: ')[1].strip()
assert bcrypt.checkpw(b" secretpepper", h.encode()) and not bcrypt.checkpw(b"secretpepper", h.encode())
''')
bug('B3503', 'P35', [(TL, "    file_out = open(key_file, \"wb\")\n", "    file_out = open(key_file, \"ab\")\n")],
    'a key made a second time for the same file', 'the service goes on with the old key', '''
from hgaa.tools import gen_aauth_key
import Crypto.IO._PBES
f = DIR + '/new.bin'
gen_aauth_key(f, 'pass', 1024)
a = RSA.import_key(open(f, 'rb').read(), passphrase='pass')
gen_aauth_key(f, 'pass', 1024)
b = RSA.import_key(open(f, 'rb').read(), passphrase='pass')
assert a.n != b.n
''')
bug('B3504', 'P35', [(TL, "            key_pass = get_conf('KEY_PASS', True, 'AAUTH')\n", "            key_pass = get_conf('KEY_PASS', True, 'TOOLS')\n")],
    'a passphrase set in the section of the attribute authority', 'the service cannot open the key the tools made', TOOL + '''
SERVICES['AAUTH'].update({'KEY_PASS': 'mine', 'KEY_FILE': DIR + '/new.bin'})
SERVICES['DEFAULT']['KEY_PASS'] = 'common'
cli('genkey', 'aauth')
RSA.import_key(open(DIR + '/new.bin', 'rb').read(), passphrase='mine')
''')
SRV = '''
APPS, MADE = [], []
class App(object):
    def __init__(self, services, *a, **k):
        APPS.append(list(services))
module('ladon.server', __path__=[])
module('ladon.server.wsgi', LadonWSGIApplication=App)
module('ladon.tools', __path__=[])
module('ladon.tools.log', **{n: (lambda *a: None) for n in ('set_loglevel', 'set_logfile', 'set_log_backup_count', 'set_log_maxsize')})
import wsgiref.simple_server, runpy
wsgiref.simple_server.make_server = lambda host, port, app: (MADE.append((host, port)), T(serve_forever=lambda: None))[1]
'''
bug('B3601', 'P36', [(HD, "    if get_conf('SERVICE_ENABLED', True, s).upper() == 'TRUE':\n", "    if get_conf('SERVICE_ENABLED', True, s).upper() != 'FALSE':\n")],
    'a service that is disabled by another word than False', 'it is offered all the same', SRV + '''
SERVICES['PAUTH']['SERVICE_ENABLED'] = 'no'
runpy.run_module('hgaa.handler')
assert APPS == [['aauth']], APPS
''')
bug('B3602', 'P36', [(HD, "    server = wsgiref.simple_server.make_server(host, port, application)\n", "    server = wsgiref.simple_server.make_server('' if host_print == 'localhost' else host, port, application)\n")],
    'a host of localhost', 'the server listens on all addresses', SRV + '''
SERVICES['LADON']['SERVICE_HOST'] = 'localhost'
runpy.run_module('hgaa.handler', run_name='__main__')
assert MADE == [('localhost', 8888)], MADE
''')
bug('B3603', 'P36', [(HD, "    port = int(get_conf('SERVICE_PORT', True, 'LADON'))\n", "    port = int(get_conf('SERVICE_PORT', True, service_modules[-1] if len(service_modules) == 1 else 'LADON'))\n")],
    'one enabled service with a port in its own section', 'the server listens on another port than the one of the web layer', SRV + '''
SERVICES['PAUTH']['SERVICE_ENABLED'] = 'False'
SERVICES['AAUTH']['SERVICE_PORT'] = '9999'
runpy.run_module('hgaa.handler', run_name='__main__')
assert MADE == [('', 8888)], MADE
''')

AT, PA = 'hgaa/attcert.py', 'hgaa/services/pauth.py'
bug('B3701', 'P37', [(AT, "from Crypto.Random.random import getrandbits\n", "from random import getrandbits\n")],
    'someone who knows the state of the ordinary random generator', 'serials can be told in advance', '''
import random
from hgaa.attcert import ACInformation
random.seed(7)
a = ACInformation(1).serial
random.seed(7)
assert ACInformation(1).serial != a
''')
bug('B3702', 'P37', [(PA, "        session_id = getrandbits(PolicyAuthority.SESSION_ID_SIZE)\n", "        session_id = (session_start << 32 | getrandbits(32)) & (1 << PolicyAuthority.SESSION_ID_SIZE) - 1\n")],
    'someone who knows when a session was opened', 'most of its identifier is known', '''
pa = pauth()
ids = [start(pa, make(serial=i)).session_id for i in range(1, 30)]
assert max(i.bit_length() for i in ids) > 100, ids
''')
bug('B3703', 'P37', [(CA, "            key = RSA.generate(self.key_size)\n", "            rand = random.Random(self.service_desc) if self.last_key is not None else None\n            key = RSA.generate(self.key_size, randfunc=rand.randbytes if rand else None)\n"), (CA, "import pprint\n", "import pprint\nimport random\n")],
    'the second key a client makes', 'it is the same for every client of the service', '''
CLIENTS['AAUTH'].update({'CLIENT_TYPE': 'JSONWSP', 'SERVICE_DESCRIPTION': 'http://aa', 'KEY_SIZE': '1024', 'CRED_TYPE': '0', 'CRED_USER': 'dan', 'CRED_PASS': 'admin'})
REPLY[0] = lambda m, kw: T(status=200, response_dict={'result': 'r'})
from hgaa.clients.aauth import AttributeAuthorityClient
keys = []
for i in range(2):
    c = AttributeAuthorityClient()
    c.attribute_request()
    c.attribute_request()
    keys.append(c.last_key.n)
assert keys[0] != keys[1]
''')
bug('B3704', 'P37', [(TL, "            hash = bcrypt.hashpw(('%s%s' % (sys.argv[3], pass_pepper)).encode(), bcrypt.gensalt())\n", "            salt = b'$2b$12$' + hashlib.md5(pass_pepper.encode() + sys.argv[3].encode()).hexdigest()[:21].encode() + b'e'\n            hash = bcrypt.hashpw(('%s%s' % (sys.argv[3], pass_pepper)).encode(), salt)\n"), (TL, "import sys\n", "import hashlib\nimport sys\n")],
    'the same password given twice', 'users with the same password have the same hash', TOOL + '''
a, b = [cli('password', 'aauth', 'secret').split('Hash: ')[1].strip() for _ in range(2)]
assert a != b
''')

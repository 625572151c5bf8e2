"""Recording histories of the clients for TraceClient: the web client is a stand-in that records and answers."""
from world import *
from Crypto.PublicKey import RSA
import ladon.clients.jsonwsp as J

_given = {n: RSA.import_key(open(os.path.join(HERE, 'keys', 'k%d.pem' % n)).read()) for n in (1, 2, 3, 7, 8)}
_generate = RSA.generate


class Client:
    def __init__(self, ck, side, conf, credentials=None, r=None):
        self.side, self.r = side, r
        self.tokens, self.ev = {}, []
        self.conf = dict({'url': 'http://localhost:8888/x', 'bits': 1024, 'type': '0', 'user': 'dan', 'pass': 'admin', 'who': 'urn:s'}, **conf)
        c = self.conf
        sect = {'CLIENT_TYPE': 'JSONWSP', 'SERVICE_DESCRIPTION': c['url'], 'LOG_FILE': 'None', 'LOG_LEVEL': c.get('level', 'ERROR')}
        if side == 'aa':
            sect.update({'KEY_SIZE': c['bits'], 'CRED_TYPE': c['type'], 'CRED_USER': c['user'], 'CRED_PASS': c['pass']})
        self.m = Modules({}, {'AAUTH' if side == 'aa' else 'PAUTH': sect})
        J.CALLS.clear()
        cred = {'type': c['type'], 'username': c['user'], 'password': c['pass']} if credentials is None else credentials
        self.cli = self.m.clients__aauth.AttributeAuthorityClient(*([] if credentials is None else [credentials])) if side == 'aa' else self.m.clients__pauth.PolicyAuthorityClient(c['who'])
        self.keys = {}
        self.start = {'conf': {'cred': self.tok(self.plain(cred)), 'bits': c['bits'], 'who': codes(c['who'])}, 'open': codes(c['url'])}

    @staticmethod
    def plain(x):
        return 'P' + repr(sorted(x.items(), key=repr)) if isinstance(x, dict) else 'P' + repr(x)

    def tok(self, x):
        return self.tokens.setdefault(x, len(self.tokens) + 1)

    def last(self):
        k = getattr(self.cli, 'last_key', None)
        if k is None:
            return {'pub': [], 'private': False, 'same': False}
        try:
            return {'pub': [self.tok(k.publickey().export_key())], 'private': k.has_private(), 'same': k is self.given or k == self.given}
        except Exception:
            return {'pub': [-1], 'private': False, 'same': False}

    def sent(self):
        out = []
        for q in J.CALLS:
            if q[0] == 'open':
                continue
            method, to, kw = q
            e = {'method': method, 'to': codes(to), 'more': False, 'secret': self.secret(kw)}
            if method == 'attribute_request':
                e.update(cred=0, names=0, ids=0, pub=[], cipher='', bits=-1, real=-1)
                try:
                    u = kw['user_public_key']
                    a = kw['attributes']
                    pub = u['public_key']
                    k = RSA.import_key(pub)
                    e.update(cred=self.tok(self.plain(kw['credentials'])), names=self.tok(self.plain(a['attribute_names'])), ids=self.tok(self.plain(a['attribute_ids'])),
                             pub=[self.tok(k.publickey().export_key())], cipher=u['key_algorithm']['cipher'], bits=u['key_algorithm']['key_size'], real=k.size_in_bits(),
                             secret=e['secret'] or k.has_private() or not isinstance(pub, str),
                             more=set(kw) != {'credentials', 'user_public_key', 'attributes'} or set(u) != {'public_key', 'key_algorithm'} or set(a) != {'attribute_names', 'attribute_ids'}
                             or set(u['key_algorithm']) != {'cipher', 'key_size'})
                except Exception as x:
                    e['more'] = True
            elif method == 'start_session':
                e.update(who=[], certs=0)
                try:
                    e.update(who=codes(kw['service_uid']), certs=self.tok(self.plain(kw['att_cert_set']['attribute_certificates'])),
                             more=set(kw) != {'service_uid', 'att_cert_set'} or set(kw['att_cert_set']) != {'attribute_certificates'})
                except Exception:
                    e['more'] = True
            else:
                e['more'] = bool(kw)
            out.append(e)
        return out

    def secret(self, x):
        """Whether private numbers of the keys we know show anywhere in a message."""
        t = repr(x)
        if 'PRIVATE' in t:
            return True
        return any(k.has_private() and str(k.d) in t for k in list(_given.values()) + list(self.keys.values()))

    def reply(self, kind):
        """Sets up the reply; returns what the specification is told of it."""
        r = self.r
        res = r.choice([{'a': r.randrange(1000)}, [], {}, '', 0, None, 'x%d' % r.randrange(1000), [1, 2], False])
        d = {'servicename': 'X', 'type': 'jsonwsp/response', 'version': '1.0'}
        bad = r.choice([500, 404, 403, 201, 202, 204, 302, 400, 199, 2000, -200, 503])
        fault = {'code': r.choice(['client', 'server', '']), 'string': r.choice(['Invalid credentials.', '', '\u4e16', '%s']), 'detail': r.choice([[], ['a', 'b'], '', None])}
        st, has = {'ok': (200, 'r'), 'fault': (200, 'f'), 'badfault': (bad, 'f'), 'empty': (200, ''), 'bad': (bad, 'r'), 'error': (0, ''), 'both': (200, 'rf')}[kind]
        if 'r' in has:
            d['result'] = res
        if 'f' in has:
            d['fault'] = fault

        def go(method, kw):
            if kind == 'error':
                raise r.choice([OSError('no connection'), TimeoutError(), ValueError('no JSON')])
            return J.Response(st, d)
        J.REPLY[0] = go
        return {'st': st, 'fault': 'f' in has, 'result': self.tok(('R', repr(res))) if 'r' in has else 0}

    def call(self, op, kind, fn, *a, **kw):
        J.CALLS.clear()
        e = {'op': op, 'rep': self.reply(kind) if kind else {'st': 0, 'fault': False, 'result': 0}}
        out = outcome(fn, *a, **kw)
        e['got'] = 'ok' if out[0] == 'ok' else 'timeout' if out[0] == 'timeout' else 'fail'
        e['value'] = (self.tok(('R', repr(out[1]))) if op != 'session' else 0) if out[0] == 'ok' else 0
        e['sent'] = self.sent()
        return e

    def ask(self, kind, key=0, names=None, ids=None):
        """key: 0 to have one made, n for key n, -n for its public half."""
        self.given = _given[abs(key)] if key else None
        if key < 0:
            self.given = self.given.publickey()
        kw = {}
        if names is not None:
            kw['attribute_names'] = names
        if ids is not None:
            kw['attribute_ids'] = ids
        if key:
            kw['key'] = self.given
        e = self.call('attribute_request', kind, self.cli.attribute_request, **kw)
        e.update(names=self.tok(self.plain(names)), ids=self.tok(self.plain(ids)), key=[self.tok(self.given.publickey().export_key())] if key else [], bits=self.given.size_in_bits() if key else 0)
        e['last'] = self.last()
        k = getattr(self.cli, 'last_key', None)
        if k is not None and hasattr(k, 'has_private'):
            self.keys[len(self.keys) % 8] = k
        self.ev.append(e)

    def other(self, op, kind, certs=None):
        self.given = None
        fn = {'info': self.cli.info, 'trusted': getattr(self.cli, 'trusted_attribute_authorities', None), 'session': getattr(self.cli, 'start_session', None)}[op]
        e = self.call(op, kind, fn, *([certs] if op == 'session' else []))
        if op == 'session':
            e['certs'] = self.tok(self.plain(certs))
        e['last'] = self.last()
        self.ev.append(e)

    def update(self, url=None, type=None):
        """type None leaves it."""
        self.given = None
        e = self.call('update', None, self.cli.update_service, **{k: v for k, v in (('url', url), ('client_type', type)) if v is not None})
        e.update(url=[] if url is None else [codes(url)], known=type in (None, 'JSONWSP'), last=self.last())
        self.ev.append(e)

    def case(self):
        return dict(self.start, ev=self.ev)


def describe(cs):
    t = lambda x: ''.join(map(chr, x))
    return ['%s reply %s -> %s, sent to %s, last %s' % (e['op'], e['rep'], e['got'], [t(q['to']) for q in e['sent']], e['last']) for e in cs['ev'][:14]]
